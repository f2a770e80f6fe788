"""Descriptors of CWL types, independent of the code under test.

A descriptor is a string (primitive), ("array", t), ("union", t...),
("record", ((name, t), ...)) or ("enum", symbols...).
"""

from importlib import import_module


def arr(t):
    return ("array", t)


def union(*ts):
    return ("union",) + ts


def rec(**fields):
    return ("record", tuple(sorted(fields.items())))


def enum(*symbols):
    return ("enum",) + symbols


def kind(t):
    return t if isinstance(t, str) else t[0]


def to_yaml(t, name=None):
    """The long form of the type in a CWL document."""
    k = kind(t)
    if isinstance(t, str):
        return t
    if k == "array":
        return {"type": "array", "items": to_yaml(t[1])}
    if k == "union":
        return [to_yaml(x) for x in t[1:]]
    if k == "record":
        return {"type": "record", "fields": [{"name": n, "type": to_yaml(x)} for n, x in t[1]]}
    return {"type": "enum", "symbols": list(t[1:])}


class Builder:
    """Instantiates descriptors with the schema classes of one family."""

    def __init__(self, module, prefix, base):
        m = import_module(module)
        self.array = getattr(m, prefix + "ArraySchema")
        self.record = getattr(m, prefix + "RecordSchema")
        self.enum = getattr(m, prefix + "EnumSchema")
        self.field = getattr(m, prefix + "RecordField")
        self.base = base
        self.n = 0

    def __call__(self, t):
        k = kind(t)
        if isinstance(t, str):
            return t
        self.n += 1
        name = "%s/t%d" % (self.base, self.n)
        if k == "array":
            return self.array(items=self(t[1]), type_="array")
        if k == "union":
            return [self(x) for x in t[1:]]
        if k == "record":
            return self.record(
                fields=[self.field(name="%s/%s" % (name, n), type_=self(x)) for n, x in t[1]],
                type_="record")
        return self.enum(name=name, symbols=["%s/%s" % (name, s) for s in t[1:]], type_="enum")


def short(uri):
    return uri.split("#")[-1].split("/")[-1]


def describe(t):
    """Descriptor of a type object (the inverse of Builder), by duck typing."""
    if isinstance(t, str):
        return t
    if isinstance(t, (list, tuple)):
        return ("union",) + tuple(describe(x) for x in t)
    tt = t.type_
    tt = getattr(tt, "type_", tt)
    if tt == "array":
        return ("array", describe(t.items))
    if tt == "record":
        return ("record", tuple(sorted((short(f.name), describe(f.type_)) for f in (t.fields or []))))
    if tt == "enum":
        return ("enum",) + tuple(short(s) for s in t.symbols)
    raise TypeError("unknown type object %r" % (t,))


def normal(t):
    """Semantic normal form: unions flattened, deduplicated and unordered."""
    k = kind(t)
    if isinstance(t, str):
        return t
    if k == "array":
        return ("array", normal(t[1]))
    if k == "record":
        return ("record", tuple((n, normal(x)) for n, x in t[1]))
    if k == "enum":
        return ("enum",) + tuple(sorted(t[1:]))
    alts = set()
    for x in t[1:]:
        y = normal(x)
        if kind(y) == "union":
            alts.update(y[1:])
        else:
            alts.add(y)
    if len(alts) == 1:
        return alts.pop()
    return ("union",) + tuple(sorted(alts, key=repr))


def assignable(src, sink, strict):
    """The reference rule."""
    if src == "Any" or sink == "Any":
        return True
    if kind(src) == "union":
        if strict:
            return all(assignable(x, sink, True) for x in src[1:])
        return any(x != "null" and assignable(x, sink, False) for x in src[1:])
    if kind(sink) == "union":
        return any(assignable(src, x, strict) for x in sink[1:])
    if isinstance(src, str) or isinstance(sink, str):
        return src == sink
    if src[0] != sink[0]:
        return False
    if src[0] == "array":
        return assignable(src[1], sink[1], strict)
    if src[0] == "record":
        have = dict(src[1])
        return all(assignable(have.get(n, "null"), x, strict) for n, x in sink[1])
    a, b = set(src[1:]), set(sink[1:])
    return a <= b if strict else bool(a & b)


def flatten(t):
    if kind(t) == "union":
        return ("union",) + tuple(flatten(x) for x in t[1:])
    return t if kind(t) == "array" else ("array", t)


def verdict(src, sink, merge=None):
    if merge == "merge_nested":
        src = ("array", src)
    elif merge == "merge_flattened":
        src = flatten(src)
    if assignable(src, sink, True):
        return "pass"
    if assignable(src, sink, False):
        return "warning"
    return "exception"
