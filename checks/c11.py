"""C11: the parser accepts exactly the valid forms and resolves the shorthands."""

import copy
import json
import os

from checks import c10
from mc.grammar import ROOTS, VERSIONS, plain, record_name

PID = "C11"
LEVEL = "model_checked_code"
RULE = ("one state per generated document: for every construct of the official schemas every single-field deletion, unknown "
        "field and value of each kind for each field (thorough: two such changes at a time), and every pair of a shorthand "
        "and its long form; the reference verdict is schema salad's validation against the official schema, which shares no "
        "code with the generated parsers")
ASSUMPTIONS = ["documents are local and their links to files exist",
               "the field values of the wrong kind stand for all values of that kind",
               "fields to which the specification gives a default may be left out"]
REQUIRED_OUTCOMES = ("accepted", "rejected", "idmap-same", "predicate-same", "type-same", "secondary-same", "import-same",
                     "include-same", "idmap-rejected", "unknown-class-rejected")
ITEM_TIMEOUT = 800

KINDS = [None, True, 3, 1.5, "tool.cwl", [], {}, [3], ["tool.cwl"], [{}], {"class": "Nope"}, [[]], {"a": "int"}, {"a": {}}]
DEFAULTED = {("WorkReuse", "enableReuse"), ("cwltool:Loop", "outputMethod")}
IDMAP = {"fields": ("name", "type"), "inputs": ("id", "type"), "outputs": ("id", "type"), "requirements": ("class", None),
         "hints": ("class", None), "packages": ("package", "specs"), "envDef": ("envName", "envValue"),
         "in": ("id", "source"), "steps": ("id", None), "loop": ("id", "loopSource")}


def setup(tier):
    c10.setup(tier)


def items(tier):
    for v in VERSIONS:
        for name, fields in c10.table(v):
            yield ["accept", v, name]
            for f in fields:
                if f in IDMAP and not (f == "loop" and v != "v1.2"):
                    yield ["idmap", v, name, f]
                if f == "type" or f == "items":
                    yield ["type", v, name, f]
                if f == "secondaryFiles":
                    yield ["secondary", v, name]
            yield ["import", v, name]
            if tier == "thorough":
                for f in fields:
                    yield ["accept2", v, name, f]
        yield ["class", v]


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


def verdict(doc, uri=None):
    """(object, None) or (None, error)."""
    try:
        return c10.load(doc, uri or c10.URI), None
    except Exception as exc:
        return None, exc


def is_validation(exc):
    from schema_salad.exceptions import ValidationException

    return isinstance(exc, ValidationException)


# ---------------------------------------------------------------- acceptance

def mutations(gen, name, base):
    """(field, what, instance): one change of a construct."""
    for f in list(base):
        yield f, "removed", {k: x for k, x in base.items() if k != f}
    for x in (1, None, "text", {}):
        yield "bogus", "unknown %s" % json.dumps(x), dict(base, bogus=x)
    for f, _ in gen.fields(name):
        for k in KINDS:
            yield f, json.dumps(k), dict(base, **{f: copy.deepcopy(k)})


def skipped(gen, v, name, f, what):
    if (record_name(name), f) in DEFAULTED and what == "removed":
        return True
    if f == "cwlVersion":
        return True
    if f == "secondaryFiles" and what == "[[]]":
        return True       # the resolver flattens it
    if v == "v1.0" and f == "doc" and record_name(name).endswith("RecordField"):
        return True       # v1.0 documentation of fields: text, or lists of text in the schema language it is defined in
    return False


def required_id(doc, v):
    """Constructs that have no identifier although their version demands one."""
    if v == "v1.0":
        return []
    out = []

    def walk(x, key):
        if isinstance(x, dict):
            for k, y in x.items():
                if k in ("inputs", "outputs", "in", "steps", "out") and isinstance(y, list):
                    out.extend(z for z in y if isinstance(z, dict) and not isinstance(z.get("id"), str))
                if k not in ("default", "hints"):
                    walk(y, k)
        elif isinstance(x, list):
            for y in x:
                walk(y, key)

    walk(doc, None)
    return out


def judge(rec, v, doc, where):
    g, gen, oracle = c10.get(v)
    res, why = oracle.resolve(doc, c10.URI)
    valid = res is not None and not required_id(doc, v)
    ob, exc = verdict(doc)
    rec.plain_states += 1
    rec.step(2)
    rec.trace(1)
    if valid and ob is None:
        rec.fail("%s: valid, but rejected: %s" % (where, str(exc)[-300:]), doc=doc)
    elif not valid and ob is not None:
        rec.fail("%s: invalid, but accepted (%s)" % (where, (why or "no id")[-300:]), doc=doc)
    elif not valid and not is_validation(exc):
        rec.fail("%s: rejected with %s: %s" % (where, type(exc).__name__, str(exc)[-200:]), doc=doc)
    else:
        rec.outcome("accepted" if valid else "rejected")
    return valid


def run_accept(rec, v, name):
    g, gen, oracle = c10.get(v)
    base = gen.minimal(name)
    for f, what, inst in mutations(gen, name, base):
        if skipped(gen, v, name, f, what):
            continue
        for doc in c10.root_variants(gen.document(name, inst)):
            if doc.get("id", "") is None:
                continue
            judge(rec, v, doc, "%s %s.%s %s" % (v, record_name(name), f, what))


def run_accept2(rec, v, name, first):
    """Two changes at a time, the first one of field `first`."""
    g, gen, oracle = c10.get(v)
    base = gen.minimal(name)
    names = [f for f, _ in gen.fields(name)]
    later = names[names.index(first) + 1:]
    for f, what, inst in mutations(gen, name, base):
        if f != first or skipped(gen, v, name, f, what) or what == json.dumps(inst.get(f)) and inst == base:
            continue
        for f2, what2, inst2 in mutations(gen, name, inst):
            if f2 not in later + ["bogus"] or skipped(gen, v, name, f2, what2):
                continue
            if what2.startswith("unknown") and what2 != "unknown 1":
                continue
            doc = gen.document(name, inst2)
            doc.setdefault("id", "root")
            if doc["id"] is None:
                continue
            judge(rec, v, doc, "%s %s.%s %s, .%s %s" % (v, record_name(name), f, what, f2, what2))


def run_class(rec, v):
    """Unknown classes and symbols are rejected wherever a class or symbol decides."""
    g, gen, oracle = c10.get(v)
    for name, fields in c10.table(v):
        alts = dict(gen.fields(name))
        for f in fields:
            enums = [a.arg for a in alts[f] if a.kind == "enum"]
            if f == "class" or not enums:
                if f != "class":
                    continue
            values = ["Nope", "commandlinetool", "", "cwl:", "http://example.com/Nope"] + [
                c for r in ROOTS[v] for c in (r, r.lower()) if c != record_name(name)]
            for val in values:
                inst = gen.minimal(name)
                inst[f] = val
                if f in ("cwlVersion", "type", "items"):
                    continue
                doc = gen.document(name, inst)
                doc.setdefault("id", "root")
                before = rec.nviol
                if f == "class" and (name in [gen.byname[r] for r in ROOTS[v]]) and val in ROOTS[v]:
                    continue
                valid = judge(rec, v, doc, "%s %s.%s = %r" % (v, record_name(name), f, val))
                if not valid and rec.nviol == before:
                    rec.outcome("unknown-class-rejected")


# ---------------------------------------------------------------- shorthands

def unnamed(x):
    """Without the generated names of anonymous types and processes."""
    if isinstance(x, dict):
        return {k: unnamed(y) for k, y in x.items() if not (k in ("id", "name") and str(y).startswith("_:"))}
    if isinstance(x, list):
        return [unnamed(y) for y in x]
    return x


def ordered(x):
    """Lists of identified objects, sorted: maps have no order."""
    if isinstance(x, dict):
        d = {}
        for k, y in x.items():
            y = ordered(y)
            if k in IDMAP and isinstance(y, list):
                y = sorted(y, key=lambda z: json.dumps(z.get(IDMAP[k][0]) if isinstance(z, dict) else z, default=repr))
            d[k] = y
        return d
    if isinstance(x, list):
        return [ordered(y) for y in x]
    return x


def compare(rec, v, long, short, where, outcome, norm=lambda x: x):
    """Both documents are rejected with a validation error or denote the same object."""
    a, ea = verdict(long)
    b, eb = verdict(short)
    rec.plain_states += 1
    rec.step(2)
    rec.trace(1)
    if (a is None) != (b is None):
        rec.fail("%s: %s form is %s: %s" % (where, "long" if a is None else "short", "rejected while the other is not",
                                            str(ea or eb)[-300:]), doc=short)
        return
    if a is None:
        for e in (ea, eb):
            if not is_validation(e):
                rec.fail("%s: rejected with %s" % (where, type(e).__name__), doc=short)
                return
        rec.outcome(outcome.split("-")[0] + "-rejected")
        return
    d = c10.same(unnamed(norm(plain(b))), unnamed(norm(plain(a))))
    if d:
        rec.fail("%s: short form is loaded with %s" % (where, d), doc=short)
    else:
        rec.outcome(outcome)


def item_instances(gen, name, f):
    """Instances of the constructs that are listed in the field."""
    alts = dict(gen.fields(name))[f]
    subj, pred = IDMAP[f]
    targets = [t for _, t in gen._targets(alts, ())]
    if f == "hints" and not targets:
        reqs = dict(gen.fields(name))["requirements"]
        targets = [t for _, t in gen._targets(reqs, ())]
    for t in targets:
        base = gen.minimal(t)
        if subj == "class":
            base["class"] = record_name(t)
        yield t, base
        for g, a in gen.fields(t):
            if g == subj:
                continue
            for val in gen.values(t, g, a):
                if c10.usable(gen, gen.version, t, g, val):
                    yield t, dict(base, **{g: val})
        if pred:
            yield t, {k: x for k, x in base.items() if k in (subj, pred)}
            for g, a in gen.fields(t):
                if g == pred:
                    for val in gen.values(t, g, a):
                        if c10.usable(gen, gen.version, t, g, val):
                            yield t, {subj: base.get(subj, "n_x"), pred: val}
            for k in KINDS:
                yield t, {subj: base.get(subj, "n_x"), pred: k}
        for k in KINDS:
            yield t, dict(base, bogus=k)


def run_idmap(rec, v, name, f):
    g, gen, oracle = c10.get(v)
    subj, pred = IDMAP[f]
    for t, inst in item_instances(gen, name, f):
        if subj not in inst or not isinstance(inst[subj], str):
            continue
        rest = {k: x for k, x in inst.items() if k != subj}
        other = {k: x for k, x in gen.minimal(t).items()}
        for two in (False, True):
            first, more = [inst], {inst[subj]: rest}
            if two:
                if subj == "class":
                    o = {"class": "InlineJavascriptRequirement"}
                    if inst["class"] == o["class"]:
                        o = {"class": "StepInputExpressionRequirement"}
                else:
                    o = dict(other, **{subj: "a0"})
                first = [inst, o]
                more[o[subj]] = {k: x for k, x in o.items() if k != subj}
            host = gen.minimal(name)
            if record_name(name) == "Workflow" and f == "inputs" and inst[subj] != "in1":
                first = host["inputs"] + first
                more["in1"] = {"type": "File"}
            if record_name(name) == "WorkflowStep" and f == "in" and inst[subj] != "p":
                first = host["in"] + first
                more["p"] = {"source": "in1"}
            long = gen.document(name, dict(host, **{f: first}))
            short = gen.document(name, dict(host, **{f: more}))
            long.setdefault("id", "root")
            short.setdefault("id", "root")
            where = "%s %s.%s as a map with %s" % (v, record_name(name), f, json.dumps(more)[:200])
            compare(rec, v, long, short, where, "idmap-same", ordered)
            if pred and set(rest) == {pred} and not isinstance(rest[pred], dict):
                pm = dict(more)
                pm[inst[subj]] = rest[pred]
                short = gen.document(name, dict(host, **{f: pm}))
                short.setdefault("id", "root")
                where = "%s %s.%s as a map with %s" % (v, record_name(name), f, json.dumps(pm)[:200])
                compare(rec, v, long, short, where, "predicate-same", ordered)
    # entries of maps that are no objects, where no field is implied
    if not pred:
        for k in KINDS:
            if isinstance(k, dict) or (f == "hints" and k is not None and False):
                continue
            host = gen.minimal(name)
            key = "ResourceRequirement" if subj == "class" else "s"
            doc = gen.document(name, dict(host, **{f: {key: k}}))
            doc.setdefault("id", "root")
            ob, exc = verdict(doc)
            rec.plain_states += 1
            rec.step(1)
            if ob is not None:
                if f == "hints" and k is None:
                    continue
                if k is None and subj == "class":
                    continue
                rec.fail("%s %s.%s: {%s: %r} was accepted" % (v, record_name(name), f, key, k), doc=doc)
            elif not is_validation(exc):
                rec.fail("%s %s.%s: {%s: %r} raised %s" % (v, record_name(name), f, key, k, type(exc).__name__), doc=doc)
            else:
                rec.outcome("idmap-rejected")


BASES = ["int", "File", "string", "Any", "#udt", "stdin", "udt.yml#rec", "boolean"]


def long_type(t):
    """The long form of a type with suffixes."""
    if isinstance(t, list):
        out = []
        for x in t:
            y = long_type(x)
            out += [z for z in (y if isinstance(y, list) else [y]) if z not in out]
        return out
    if isinstance(t, dict):
        return {k: (long_type(x) if k in ("type", "items") and not (k == "type" and x in ("array", "record", "enum")) else x)
                for k, x in t.items()}
    if t.endswith("?"):
        y = long_type(t[:-1])
        return ["null"] + (y if isinstance(y, list) else [y])
    if t.endswith("[]"):
        return {"type": "array", "items": long_type(t[:-2])}
    return t


def type_forms(v):
    suffixes = ["?", "[]", "[]?"]      # repeated suffixes only have a meaning in later versions
    for b in BASES:
        if b == "stdin":
            continue
        for s in suffixes:
            yield b + s
    for b in ("int", "#udt"):
        yield [b, "string?"]
        yield ["string", b + "[]"]
        yield [b + "?", "string[]?"]
        yield ["null", b + "[]", b]
        yield {"type": "record", "name": "nested", "fields": [{"name": "f", "type": b + "[]?"}]}
    for b in ("int?", "int[]", "int[]?"):
        yield {"type": "record", "name": "nested", "fields": [{"name": "f", "type": {"type": "array", "items": "int"}},
                                                               {"name": "g", "type": b}]}


def long_fields(t):
    t = long_type(t)
    if isinstance(t, dict) and "fields" in t:
        t = dict(t, fields=[dict(f, type=long_type(f["type"])) for f in t["fields"]])
    return t


def run_type(rec, v, name, f):
    g, gen, oracle = c10.get(v)
    alts = dict(gen.fields(name))[f]
    if not any(a.kind == "record" for a in alts):
        return            # the fixed `type: record` of a type definition
    if f == "items":
        return
    for t in type_forms(v):
        host = gen.minimal(name)
        lt = long_fields(t)
        long = gen.document(name, dict(host, type=lt))
        short = gen.document(name, dict(host, type=t))
        for d in (long, short):
            d.setdefault("id", "root")
        compare(rec, v, long, short, "%s %s.%s = %s" % (v, record_name(name), f, json.dumps(t)), "type-same", types_normal)


def types_normal(x):
    """A list of one type is that type; order of a union as written."""
    if isinstance(x, dict):
        d = {k: types_normal(y) for k, y in x.items()}
        for k in ("type", "items"):
            if isinstance(d.get(k), list) and len(d[k]) == 1:
                d[k] = d[k][0]
        d.pop("name", None) if str(d.get("name", "")).startswith("_:") else None
        return d
    if isinstance(x, list):
        return [types_normal(y) for y in x]
    return x


PATTERNS = [".bai", "^.bai", "^^.x", "a?", "?", ".b?c", "$(self.x)", "$(self.a)?", "${return 1;}", "x??"]


def long_pattern(p):
    return {"pattern": p[:-1], "required": False} if p.endswith("?") else {"pattern": p}


def run_secondary(rec, v, name):
    g, gen, oracle = c10.get(v)
    if record_name(name) == "File":
        return
    host = gen.minimal(name)
    if "type" in host:
        host["type"] = "File"

    def doc(val):
        d = gen.document(name, dict(host, secondaryFiles=val))
        d.setdefault("id", "root")
        return d

    for p in PATTERNS:
        for q in [None] + PATTERNS:
            ps = [p] if q is None else [p, q]
            longs = ps if v == "v1.0" else [long_pattern(x) for x in ps]
            shorts = [ps]
            if q is None:
                shorts.append(p)
                if v != "v1.0":
                    shorts.append(longs[0])
            elif v != "v1.0":
                shorts.append([longs[0], q])
                shorts.append([p, longs[1]])
            for s in shorts:
                compare(rec, v, doc(longs), doc(s), "%s %s.secondaryFiles = %s" % (v, record_name(name), json.dumps(s)),
                        "secondary-same", secondary_normal)


def secondary_normal(x):
    """A single entry stands for the list of it."""
    if isinstance(x, dict):
        d = {k: secondary_normal(y) for k, y in x.items()}
        if "secondaryFiles" in d and not isinstance(d["secondaryFiles"], list):
            d["secondaryFiles"] = [d["secondaryFiles"]]
        return d
    if isinstance(x, list):
        return [secondary_normal(y) for y in x]
    return x


# ---------------------------------------------------------------- $import and $include

def run_import(rec, v, name):
    """A construct, or a text, that is kept in a file of its own denotes the same object."""
    g, gen, oracle = c10.get(v)
    full = c10.all_fields(gen, name, 0)
    if record_name(name) in ROOTS[v] or not gen.hosts[name]:
        for f in list(full):
            if isinstance(full[f], str) and f in ("doc", "expression", "label") and "$" not in full[f]:
                include(rec, v, gen, name, full, f)
        return
    for inst in (gen.minimal(name), full):
        if any(isinstance(inst.get(k), str) for k in ("id", "name")):
            continue      # names are resolved relative to the file that holds them
        if "#" in json.dumps(inst):
            continue
        path = os.path.join(c10.DIR, "part.yml")
        with open(path, "w") as h:
            json.dump(inst, h)
        long = gen.document(name, inst)
        short = gen.document(name, {"$import": "part.yml"})
        for d in (long, short):
            d.setdefault("id", "root")
        part = "file://" + path

        def norm(x):
            if isinstance(x, dict):
                return {k: norm(y) for k, y in x.items()}
            if isinstance(x, list):
                return [norm(y) for y in x]
            return x.replace(part + "#", c10.URI + "#root/").replace(part, c10.URI) if isinstance(x, str) else x

        if anonymous(plain_or_none(long)):
            continue
        compare(rec, v, long, short, "%s %s imported" % (v, record_name(name)), "import-same",
                lambda x: norm(x))
    for f in list(full):
        if isinstance(full[f], str) and f in ("doc", "label", "envValue", "entry", "position"):
            include(rec, v, gen, name, full, f)


def plain_or_none(doc):
    ob, _ = verdict(doc)
    return None if ob is None else plain(ob)


def anonymous(p):
    return p is not None and '"_:' in json.dumps(p, default=repr)


def include(rec, v, gen, name, full, f):
    for text in ("plain", "a: b\n- c\n", "$(inputs.x)", "{}", ""):
        with open(os.path.join(c10.DIR, "part.txt"), "w") as h:
            h.write(text)
        host = gen.minimal(name)
        long = gen.document(name, dict(host, **{f: text}))
        short = gen.document(name, dict(host, **{f: {"$include": "part.txt"}}))
        for d in (long, short):
            d.setdefault("id", "root")
        compare(rec, v, long, short, "%s %s.%s included" % (v, record_name(name), f), "include-same")


def BOUNDS(tier):
    return {"constructs": "all records of the grammars of v1.0, v1.1 and v1.2 with the cwltool extensions",
            "changes": "every removed field, unknown field, and every field x %d values" % len(KINDS),
            "changes per document": 2 if tier == "thorough" else 1,
            "map forms": "every identified list field x every value of every field of its items, 1 or 2 entries",
            "type suffixes": [t for t in type_forms("v1.2") if isinstance(t, str)], "secondary file patterns": PATTERNS}
