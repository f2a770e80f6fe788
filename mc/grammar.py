"""The official grammar of CWL documents, taken from the published schemas.

The schemas are those that the installed reference implementation (cwltool)
ships; they are independent of the generated parsers in /repo.  This module
derives from them the table of constructs (records) and fields, hosts every
construct in a complete document, enumerates values for every field, and
gives the reference answers: is a document valid, and what does it expand to.
"""

import json
import os

VERSIONS = ("v1.0", "v1.1", "v1.2")
EXT = {"v1.0": "extensions.yml", "v1.1": "extensions-v1.1.yml", "v1.2": "extensions-v1.2.yml"}
ROOTS = {"v1.0": ("CommandLineTool", "Workflow", "ExpressionTool"),
         "v1.1": ("CommandLineTool", "Workflow", "ExpressionTool"),
         "v1.2": ("CommandLineTool", "Workflow", "ExpressionTool", "Operation")}
CWLTOOL = "http://commonwl.org/cwltool#"


def _load(version):
    """(loader, names) of a version's schema including the cwltool extensions."""
    from importlib.resources import files

    from schema_salad.schema import load_schema

    cache = {}
    base = files("cwltool")
    for f in ("CommandLineTool.yml", "CommandLineTool-standalone.yml", "CommonWorkflowLanguage.yml", "Base.yml",
              "Process.yml", "Workflow.yml", "Operation.yml", "concepts.md", "contrib.md", "intro.md", "invocation.md"):
        try:
            cache["https://w3id.org/cwl/" + f] = base.joinpath("schemas/%s/%s" % (version, f)).read_text("UTF-8")
        except OSError:
            pass
    d = base.joinpath("schemas/%s/salad/schema_salad/metaschema" % version)
    for f in d.iterdir():
        if f.is_file():
            cache["https://w3id.org/cwl/salad/schema_salad/metaschema/" + f.name] = f.read_text("UTF-8")
    name = "http://commonwl.org/cwltool/" + EXT[version]
    cache[name] = base.joinpath(EXT[version]).read_text("UTF-8")
    loader, names, _, _ = load_schema(name, cache=cache)
    return loader, names


def _short(name):
    return name.split("/")[-1].split("#")[-1]


class T:
    """A field type: kind in null/prim/enum/array/map/record/any/expr, with details."""

    def __init__(self, kind, arg=None):
        self.kind, self.arg = kind, arg

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.arg if not isinstance(self.arg, list) else [repr(a) for a in self.arg])


class Grammar:
    def __init__(self, version):
        from schema_salad.avro import schema as A

        self.version = version
        self.loader, names = _load(version)
        self.names = names
        self.A = A
        self.records = {}

        def conv(t):
            n = type(t).__name__
            if n == "PrimitiveSchema":
                return [T("null")] if t.type == "null" else [T("prim", t.type)]
            if n == "UnionSchema":
                return [x for s in t.schemas for x in conv(s)]
            if n == "ArraySchema":
                return [T("array", conv(t.items))]
            if n == "MapSchema":
                return [T("map", conv(t.values))]
            if n in ("EnumSchema", "NamedUnionSchema", "RecordSchema", "NamedMapSchema"):
                nm = t.name.split(".")[-1]
                if n == "RecordSchema":
                    self.add(t)
                    return [T("record", t.name)]
                if nm == "Any":
                    return [T("any")]
                if nm in ("Expression", "ExpressionPlaceholder"):
                    return [T("expr")]
                if n == "EnumSchema":
                    return [T("enum", [_short(s.split(".")[-1]) for s in t.symbols])]
                return [x for s in t.schemas for x in conv(s)]
            raise Exception("unknown schema %s" % n)

        self._conv = conv
        for name in sorted(names.names):
            t = names.names[name]
            if type(t).__name__ == "RecordSchema" and name.split(".")[-1] in ROOTS[version]:
                self.add(t)
        for name in list(self.records):
            pass

    def add(self, t):
        if t.name in self.records:
            return
        self.records[t.name] = None
        self.records[t.name] = [(f.name, self._conv(f.type)) for f in t.fields]


EXPR = "$(1)"
BODY = "${return 1;}"
FILE = {"class": "File", "location": "tool.cwl"}
ANY = [5, 1.5, True, False, "text", [], {}, [1, [2, [3]], []], {"k": None, "l": [{"m": 1}]}, FILE,
       {"class": "Directory", "location": "dir", "listing": [dict(FILE, basename="x")]},
       [FILE, [FILE]], {"r": {"f": FILE}}, dict(FILE, secondaryFiles=[dict(FILE, basename="y")], size=2 ** 33),
       {"class": "other", "x": 1}, {"id": "z", "type": "int?"}]


def record_name(full):
    n = full.split(".")[-1]
    return "cwltool:" + n if full.startswith("org.commonwl.cwltool.") else n


class Generator:
    """Enumerates documents: every construct, field and alternative of a version's grammar."""

    def __init__(self, g):
        self.g = g
        self.version = g.version
        self.byname = {record_name(n): n for n in g.records}
        self.hosts = {}
        queue = []
        for r in ROOTS[self.version]:
            full = self.byname[r]
            self.hosts[full] = ()
            queue.append(full)
        while queue:
            rec = queue.pop(0)
            for fname, alts in g.records[rec]:
                for wrap, target in self._targets(alts, ()):
                    if target not in self.hosts:
                        self.hosts[target] = self.hosts[rec] + ((rec, fname, wrap),)
                        queue.append(target)
        # constructs that are only reachable through untyped fields are not hosted
        self.order = list(self.hosts)

    def _targets(self, alts, wrap):
        for a in alts:
            if a.kind == "record":
                yield wrap, a.arg
        for a in alts:
            if a.kind == "array" and len(wrap) < 2:
                yield from self._targets(a.arg, wrap + ("array",))

    def root_of(self, rec):
        return self.hosts[rec][0][0] if self.hosts[rec] else rec

    def fields(self, rec):
        return self.g.records[rec]

    def required(self, rec):
        return [f for f, alts in self.fields(rec) if not any(a.kind in ("null",) for a in alts)]

    def string(self, rec, field):
        return {"id": "i_x", "name": "n_x", "run": "tool.cwl", "source": "in1", "outputSource": "in1",
                "loopSource": "in1", "scatter": "p", "class": record_name(rec), "location": "tool.cwl",
                "path": "tool.cwl", "format": "http://example.com/fmt", "cwlVersion": self.version,
                "package": "pkg", "envName": "ENV", "pattern": ".bai", "symbols": "sym_a",
                "out": "o_x", "secrets": "in1", "specs": "http://example.com/spec",
                "intent": "http://example.com/op", "type": "int", "items": "int", "cudaVersionMin": "11.0",
                "cudaComputeCapability": "3.0"}.get(field, "text")

    def minimal(self, rec, depth=0):
        d = {}
        for f, alts in self.fields(rec):
            if any(a.kind == "null" for a in alts):
                if f != "id" or record_name(rec) in ROOTS[self.version] or record_name(rec) == "cwltool:ProcessGenerator":
                    continue
            d[f] = self.first(rec, f, alts, depth)
        n = record_name(rec)
        if n == "Workflow":
            d["inputs"] = [{"id": "in1", "type": "File"}]
        if n == "WorkflowStep":
            d["in"] = [{"id": "p", "source": "in1"}]
        if n == "cwltool:Loop":
            d["loopWhen"] = EXPR
            d["loop"] = [{"id": "p", "loopSource": "in1"}]
        return d

    def first(self, rec, f, alts, depth):
        if f in ("type", "items"):
            for a in alts:
                if a.kind == "enum" and len(a.arg) == 1 and a.arg[0] in ("record", "enum", "array"):
                    return a.arg[0]
            return "int"
        if f == "run":
            return "tool.cwl"
        if f == "class":
            return record_name(rec)
        for a in alts:
            if a.kind == "null":
                continue
            if a.kind == "prim":
                return {"string": self.string(rec, f), "int": 3, "long": 2 ** 33, "float": 1.5, "double": 2.5,
                        "boolean": True}[a.arg]
            if a.kind == "expr":
                return EXPR
            if a.kind == "enum":
                return a.arg[0]
            if a.kind == "any":
                return 5
            if a.kind == "record":
                return self.minimal(a.arg, depth + 1)
            if a.kind == "array":
                if f in ("inputs", "outputs", "steps", "in", "out", "fields"):
                    return []
                return [self.first(rec, f, a.arg, depth)]
        raise Exception("no value for %s.%s" % (rec, f))

    def values(self, rec, f, alts, depth=0):
        """All sample values of a field: every alternative, with all its kinds of items."""
        out = []
        for a in alts:
            if a.kind == "null":
                out.append(None)
            elif a.kind == "prim":
                if a.arg == "string":
                    s = self.string(rec, f)
                    out.append(s)
                    if f in ("type", "items"):
                        out += ["string", "int?", "File[]", "Directory[]?", "#udt", "#udt?", "#udt[]", "udt.yml#rec",
                                "udt.yml#rec[]?", "int[][]", "Any", "Any?"]
                    if f == "pattern":
                        out += ["^.x", ".x?"]
                    if f == "format":
                        out += ["ex:fmt2", "fmt.owl#f3"]
                    if f in ("source", "outputSource", "scatter", "loopSource"):
                        out += ["#" + s]
                    if f in ("location", "path"):
                        out += ["file:///a%20b", "dir/../tool.cwl"]
                    if f == "run":
                        out += ["sub/tool2.cwl", "#main2", "tool.cwl#t"]
                    if f == "label":
                        out += ["", "line1\nline2: {}", "\u00e9\U0001F600", "yes", "1.0", "null", "~", "a: b", "$(x)", "#c"]
                    if f in ("id", "name"):
                        out += ["x-y.z", "#i_y"]
                    if f == "class":
                        out = [s]
                elif a.arg == "boolean":
                    out += [True, False]
                elif a.arg in ("int", "long"):
                    out += [0, 7, -1] + ([2 ** 40] if a.arg == "long" else [])
                else:
                    out += [0.5, 1e10, 3]
            elif a.kind == "expr":
                out += [EXPR, BODY]
            elif a.kind == "enum":
                if f == "cwlVersion":
                    out.append(self.version)
                else:
                    out += a.arg
            elif a.kind == "any":
                if f in ("hints",):
                    out += [{"class": "ResourceRequirement", "coresMin": 2}, {"class": "http://example.com/Hint", "x": [1]},
                            {"class": "ex:Hint", "y": {"z": 1}}, {"class": "InlineJavascriptRequirement", "expressionLib": ["var a;"]}]
                else:
                    out += ANY
            elif a.kind == "record":
                if depth < 2:
                    out.append(self.minimal(a.arg))
            elif a.kind == "array":
                if depth < 2:
                    items = [v for v in self.values(rec, f, a.arg, depth + 1)]
                    out.append([])
                    out += [[v] for v in items]
                    good = [v for v in items if v is not None]
                    if f in ("type", "items"):
                        out += [["null", good[0]], ["null", "int", "string?"], ["int", "int"], ["int[]", "null"],
                                ["#udt", "null"], ["int?", {"type": "array", "items": "string?"}]]
                    elif len(good) > 1:
                        out += [good[:2], good[-2:]]
        res = []
        for v in out:
            k = json.dumps(v, sort_keys=True)
            if k not in [json.dumps(x, sort_keys=True) for x in res]:
                res.append(v)
        return res

    def document(self, rec, instance):
        """A complete document that contains the instance of the construct."""
        for owner, f, wrap in reversed(self.hosts[rec]):
            v = instance
            for _ in wrap:
                v = [v]
            instance = self.minimal(owner)
            if owner.endswith(".Workflow") and f == "inputs":
                v = instance["inputs"] + v
            if owner.endswith(".WorkflowStep") and f == "in":
                v = instance["in"] + v
            instance[f] = v
        d = {"cwlVersion": self.version,
             "$namespaces": {"ex": "http://example.com/", "cwltool": CWLTOOL}}
        d.update(instance)
        return d


class Oracle:
    """Answers of the reference implementation of schema salad."""

    def __init__(self, g):
        from schema_salad.ref_resolver import Loader

        self.g = g
        base = g.loader
        self.loader = Loader(base.ctx, schemagraph=base.graph, foreign_properties=set(base.foreign_properties),
                             idx={}, cache={}, skip_schemas=True)

    def resolve(self, doc, uri):
        """(expanded document, None) or (None, reason)."""
        from schema_salad.exceptions import SchemaSaladException
        from schema_salad.schema import validate_doc
        from schema_salad.sourceline import cmap

        loader = self.loader
        loader.idx.clear()
        try:
            res, _ = loader.resolve_all(cmap(drop_null_ids(doc)), uri, checklinks=False)
            validate_doc(self.g.names, res, loader, True)
        except SchemaSaladException as exc:
            return None, str(exc)
        except (KeyError, AttributeError, TypeError, ValueError, RuntimeError) as exc:
            return None, repr(exc)
        return res, None


def drop_null_ids(x):
    """A copy without explicit nulls for identifiers, which mean the same as leaving them out."""
    if isinstance(x, dict):
        return {k: drop_null_ids(v) for k, v in x.items() if not (k in ("id", "name") and v is None)}
    if isinstance(x, list):
        return [drop_null_ids(v) for v in x]
    return x


def plain(x):
    """A loaded object as plain data: every field it has, without nulls."""
    from schema_salad.runtime import Saveable

    if isinstance(x, Saveable):
        d = {}
        for a in x.attrs:
            name = a if hasattr(x, a) else a + "_"
            v = getattr(x, name)
            if v is not None:
                d[a] = plain(v)
        for k, v in (getattr(x, "extension_fields", None) or {}).items():
            d[k] = plain(v)
        return d
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def typename(x):
    return type(x).__name__
