"""C22: generated JSON Schemas accept exactly the valid input objects."""

import itertools
import json
import logging
import os
import subprocess
import sys
import tempfile

from mc import core
from mc.grammar import VERSIONS
from mc.tree import fresh

PID = "C22"
LEVEL = "model_checked_code"
RULE = ("one state per process (CWL version, class, type term or set of user types and their place) and input object; the term and "
        "object spaces are enumerated completely up to the bounds; the verdict of the generated schema, by a JSON Schema validator, is "
        "compared with a type checker of our own on every pair")
ASSUMPTIONS = ["records with more fields than declared, File and Directory objects with unknown fields, 64 bit values for int and "
               "whole floats for integers have no verdict", "input objects have no parameters that the process does not have"]
REQUIRED_OUTCOMES = ("accepted", "rejected", "user-accepted", "user-rejected", "combination", "cli-same")
ITEM_TIMEOUT = 800
EX = {}

PRIM = ("boolean", "int", "long", "float", "double", "string")
ENUM = ("enum", "a", "b-2")
LEAVES = PRIM + ("File", "Directory", "Any", ENUM)


def setup(tier):
    from cwl_utils import inputs_schema_gen
    from cwl_utils.parser import load_document_by_uri, load_document_by_yaml

    logging.disable(logging.CRITICAL)
    EX.update(gen=inputs_schema_gen.cwl_to_jsonschema, load=load_document_by_yaml, uri=load_document_by_uri,
              dir=os.path.realpath(tempfile.mkdtemp()))
    open(os.path.join(EX["dir"], "doc.cwl"), "w").close()


def case_dir():
    return fresh(os.path.join(EX["dir"], "case"))


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


# ---------------------------------------------------------------- terms and their meaning

def arr(t):
    return ("array", t)


def union(*ts):
    return ("union",) + ts


def opt(t):
    return ("union", "null", t)


def rec(*fields):
    return ("record",) + fields


FILEKEYS = {"class": str, "location": str, "path": str, "basename": str, "contents": str, "size": int, "format": str, "checksum": str}


def both(verdicts):
    """Conjunction of verdicts; None is: not decided."""
    out = True
    for v in verdicts:
        if v is False:
            return False
        if v is None:
            out = None
    return out


def member(v, t, defs=None):
    """Whether a value has a type."""
    k = t if isinstance(t, str) else t[0]
    if k == "ref":
        return member(v, defs[t[1]], defs)
    if k == "null":
        return v is None
    if k == "Any":
        return v is not None
    if k == "boolean":
        return isinstance(v, bool)
    if k in ("int", "long"):
        if isinstance(v, float) and v == int(v):
            return None
        if isinstance(v, bool) or not isinstance(v, int):
            return False
        return True if abs(v) < 2 ** (31 if k == "int" else 63) else None
    if k in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if k == "string":
        return isinstance(v, str)
    if k in ("File", "Directory"):
        return location(v, k)
    if k == "enum":
        return isinstance(v, str) and v in t[1:]
    if k == "array":
        return isinstance(v, list) and both([True] + [member(x, t[1], defs) for x in v])
    if k == "record":
        if not isinstance(v, dict):
            return False
        r = [None if set(v) - {n for n, _ in t[1:]} else True]
        for n, ft in t[1:]:
            r.append(member(v.get(n), ft, defs))
        return both(r)
    out = False
    for x in t[1:]:
        m = member(v, x, defs)
        if m:
            return True
        if m is None:
            out = None
    return out


def location(v, k):
    if not isinstance(v, dict) or v.get("class") != k:
        return False
    for key, x in v.items():
        if key in ("secondaryFiles", "listing"):
            if (key == "listing") != (k == "Directory") or not isinstance(x, list):
                return None
            if not all(location(y, "File") or location(y, "Directory") for y in x):
                return None
        elif key not in FILEKEYS or not isinstance(x, FILEKEYS[key]):
            return None
    return True


F1 = {"class": "File", "location": "f"}
D1 = {"class": "Directory", "path": "d"}
VALUES = [None, True, False, 0, 1, -5, 2 ** 40, 1.5, -0.25, "a", "b-2", "zz", "", "File", "null", [], {}, F1, D1,
          {"class": "File", "path": "x", "basename": "y", "size": 3, "secondaryFiles": [F1, D1], "format": "http://x/y", "checksum": "sha1$0"},
          {"class": "File", "contents": "x", "basename": "y"}, {"class": "Directory", "listing": [F1, D1], "basename": "z"},
          {"class": "Other"}, {"location": "f"}, [1], [1.5], ["a"], ["zz"], [None], [True], [F1], [D1], [[]], [[1]], [["a"]], [{}],
          {"x": 1}, {"x": "a"}, {"x": None}, {"x": F1}, {"x": [1]}, {"y": 1}, {"x": 1, "y": 1}, {"x": "zz", "y": None}]
LEAF = {"boolean": [True], "int": [7], "long": [2 ** 40], "float": [2.5, 3], "double": [-2.5], "string": ["zz"], "File": [F1], "Directory": [D1],
        "Any": ["zz", 1.5, [None], {"k": []}, F1], "null": [None]}


def candidates(t, defs=None):
    """Values around the border of a type."""
    k = t if isinstance(t, str) else t[0]
    if k == "ref":
        return candidates(defs[t[1]], defs)
    if isinstance(t, str):
        return LEAF[t] + [None, True, 1, 1.5, "a", [], {}, F1, D1, [None]]
    if k == "enum":
        return list(t[1:]) + ["c", "", "A", None, 1, [t[1]]]
    if k == "union":
        out = []
        for x in t[1:]:
            out += candidates(x, defs)
        return out
    if k == "array":
        c = candidates(t[1], defs)
        good = [x for x in c if member(x, t[1], defs)][:2]
        out = [[], {}, None] + [[x] for x in c] + c[:4]
        for g in good:
            out += [[g, g, g]] + [[g, x] for x in c[:12]]
        return out
    fields = [(n, ft, candidates(ft, defs)) for n, ft in t[1:]]
    base = {}
    for n, ft, c in fields:
        good = [x for x in c if member(x, ft, defs)]
        if good:
            base[n] = good[0]
    out = [dict(base), {}, None, [base], "zz"]
    for n, ft, c in fields:
        out.append({m: x for m, x in base.items() if m != n})
        out += [dict(base, **{n: x}) for x in c]
    for r in range(len(fields) + 1):
        for some in itertools.combinations([n for n, _, _ in fields], r):
            out.append({n: base[n] for n in some if n in base})
    return out


# ---------------------------------------------------------------- documents

def render(t, names, short=False, depth=0):
    """The type in a document."""
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "ref":
        return names[t[1]]
    if k == "enum":
        return {"type": "enum", "symbols": list(t[1:])}
    if k == "array":
        inner = render(t[1], names, short, depth + 1)
        if short and isinstance(inner, str) and depth < 1 and not inner.endswith("]"):
            return inner + "[]"
        return {"type": "array", "items": inner if not short or not isinstance(inner, str) or inner[-1] not in "?]" else render(t[1], names)}
    if k == "record":
        return {"type": "record", "fields": [{"name": n, "type": render(ft, names, short)} for n, ft in t[1:]]}
    if short and len(t) == 3 and t[1] == "null" and depth < 1:
        inner = render(t[2], names, short, 0)
        if isinstance(inner, str):
            return inner + "?"
    return [render(x, names) if not isinstance(x, str) else x for x in t[1:]]


def process(cls, v, inputs, **kw):
    d = {"cwlVersion": v, "class": cls, "inputs": inputs, "outputs": []}
    if cls == "CommandLineTool":
        d["baseCommand"] = "x"
    elif cls == "Workflow":
        d["steps"] = []
    else:
        d["expression"] = "${return {};}"
        d["requirements"] = [{"class": "InlineJavascriptRequirement"}]
    for k, x in kw.items():
        d[k] = d.get(k, []) + x if k == "requirements" else x
    return d


def schema_of(recd, ob, where):
    """The schema and a validator for it."""
    from jsonschema.validators import validator_for

    try:
        schema = EX["gen"](ob)
        cls = validator_for(schema)
        json.dumps(schema)
        cls.check_schema(schema)
    except Exception as exc:
        recd.fail("%s: no schema: %s: %s" % (where, type(exc).__name__, str(exc)[-200:]))
        return None
    recd.step(2)
    return cls(schema)


def load(recd, doc, where):
    try:
        ob = EX["load"](json.loads(json.dumps(doc)), "file://" + EX["dir"] + "/doc.cwl")
    except Exception as exc:
        raise RuntimeError("%s: the document is not valid: %s" % (where, str(exc)[-300:]))
    recd.step(1)
    return ob


def verdict(recd, validator, obj, want, where, schema=None):
    """Compares the verdict of the schema on an input object."""
    recd.plain_states += 1
    recd.step(1)
    recd.trace(1)
    if want is None:
        return True
    try:
        have = validator.is_valid(obj)
    except Exception as exc:
        recd.fail("%s: schema is not usable for %s: %s: %s" % (where, json.dumps(obj), type(exc).__name__, str(exc)[-200:]), schema=validator.schema)
        return False
    if have != want:
        recd.fail("%s: %s is %s" % (where, json.dumps(obj), "accepted" if have else "rejected"), schema=validator.schema)
        return False
    return True


def unique(values):
    seen = set()
    for v in values:
        k = json.dumps(v, sort_keys=True)
        if k not in seen:
            seen.add(k)
            yield v


def objects(name, t, defs=None):
    yield {}
    for v in unique(VALUES + candidates(t, defs)):
        yield {name: v}


def check_term(recd, v, cls, t, short=False, name="in"):
    where = "%s %s input of type %s" % (v, cls, json.dumps(render(t, {}, short)))
    ob = load(recd, process(cls, v, [{"id": name, "type": render(t, {}, short)}]), where)
    val = schema_of(recd, ob, where)
    if val is None:
        return
    for o in objects(name, t):
        want = member(o.get(name), t)
        if verdict(recd, val, o, want, where):
            recd.outcome("accepted" if want else "rejected")
        else:
            return


# ---------------------------------------------------------------- work items

def level1():
    for x in LEAVES:
        yield arr(x)
        yield opt(x)
        yield rec(("x", x))
        yield rec(("x", opt(x)), ("y", "string"))
    for x, y in itertools.combinations(LEAVES, 2):
        yield union(x, y)
    for x, y in (("string", "int"), ("double", "int"), ("File", "string"), (ENUM, "string"), ("Any", "int")):
        yield union(x, y)
        yield union("null", x, y)
    yield rec()


def wraps(t):
    yield arr(t)
    yield opt(t)
    yield rec(("x", t))
    yield rec(("x", opt(t)), ("y", arr(t)))
    yield union("string", t)
    yield union(arr(arr("int")), t, "null")
    yield union(rec(("x", "int")), t)


def flat(t):
    """Unions directly inside unions are not valid types."""
    if isinstance(t, str):
        return True
    if t[0] == "union":
        return all(isinstance(x, str) or x[0] != "union" for x in t[1:]) and len(set(t[1:])) == len(t) - 1 and all(flat(x) for x in t[1:])
    if t[0] == "record":
        return all(flat(f) for _, f in t[1:])
    return all(flat(x) for x in t[1:])


def splice(t):
    """Members of inner unions become members."""
    if isinstance(t, str):
        return t
    if t[0] == "union":
        out = []
        for x in t[1:]:
            x = splice(x)
            for y in (x[1:] if not isinstance(x, str) and x[0] == "union" else (x,)):
                if y not in out:
                    out.append(y)
        return ("union",) + tuple(out) if len(out) > 1 else out[0]
    if t[0] == "record":
        return ("record",) + tuple((n, splice(f)) for n, f in t[1:])
    if t[0] == "array":
        return ("array", splice(t[1]))
    return t


def terms(level):
    seen = set()
    src = list(LEAVES) if level == 0 else level1() if level == 1 else (w for t in terms(level - 1) for w in wraps(t))
    for t in src:
        t = splice(t)
        if t not in seen:
            seen.add(t)
            yield t


CLASSES = ("CommandLineTool", "Workflow", "ExpressionTool")
CHUNK = 20


def run_terms(recd, v, cls, level, k, n):
    for t in itertools.islice(terms(level), k, n):
        check_term(recd, v, cls, t)
        if level < 2:
            check_term(recd, v, cls, t, short=True)


# ---------------------------------------------------------------- several inputs, options and defaults

def run_combination(recd, v, cls):
    """Required, optional and defaulted inputs in every combination, each given, left out or null."""
    kinds = {"required": ("int", None), "optional": (opt("int"), None), "default": ("int", 3), "zero": ("int", 0), "optional default": (opt("int"), 4),
             "empty": ("string", ""), "false": ("boolean", False), "file": ("File", F1), "list": (arr("int"), []), "Any": ("Any", None)}
    for combo in itertools.product(sorted(kinds), repeat=2):
        inputs = []
        for i, k in enumerate(combo):
            t, d = kinds[k]
            p = {"id": "i%d" % i, "type": render(t, {})}
            if d is not None:
                p["default"] = d
            inputs.append(p)
        where = "%s %s with inputs %s" % (v, cls, "/".join(combo))
        val = schema_of(recd, load(recd, process(cls, v, inputs), where), where)
        if val is None:
            continue
        for given in itertools.product(("absent", None, 1, "x", False, F1, [1]), repeat=2):
            o = {"i%d" % i: g for i, g in enumerate(given) if g != "absent"}
            want = []
            for i, k in enumerate(combo):
                t, d = kinds[k]
                want.append(member(o.get("i%d" % i), t) or (d is not None and o.get("i%d" % i) is None))
            if not verdict(recd, val, o, both(want), where):
                break
        else:
            recd.outcome("combination")


def run_names(recd, v, cls):
    """The names of inputs and fields are kept whatever they look like; texts do no harm."""
    for n in ("in", "in-1", "in_1", "a.b", "A", "\u00e9", "1", "properties", "type", "$ref", "definitions", "required", "items", "File", "a b"):
        if n in ("$ref", "a b") and v:
            continue            # not names of CWL
        where = "%s %s input %s" % (v, cls, n)
        t = rec((n, "int"), (n + "2", opt("string")))
        for doc in (None, "text", ["two", "texts"]):
            if isinstance(doc, list) and v == "v1.0":
                continue
            for lab in (None, "label"):
                inputs = [{"id": n, "type": render(t, {})}, {"id": n + "3", "type": "string"}]
                for i in inputs:
                    if doc is not None:
                        i["doc"] = doc
                    if lab:
                        i["label"] = lab
                if doc is not None:
                    inputs[0]["type"]["fields"][0]["doc"] = doc if isinstance(doc, str) or v != "v1.0" else doc[0]
                val = schema_of(recd, load(recd, process(cls, v, inputs), where), where)
                if val is None:
                    continue
                for x, y in itertools.product(candidates(t), ("s", 1, None)):
                    o = {n: x}
                    if y is not None:
                        o[n + "3"] = y
                    if not verdict(recd, val, o, both([member(x, t), isinstance(y, str)]), where):
                        break
                else:
                    recd.outcome("accepted")
    for opts in ({"secondaryFiles": [".bai"]}, {"format": "http://x/y"}, {"streamable": True}, {"inputBinding": {"loadContents": True}},
                 {"loadContents": True}, {"loadListing": "deep_listing"}):
        if v == "v1.0" and ("loadContents" in opts or "loadListing" in opts):
            continue
        if "inputBinding" in opts and cls == "ExpressionTool" and v != "v1.0":
            pass
        where = "%s %s input with %s" % (v, cls, opts)
        val = schema_of(recd, load(recd, process(cls, v, [dict({"id": "in", "type": "File"}, **opts)]), where), where)
        for o in objects("in", "File") if val else ():
            verdict(recd, val, o, member(o.get("in"), "File"), where)
    if cls == "CommandLineTool" and v != "v1.0":
        where = "%s stdin" % v
        val = schema_of(recd, load(recd, process(cls, v, [{"id": "in", "type": "stdin"}]), where), where)
        for o in objects("in", "File") if val else ():
            verdict(recd, val, o, member(o.get("in"), "File"), where)


# ---------------------------------------------------------------- user types

R = rec(("x", "int"), ("y", opt("string")))
USER = {
    "R": {"R": R},
    "E": {"E": ENUM},
    "A": {"A": arr("int")},
    "RE": {"E": ENUM, "R": rec(("e", ("ref", "E")), ("o", opt(("ref", "E"))), ("l", arr(("ref", "E"))))},
    "RR": {"S": R, "R": rec(("s", ("ref", "S")), ("l", opt(arr(("ref", "S")))), ("u", union("string", ("ref", "S"))))},
    "RA": {"S": R, "A": arr(("ref", "S")), "R": rec(("a", ("ref", "A")), ("b", opt(("ref", "A"))))},
    "AA": {"E": ENUM, "A": arr(("ref", "E")), "B": arr(arr(("ref", "A")))},
    "RI": {"R": rec(("i", rec(("x", "int"), ("z", opt("double")))), ("f", "File"), ("d", opt("Directory")), ("a", opt("Any")), ("e", ENUM))},
    "RL": {"R": rec(("x", arr(union("int", "double", ENUM))), ("o", union("null", "int", "double")), ("oo", opt(arr(opt("int")))))},
    "R0": {"R": rec()},
    "deep": {"E": ENUM, "S": rec(("e", ("ref", "E"))), "T": rec(("s", arr(("ref", "S")))), "R": rec(("t", opt(("ref", "T"))), ("k", "long"))},
}
NAMINGS = {
    "plain": {},
    "hyphen": {"R": "my-rec", "S": "my-sub", "E": "my-enum", "A": "my-arr", "B": "my-b", "T": "my-t"},
    "clash": {"R": "my-type", "S": "my_type", "E": "myType", "A": "mytype", "B": "MyType", "T": "My-type"},
    "builtin": {"R": "file", "S": "directory", "E": "any", "A": "File_", "B": "Inputbinding", "T": "input-binding"},
    "same": {"R": "same", "S": "same", "E": "same", "A": "same", "B": "same", "T": "same"},
}
PLACES = ("inline", "import", "import-each", "packed", "packed-files", "hints", "files-cross")


def tname(naming, n):
    return NAMINGS[naming].get(n, n)


def user_type(defs, n, names, own, v, short=False):
    """The definition of a user type as a document has it."""
    d = render(defs[n], names, short)
    if not isinstance(d, dict):
        raise ValueError(d)
    return dict(d, name=own)


def user_doc(recd, v, cls, defs, naming, place, top):
    """Writes the documents; returns the loaded process."""
    inputs = [{"id": "in", "type": top}]
    root = case_dir()
    order = list(defs)
    if place in ("inline", "hints"):
        names = {n: "#" + tname(naming, n) for n in defs}
        types = [user_type(defs, n, names, tname(naming, n), v) for n in order]
    elif place == "import":
        names = {n: "t.yml#" + tname(naming, n) for n in defs}
        local = {n: "#" + tname(naming, n) for n in defs}
        with open(os.path.join(root, "t.yml"), "w") as h:
            json.dump([user_type(defs, n, local, tname(naming, n), v) for n in order], h)
        types = [{"$import": "t.yml"}]
    elif place in ("import-each", "files-cross"):
        files = {n: ("sub/" if i % 2 and place == "files-cross" else "") + "t%d.yml" % i for i, n in enumerate(order)}
        names = {n: files[n] + "#" + tname(naming, n) for n in defs}
        for n in order:
            here = os.path.dirname(files[n])
            local = {m: os.path.relpath(files[m], here or ".") + "#" + tname(naming, m) for m in defs}
            path = os.path.join(root, files[n])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as h:
                json.dump(user_type(defs, n, local, tname(naming, n), v), h)
        types = [{"$import": files[n]} for n in order]
    else:
        names = {n: "#main/" + tname(naming, n) if place == "packed" else "#t%d.yml/%s" % (i, tname(naming, n)) for i, n in enumerate(order)}
        types = [user_type(defs, n, names, names[n], v) for n in order]
    inputs = [{"id": "in", "type": render(top, names)}]
    req = {"class": "SchemaDefRequirement", "types": types}
    doc = process(cls, v, inputs, **{"hints" if place == "hints" else "requirements": [req]})
    path = os.path.join(root, "m.cwl")
    if place.startswith("packed"):
        doc.pop("cwlVersion")
        doc["id"] = "#main"
        doc = {"cwlVersion": v, "$graph": [doc, dict(process("CommandLineTool", v, []), id="#other")]}
        doc["$graph"][1].pop("cwlVersion")
    with open(path, "w") as h:
        json.dump(doc, h)
    recd.step(1)
    return EX["uri"](path + ("#main" if place.startswith("packed") else "")), doc


def run_user(recd, v, cls, which, naming, place):
    """User types in every place they can be defined and position they can be used in."""
    defs = USER[which]
    if naming == "same" and place in ("inline", "import", "packed", "hints") and len(defs) > 1:
        return
    if v == "v1.0" and any(t[0] == "array" for t in defs.values()):
        return
    for last in list(defs)[-1:] + (list(defs)[:-1] if naming == "plain" else []):
        r = ("ref", last)
        for top in (r, opt(r), arr(r), rec(("x", r), ("y", opt(r))), union("string", r), arr(opt(r)), opt(arr(arr(r)))):
            where = "%s %s types %s (%s) in %s, used as %s" % (v, cls, which, naming, place, json.dumps(top))
            try:
                ob, doc = user_doc(recd, v, cls, defs, naming, place, top)
            except Exception as exc:
                raise RuntimeError("%s: not valid: %s" % (where, str(exc)[-400:]))
            val = schema_of(recd, ob, where)
            if val is None:
                return
            for o in objects("in", top, defs):
                want = member(o.get("in"), top, defs)
                if not verdict(recd, val, o, want, where):
                    return
                recd.outcome("user-accepted" if want else "user-rejected")


# ---------------------------------------------------------------- command line

def run_cli(recd, v):
    root = case_dir()
    d = process("Workflow", v, [{"id": "a", "type": "int"}, {"id": "b", "type": render(R, {})}])
    path = os.path.join(root, "w x.cwl")
    with open(path, "w") as h:
        json.dump(d, h)
    from pathlib import Path

    want = EX["gen"](EX["uri"](path))
    env = dict(os.environ, PYTHONPATH=core.REPO_SRC)
    for arg, out in itertools.product((path, Path(path).as_uri(), "w x.cwl"), (None, "o.json")):
        args = [sys.executable, "-m", "cwl_utils.inputs_schema_gen", arg] + (["-o", out] if out else [])
        r = subprocess.run(args, capture_output=True, cwd=root, env=env, timeout=120)
        recd.plain_states += 1
        recd.step(1)
        recd.trace(1)
        where = "%s cwl-inputs-schema-gen %s" % (v, args[3:])
        text = open(os.path.join(root, out)).read() if out else r.stdout.decode()
        if r.returncode or json.loads(text) != want:
            recd.fail("%s: exit code %d, %s" % (where, r.returncode, text[:200] + r.stderr.decode()[-200:]))
        else:
            recd.outcome("cli-same")
    r = subprocess.run([sys.executable, "-m", "cwl_utils.inputs_schema_gen", "nowhere.cwl"], capture_output=True, cwd=root, env=env, timeout=120)
    recd.check(r.returncode != 0, "%s cwl-inputs-schema-gen succeeds for a file that does not exist" % v)


# ---------------------------------------------------------------- enumeration

def items(tier):
    n2 = len(list(terms(2)))
    for v in VERSIONS:
        for cls in CLASSES:
            yield ["terms", v, cls, 0, 0, 99]
            n1 = len(list(terms(1)))
            for k in range(0, n1, CHUNK):
                yield ["terms", v, cls, 1, k, k + CHUNK]
            yield ["combination", v, cls]
            yield ["names", v, cls]
            if tier == "thorough" or cls == "CommandLineTool":
                for k in range(0, n2, CHUNK):
                    yield ["terms", v, cls, 2, k, k + CHUNK]
            for which in USER:
                for naming in NAMINGS:
                    for place in PLACES:
                        if tier == "thorough" or naming != "hyphen" and (cls == "Workflow" or naming == "plain"):
                            yield ["user", v, cls, which, naming, place]
        yield ["cli", v]
    if tier == "thorough":
        n3 = len(list(terms(3)))
        for v in VERSIONS:
            for k in range(0, n3, CHUNK):
                yield ["terms", v, "Workflow", 3, k, k + CHUNK]


def BOUNDS(tier):
    return {"leaf types": len(LEAVES), "type terms": {str(k): len(list(terms(k))) for k in range(4 if tier == "thorough" else 3)},
            "values": len(VALUES), "sets of user types": len(USER), "namings": sorted(NAMINGS), "places": PLACES}
