"""C17: packing inlines user types faithfully, whatever was packed before."""

import contextlib
import copy
import io
import itertools
import json
import logging
import os
import re
import subprocess
import sys
import tempfile

from mc.grammar import VERSIONS
from mc.tree import fresh

PID = "C17"
LEVEL = "model_checked_code"
RULE = ("one state per set of type definitions and references: every type expression of the bound at every position x kind of "
        "the named type x file it lives in x form of its declaration x host process, every chain of references over files, "
        "every reference to an undefined name, every family of colliding names, and every history of pack calls up to the "
        "depth bound (states: document packed, names used before); each is packed by the real code and the types of the "
        "packed parameters are compared with the abstract types the files were written from")
ASSUMPTIONS = ["type definitions do not contain themselves", "a process in another file has its own SchemaDefRequirement",
               "the suffix that keeps names unique is '_' with a number",
               "definitions in place, or imported where they are used, keep their names"]
REQUIRED_OUTCOMES = ("place-same", "chain-same", "undefined-reported", "names-unique", "history-same", "shadow-same", "form-same")
ITEM_TIMEOUT = 800
EX = {}


def setup(tier):
    from cwl_utils.pack import pack

    logging.disable(logging.CRITICAL)
    EX["pack"] = pack
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    open(os.path.join(EX["dir"], "packed.cwl"), "w").close()
    EX["uri"] = "file://" + os.path.join(EX["dir"], "packed.cwl")


def teardown():
    os.chdir("/")


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


# ---------------------------------------------------------------- abstract types
#
# b NAME | r NAME | opt E | sugar E | list [E] | array E | rec [(field, E)] form | imp NAME
# named: name -> ("record", [(field, E)], form) | ("array", E) | ("enum", symbols)

def B(n):
    return ("b", n)


def R(n):
    return ("r", n)


class Lib:
    """Named types and the files they live in ("" is the document itself)."""

    def __init__(self, types, homes, docpath, style="#"):
        self.types, self.homes, self.doc, self.style = types, homes, docpath, style

    def file(self, name):
        return self.homes.get(name) or self.doc

    def ref(self, name, cur):
        home = self.file(name) if name in self.types else cur
        if home == cur:
            return ("#" if self.style == "#" else "") + name
        return os.path.relpath(home, os.path.dirname(cur)) + "#" + name

    def render(self, e, cur):
        k = e[0]
        if k == "b":
            return e[1]
        if k == "r":
            return self.ref(e[1], cur)
        if k == "imp":
            return {"$import": os.path.relpath(self.file(e[1]), os.path.dirname(cur))}
        if k in ("opt", "sugar"):
            x = self.render(e[1], cur)
            if isinstance(x, str):
                return x + ("?" if k == "opt" else "[]")
            return ["null", x] if k == "opt" else {"type": "array", "items": x}
        if k == "list":
            return [self.render(x, cur) for x in e[1]]
        if k == "array":
            return {"type": "array", "items": self.render(e[1], cur)}
        if k == "rec":
            return {"type": "record", "fields": self.fields(e[1], e[2], cur)}
        raise AssertionError(e)

    def fields(self, fields, form, cur):
        if form == "map":
            out = {f: self.render(x, cur) for f, x in fields}
            return {f: {"type": t} if isinstance(t, dict) else t for f, t in out.items()}
        if form == "mapdict":
            return {f: {"type": self.render(x, cur), "doc": f} for f, x in fields}
        return [{"name": f, "type": self.render(x, cur)} for f, x in fields]

    def definition(self, name, cur):
        t = self.types[name]
        if t[0] == "record":
            return {"name": name, "type": "record", "fields": self.fields(t[1], t[2], cur)}
        if t[0] == "array":
            return {"name": name, "type": "array", "items": self.render(t[1], cur)}
        return {"name": name, "type": "enum", "symbols": list(t[1])}

    def expand(self, e):
        k = e[0]
        if k == "b":
            return e[1]
        if k in ("r", "imp"):
            t = self.types[e[1]]
            name = (e[1],) if k == "r" else e[1]
            if t[0] == "record":
                return {"type": "record", "name": name, "fields": self.xfields(t[1], t[2])}
            if t[0] == "array":
                return {"type": "array", "name": name, "items": self.expand(t[1])}
            return {"type": "enum", "name": name, "symbols": list(t[1])}
        if k == "opt":
            return flat(["null", self.expand(e[1])])
        if k == "list":
            return flat([self.expand(x) for x in e[1]])
        if k in ("array", "sugar"):
            return {"type": "array", "items": self.expand(e[1])}
        return {"type": "record", "fields": self.xfields(e[1], e[2])}

    def xfields(self, fields, form):
        return [dict({"name": f, "type": self.expand(x)}, **({"doc": f} if form == "mapdict" else {})) for f, x in fields]


def flat(alts):
    out = []
    for a in alts:
        out += a if isinstance(a, list) else [a]
    return out


def ntype(t):
    """A concrete type with all forms of saying the same thing made equal."""
    if isinstance(t, list):
        return flat([ntype(x) for x in t])
    if isinstance(t, dict):
        d = dict(t)
        if isinstance(d.get("type"), (dict, list)):
            return dict(d, type=ntype(d["type"]))
        if d.get("type") == "array":
            d["items"] = ntype(d["items"])
        elif d.get("type") == "record" and "fields" in d:
            fs = d["fields"]
            if isinstance(fs, dict):
                fs = [dict(f, name=n) if isinstance(f, dict) else {"name": n, "type": f} for n, f in fs.items()]
            d["fields"] = [dict(f, type=ntype(f["type"])) for f in fs]
        return d
    if t.endswith("?"):
        return ["null", ntype(t[:-1])]
    if t.endswith("[]"):
        return {"type": "array", "items": ntype(t[:-2])}
    return t


def differs(want, got, names, path="type"):
    """None, or where a packed type differs from the one expected; the names of inlined types are collected."""
    if isinstance(want, list) or isinstance(got, list):
        if not isinstance(want, list) or not isinstance(got, list) or len(want) != len(got):
            return "%s is %s instead of %s" % (path, short(got), short(want))
        for i, (a, b) in enumerate(zip(want, got)):
            d = differs(a, b, names, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return "%s is %s instead of %s" % (path, short(got), short(want))
        if set(want) != set(got):
            return "%s has the fields %s instead of %s" % (path, sorted(got), sorted(want))
        for k in want:
            if k == "name" and "type" in want and want["type"] in ("record", "array", "enum"):
                base = want[k][0] if isinstance(want[k], tuple) else want[k]
                if not re.fullmatch(re.escape(base) + r"(_\d+)*", str(got[k])):
                    return "%s has the name %r instead of %r" % (path, got[k], base)
                if isinstance(want[k], tuple):
                    names.append(got[k])
            elif k == "symbols":
                if want[k] != got[k]:
                    return "%s has the symbols %s instead of %s" % (path, got[k], want[k])
            else:
                d = differs(want[k], got[k], names, "%s.%s" % (path, k))
                if d:
                    return d
        return None
    return None if want == got else "%s is %s instead of %s" % (path, short(got), short(want))


def short(x):
    return json.dumps(x)[:160]


# ---------------------------------------------------------------- documents

def tool(v, ins, outs=(), **kw):
    return dict({"cwlVersion": v, "class": "CommandLineTool", "id": "t", "baseCommand": "x",
                 "inputs": [{"id": i, "type": t} for i, t in ins],
                 "outputs": [{"id": i, "type": t, "outputBinding": {"outputEval": "$(null)"}} for i, t in outs]}, **kw)


def put(path, value):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as h:
        h.write(value if isinstance(value, str) else json.dumps(value))


def schemadef(lib, names, cur, form="entry", order=1):
    """A SchemaDefRequirement for named types, and the files that it imports."""
    files = {}
    for n in names:
        f = lib.file(n)
        if f != lib.doc:
            files.setdefault(f, []).append(n)
    for f, ns in files.items():
        defs = [lib.definition(n, f) for n in ns]
        put(f, defs if len(defs) > 1 or form == "whole" or os.path.basename(f).startswith("list") else defs[0])
    rel = lambda f: os.path.relpath(f, os.path.dirname(cur))
    if form == "whole":
        assert len(files) == 1 and not [n for n in names if lib.file(n) == lib.doc]
        return {"class": "SchemaDefRequirement", "types": {"$import": rel(list(files)[0])}}
    entries = [lib.definition(n, lib.doc) for n in names if lib.file(n) == lib.doc] + [{"$import": rel(f)} for f in files]
    return {"class": "SchemaDefRequirement", "types": entries[::order]}


def pack(rec, path, where, fails=True):
    rec.plain_states += 1
    rec.step(1)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return json.loads(json.dumps(EX["pack"](path)))
    except KeyboardInterrupt:
        raise
    except BaseException as exc:
        if not fails:
            return None
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[:300]))
        return None


def leftovers(x):
    if isinstance(x, dict):
        if x.get("class") == "SchemaDefRequirement":
            return "a SchemaDefRequirement is left"
        if "$import" in x or "$include" in x:
            return "a link is left: %s" % short(x)
        return next(filter(None, map(leftovers, x.values())), None)
    if isinstance(x, list):
        return next(filter(None, map(leftovers, x)), None)
    return None


def check_process(rec, proc, wants, names, where):
    for (port, pid), want in wants.items():
        got = [p for p in proc.get(port, []) if isinstance(p, dict) and p.get("id") == pid]
        if len(got) != 1:
            rec.fail("%s: %s %s is missing" % (where, port, pid), process=proc)
            return False
        d = differs(want, ntype(got[0]["type"]), names, "the type of %s" % pid)
        if d:
            rec.fail("%s: %s" % (where, d), process=proc)
            return False
    return True


def check(rec, got, procs, where, outcome, load=True):
    """procs: list of (path of steps, {(port, id): type})"""
    if got is None:
        return False
    rec.trace(1)
    left = leftovers(got)
    if left:
        rec.fail("%s: %s" % (where, left), packed=got)
        return False
    names = []
    for path, wants in procs:
        p = got
        for sid in path:
            p = [s for s in p["steps"] if s["id"] == sid][0]["run"]
        if not check_process(rec, p, wants, names, where):
            return False
    dup = sorted({n for n in names if names.count(n) > 1})
    if dup:
        rec.fail("%s: several inlined types are named %s" % (where, dup), packed=got)
        return False
    if load:
        from cwl_utils.parser import load_document_by_yaml

        try:
            load_document_by_yaml(copy.deepcopy(got), EX["uri"])
        except Exception as exc:
            rec.fail("%s: the packed document is not valid: %s" % (where, str(exc)[-300:]), packed=got)
            return False
    rec.outcome(outcome)
    return True


HOSTS = ("tool", "etool", "workflow", "linked", "linked-sub", "linked-up", "embedded-inherit", "embedded-own", "embedded-both",
         "linked-embedded")
DECLS = ("list", "map", "imported", "imported-sub", "all-imported")
LINKDIR = {"linked": ".", "linked-sub": "sub", "linked-up": "..", "linked-embedded": "sub"}


def build(v, host, decl, lib_of, exprs, root, form="entry", order=1, outs=()):
    """Write a document with parameters of the types; returns its path, the processes to look at and the lib."""
    main = os.path.join(root, "m/k/main.cwl")
    doc = main
    if host in LINKDIR:
        doc = os.path.normpath(os.path.join(root, "m/k", LINKDIR[host], "lk.cwl"))
    cur = doc
    lib = lib_of(doc)
    names = list(lib.types)
    reqfile = os.path.join(os.path.dirname(doc), "q/req.yml") if decl == "imported-sub" else os.path.join(os.path.dirname(doc), "req.yml")
    if decl in ("list", "map"):
        sd = schemadef(lib, names, doc, form, order)
        reqs = [{"class": "InlineJavascriptRequirement"}, sd] if decl == "list" else \
            {"SchemaDefRequirement": {"types": sd["types"]}, "InlineJavascriptRequirement": {}}
    else:
        sd = schemadef(lib, names, reqfile, form, order)
        if decl == "all-imported":
            put(reqfile, [{"class": "InlineJavascriptRequirement"}, sd])
            reqs = {"$import": os.path.relpath(reqfile, os.path.dirname(doc))}
        else:
            put(reqfile, sd)
            reqs = [{"class": "InlineJavascriptRequirement"}, {"$import": os.path.relpath(reqfile, os.path.dirname(doc))}]
    ins = [("a%d" % i, lib.render(e, cur)) for i, e in enumerate(exprs)]
    os_ = [("o%d" % i, lib.render(e, cur)) for i, e in enumerate(outs)]
    wants = {("inputs", "a%d" % i): lib.expand(e) for i, e in enumerate(exprs)}
    wants.update({("outputs", "o%d" % i): lib.expand(e) for i, e in enumerate(outs)})
    t = tool(v, ins, os_, requirements=reqs)
    inner = {"id": "s", "in": [], "out": [], "run": None}
    if host == "tool":
        put(main, t)
        return main, [([], wants)]
    if host == "etool":
        if v == "v1.0":
            wants = {k: noname(w) if k[0] == "outputs" else w for k, w in wants.items()}
        put(main, {"cwlVersion": v, "class": "ExpressionTool", "id": "t", "inputs": t["inputs"], "requirements": reqs,
                   "outputs": [{"id": o["id"], "type": o["type"]} for o in t["outputs"]], "expression": "$({})"})
        return main, [([], wants)]
    if host == "workflow":
        put(main, wf(v, reqs, [{"id": i, "type": x} for i, x in ins]))
        return main, [([], {k: w for k, w in wants.items() if k[0] == "inputs"})]
    if host == "embedded-inherit":
        put(main, wf(v, reqs, [{"id": i, "type": x} for i, x in ins], [dict(inner, run=tool(v, ins, os_))]))
        return main, [(["s"], wants), ([], {k: w for k, w in wants.items() if k[0] == "inputs"})]
    if host == "embedded-own":
        put(main, wf(v, [], [], [dict(inner, run=t)]))
        return main, [(["s"], wants)]
    if host == "embedded-both":
        put(main, wf(v, reqs, [{"id": i, "type": x} for i, x in ins], [dict(inner, run=t)]))
        return main, [([], {k: w for k, w in wants.items() if k[0] == "inputs"}), (["s"], wants)]
    rel = os.path.relpath(doc, os.path.dirname(main))
    if host == "linked-embedded":
        put(doc, wf(v, reqs, [], [dict(inner, run=tool(v, ins, os_))]))
        put(main, wf(v, [], [], [dict(inner, id="u", run=rel)]))
        return main, [(["u", "s"], wants)]
    put(doc, t)
    put(main, wf(v, [], [], [dict(inner, run=rel)]))
    return main, [(["s"], wants)]


def noname(t):
    """Records of outputs have no names in v1.0."""
    if isinstance(t, dict):
        return {k: noname(x) for k, x in t.items() if not (k == "name" and t.get("type") == "record")}
    return [noname(x) for x in t] if isinstance(t, list) else t


def wf(v, reqs, ins, steps=()):
    return {"cwlVersion": v, "class": "Workflow", "id": "w", "requirements": reqs, "inputs": ins, "outputs": [],
            "steps": list(steps)}


KINDS = {
    "record": ("record", [("x", B("string")), ("y", ("opt", B("int")))], "list"),
    "record-map": ("record", [("x", B("string")), ("y", ("sugar", B("File")))], "map"),
    "record-mapdict": ("record", [("x", B("string"))], "mapdict"),
    "array": ("array", B("int")),
    "array-union": ("array", ("list", [B("null"), B("int")])),
    "enum": ("enum", ["u", "v"]),
    "empty": ("record", [], "list"),
}


def wrappers(inner, deep=True):
    """Type expressions around an inner one."""
    yield inner
    yield ("opt", inner)
    yield ("sugar", inner)
    if inner[0] != "imp":
        yield ("opt", ("sugar", inner))
    yield ("list", [B("null"), inner])
    yield ("list", [inner, B("string")])
    yield ("array", inner)
    yield ("array", ("list", [B("null"), inner]))
    for form in ("list", "map", "mapdict"):
        yield ("rec", [("f", inner), ("g", B("int"))], form)
    if deep:
        for e in ("sugar", "array", "opt"):
            for form in ("list", "map"):
                yield ("rec", [("f", (e, inner))], form)
        yield ("array", ("array", inner))
        yield ("array", ("rec", [("f", ("opt", inner))], "map"))


DIRS = (".", "sub", "..", "../z")


def home(doc, d, base="one.yml"):
    return None if d is None else os.path.normpath(os.path.join(os.path.dirname(doc), d, base))


def case():
    return fresh(os.path.join(EX["dir"], "case"))


def run_place(rec, v, host, decl):
    """Every expression at every position x the file of the named type."""
    for kind, body in KINDS.items():
        if v == "v1.0" and kind.startswith("array"):
            continue                      # arrays have no names there
        for d in (None,) + DIRS:
            if d is None and decl.startswith("imported") or d is None and decl == "all-imported":
                continue
            for style in ("#", ""):
                if d is not None and style == "":
                    continue
                refs = [R("T")] + ([("imp", "T")] if d is not None else [])
                exprs = [e for r in refs for e in wrappers(r)]
                if kind not in ("record", "enum"):
                    exprs = exprs[:2]
                lib_of = lambda doc: Lib({"T": body}, {"T": home(doc, d)} if d else {}, doc, style)
                path, procs = build(v, host, decl, lib_of, exprs, case(), outs=exprs[:1])
                where = "%s %s, requirements %s, a %s in %s, %s" % (v, host, decl, kind, d or "the document", style)
                check(rec, pack(rec, path, where), procs, where, "place-same")


def run_chain(rec, v, host, decl):
    """Chains of references: every home of every type, every expression in between."""
    doc_ok = decl in ("list", "map")
    homes = ([None] if doc_ok else []) + [".", "sub", ".."]
    mids = [R, lambda n: ("opt", R(n)), lambda n: ("sugar", R(n)), lambda n: ("array", R(n)),
            lambda n: ("rec", [("f", R(n))], "list")]
    for h1, h2, h3 in itertools.product(homes, repeat=3):
        hs = [h1, h2, h3]
        if any(a is not None and b is None for a, b in zip(hs, hs[1:])):
            continue
        for kind in ("record", "record-map", "array")[:2 if v == "v1.0" else 3]:
            for m1, m2 in itertools.product(range(len(mids)), repeat=2):
                body = lambda e: ("array", e) if kind == "array" else ("record", [("f", e), ("g", B("string"))], "map" if "map" in kind else "list")
                types = {"T1": body(mids[m1]("T2")), "T2": body(mids[m2]("T3")), "T3": KINDS["record"]}
                for split in ((1, 1), (1, -1), (0, 1)) if m1 == m2 else ((1, 1),):
                    same_file, order = split
                    lib_of = lambda doc: Lib(types, {n: home(doc, h, "list.yml" if same_file else n + ".yml")
                                                     for n, h in zip(types, hs) if h is not None}, doc)
                    path, procs = build(v, host, decl, lib_of, [R("T1"), R("T2"), ("opt", R("T1"))], case(), order=order)
                    where = "%s %s, requirements %s, chain %s in %s with links %d,%d, %s" % (v, host, decl, kind, hs, m1, m2, split)
                    check(rec, pack(rec, path, where), procs, where, "chain-same", load=m1 == m2)


def run_form(rec, v, host):
    """Forms of the declaration: whole lists, order, names with '#', several names in a file."""
    for decl in DECLS:
        for d in DIRS:
            types = {"T1": ("record", [("f", R("T2"))], "list"), "T2": KINDS["enum"], "T3": ("record", [("g", ("array", R("T1")))], "map")}
            lib_of = lambda doc: Lib(types, {n: home(doc, d, "list.yml") for n in types}, doc)
            exprs = [R("T1"), R("T2"), R("T3"), ("opt", R("T3"))]
            path, procs = build(v, host, decl, lib_of, exprs, case(), form="whole")
            where = "%s %s, requirements %s, all types in a list in %s" % (v, host, decl, d)
            check(rec, pack(rec, path, where), procs, where, "form-same")
            for order in (1, -1):
                mixed = {"T1": home, "T2": home}
                lib_of = lambda doc: Lib(dict(types, T4=KINDS["record"]), {"T1": home(doc, d, "list.yml"), "T2": home(doc, d, "list.yml"), "T3": home(doc, ".", "l2.yml")}
                                         if not decl.startswith(("imp", "all")) else {n: home(doc, d, "list%s.yml" % n) for n in ("T1", "T2", "T3", "T4")}, doc)
                path, procs = build(v, host, decl, lib_of, exprs + [R("T4")], case(), order=order)
                where = "%s %s, requirements %s, types in several places of %s, order %d" % (v, host, decl, d, order)
                check(rec, pack(rec, path, where), procs, where, "form-same")


def run_undef(rec, v, host):
    """A name that nobody defines is an error at every position."""
    for decl in ("list", "map"):
        for d in (None, ".", "sub"):
            for bad in ("U", "T2", "t", "T?x", "other.yml#T", "int32", "Record"):
                for e in wrappers(("b", bad)):
                    for inside in (False, True):
                        types = {"T": ("record", [("f", e)], "list")} if inside else {"T": KINDS["record"]}
                        lib_of = lambda doc: Lib(types, {"T": home(doc, d)} if d else {}, doc)
                        path, procs = build(v, host, decl, lib_of, [R("T") if inside else e], case())
                        where = "%s %s: a reference to %r (%s), %s the definition in %s" % (v, host, bad, e[0], "inside" if inside else "beside", d)
                        got = pack(rec, path, where, fails=False)
                        if got is not None:
                            rec.fail("%s: no error" % where, packed=got)
                        else:
                            rec.trace(1)
                            rec.outcome("undefined-reported")


def run_names(rec, v, host):
    """References that share and collide in names."""
    base = "T"
    for n in range(1, 5):
        for seq in itertools.product(("T", "U"), repeat=n):
            for wrap in range(3):
                types = {"T": ("record", [("f", R("U"))], "list"), "U": KINDS["enum"]}
                exprs = [list(wrappers(R(x)))[(0, 1, 6)[wrap]] for x in seq]
                lib_of = lambda doc: Lib(types, {}, doc)
                path, procs = build(v, host, "list", lib_of, exprs, case())
                where = "%s %s: references %s" % (v, host, seq)
                check(rec, pack(rec, path, where), procs, where, "names-unique")
    # names that look like the generated ones
    path, procs = build(v, "tool", "list", lambda doc: Lib({"T": KINDS["enum"]}, {}, doc), [R("T"), R("T")], case())
    got = pack(rec, path, "two references")
    number = max([0] + [int(n) for n in re.findall(r'"T_(\d+)"', json.dumps(got))])
    nums = {"T_%d" % i: KINDS["enum"] for i in range(number + 1, number + 120)}
    for exprs in ([R("T")] * 20 + [R(x) for x in nums], [R(x) for x in nums] + [R("T")] * 20,
                  [x for pair in zip([R("T")] * len(nums), map(R, nums)) for x in pair]):
        lib_of = lambda doc: Lib(dict({"T": KINDS["record"]}, **nums), {}, doc)
        path, procs = build(v, host, "list", lib_of, exprs, case())
        where = "%s %s: names with numbers" % (v, host)
        check(rec, pack(rec, path, where), procs, where, "names-unique", load=False)
    # types that are imported where they are used
    for d in DIRS:
        for seq in itertools.product((0, 1), repeat=3):
            lib_of = lambda doc: Lib({"T": KINDS["record"]}, {"T": home(doc, d)}, doc)
            path, procs = build(v, host, "list", lib_of, [(R("T"), ("imp", "T"))[i] for i in seq], case())
            where = "%s %s: references and imports %s in %s" % (v, host, seq, d)
            check(rec, pack(rec, path, where), procs, where, "names-unique")


TYPENAMES = ("T", "t", "_T", "T_1", "T.x", "T-x", "x/T", "y/T", "x/y/T", "int_", "File2", "r\u00e9c", "T T", "nullT")


def run_typenames(rec, v, a):
    """Pairs of awkward names for the types, in the document or in files."""
    for b in TYPENAMES:
        if a == b:
            continue
        for d, kind in itertools.product((None,) + tuple(DIRS), ("enum", "record")):
            for style in "#", "":
                if d is not None and style == "":
                    continue
                types = {a: KINDS[kind], b: ("enum", ["other"])}
                home_of = (lambda doc: {}) if d is None else (lambda doc: {a: home(doc, d), b: home(doc, d)})
                lib_of = lambda doc: Lib(types, home_of(doc), doc, style)
                for host in ("tool", "linked-sub"):
                    path, procs = build(v, host, "list", lib_of, [R(a), R(b), ("array", R(a))], case())
                    where = "%s %s: types called %r and %r in %s, referred to by %r" % (v, host, a, b, d or "the document", style)
                    check(rec, pack(rec, path, where), procs, where, "names-unique", load=False)


def run_shadow(rec, v):
    """The same name in two files, or in a workflow and its steps, denotes the type where it is named."""
    # two files with the same names
    for d1, d2 in itertools.permutations(DIRS, 2):
        for order in (1, -1):
            for k1, k2 in itertools.permutations(("record", "enum", "empty" if v == "v1.0" else "array"), 2):
                root = case()
                main = os.path.join(root, "m/k/main.cwl")
                libs = [Lib({"T": KINDS[k]}, {"T": home(main, d)}, main) for k, d in ((k1, d1), (k2, d2))]
                sds = [schemadef(lib, ["T"], main)["types"][0] for lib in libs]
                put(main, tool(v, [("a%d" % i, lib.render(R("T"), main)) for i, lib in enumerate(libs)],
                               requirements=[{"class": "SchemaDefRequirement", "types": sds[::order]}]))
                wants = {("inputs", "a%d" % i): lib.expand(R("T")) for i, lib in enumerate(libs)}
                where = "%s: T in %s and in %s" % (v, d1, d2)
                check(rec, pack(rec, main, where), [([], wants)], where, "shadow-same")
    # the document and a file
    for k1, k2 in itertools.permutations(("record", "enum", "empty" if v == "v1.0" else "array"), 2):
        for d in DIRS:
            root = case()
            main = os.path.join(root, "m/k/main.cwl")
            inner, outer = Lib({"T": KINDS[k1]}, {}, main), Lib({"T": KINDS[k2]}, {"T": home(main, d)}, main)
            put(main, tool(v, [("a0", "T"), ("a1", outer.render(R("T"), main))],
                           requirements=[{"class": "SchemaDefRequirement", "types": schemadef(inner, ["T"], main)["types"] + schemadef(outer, ["T"], main)["types"]}]))
            where = "%s: T in the document and in %s" % (v, d)
            check(rec, pack(rec, main, where), [([], {("inputs", "a0"): inner.expand(R("T")), ("inputs", "a1"): outer.expand(R("T"))})],
                  where, "shadow-same")
    # a step's process redefines the type of the workflow
    for k1, k2 in itertools.permutations(("record", "enum", "empty" if v == "v1.0" else "array"), 2):
        for style in ("", "#"):
            for own_first in (0, 1):
                root = case()
                main = os.path.join(root, "m/k/main.cwl")
                inner, outer = Lib({"T": KINDS[k1]}, {}, main, style), Lib({"T": KINDS[k2], "U": KINDS["enum"]}, {}, main, style)
                t = tool(v, [("a", inner.render(R("T"), main)), ("b", outer.render(R("U"), main))], requirements=[schemadef(inner, ["T"], main)])
                t2 = tool(v, [("a", outer.render(R("T"), main))])
                steps = [{"id": "s", "in": [], "out": [], "run": t}, {"id": "r", "in": [], "out": [], "run": t2}]
                put(main, wf(v, [schemadef(outer, ["T", "U"], main)], [{"id": "i", "type": outer.render(R("T"), main)}], steps[::-1] if own_first else steps))
                where = "%s: T of the step's process is a %s, T of the workflow a %s" % (v, k1, k2)
                check(rec, pack(rec, main, where),
                      [([], {("inputs", "i"): outer.expand(R("T"))}), (["s"], {("inputs", "a"): inner.expand(R("T")), ("inputs", "b"): outer.expand(R("U"))}),
                       (["r"], {("inputs", "a"): outer.expand(R("T"))})], where, "shadow-same")


# ---------------------------------------------------------------- histories

def documents(v, root):
    """Documents whose types share names; each with the processes to look at."""
    out = {}

    def add(name, types, homes, exprs, host="tool", decl="list"):
        sub = os.path.join(root, name)
        lib_of = lambda doc: Lib(types, {n: home(doc, d, n + ".yml") for n, d in homes.items()}, doc)
        out[name] = build(v, host, decl, lib_of, exprs, sub)

    add("A", {"T": KINDS["record"]}, {}, [R("T"), R("T")])
    add("B", {"T": KINDS["enum"]}, {"T": "sub"}, [R("T"), ("imp", "T")])
    add("C", {"T": ("record", [("f", R("U"))], "list"), "U": KINDS["record-map"]}, {}, [R("T"), ("opt", R("U"))], host="embedded-inherit")
    add("D", {"T_3": KINDS["enum"], "T": KINDS["empty"]}, {}, [R("T"), R("T_3"), R("T"), R("T")], host="linked-sub", decl="map")
    sub = os.path.join(root, "E", "main.cwl")
    put(sub, tool(v, [("a", "T")]))
    out["E"] = (sub, None)
    sub = os.path.join(root, "F", "main.cwl")
    put(sub, tool(v, [("a", "string")]))
    out["F"] = (sub, [([], {("inputs", "a"): "string"})])
    return out


def run_history(rec, v, first, depth):
    root = case()
    docs = documents(v, root)
    for n in range(0, depth):
        for rest in itertools.product(docs, repeat=n):
            history = (first,) + rest
            for i, name in enumerate(history):
                path, procs = docs[name]
                where = "%s: packing %s after %s" % (v, name, ", ".join(history[:i]) or "nothing")
                got = pack(rec, path, where, fails=procs is not None)
                if procs is None:
                    if not rec.check(got is None, "%s: no error for an undefined type" % where):
                        return
                elif not check(rec, got, procs, where, "history-same", load=n < 2):
                    return


def run_first(rec, v):
    """In a new process, where nothing was packed before."""
    root = case()
    for name, (path, procs) in documents(v, root).items():
        if procs is None:
            continue
        code = "import sys, json; from cwl_utils.pack import pack; print(json.dumps(pack(sys.argv[1])))"
        r = subprocess.run([sys.executable, "-c", code, path], capture_output=True, text=True, cwd=EX["dir"], timeout=120,
                           env=dict(os.environ, PYTHONPATH="/repo/src"))
        where = "%s: packing %s in a new process" % (v, name)
        rec.plain_states += 1
        if r.returncode:
            rec.fail("%s: %s" % (where, r.stderr[-300:]))
            continue
        check(rec, json.loads(r.stdout), procs, where, "history-same")


def items(tier):
    depth = 5 if tier == "thorough" else 4
    for v in VERSIONS:
        for host in HOSTS:
            for decl in DECLS:
                yield ["place", v, host, decl]
                if tier == "thorough" or (decl == "list" and (v == "v1.2" or host in ("tool", "linked-sub"))) or \
                        (v == "v1.2" and host == "tool"):
                    yield ["chain", v, host, decl]
            yield ["form", v, host]
            yield ["undef", v, host]
            yield ["names", v, host]
        yield ["shadow", v]
        for a in TYPENAMES:
            yield ["typenames", v, a]
        for d in "ABCDEF":
            yield ["history", v, d, depth]
        yield ["first", v]


def BOUNDS(tier):
    return {"hosts": HOSTS, "declarations": DECLS, "directories": DIRS, "chain of references": 3, "depth of type expressions": 3,
            "length of histories": 5 if tier == "thorough" else 4, "references per document in name collisions": 4}
