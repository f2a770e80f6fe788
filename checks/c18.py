"""C18: splitting a packed document preserves every process."""

import contextlib
import copy
import io
import itertools
import json
import logging
import os
import subprocess
import sys
import tempfile
import urllib.parse

from checks import c10, c16
from mc.grammar import VERSIONS, record_name
from mc.tree import fresh

PID = "C18"
LEVEL = "model_checked_code"
RULE = ("one state per abstract set of processes x way of writing it as one packed document (qualified names as written by "
        "packers, short names as written by people) x output format; every set is split by the real code into an empty folder "
        "and again into the same folder, and the files are read back, linked and compared with the abstract processes")
ASSUMPTIONS = ["names of processes differ by more than the ending .cwl", "embedded processes have the names that packers give them"]
REQUIRED_OUTCOMES = ("split-same", "again-same", "format-same", "loaded", "construct-same", "cli-same", "types-same", "not-packed",
                     "repo-same")
ITEM_TIMEOUT = 800
EX = {}
BUILTIN = {"null", "boolean", "int", "long", "float", "double", "string", "File", "Directory", "Any", "stdin", "stdout", "stderr",
           "record", "array", "enum"}


def setup(tier):
    from cwl_utils import graph_split

    logging.disable(logging.CRITICAL)
    EX["split"] = graph_split.graph_split
    EX["run"] = graph_split.run
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    c10.setup(tier)


def case_dir():
    return fresh(os.path.join(EX["dir"], "case"))


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


# ---------------------------------------------------------------- rendering of abstract processes
#
# An abstract process has an id, lists of parameters, steps and requirements and short names everywhere.
#   {"@run": id}         the process of that name
#   {"@t": [file, name]} a user type; file None: defined by the process itself
#   SchemaDefRequirement: types = list of [file, name, "def" or "import"]

def typedef(defs, file, name, own):
    """The definition of a type with the names that packers write."""
    return qtype(defs[file][name], own, "#%s/%s" % (file or own, name), defs, name)


def qtype(t, own, scope, defs, name=None):
    """A type with qualified names; scope is the name the type itself has."""
    if isinstance(t, list):
        return [qtype(x, own, scope, defs) for x in t]
    if not isinstance(t, dict):
        return t
    if "@t" in t:
        f, n = t["@t"]
        return "#%s/%s" % (f or own, n)
    d = {}
    if name is not None:
        d["name"] = scope
    for k, v in t.items():
        if k == "fields":
            v = [dict(qtype(f, own, "%s/%s" % (scope, f["name"]), defs), name="%s/%s" % (scope, f["name"])) for f in v]
        elif k == "symbols":
            v = ["%s/%s" % (scope, s) for s in v]
        elif k in ("type", "items"):
            v = qtype(v, own, scope, defs)
        elif k == "name":
            if name is not None:
                continue
            v = scope = "%s/%s" % (scope, v)
        d[k] = v
    return d


def qualify(p, defs, pid=None, top=True, path=None):
    """The process as packers write it, with names that are qualified with its place."""
    pid = pid or p["id"]
    path = path or "#" + pid
    out = {}

    def full(r):
        return [full(x) for x in r] if isinstance(r, list) else path + "/" + r if isinstance(r, str) else r

    for k, v in p.items():
        if k == "id":
            v = path
        elif k in ("inputs", "outputs"):
            v = [port(x, path, pid, defs, full) for x in v]
        elif k in ("requirements", "hints"):
            v = [qreq(r, pid, defs) for r in v]
        elif k == "steps":
            v = [qstep(s, path, pid, defs, full) for s in v]
        out[k] = v
    return out


def port(x, path, pid, defs, full):
    x = dict(x, id=path + "/" + x["id"])
    if "type" in x:
        x["type"] = qtype(x["type"], pid, x["id"], defs)
    if "outputSource" in x:
        x["outputSource"] = full(x["outputSource"])
    return x


def qreq(r, pid, defs):
    if r.get("class") != "SchemaDefRequirement":
        return copy.deepcopy(r)
    types = []
    for f, n, how in r["types"]:
        types.append({"$import": "#%s/%s" % (f or pid, n)} if how == "import" else typedef(defs, f, n, pid))
    return dict(r, types=types)


def qstep(s, path, pid, defs, full):
    sid = path + "/" + s["id"]
    s = dict(s, id=sid)
    s["in"] = [dict(x, id=sid + "/" + x["id"], **{k: full(x[k]) for k in ("source", "loopSource") if k in x}) for x in s["in"]]
    s["out"] = [dict(o, id=sid + "/" + o["id"]) if isinstance(o, dict) else sid + "/" + o for o in s["out"]]
    if "scatter" in s:
        s["scatter"] = [sid + "/" + x for x in s["scatter"]] if isinstance(s["scatter"], list) else sid + "/" + s["scatter"]
    for k in ("requirements", "hints"):
        if k in s:
            s[k] = [qreq(r, pid, defs) for r in s[k]]
    run = s["run"]
    if "@run" in run:
        s["run"] = "#" + run["@run"]
    else:
        path = sid + "/run" + ("/" + run["id"] if "id" in run else "")
        s["run"] = qualify(run, defs, pid, False, path)
        if "id" in run:
            s["run"]["id"] = path
    return s


def people(p, defs, maps, pid=None):
    """The process as people write it: short names, and maps for the lists of parameters, steps and requirements."""
    own = pid or p["id"]
    out = {}
    for k, v in p.items():
        if k in ("inputs", "outputs"):
            v = [dict(x, **({"type": qtype(x["type"], own, "#%s/%s" % (own, x["id"]), defs)} if "type" in x else {})) for x in v]
            v = mapped(v, "id", "type") if maps else v
        elif k in ("requirements", "hints"):
            v = [qreq(r, own, defs) for r in v]
            v = mapped(v, "class", None) if maps else v
        elif k == "steps":
            v = [dict(s, **{"in": mapped(s["in"], "id", "source") if maps else s["in"],
                            "run": "#" + s["run"]["@run"] if "@run" in s["run"] else people(s["run"], defs, maps, own)})
                 for s in v]
            for s in v:
                for f in ("requirements", "hints"):
                    if f in s:
                        s[f] = [qreq(r, own, defs) for r in s[f]]
                        s[f] = mapped(s[f], "class", None) if maps else s[f]
            v = mapped(v, "id", None) if maps else v
        out[k] = v
    return out


def mapped(entries, key, pred):
    names = [e[key] for e in entries]
    if len(set(names)) != len(names):
        return entries
    out = {}
    for e in entries:
        e = dict(e)
        n = e.pop(key)
        # only a lone predicate may stand for the whole entry, and not if it would be mistaken for one
        out[n] = e[pred] if pred and list(e) == [pred] and not isinstance(e[pred], dict) else e
    return out


# ---------------------------------------------------------------- reading the result back

class Bad(Exception):
    pass


def last(x):
    return x.rsplit("#", 1)[-1].rsplit("/", 1)[-1]


def rtype(t, host, seen=()):
    """A type with short names and user types as {"@t": [file, name]}."""
    if isinstance(t, list):
        return [rtype(x, host) for x in t]
    if isinstance(t, str):
        if t.endswith("?"):
            return ["null", rtype(t[:-1], host)]
        if t.endswith("[]"):
            return {"type": "array", "items": rtype(t[:-2], host)}
        if t in BUILTIN:
            return t
        f, _, n = t.partition("#")
        return {"@t": [f or None, n]}
    d = {}
    for k, v in t.items():
        if k == "fields":
            v = [dict(rtype(f, host), name=last(f["name"])) for f in c16.tolist(v, "name", "type")]
        elif k == "symbols":
            v = [last(s) for s in v]
        elif k == "name":
            v = last(v)
        elif k in ("type", "items"):
            v = rtype(v, host)
        d[k] = v
    return d


def read(text):
    """JSON or YAML."""
    try:
        return json.loads(text)
    except ValueError:
        from ruamel.yaml import YAML

        return YAML(typ="safe", pure=True).load(text)


class Folder:
    """The files of a split document."""

    def __init__(self, path):
        self.path = path
        self.files = {}
        self.cache = {}
        for d, _, names in os.walk(path):
            for n in names:
                p = os.path.join(d, n)
                with open(p, encoding="utf-8") as h:
                    self.files[os.path.relpath(p, path)] = h.read()
        self.used = set()

    def data(self, name):
        if name not in self.files:
            raise Bad("there is no file %r, only %s" % (name, sorted(self.files)))
        self.used.add(name)
        if name not in self.cache:
            self.cache[name] = json.dumps(read(self.files[name]))
        return json.loads(self.cache[name])

    def types(self, name):
        d = self.data(name)
        return {last(t["name"]): t for t in (d if isinstance(d, list) else [d])}

    def process(self, p, host, scope=()):
        """The abstract form of a process that was read from a file."""
        out = {}
        visible = set(scope)
        for r in c16.tolist(p.get("requirements"), "class", None) + c16.tolist(p.get("hints"), "class", None):
            if r.get("class") == "SchemaDefRequirement":
                visible |= {("", n) if f is None else (f, n) for f, n, _ in self.schemadef(r, host)["types"]}
        for k, v in p.items():
            if k in ("inputs", "outputs"):
                v = [self.port(x, host, visible) for x in c16.tolist(v, "id", "type")]
            elif k in ("requirements", "hints"):
                v = [self.schemadef(r, host) for r in c16.tolist(v, "class", None)]
            elif k == "steps":
                v = [self.step(s, host, visible) for s in c16.tolist(v, "id", None)]
            elif k == "id":
                v = last(v)
            out[k] = v
        return out

    def port(self, x, host, visible):
        x = dict(x, id=last(x["id"]))
        if "type" in x:
            x["type"] = rtype(x["type"], host)
            self.see(x["type"], visible, x["id"])
        if "outputSource" in x:
            x["outputSource"] = relative(x["outputSource"])
        return x

    def see(self, t, visible, where):
        for f, n in named(t):
            if (f or "", n) not in visible:
                raise Bad("the type %s#%s of %s is not defined where it is used" % (f or "", n, where))

    def schemadef(self, r, host):
        if r.get("class") != "SchemaDefRequirement":
            return r
        types = []
        for t in r["types"]:
            if set(t) == {"$import"}:
                if "#" in t["$import"]:
                    raise Bad("import of %s" % t["$import"])
                for n in self.types(t["$import"]):
                    types.append([t["$import"], n, None])
            else:
                types.append([None, last(t["name"]), rtype(t, host)])
        return dict(r, types=types)

    def step(self, s, host, visible):
        s = dict(s, id=last(s["id"]))
        s["in"] = [dict(x, id=last(x["id"]), **{k: relative(x[k]) for k in ("source", "loopSource") if k in x})
                   for x in c16.tolist(s["in"], "id", "source")]
        s["out"] = [dict(o, id=last(o["id"])) if isinstance(o, dict) else last(o) for o in s["out"]]
        if "scatter" in s:
            s["scatter"] = [last(x) for x in s["scatter"]] if isinstance(s["scatter"], list) else last(s["scatter"])
        sub = set(visible)
        for k in ("requirements", "hints"):
            if k in s:
                s[k] = [self.schemadef(r, host) for r in c16.tolist(s[k], "class", None)]
                for r in s[k]:
                    if r.get("class") == "SchemaDefRequirement":
                        sub |= {(f or "", n) for f, n, _ in r["types"]}
        s["run"] = {"@run": s["run"]} if isinstance(s["run"], str) else self.process(s["run"], host, sub)
        return s


def relative(r):
    """The last two parts of a reference at most: s1/o, or a."""
    return [relative(x) for x in r] if isinstance(r, list) else r


def named(t):
    if isinstance(t, list):
        for x in t:
            yield from named(x)
    elif isinstance(t, dict):
        if "@t" in t:
            yield tuple(t["@t"])
        for k in ("type", "items", "fields"):
            yield from named(t.get(k))


def tail(ref, path):
    """A reference without the place of the embedded process that it is used in."""
    if isinstance(ref, list):
        return [tail(x, path) for x in ref]
    if isinstance(ref, str) and path and ref.startswith(path + "/"):
        return ref[len(path) + 1:]
    return ref


def compare_process(want, got, folder, defs, names, path="", version=None):
    """None, or what is different. names maps the ids of processes to the files."""
    a, b = copy.deepcopy(want), got
    if version:
        a.pop("id", None)
        b.pop("id", None)
        a["cwlVersion"] = version
    wsteps, gsteps = a.pop("steps", []), b.pop("steps", [])
    for k in ("requirements", "hints"):
        d = compare_reqs(a.pop(k, []), b.pop(k, []), folder, defs)
        if d:
            return "%s: %s" % (k, d)
    for x in b.get("outputs", []):
        if "outputSource" in x:
            x["outputSource"] = tail(x["outputSource"], path)
    for p in (a, b):
        for x in p["inputs"] + p["outputs"]:
            if "type" in x:
                x["type"] = ntype(x["type"])
    d = c10.same(b, a)
    if d:
        return d
    if len(wsteps) != len(gsteps):
        return "%d steps instead of %d" % (len(gsteps), len(wsteps))
    for s, t in zip(wsteps, gsteps):
        s = copy.deepcopy(s)
        r, q = s.pop("run"), t.pop("run")
        for k in ("requirements", "hints"):
            d = compare_reqs(s.pop(k, []), t.pop(k, []), folder, defs)
            if d:
                return "%s of step: %s" % (k, d)
        for x in t["in"]:
            for k in ("source", "loopSource"):
                if k in x:
                    x[k] = tail(x[k], path)
        d = c10.same(t, s)
        if d:
            return "step %s: %s" % (s["id"], d)
        inner = (path + "/" if path else "") + s["id"] + "/run"
        if "@run" in r:
            if q != {"@run": names[r["@run"]]}:
                return "step %s runs %s instead of %s" % (s["id"], q, names[r["@run"]])
        else:
            if "@run" in q:
                return "step %s runs %s instead of an embedded process" % (s["id"], q)
            d = compare_process(r, q, folder, defs, names, inner)
            if d:
                return "in step %s: %s" % (s["id"], d)
    return None


def ntype(t):
    """Without the names of inline types (packers add them), members of unions once."""
    if isinstance(t, list):
        return [ntype(x) for x in t]
    if isinstance(t, dict) and "@t" not in t:
        d = {k: (ntype(v) if k in ("type", "items") else [ntype(f) for f in v] if k == "fields" else v) for k, v in t.items()}
        return d
    return t


def compare_reqs(want, got, folder, defs):
    want, got = (sorted(x, key=lambda r: r.get("class")) for x in (want, got))
    if [r.get("class") for r in want] != [r.get("class") for r in got]:
        return "%s instead of %s" % ([r.get("class") for r in got], [r.get("class") for r in want])
    for r, q in zip(want, got):
        if r.get("class") != "SchemaDefRequirement":
            d = c10.same(q, r)
            if d:
                return d
            continue
        have = {(f, n): t for f, n, t in q["types"]}
        if len(have) != len(q["types"]):
            return "types are defined twice: %s" % q["types"]
        need = {(f, n) for f, n, _ in r["types"]}
        for f, n in need:
            if (f, n) not in have:
                return "the type %s of %s is gone" % (n, f)
        for f, n in have:
            if f is None and (f, n) not in need:
                return "there is a new type %s" % n
            if f is not None and f not in {x for x, _ in need}:
                return "types of %s turn up" % f
        for (f, n), t in have.items():
            raw = t if f is None else rtype(folder.types(f)[n], f)
            raw = local(raw, f)
            d = c10.same(raw, dict(ownrefs(defs[f][n], f), name=n))
            if d:
                return "type %s of %s: %s" % (n, f, d)
    return None


def local(t, f):
    """References inside a file to the file itself."""
    if isinstance(t, list):
        return [local(x, f) for x in t]
    if isinstance(t, dict):
        if "@t" in t:
            return {"@t": [t["@t"][0] or f, t["@t"][1]]}
        return {k: (local(v, f) if k in ("type", "items", "fields") else v) for k, v in t.items()}
    return t


def ownrefs(t, f):
    return local(t, f)


# ---------------------------------------------------------------- one packed document

def split(doc, outdir, fmt, mainfile, pretty, name="packed.cwl"):
    text = json.dumps(doc)
    src = os.path.join(EX["dir"], name)
    with open(src, "w", encoding="utf-8") as h:
        h.write(text)
    with open(src, encoding="utf-8") as h, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        EX["split"](h, __import__("pathlib").Path(outdir), fmt, mainfile, pretty)


def file_of(pid, mainfile):
    if pid == "main":
        pid = mainfile or "unpacked_packed.cwl"
    return pid[:-4] + ".cwl" if pid.endswith(".cwl") else pid + ".cwl"


FORMATS = (("json", False), ("yaml", False), ("yaml", True))


def check(rec, where, procs, version, defs=None, mainfile="wf.cwl", forms=("packer", "people", "maps"), formats=FORMATS,
          extra=None, load=True, outcome="split-same"):
    """Splits the processes in each form and format and compares the files with them."""
    defs = defs or {}
    ok = True
    valid = set()
    for form in forms:
        if form == "packer":
            graph = [qualify(p, defs) for p in procs]
        else:
            graph = [people(p, defs, form == "maps") for p in procs]
        doc = dict({"cwlVersion": version}, **(extra or {}), **{"$graph": graph})
        if form == "packer":
            doc = {k: doc[k] for k in ["$graph", "cwlVersion"] + list(extra or {})}
        results = {}
        for fmt, pretty in formats:
            tag = "%s, written by %s, split to %s%s" % (where, form, fmt, " (pretty)" if pretty else "")
            rec.plain_states += 1
            rec.step(2)
            rec.trace(1)
            out = os.path.join(case_dir(), "out")
            try:
                split(doc, out, fmt, mainfile, pretty)
            except (Exception, SystemExit) as exc:
                rec.fail("%s: %s: %s" % (tag, type(exc).__name__, str(exc)[-300:]), doc=doc)
                ok = False
                continue
            f = Folder(out)
            names = {p["id"]: file_of(p["id"], mainfile) for p in procs}
            try:
                for p in procs:
                    data = f.data(names[p["id"]])
                    for k, v in (extra or {}).items():
                        if data.pop(k, None) != v:
                            raise Bad("%s of the document is not in %s" % (k, names[p["id"]]))
                    if fmt == "json":
                        json.loads(f.files[names[p["id"]]])
                    d = compare_process(p, f.process(data, names[p["id"]]), f, defs, names, version=version)
                    if d:
                        raise Bad("process %s: %s" % (p["id"], d))
                if set(f.files) != f.used:
                    raise Bad("unexpected files %s" % sorted(set(f.files) - f.used))
                if load:
                    for p in procs:
                        n = names[p["id"]]
                        content = json.dumps([f.data(n), {m: f.data(m) for m in f.files if m not in names.values()}], sort_keys=True)
                        if (n, content) not in valid:       # the same data in another format need not be loaded again
                            loads(os.path.join(out, n), f.data(n), p)
                            valid.add((n, content))
                    rec.outcome("loaded")
            except Bad as exc:
                rec.fail("%s: %s" % (tag, exc), doc=doc, files=f.files)
                ok = False
                continue
            except Exception as exc:
                rec.fail("%s: not readable: %s: %s" % (tag, type(exc).__name__, str(exc)[-400:]), doc=doc, files=f.files)
                ok = False
                continue
            if form != "packer" and not defs:
                results[fmt, pretty] = {n: f.data(n) for n in f.files}
                continue
            try:
                split(doc, out, fmt, mainfile, pretty)
            except (Exception, SystemExit) as exc:
                rec.fail("%s, again: %s: %s" % (tag, type(exc).__name__, str(exc)[-300:]), doc=doc)
                ok = False
                continue
            g = Folder(out)
            if g.files != f.files:
                rec.fail("%s: another run into the same folder changes %s" % (
                    tag, sorted(n for n in set(f.files) | set(g.files) if f.files.get(n) != g.files.get(n))), doc=doc)
                ok = False
                continue
            rec.outcome("again-same")
            results[fmt, pretty] = {n: f.data(n) for n in f.files}
        if len(results) > 1:
            first = results[next(iter(results))]
            for r in results.values():
                if r != first:
                    rec.fail("%s, written by %s: the formats differ" % (where, form), doc=doc)
                    ok = False
                    break
            else:
                rec.outcome("format-same")
    if ok:
        rec.outcome(outcome)
    return ok


def loads(path, data, p):
    """The file is valid and all its references reach what they name."""
    from cwl_utils.parser import load_document_by_yaml

    try:
        ob = load_document_by_yaml(data, "file://" + urllib.parse.quote(path))
    except Exception as exc:
        raise Bad("%s is not valid: %s" % (os.path.basename(path), str(exc)[-400:]))
    if isinstance(ob, list):
        raise Bad("%s holds several processes" % os.path.basename(path))
    links(ob, p, set())


def links(ob, p, types):
    types = set(types) | defined(ob)
    usable(ob.inputs, types)
    usable(ob.outputs, types)
    if type(ob).__name__ != "Workflow":
        return
    sources = {last(i.id): i.id for i in ob.inputs}
    for s in ob.steps:
        for o in s.out:
            oid = o if isinstance(o, str) else o.id
            sources[last(s.id) + "/" + last(oid)] = oid

    def resolve(r):
        if isinstance(r, list):
            return [resolve(x) for x in r]
        if r not in sources:
            raise Bad("reference to %s, which is nothing of %s" % (r, sources))
        return sources[r]

    for o, q in zip(ob.outputs, p["outputs"]):
        if "outputSource" in q and o.outputSource != resolve(q["outputSource"]):
            raise Bad("%s is the source of output %s instead of %s" % (o.outputSource, o.id, resolve(q["outputSource"])))
    for s, t in zip(ob.steps, p["steps"]):
        ins = {last(i.id): i.id for i in s.in_}
        for i, q in zip(s.in_, t["in"]):
            if "source" in q and i.source != resolve(q["source"]):
                raise Bad("%s is the source of %s instead of %s" % (i.source, i.id, resolve(q["source"])))
        if "scatter" in t:
            want = [ins[x] for x in t["scatter"]] if isinstance(t["scatter"], list) else ins[t["scatter"]]
            if s.scatter != want:
                raise Bad("scatter over %s instead of %s" % (s.scatter, want))
        stypes = types | defined(s)
        if "@run" in t["run"]:
            if not isinstance(s.run, str) or not os.path.isfile(s.run[len("file://"):]):
                raise Bad("step %s runs %s" % (s.id, s.run))
        else:
            links(s.run, t["run"], stypes)


def defined(ob):
    out = set()
    for r in list(getattr(ob, "requirements", None) or []) + list(getattr(ob, "hints", None) or []):
        if type(r).__name__ == "SchemaDefRequirement":
            for t in r.types:
                out.add(t.name)
    return out


def usable(ports, types):
    for x in ports:
        for t in uses(getattr(x, "type_", None) if hasattr(x, "type_") else x.type):
            if t not in types:
                raise Bad("the type %s of %s is not among %s" % (t, x.id, sorted(types)))


def uses(t):
    if isinstance(t, list):
        for x in t:
            yield from uses(x)
    elif isinstance(t, str):
        if t not in BUILTIN:
            yield t
    elif t is not None:
        for a in ("type_", "items", "fields"):
            v = getattr(t, a, None)
            if a == "type_" and isinstance(v, str):
                if v not in BUILTIN:
                    yield v
            elif v is not None:
                if a == "fields":
                    for f in v:
                        yield from uses(f)
                else:
                    yield from uses(v)


# ---------------------------------------------------------------- makers

def tool(pid="t", **kw):
    return dict({"id": pid, "class": "CommandLineTool", "inputs": [{"id": "p", "type": "File"}],
                 "outputs": [{"id": "o", "type": "File", "outputBinding": {"glob": "x"}}], "baseCommand": ["x"]}, **kw)


def etool(pid="e", **kw):
    return dict({"id": pid, "class": "ExpressionTool", "requirements": [{"class": "InlineJavascriptRequirement"}],
                 "inputs": [{"id": "p", "type": "File"}], "outputs": [{"id": "o", "type": "File"}],
                 "expression": "${return {o: inputs.p};}"}, **kw)


def step(run, sid="s1", **kw):
    return dict({"id": sid, "in": [{"id": "p", "source": "a"}], "out": ["o"],
                 "run": {"@run": run} if isinstance(run, str) else run}, **kw)


def wf(pid="main", steps=None, **kw):
    return dict({"id": pid, "class": "Workflow", "inputs": [{"id": "a", "type": "File"}],
                 "outputs": [{"id": "z", "type": "File", "outputSource": "s1/o"}],
                 "steps": steps if steps is not None else [step("t")]}, **kw)


# ---------------------------------------------------------------- names of processes

NAMES = ("tool", "tool.cwl", "main2", "mainx.cwl", "a.b", "xcwl", "t.cwl.x", "unmain", "Tool", "s1", "p", "wf", "main.cwl", "a-b_c",
         "t.json", "\u00e9", "_tool", "_", "-x", ".h", "0", "1.5", "tool_", "a+b", "x,y", "a@b")


def run_names(rec, v, a, mainfile):
    """Every pair of names for the linked processes, the workflow called main or something else."""
    for b in NAMES:
        if file_of(a, None).lower() == file_of(b, None).lower():
            continue
        for w in ("main", "mainwf", "m.cwl"):
            if mainfile != "wf.cwl" and w != "main":
                continue
            files = [file_of(x, mainfile) for x in (a, b, w)]
            if len({f.lower() for f in files}) < 3:
                continue
            for order in ((0, 1, 2), (2, 1, 0), (1, 2, 0)):
                procs = [tool(a), wf(b, [step(a)]), wf(w, [step(b, "s1"), step(a, "s2")],
                                                     requirements=[{"class": "SubworkflowFeatureRequirement"}])]
                procs = [procs[i] for i in order]
                check(rec, "%s processes %s, mainfile %s" % (v, [p["id"] for p in procs], mainfile), procs, v, mainfile=mainfile,
                      forms=("packer", "people"), formats=FORMATS[:1] if order != (0, 1, 2) else FORMATS[:2], load=b in ("tool", "main2"))


def run_mainref(rec, v, mainfile):
    """The process called main is the part of another one."""
    for kind in ("tool", "wf"):
        m = tool("main") if kind == "tool" else wf("main", [step("t")])
        procs = [m, tool("t"), wf("top", [step("main"), step("t", "s2")], requirements=[{"class": "SubworkflowFeatureRequirement"}])]
        for ps in itertools.permutations(procs):
            check(rec, "%s main is run by %s" % (v, [p["id"] for p in ps]), list(ps), v, mainfile=mainfile)


# ---------------------------------------------------------------- names inside processes

PARTS = ("a", "main", "s1", "mainx", "t", "run", "id", "in", "source", "o", "a.b", "default", "type", "steps", "class")


def run_partnames(rec, v, pid):
    """Parameters and steps that are called like processes, fields or each other."""
    for a, s in itertools.product(PARTS, repeat=2):
        procs = [tool("t", inputs=[{"id": a, "type": "File"}], outputs=[{"id": s, "type": "File", "outputBinding": {"glob": "x"}}]),
                 {"id": pid, "class": "Workflow", "inputs": [{"id": a, "type": "File"}, {"id": a + "2", "type": "File"}],
                  "outputs": [{"id": s + "_z", "type": "File", "outputSource": s + "/" + s}],
                  "steps": [step("t", s, **{"in": [{"id": a, "source": a + "2"}], "out": [s]}),
                            step("t", s + "2", **{"in": [{"id": a, "source": s + "/" + s}], "out": [s]})]}]
        check(rec, "%s workflow %s with input %s and step %s" % (v, pid, a, s), procs, v, formats=FORMATS[:1],
              load=a not in ("class",) and s not in ("class",))


# ---------------------------------------------------------------- links

def run_links(rec, v, host):
    """Every form of source, scatter, output and default of a step, in a workflow of its own or an embedded one."""
    srcs = [None, "a", "s0/o", ["a"], ["a", "s0/o"], ["s0/o", "s0/o2", "b"], []]
    scs = [None, "p", ["p"], ["p", "q"]]
    for src, sc in itertools.product(srcs, scs):
        for outs in (["o"], [{"id": "o"}], ["o", {"id": "o2"}], []):
            for osrc in ("s1/o", ["s1/o"], ["s0/o", "s1/o"], "a", ["a", "b"]):
                if not outs and "s1/o" in osrc:
                    continue
                if (sc or outs != ["o"] or src != "a") and osrc != "s1/o":
                    continue
                arrs = {"type": "array", "items": "File"}
                t = tool("t", inputs=[{"id": "p", "type": "Any"}, {"id": "q", "type": "Any"}],
                         outputs=[{"id": x, "type": "File", "outputBinding": {"glob": x}} for x in ("o", "o2")])
                ip = {"id": "p"}
                if src is not None:
                    ip["source"] = src
                    if len(src) > 1 and isinstance(src, list):
                        ip["linkMerge"] = "merge_flattened"
                else:
                    ip["default"] = [1]
                s1 = {"id": "s1", "in": [ip, {"id": "q", "source": "b", "default": 3}], "out": outs, "run": {"@run": "t"}}
                reqs = [{"class": "MultipleInputFeatureRequirement"}]
                if sc:
                    s1["scatter"] = sc
                    if len(sc) > 1:
                        s1["scatterMethod"] = "dotproduct"
                    reqs.append({"class": "ScatterFeatureRequirement"})
                w = {"class": "Workflow", "requirements": reqs,
                     "inputs": [{"id": "a", "type": arrs}, {"id": "b", "type": arrs}],
                     "outputs": [{"id": "z", "type": "Any", "outputSource": osrc}],
                     "steps": [{"id": "s0", "in": [{"id": "p", "source": "a"}, {"id": "q", "default": 1}], "out": ["o", "o2"],
                                "run": {"@run": "t"}}, s1]}
                procs = hosted(w, host) + [t]
                check(rec, "%s %s: source %s, scatter %s, out %s, outputSource %s" % (v, host, src, sc, outs, osrc), procs, v,
                      formats=FORMATS[:1] if sc else FORMATS[:2], load=osrc == "s1/o" or outs == ["o"])


HOSTS = ("main", "other", "embedded", "deep", "named", "deepnamed")


def hosted(w, host):
    """The processes of a document with the workflow in some place."""
    if host in ("main", "other"):
        return [dict({"id": host}, **w)]
    if host.endswith("named"):
        w = dict({"id": "sub"}, **w)
    sub = [{"class": "SubworkflowFeatureRequirement"}]
    ins = [{"id": i["id"], "source": i["id"]} for i in w["inputs"]]
    outer = {"class": "Workflow", "requirements": sub, "inputs": [dict(i) for i in w["inputs"]],
             "outputs": [{"id": "z", "type": "Any", "outputSource": "e/z"}],
             "steps": [{"id": "e", "in": ins, "out": ["z"], "run": w}]}
    if host in ("embedded", "named"):
        return [dict({"id": "main"}, **outer)]
    outer["requirements"] = sub
    return [dict({"id": "main"}, **{"class": "Workflow", "requirements": sub, "inputs": [dict(i) for i in w["inputs"]],
            "outputs": [{"id": "z", "type": "Any", "outputSource": "d/z"}],
            "steps": [{"id": "d", "in": ins, "out": ["z"], "run": outer}]})]


# ---------------------------------------------------------------- data that looks like structure

DATA = [{"id": "#main/x"}, {"run": "#t", "source": "#main/a", "out": ["#main/s1/o"]}, {"type": "#f.yml/T", "items": "#main/T"},
        {"inputs": {"a": "#main/a"}, "steps": [{"id": "#main/s", "in": []}]}, {"$import": "#f.yml/T"},
        "#main/a", ["#main/a", "#t"], {"class": "SchemaDefRequirement", "types": [{"name": "#f.yml/T", "type": "enum", "symbols": ["#f.yml/T/a"]}]},
        {"class": "File", "location": "file:///x/y#main/z", "format": "#main/f"}, {"default": {"run": "#t"}}, None, [], {}, 0, False, "",
        {"requirements": {"SchemaDefRequirement": {"types": []}}, "name": "#main/n", "symbols": ["#main/s"]}]


def run_data(rec, v):
    """Default values are data, not references, wherever they are."""
    for x in DATA:
        if v == "v1.0" and x is None:
            continue
        procs = [tool("t", inputs=[{"id": "p", "type": "Any", "default": x}]),
                 wf("main", [step("t", **{"in": [{"id": "p", "source": "a", "default": x}]})], inputs=[{"id": "a", "type": "Any", "default": x}])]
        imports = "$import" in json.dumps(x)
        check(rec, "%s default %s" % (v, json.dumps(x)), procs, v, load=not imports and "SchemaDef" not in json.dumps(x))


# ---------------------------------------------------------------- requirements

REQS = [{"class": "InlineJavascriptRequirement", "expressionLib": ["var a = '#main/x';"]},
        {"class": "EnvVarRequirement", "envDef": [{"envName": "A", "envValue": "#main/a"}]},
        {"class": "InitialWorkDirRequirement", "listing": [{"entryname": "e", "entry": "#main/x\n$(inputs.p)"}, "$(inputs.p)"]},
        {"class": "ResourceRequirement", "coresMin": 1, "ramMin": "$(1+1)"}, {"class": "ShellCommandRequirement"},
        {"class": "DockerRequirement", "dockerPull": "main/x"},
        {"class": "SoftwareRequirement", "packages": [{"package": "p", "specs": ["https://x.org/#main/y"], "version": ["1"]}]}]


def run_reqs(rec, v):
    """Every requirement and hint, on tools, workflows, steps and embedded processes."""
    for r in REQS:
        for place in ("requirements", "hints"):
            for at in ("tool", "wf", "step", "embedded"):
                t, w = tool("t"), wf("main")
                if at == "embedded":
                    e = tool("x")
                    del e["id"]
                    w = wf("main", [step(e), step("t", "s2")])
                    e[place] = [r]
                elif at == "tool":
                    t[place] = [r, {"class": "InlineJavascriptRequirement"}] if r["class"][:3] != "Inl" else [r]
                elif at == "wf":
                    w[place] = [r]
                else:
                    w["steps"][0][place] = [r]
                check(rec, "%s %s %s of %s" % (v, r["class"], place, at), [t, w], v)


# ---------------------------------------------------------------- user types

DEFS = {
    "f.yml": {
        "E": {"type": "enum", "symbols": ["a", "b/c"[:1] + "x"]},
        "R": {"type": "record", "fields": [{"name": "x", "type": "int"}, {"name": "e", "type": {"@t": ["f.yml", "E"]}},
                                           {"name": "g", "type": ["null", {"@t": ["g.yml", "G"]}]}]},
        "A": {"type": "array", "items": {"@t": ["f.yml", "R"]}},
    },
    "g.yml": {
        "G": {"type": "record", "fields": [{"name": "x", "type": {"type": "array", "items": {"@t": ["h.yml", "H"]}}}]},
        "N": {"type": "array", "items": {"type": "array", "items": ["null", "int", {"@t": ["h.yml", "H"]}]}},
    },
    "h.yml": {"H": {"type": "enum", "symbols": ["h1", "main"], "label": "the H"}},
    None: {
        "E": {"type": "enum", "symbols": ["p", "q"]},
        "L": {"type": "record", "label": "own", "fields": [{"name": "e", "type": {"@t": [None, "E"]}, "doc": "d"},
                                                           {"name": "h", "type": {"@t": ["h.yml", "H"]}}]},
    },
}
NEEDS = {("f.yml", "E"): [], ("f.yml", "R"): [("h.yml", "H"), ("g.yml", "G"), ("f.yml", "E")], ("f.yml", "A"): [("f.yml", "R")],
         ("g.yml", "G"): [("h.yml", "H")], ("g.yml", "N"): [("h.yml", "H")], ("h.yml", "H"): [], (None, "E"): [],
         (None, "L"): [(None, "E"), ("h.yml", "H")]}


def closure(names):
    out = []

    def add(n):
        for m in NEEDS[n]:
            add(m)
        if n not in out:
            out.append(n)

    for n in names:
        add(n)
    return out


def schemadef(names, how="def"):
    return {"class": "SchemaDefRequirement", "types": [[f, n, how if f else "def"] for f, n in names]}


WRAPS = {"plain": lambda t: t, "null": lambda t: ["null", t], "array": lambda t: {"type": "array", "items": t},
         "arrays": lambda t: {"type": "array", "items": {"type": "array", "items": [t, "null"]}},
         "record": lambda t: {"type": "record", "fields": [{"name": "f", "type": t}, {"name": "t", "type": ["null", {"type": "array", "items": t}]}]},
         "named": lambda t: {"type": "record", "name": "rr", "fields": [{"name": "f", "type": ["null", {"type": "record", "name": "ss", "fields": [
             {"name": "g", "type": t}, {"name": "e", "type": {"type": "enum", "name": "ee", "symbols": ["a", "b"]}}]}]}]},
         "union": lambda t: ["int", {"type": "array", "items": t}, t]}
TYPES = sorted((n for n in NEEDS), key=str)


def types_of(v):
    """Arrays have no names in CWL v1.0."""
    return [n for n in TYPES if v != "v1.0" or all(DEFS[f][m]["type"] != "array" for f, m in closure([n]))]


def run_types(rec, v, wrap, place):
    """Every user type in every position of a tool and of a workflow, defined in either or in both."""
    for n in types_of(v):
        for how in ("def", "import"):
            if n[0] is None and how == "import":
                continue
            names = closure([n])
            if place == "hints" and how == "import":
                continue
            ty = WRAPS[wrap]({"@t": list(n)})
            t = tool("t", inputs=[{"id": "p", "type": ty}], outputs=[{"id": "o", "type": copy.deepcopy(ty), "outputBinding": {"outputEval": "$(1)"}}])
            w = wf("main", inputs=[{"id": "a", "type": copy.deepcopy(ty)}], outputs=[{"id": "z", "type": copy.deepcopy(ty), "outputSource": "s1/o"}])
            t[place] = [schemadef(names), {"class": "InlineJavascriptRequirement"}]
            w[place] = [{"class": "StepInputExpressionRequirement"}, schemadef(names, how)]
            for ps in ([t, w], [w, t]):
                if ps[0] is w and how == "import":
                    # the definition comes after its use
                    pass
                check(rec, "%s type %s as %s, %s by %s, in %s" % (v, n, wrap, how, ps[0]["id"], place), ps, v, DEFS,
                      formats=FORMATS if wrap in ("plain", "record") else FORMATS[:1], load=v != "v1.0" or place != "hints", outcome="types-same")
            if n[0] is None:
                continue
            # only the tool has types; only the workflow has types
            w2 = wf("main", inputs=[{"id": "a", "type": "Any"}], outputs=[])
            check(rec, "%s type %s as %s only in the tool" % (v, n, wrap), [t, w2], v, DEFS, formats=FORMATS[:1],
                  load=v != "v1.0" or place != "hints", outcome="types-same")
            e = {k: x for k, x in t.items() if k != "id"}
            w3 = wf("main", [step(e)], inputs=[{"id": "a", "type": "Any"}], outputs=[])
            check(rec, "%s type %s as %s in an embedded tool" % (v, n, wrap), [w3], v, DEFS, formats=FORMATS[:1],
                  load=v != "v1.0" or place != "hints", outcome="types-same")


def run_typesets(rec, v):
    """Every pair of types in one process, and in two, with every overlap of their files."""
    for n, m in itertools.product(types_of(v), repeat=2):
        tn, tm = {"@t": list(n)}, {"@t": list(m)}
        both = closure([n, m])
        t = tool("t", inputs=[{"id": "p", "type": tn}, {"id": "q", "type": ["null", tm]}], requirements=[schemadef(both)])
        w = wf("main", inputs=[{"id": "a", "type": tm}], outputs=[], requirements=[schemadef(closure([m]))])
        check(rec, "%s types %s and %s in one tool" % (v, n, m), [t, w], v, DEFS, outcome="types-same")
        if None in (n[0], m[0]):
            continue
        w["steps"] = [step("u")]
        u = tool("u", inputs=[{"id": "p", "type": tn}], requirements=[schemadef(closure([n]))])
        for ps in ([u, w], [w, u]):
            check(rec, "%s types %s and %s in two processes" % (v, n, m), ps, v, DEFS, formats=FORMATS[:1], outcome="types-same")


# ---------------------------------------------------------------- constructs of the grammar

def run_construct(rec, v, name):
    """Every construct and field value, in a process of its own and in an embedded one."""
    g, gen, oracle = c10.get(v)
    insts = []
    for f, alts in gen.fields(name):
        for val in gen.values(name, f, alts):
            if c10.usable(gen, v, name, f, val) and not (f in ("id", "name") and val is None):
                insts.append((f, dict(gen.minimal(name), **{f: val})))
    for k in range(12):
        insts.append(("all %d" % k, c10.all_fields(gen, name, k)))
    for f, inst in insts:
        doc = gen.document(name, inst)
        text = json.dumps(doc)
        if "udt" in text or "SchemaDefRequirement" in text or '"n_x' in text or '"#n_x' in text:
            continue
        if "ProcessGenerator" in text or "main2" in text or '"#' in text.replace('"#c"', '') or doc.get("id", "") is None:
            continue
        if "$import" in text or "$include" in text or "$mixin" in text:
            continue
        if oracle.resolve(doc, c10.URI)[0] is None:
            continue
        doc = dict(doc, id="x.cwl")
        ns = {k: doc.pop(k) for k in ("$namespaces", "$schemas") if k in doc}
        doc.pop("cwlVersion")
        outer = {"id": "main", "class": "Workflow", "inputs": [], "outputs": [], "requirements": [{"class": "SubworkflowFeatureRequirement"}],
                 "steps": [{"id": "st", "in": [], "out": [], "run": "#x.cwl"}]}
        emb = dict(outer, steps=[{"id": "st", "in": [], "out": [], "run": {k: x for k, x in doc.items() if k != "id"}}])
        for h, graph in (("process", [doc, outer]), ("embedded", [emb])):
            where = "%s %s.%s in %s" % (v, record_name(name), f, h)
            full = dict({"cwlVersion": v}, **ns, **{"$graph": graph})
            out = os.path.join(case_dir(), "out")
            rec.plain_states += 1
            rec.step(1)
            rec.trace(1)
            try:
                split(full, out, "json", "wf.cwl", False)
                fo = Folder(out)
                for p, n in zip(graph, ("x.cwl", "wf.cwl") if h == "process" else ("wf.cwl",)):
                    data = fo.data(n)
                    want = dict(copy.deepcopy(p), cwlVersion=v, **ns)
                    want.pop("id")
                    if n == "wf.cwl" and h == "process":
                        want["steps"][0]["run"] = "x.cwl"
                    d = c10.same(data, want)
                    if d:
                        raise Bad(d)
                if set(fo.files) != fo.used:
                    raise Bad("files %s" % sorted(fo.files))
            except (Exception, SystemExit) as exc:
                rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-400:]), doc=full)
            else:
                rec.outcome("construct-same")


# ---------------------------------------------------------------- namespaces, formats, other entry points

def run_meta(rec, v):
    ns = {"edam": "http://edamontology.org/", "main": "http://example.org/"}
    for extra in ({"$namespaces": ns}, {"$namespaces": ns, "$schemas": ["http://edamontology.org/EDAM.owl"]}, {}):
        for fmt in ("edam:format_1", "http://edamontology.org/format_1", "$(inputs.q.format)", ["edam:format_1", "main:x"]):
            if "$namespaces" not in extra and not str(fmt).startswith(("h", "$")):
                continue
            if isinstance(fmt, str):
                outs = [{"id": "o", "type": "File", "format": fmt, "outputBinding": {"glob": "x"}}]
            else:
                outs = [{"id": "o", "type": "File", "outputBinding": {"glob": "x"}}]
            t = tool("t", inputs=[{"id": "p", "type": "File", "format": fmt}, {"id": "q", "type": ["null", "File"]}], outputs=outs)
            if "$namespaces" in extra:
                t["hints"] = [{"class": "edam:Hint", "edam:x": 1}]
            check(rec, "%s format %s with %s" % (v, fmt, sorted(extra)), [t, wf("main")], v, extra=extra)
            check(rec, "%s format %s with %s" % (v, fmt, sorted(extra)), [wf("main"), t], v, extra=extra)
    if v == "v1.2":
        for when in ("$(inputs.p === '#main/a')", "${return true;}"):
            for pv in (None, "all_non_null", "first_non_null"):
                s = step("t", when=when)
                w = wf("main", [s], outputs=[dict({"id": "z", "type": "Any", "outputSource": ["s1/o", "a"]}, **({"pickValue": pv} if pv else {}))],
                       requirements=[{"class": "InlineJavascriptRequirement"}, {"class": "MultipleInputFeatureRequirement"}])
                check(rec, "%s when %s pickValue %s" % (v, when, pv), [tool("t"), w], v)
        op = {"id": "op", "class": "Operation", "inputs": [{"id": "p", "type": "File"}], "outputs": [{"id": "o", "type": "File"}]}
        check(rec, "operation", [op, wf("main", [step("op")])], v)
    check(rec, "expression tool", [etool("e"), wf("main", [step("e")])], v)
    doc = wf("main", [step("t", label="l", doc="#main/doc"), step("t", "s2", doc="x")], label="#main/x", doc=["a", "#main/y"] if v != "v1.0" else "#main/y")
    check(rec, "texts", [doc, tool("t", label="#t/p", doc="#t/p", baseCommand=["#t/p", "#main"], arguments=["#t/p", {"valueFrom": "#t/p"}],
                                   stdout="#t")], v)
    # a document that is not packed is left alone
    for d in (dict(tool("t"), cwlVersion=v), dict(wf("main"), cwlVersion=v)):
        out = os.path.join(case_dir(), "out")
        rec.plain_states += 1
        rec.step(1)
        split(d if d["class"] != "Workflow" else dict(d, steps=[]), out, "json", "wf.cwl", False)
        if os.path.exists(out) and os.listdir(out):
            rec.fail("%s: a document without $graph was split" % v)
        else:
            rec.outcome("not-packed")


def run_cli(rec, v):
    """The command, with every combination of its options."""
    procs = [tool("t"), wf("main")]
    doc = {"cwlVersion": v, "$graph": [qualify(p, {}) for p in procs]}
    for m, f, p, c in itertools.product((None, "top.cwl"), (None, "json", "yaml"), (False, True), (False, True)):
        root = case_dir()
        with open(os.path.join(root, "packed.cwl"), "w") as h:
            json.dump(doc, h)
        out = os.path.join(root, "out")
        os.mkdir(out)
        args = [os.path.join(root, "packed.cwl")]
        args += ["-m", m] if m else []
        args += ["-f", f] if f else []
        args += ["-p"] if p else []
        args += ["-C", out] if c else []
        r = subprocess.run([sys.executable, "-m", "cwl_utils.graph_split"] + args, capture_output=True, cwd=root if c else out,
                           env=dict(os.environ, PYTHONPATH="/repo/src"), timeout=120)
        rec.plain_states += 1
        rec.step(1)
        rec.trace(1)
        where = "%s cwl-graph-split %s" % (v, " ".join(args[1:]))
        if r.returncode:
            rec.fail("%s: exit code %d: %s" % (where, r.returncode, r.stderr[-300:]))
            continue
        fo = Folder(out)
        names = {p["id"]: file_of(p["id"], m) for p in procs}
        try:
            for q in procs:
                d = compare_process(q, fo.process(fo.data(names[q["id"]]), names[q["id"]]), fo, {}, names, version=v)
                if d:
                    raise Bad(d)
            if set(fo.files) != fo.used or sorted(os.listdir(root)) != ["out", "packed.cwl"]:
                raise Bad("files %s" % sorted(fo.files))
            if (f or "json") == "json":
                for t in fo.files.values():
                    json.loads(t)
        except Exception as exc:
            rec.fail("%s: %s" % (where, exc), files=fo.files)
        else:
            rec.outcome("cli-same")


REPO = ("js-expr-req-wf.cwl", "echo-tool-packed.cwl", "revsort-packed.cwl", "remote-cwl/wf1-packed.cwl", "workflows/wf5-packed.cwl",
        "scatter-wf4.cwl", "scatter-wf3_v1_0.cwl", "scatter-wf3_v1_1.cwl", "scatter-wf3_v1_2.cwl")


def run_repo(rec, name):
    """Packed documents from the project: every file loads and all formats say the same."""
    from cwl_utils.parser import load_document_by_uri

    path = "/repo/src/cwl_utils/testdata/" + name
    if not os.path.exists(path):
        rec.outcome("repo-same")
        return
    results = []
    for fmt, pretty in FORMATS:
        out = os.path.join(case_dir(), "out")
        with open(path) as h:
            EX["split"](h, __import__("pathlib").Path(out), fmt, "main.cwl", pretty)
        fo = Folder(out)
        results.append({n: fo.data(n) for n in fo.files})
        for n, d in results[-1].items():
            rec.plain_states += 1
            rec.step(1)
            rec.trace(1)
            if isinstance(d, dict) and "cwlVersion" in d:
                load_document_by_uri(os.path.join(out, n))
            if '"#' in json.dumps(d).replace('"#!', ''):
                refs = [x for x in json.dumps(d).split('"') if x.startswith("#") and x[1:] not in json.dumps(d)]
                if refs:
                    rec.fail("%s: %s still has references %s" % (name, n, refs))
    if results[0] != results[1] or results[0] != results[2]:
        rec.fail("%s: formats differ" % name)
    rec.outcome("repo-same")


# ---------------------------------------------------------------- enumeration

def items(tier):
    for v in VERSIONS:
        for a in NAMES:
            yield ["names", v, a, "wf.cwl"]
            if tier == "thorough" or a in ("tool", "main2", "mainx.cwl"):
                for m in (None, "top", "x.y.cwl", "mycwl"):
                    yield ["names", v, a, m]
        for m in (None, "wf.cwl", "wf", "main.cwl"):
            yield ["mainref", v, m]
        for p in ("main", "s1", "a", "x.cwl", "run"):
            if tier == "thorough" or p == "main" or v == "v1.2":
                yield ["partnames", v, p]
        for h in HOSTS:
            yield ["links", v, h]
        yield ["data", v]
        yield ["reqs", v]
        for w in WRAPS:
            for place in ("requirements", "hints"):
                if w == "named" and v == "v1.0":
                    continue          # where inline types have no names
                yield ["types", v, w, place]
        yield ["typesets", v]
        for name, _ in c10.table(v):
            yield ["construct", v, name]
        yield ["meta", v]
        yield ["cli", v]
    for n in REPO:
        yield ["repo", n]


def BOUNDS(tier):
    return {"process names": NAMES, "part names": PARTS, "depth of embedding": 2, "user types": len(TYPES), "wrappers": sorted(WRAPS),
            "formats": ["json", "yaml", "yaml pretty"], "forms": ["packer", "people", "people with maps"]}
