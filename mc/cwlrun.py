"""A small CWL interpreter on fully resolved documents.

Tools are not run: what they would be started with is recorded, and they leave fixed files behind that are named after it.
Generated expression scripts (tools that run "nodejs expression.js") are run by node.
"""

import copy
import fnmatch
import hashlib
import json
import re
import subprocess

from checks.c01 import Unterminated, ref_parts

NODE = r"""
const vm = require('vm'), rl = require('readline').createInterface({input: process.stdin});
rl.on('line', l => {
  const q = JSON.parse(l); let r;
  try {
    if (q.script !== undefined) {
      let out = '';
      const c = vm.createContext({process: {stdout: {write: s => { out += s; }}, argv: ['node', 'expression.js'], exit: () => {}}, console: {log: () => {}}});
      vm.runInContext(q.script, c, {timeout: 5000});
      r = {out: out};
    } else {
      const c = vm.createContext({});
      const v = vm.runInContext('"use strict";\n' + q.lib + '\nJSON.stringify(' + q.code + ');', c, {timeout: 5000});
      r = {v: v === undefined ? null : JSON.parse(v)};
    }
  } catch (e) { r = {e: String(e)}; }
  process.stdout.write(JSON.stringify(r) + '\n');
});
"""
PARAM = re.compile(r"\(([A-Za-z_]\w*)((?:\.\w+|\['(?:[^'\\]|\\.)*'\]|\[\"(?:[^\"\\]|\\.)*\"\]|\[\d+\])*)\)$", re.U)
SEG = re.compile(r"\.(\w+)|\['((?:[^'\\]|\\.)*)'\]|\[\"((?:[^\"\\]|\\.)*)\"\]|\[(\d+)\]", re.U)


class Fail(Exception):
    """The document cannot be run to the end."""


class Node:
    def __init__(self):
        self.p = None
        self.cache = {}

    def ask(self, **q):
        line = json.dumps(q)
        if line in self.cache:
            return copy.deepcopy(self.cache[line])
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(["node", "-e", NODE], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
        self.p.stdin.write(line + "\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if len(self.cache) > 20000:
            self.cache.clear()
        self.cache[line] = copy.deepcopy(r)
        return r

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


NODEJS = Node()


def short(uri):
    return uri.split("#")[-1].split("/")[-1]


def walk(path, ctx):
    m = PARAM.match(path)
    if not m or m.group(1) not in ctx:
        raise KeyError(path)
    cur = ctx[m.group(1)]
    rest = m.group(2)
    segs = list(SEG.finditer(rest))
    for n, s in enumerate(segs):
        key = next(g for g in s.groups() if g is not None)
        if s.group(4) is not None:
            if not isinstance(cur, list):
                raise KeyError(path)
            cur = cur[int(key)]
        elif isinstance(cur, list) and key == "length" and n == len(segs) - 1:
            return len(cur)
        else:
            if s.group(1) is None:
                key = re.sub(r"\\(.)", r"\1", key)
            if not isinstance(cur, dict):
                raise KeyError(path)
            cur = cur[key]
    return cur


class Scope:
    """Evaluates expressions with the requirements in force."""

    def __init__(self, version, reqs):
        self.mode = 2 if version == "v1.2" else 1
        self.js = None
        for r in reqs[0] + reqs[1]:
            if r["class"] == "InlineJavascriptRequirement":
                self.js = r.get("expressionLib") or []

    def __call__(self, s, inputs, self_=None, runtime=None):
        if not isinstance(s, str) or ("$(" not in s and "${" not in s):
            return s
        ctx = {"inputs": inputs, "self": self_, "runtime": runtime or {}}
        try:
            parts = ref_parts(s.strip(), self.mode)
        except Unterminated as exc:
            raise Fail("unterminated expression: %s" % exc) from exc

        def value(e):
            if e == "(null)":
                return None
            if e[0] == "(" and PARAM.match(e):
                try:
                    return copy.deepcopy(walk(e, ctx))
                except (KeyError, IndexError) as exc:
                    if self.js is None:
                        raise Fail("no value: %s" % exc)
            if self.js is None:
                raise Fail("JavaScript is not available for %s" % e)
            lib = "\n".join("var %s = %s;" % (k, json.dumps(v)) for k, v in ctx.items()) + "\n" + "\n".join(self.js)
            code = "(function()%s)()" % (e if e[0] == "{" else "{return (%s);}" % e[1:-1])
            r = NODEJS.ask(lib=lib, code=code)
            if "e" in r:
                raise Fail("JavaScript: %s" % r["e"])
            return r["v"]

        out = []
        for k, v in parts:
            if k == "e":
                v = value(v)
                if len(parts) == 1:
                    return v
                if not isinstance(v, str):
                    v = json.dumps(v, sort_keys=True, separators=(",", ":"))
            out.append(v)
        return "".join(out)


def is_file(x):
    return isinstance(x, dict) and x.get("class") in ("File", "Directory")


class Run:
    """One run of a document."""

    def __init__(self):
        self.seen = []          # observations
        self.files = {}         # location -> contents

    # ---- files

    def make_file(self, contents, basename):
        loc = "vfs:" + hashlib.sha1((basename + "\0" + contents).encode()).hexdigest()[:12] + "/" + basename
        self.files[loc] = contents
        return self.dress({"class": "File", "location": loc})

    def dress(self, f):
        f = dict(f)
        if f["class"] == "Directory":
            f.setdefault("basename", f.get("location", "dir").rsplit("/", 1)[-1])
            return f
        if "location" not in f and "contents" in f:
            return self.make_file(f["contents"], f.get("basename", "literal"))
        base = f.get("basename") or f["location"].rsplit("/", 1)[-1]
        root, dot, ext = base.rpartition(".")
        f["basename"] = base
        f["nameroot"], f["nameext"] = (root, dot + ext) if root else (base, "")
        f["size"] = len(self.text(f))
        return f

    def text(self, f):
        if "location" in f:
            if f["location"] not in self.files:
                raise Fail("no file %s" % f["location"])
            return self.files[f["location"]]
        return f.get("contents", "")

    def clean(self, x, contents=False):
        """A value as it is passed on, file objects dressed anew."""
        if is_file(x):
            if x["class"] == "File":
                g = self.dress({k: v for k, v in x.items() if k in ("class", "location", "basename", "contents", "format")})
                g.pop("contents", None)
                if contents:
                    g["contents"] = self.text(g)
                return g
            return self.dress({k: [self.clean(y) for y in v] if k == "listing" else v for k, v in x.items()
                               if k in ("class", "location", "basename", "listing")})
        if isinstance(x, dict):
            return {k: self.clean(v, contents) for k, v in x.items()}
        if isinstance(x, list):
            return [self.clean(v, contents) for v in x]
        return x

    def show(self, x):
        """A value as it is compared."""
        if is_file(x):
            if x["class"] == "Directory":
                return {"class": "Directory", "basename": x.get("basename"), "listing": [self.show(y) for y in x.get("listing", [])]}
            return {"class": "File", "basename": anyname(x.get("basename")), "text": self.text(x)}
        if isinstance(x, dict):
            return {k: self.show(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.show(v) for v in x]
        return x

    # ---- processes

    def process(self, p, inputs, outer, version):
        if isinstance(p, str):
            raise Fail("unresolved process %s" % p)
        version = p.get("cwlVersion") or version
        reqs = inner_reqs(outer, p)
        values = {}
        for i in p.get("inputs") or []:
            n = short(i["id"])
            v = inputs.get(n)
            if v is None:
                v = i.get("default")
            if v is None and not optional(i["type"]):
                raise Fail("%s: no value for the input %s" % (p["id"], n))
            load = bool(i.get("loadContents")) or bool((i.get("inputBinding") or {}).get("loadContents")) or \
                (isinstance(i["type"], dict) and bool((i["type"].get("inputBinding") or {}).get("loadContents")))
            values[n] = self.clean(v, load)
            if not fits(values[n], i["type"]):
                raise Fail("%s: the input %s of the type %s gets %s" % (p["id"], n, json.dumps(i["type"]), json.dumps(values[n])))
        out = {"CommandLineTool": self.tool, "ExpressionTool": self.etool, "Workflow": self.workflow}[p["class"]](p, values, reqs, version)
        res = {}
        for o in p.get("outputs") or []:
            n = short(o["id"])
            res[n] = self.clean(out.get(n))
            t = o["type"]
            if t in ("stdout", "stderr"):
                t = "File"
            if not fits(res[n], t):
                raise Fail("%s: the output %s of the type %s is %s" % (p["id"], n, json.dumps(t), json.dumps(res[n])))
        return res

    def etool(self, p, inputs, reqs, version):
        out = Scope(version, reqs)(p["expression"], inputs)
        if not isinstance(out, dict):
            raise Fail("the expression of a tool is %s" % json.dumps(out))
        return out

    def tool(self, p, inputs, reqs, version):
        ev = Scope(version, reqs)
        by = {}
        for r in reqs[0] + reqs[1]:
            by[r["class"]] = r
        base = p.get("baseCommand")
        base = [base] if isinstance(base, str) else list(base or [])
        work = {}
        iwd = by.get("InitialWorkDirRequirement")
        if iwd:
            listing = iwd.get("listing")
            if isinstance(listing, str):
                listing = ev(listing, inputs)
            for e in (listing if isinstance(listing, list) else [listing]):
                self.stage(work, e, ev, inputs)
        if base == ["nodejs", "expression.js"]:
            script = work.get("expression.js")
            if not isinstance(script, str):
                raise Fail("no script")
            r = NODEJS.ask(script=script)
            if "e" in r:
                raise Fail("script: %s" % r["e"])
            if ev(p.get("stdout"), inputs) != "cwl.output.json":
                raise Fail("the result of a script is lost")
            try:
                return json.loads(r["out"])
            except ValueError:
                raise Fail("a script printed %r" % r["out"][:200])
        env = {}
        if "EnvVarRequirement" in by:
            for d in by["EnvVarRequirement"]["envDef"]:
                env[d["envName"]] = ev(d["envValue"], inputs)
                if not isinstance(env[d["envName"]], str):
                    raise Fail("the value of an environment variable is %s" % json.dumps(env[d["envName"]]))
        res = {k: ev(v, inputs) for k, v in by.get("ResourceRequirement", {}).items() if k != "class"}
        keyed = []
        for n, a in enumerate(p.get("arguments") or []):
            if isinstance(a, dict):
                pos = ev(a.get("position", 0), inputs) or 0
                val = ev(a.get("valueFrom"), inputs)
                keyed.append(((pos, 0, n, ""), flatten(val, a)))
            else:
                keyed.append(((0, 0, n, ""), flatten(ev(a, inputs), {})))
        for i in p.get("inputs") or []:
            b = i.get("inputBinding")
            n = short(i["id"])
            if b and set(b) - {"loadContents"}:
                val = inputs[n]
                pos = ev(b.get("position", 0), inputs, val) or 0
                if b.get("valueFrom") and val is not None:
                    val = ev(b["valueFrom"], inputs, val)
                keyed.append(((pos, 1, 0, n), flatten(val, b)))
            keyed.append(((0, 2, 0, n), nested(i["type"], inputs[n])))
        argv = base + [x for _, xs in sorted(keyed, key=lambda kv: kv[0]) for x in xs]
        streams = {}
        for s in ("stdin", "stdout", "stderr"):
            streams[s] = ev(p.get(s), inputs)
            if streams[s] is not None and not isinstance(streams[s], str):
                raise Fail("%s is called %s" % (s, json.dumps(streams[s])))
        for o in p.get("outputs") or []:
            if o["type"] in ("stdout", "stderr") and streams[o["type"]] is None:
                streams[o["type"]] = "0" * 40
        obs = {"argv": argv, "env": env, "resources": res, "work": work, **{k: anyname(v) for k, v in streams.items()}}
        obs = json.dumps(obs, sort_keys=True)
        self.seen.append(obs)
        num = int(hashlib.sha1(obs.encode()).hexdigest()[:6], 16) % 1000
        files = {n: v for n, v in work.items() if isinstance(v, str)}
        files.update({"a.txt": str(num), "b.txt": str(num + 1), "c.dat": "data %d" % num, "12.txt": "12"})
        for s in ("stdout", "stderr"):
            if streams[s]:
                files[streams[s]] = "%s %d" % (s, num)
        out = {}
        for o in p.get("outputs") or []:
            n = short(o["id"])
            t = o["type"]
            b = o.get("outputBinding") or {}
            if t in ("stdout", "stderr"):
                globs, b, t = streams[t], {}, "File"
            else:
                globs = ev(b.get("glob"), inputs)
            globs = [] if globs is None else globs if isinstance(globs, list) else [globs]
            found = []
            for g in globs:
                if not isinstance(g, str):
                    raise Fail("glob is %s" % json.dumps(globs))
                found += [self.make_file(files[f], f) for f in sorted(files) if fnmatch.fnmatchcase(f, g)]
            if b.get("loadContents"):
                found = [dict(f, contents=self.text(f)) for f in found]
            if "outputEval" in b:
                v = ev(b["outputEval"], inputs, found)
            elif isinstance(t, dict) and t.get("type") == "array":
                v = found
            elif isinstance(t, dict) and t.get("type") == "record":
                v = {}
                for f in t["fields"]:
                    g = ev((f.get("outputBinding") or {}).get("glob"), inputs)
                    some = [self.make_file(files[x], x) for x in sorted(files) if g and fnmatch.fnmatchcase(x, g)]
                    v[short(f["name"])] = some[0] if some else None
            elif len(found) > 1:
                raise Fail("several files for the output %s" % n)
            else:
                v = found[0] if found else None
            out[n] = v
        return out

    def stage(self, work, e, ev, inputs):
        name = None
        if isinstance(e, dict) and e.get("class") not in ("File", "Directory"):
            v = ev(e.get("entry"), inputs)
            name = ev(e.get("entryname"), inputs)
            if name is not None and not isinstance(name, str):
                raise Fail("the name of an entry is %s" % json.dumps(name))
        else:
            v = ev(e, inputs)
        if v is None:
            return
        for x in v if isinstance(v, list) and (name is None or all(is_file(y) for y in v)) else [v]:
            if is_file(x):
                x = self.dress(x) if x["class"] == "File" else x
                work[name or anyname(x["basename"])] = self.text(x) if x["class"] == "File" else self.show(x)
            elif name is None:
                if isinstance(x, dict) and "entry" in x:
                    self.stage(work, x, lambda s, *a: s, inputs)
                else:
                    raise Fail("an entry without a name is %s" % json.dumps(x))
            else:
                work[name] = x if isinstance(x, str) else json.dumps(x, sort_keys=True)

    def workflow(self, p, inputs, reqs, version):
        values = {}
        for i in p.get("inputs") or []:
            values[i["id"]] = inputs[short(i["id"])]
        todo = list(p.get("steps") or [])
        known = set(values)
        for s in todo:
            known.update(outs(s))
        for s in todo:
            for i in s.get("in") or []:
                for src in aslist(i.get("source")):
                    if src not in known:
                        raise Fail("%s: the source %s does not exist" % (i["id"], src))
        while todo:
            ready = [s for s in todo if all(src in values for i in s.get("in") or [] for src in aslist(i.get("source")))]
            if not ready:
                raise Fail("steps wait for each other: %s" % [s["id"] for s in todo])
            for s in ready:
                todo.remove(s)
                values.update(self.step(s, values, reqs, version))
        res = {}
        for o in p.get("outputs") or []:
            srcs = o.get("outputSource")
            for x in aslist(srcs):
                if x not in values:
                    raise Fail("%s: the source %s does not exist" % (o["id"], x))
            res[short(o["id"])] = pick(link(srcs, values, o.get("linkMerge")), o.get("pickValue"), srcs)
        return res

    def step(self, s, values, reqs, version):
        reqs = inner_reqs(reqs, s)
        ev = Scope(version, reqs)
        ins, forms = {}, {}
        for i in s.get("in") or []:
            n = short(i["id"])
            v = pick(link(i.get("source"), values, i.get("linkMerge")), i.get("pickValue"), i.get("source"))
            if v is None:
                v = i.get("default")
            ins[n] = self.clean(v, bool(i.get("loadContents")))
            if i.get("valueFrom") is not None:
                forms[n] = i["valueFrom"]

        def job(ins):
            new = {n: self.clean(ev(forms[n], ins, ins[n])) if n in forms else v for n, v in ins.items()}
            if s.get("when") is not None:
                w = ev(s["when"], new)
                if w is False:
                    return {n: None for n in map(short, outs(s))}
                if w is not True:
                    raise Fail("when is %s" % json.dumps(w))
            return self.process(s["run"], new, reqs, version)

        names = [short(x) for x in aslist(s.get("scatter"))]
        if not names:
            res = job(ins)
        else:
            method = s.get("scatterMethod") or "dotproduct"
            for n in names:
                if not isinstance(ins.get(n), list):
                    raise Fail("scatter over %s" % json.dumps(ins.get(n)))

            def nest(k, cur):
                if k == len(names):
                    return job(cur)
                return [nest(k + 1, dict(cur, **{names[k]: v})) for v in ins[names[k]]]

            if method == "dotproduct":
                if len({len(ins[n]) for n in names}) > 1:
                    raise Fail("scatter over lists of different lengths")
                jobs = [job(dict(ins, **{n: ins[n][k] for n in names})) for k in range(len(ins[names[0]]))]
            else:
                jobs = nest(0, ins)
                if method == "flat_crossproduct":
                    for _ in names[1:]:
                        jobs = [y for x in jobs for y in x]

            def collect(j, n):
                return [collect(x, n) for x in j] if isinstance(j, list) else j.get(n)

            res = {n: collect(jobs, n) for n in map(short, outs(s))}
        for o in outs(s):
            if short(o) not in res:
                raise Fail("the process of %s has no output %s" % (s["id"], short(o)))
        return {o: res[short(o)] for o in outs(s)}


def inner_reqs(outer, p):
    """Hints and requirements in force in a part of a document, the last ones count."""
    return outer[0] + [h for h in p.get("hints") or [] if isinstance(h, dict)], outer[1] + (p.get("requirements") or [])


def outs(s):
    return [o if isinstance(o, str) else o["id"] for o in s.get("out") or []]


def aslist(x):
    return [] if x is None else x if isinstance(x, list) else [x]


def anyname(n):
    """A generated file name stands for any name."""
    return "<any>" if isinstance(n, str) and re.fullmatch("[0-9a-f]{40}", n) else n


def link(srcs, values, merge):
    if srcs is None:
        return None
    if isinstance(srcs, str):
        v = values[srcs]
        return [v] if merge == "merge_nested" else v
    vs = [values[x] for x in srcs]
    if merge == "merge_flattened":
        out = []
        for v in vs:
            out += v if isinstance(v, list) else [v]
        return out
    return vs if len(vs) != 1 or merge == "merge_nested" else vs[0]


def pick(v, how, srcs):
    if how is None:
        return v
    if not isinstance(v, list):
        raise Fail("pickValue of %s" % json.dumps(v))
    some = [x for x in v if x is not None]
    if how == "all_non_null":
        return some
    if not some or how == "the_only_non_null" and len(some) > 1:
        raise Fail("pickValue %s of %s" % (how, json.dumps(v)))
    return some[0]


def flatten(v, b):
    if v is None:
        return []
    pre = b.get("prefix")
    if isinstance(v, bool):
        return [pre] if v and pre else []

    def text(x):
        if is_file(x):
            return "file:" + str(anyname(x.get("basename")))
        return x if isinstance(x, str) else json.dumps(x, sort_keys=True)

    vals = [text(x) for x in v] if isinstance(v, list) else [text(v)]
    if isinstance(v, list) and b.get("itemSeparator"):
        vals = [b["itemSeparator"].join(vals)]
    if pre and vals:
        if b.get("separate", True):
            return [pre] + vals
        return [pre + vals[0]] + vals[1:]
    return vals


def nested(t, v):
    """The arguments that come from bindings inside a type."""
    out = []
    if isinstance(t, list):
        t = next((x for x in t if fits(v, x)), None)
    if not isinstance(t, dict) or v is None:
        return out
    if t["type"] == "array":
        for x in v:
            out += flatten(x, t["inputBinding"]) if t.get("inputBinding") else []
            out += nested(t["items"], x)
    elif t["type"] == "record":
        for f in t.get("fields") or []:
            x = v.get(short(f["name"]))
            out += flatten(x, f["inputBinding"]) if f.get("inputBinding") else []
            out += nested(f["type"], x)
    elif t["type"] == "enum" and t.get("inputBinding"):
        out += flatten(v, t["inputBinding"])
    return out


def optional(t):
    if isinstance(t, list):
        return any(map(optional, t))
    return t in ("null", "Any") or (isinstance(t, str) and t.endswith("?"))


def fits(v, t):
    """Is the value of the type?"""
    if isinstance(t, list):
        return any(fits(v, x) for x in t)
    if isinstance(t, dict):
        k = t["type"]
        if k == "array":
            return isinstance(v, list) and all(fits(x, t["items"]) for x in v)
        if k == "enum":
            return isinstance(v, str) and v in map(short, t["symbols"])
        if k == "record":
            return isinstance(v, dict) and all(fits(v.get(short(f["name"])), f["type"]) for f in t.get("fields") or [])
        return fits(v, k)
    if t == "Any":
        return v is not None
    if t == "null":
        return v is None
    if t in ("int", "long"):
        return isinstance(v, int) and not isinstance(v, bool) or isinstance(v, float) and v == int(v)
    if t in ("float", "double"):
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t == "string":
        return isinstance(v, str)
    if t == "boolean":
        return isinstance(v, bool)
    if t in ("File", "Directory"):
        return isinstance(v, dict) and v.get("class") == t
    if isinstance(t, str) and "#" in t:
        return v is not None
    raise Fail("unknown type %s" % json.dumps(t))


def run(doc, inputs, files, version=None):
    """Outputs (or an error), and what tools were run; `files` are the contents of the input files."""
    r = Run()
    r.files.update(files)
    try:
        out = r.process(doc, inputs, ([], []), version)
    except Fail as exc:
        return {"error": str(exc), "seen": sorted(r.seen)}
    return {"out": r.show(out), "seen": sorted(r.seen)}
