"""C16: packing yields a self-contained document with the same meaning."""

import copy
import http.server
import itertools
import io
import contextlib
import json
import logging
import os
import subprocess
import sys
import tempfile
import threading
import urllib.parse

from checks import c10
from mc.grammar import VERSIONS, record_name
from mc.tree import Part, World, expected, fresh

PID = "C16"
LEVEL = "model_checked_code"
RULE = ("one state per tree of documents on disk: every import site x host process x directories x nesting x version, every "
        "tree of linked processes up to the depth bound over link forms, directories and versions, every combination of "
        "list, map and predicate forms, every construct of the grammar; each is packed by the real code and compared with "
        "the abstract document the files were written from")
ASSUMPTIONS = ["processes do not link themselves", "locations in default values are data, not links of the document"]
REQUIRED_OUTCOMES = ("import-same", "tree-same", "form-same", "construct-same", "entry-same", "http-same", "namespaces-same",
                     "cli-same", "alias-same")
ITEM_TIMEOUT = 800
EX = {}


def setup(tier):
    from cwl_utils.pack import pack

    logging.disable(logging.CRITICAL)
    EX["pack"] = pack
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    c10.setup(tier)


def teardown():
    os.chdir("/")
    if "srv" in EX:
        EX["srv"].shutdown()


def case_dir():
    return fresh(os.path.join(EX["dir"], "case"))


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


# ---------------------------------------------------------------- normal form

def tolist(x, key, pred):
    if isinstance(x, dict):
        out = []
        for k, v in x.items():
            v = dict(v) if isinstance(v, dict) else {pred: v}
            v[key] = k
            out.append(v)
        return out
    return [dict(v) if isinstance(v, dict) else v for v in x or []]


def ntype(t):
    if isinstance(t, list):
        out = []
        for x in t:
            y = ntype(x)
            for z in y if isinstance(y, list) else [y]:
                if z not in out:
                    out.append(z)
        return out
    if isinstance(t, dict):
        d = dict(t)
        if d.get("type") == "array":
            d["items"] = ntype(d["items"])
        elif d.get("type") == "record" and "fields" in d:
            d["fields"] = [dict(f, type=ntype(f["type"])) for f in tolist(d["fields"], "name", "type")]
        elif isinstance(d.get("type"), (dict, list)):
            return dict(d, type=ntype(d["type"]))
        return d
    if t.endswith("?"):
        return ntype(["null", t[:-1]])
    if t.endswith("[]"):
        return {"type": "array", "items": ntype(t[:-2])}
    return t


def ref(s, own):
    """A reference to a parameter or step output of the enclosing process."""
    if isinstance(s, list):
        return [ref(x, own) for x in s]
    if isinstance(s, str) and s.startswith("#"):
        s = s[1:]
        if own and s.startswith(own.lstrip("#") + "/"):
            s = s[len(own.lstrip("#")) + 1:]
    return s


def norm(p):
    """A process with all forms of saying the same thing made equal."""
    p = copy.deepcopy(p)
    own = p.get("id")
    for port in ("inputs", "outputs"):
        out = []
        for x in tolist(p.get(port), "id", "type"):
            if x.get("type") is not None:
                x["type"] = ntype(x["type"])
            if "outputSource" in x:
                x["outputSource"] = ref(x["outputSource"], own)
            out.append(x)
        p[port] = out
    reqs = [r for r in tolist(p.get("requirements"), "class", None)
            if r.get("class") not in ("SubworkflowFeatureRequirement", "SchemaDefRequirement")]
    p["requirements"] = reqs
    p.setdefault("hints", [])
    p["hints"] = tolist(p["hints"], "class", None)
    if "steps" in p:
        steps = []
        for s in tolist(p["steps"], "id", None):
            ins = tolist(s.get("in"), "id", "source")
            for x in ins:
                if "source" in x:
                    x["source"] = ref(x["source"], own)
            s["in"] = ins
            if isinstance(s.get("run"), dict):
                s["run"] = norm(s["run"])
            steps.append(s)
        p["steps"] = steps
    return p


def number(v):
    return tuple(int(x) for x in v.lstrip("v").split("."))


def highest(p, inherited):
    """The highest version declared in the tree of a process."""
    own = p.get("cwlVersion", inherited)
    best = own
    for s in tolist(p.get("steps"), "id", None):
        if isinstance(s.get("run"), dict):
            b = highest(s["run"], own)
            if number(b) > number(best):
                best = b
    return best


def versions(want, got, best):
    """None, or what is wrong with the versions declared in a packed process."""
    have = got.pop("cwlVersion", None)
    if "cwlVersion" in want and have is None:
        return "the declared version is gone"
    if have is not None and have != best:
        return "version %s instead of %s" % (have, best)
    want.pop("cwlVersion", None)
    for a, b in zip(want.get("steps", []), got.get("steps", [])):
        if isinstance(a.get("run"), dict) and isinstance(b.get("run"), dict):
            d = versions(a["run"], b["run"], best)
            if d:
                return d
    return None


def leftovers(x, path=""):
    """References to other files in a packed document."""
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ("$import", "$include"):
                return "%s: %s of %r is left" % (path, k, v)
            if k == "run" and isinstance(v, str):
                return "%s: run of %r is left" % (path, v)
            r = leftovers(v, "%s/%s" % (path, k))
            if r:
                return r
    elif isinstance(x, list):
        for i, v in enumerate(x):
            r = leftovers(v, "%s/%d" % (path, i))
            if r:
                return r
    return None


def compare(rec, want, got, where, outcome, loadable=True):
    rec.trace(1)
    got = json.loads(json.dumps(got))
    left = leftovers({k: v for k, v in got.items() if k not in ("hints",)})
    if left:
        rec.fail("%s: %s" % (where, left), packed=got)
        return False
    a, b = norm(want), norm(got)
    d = versions(a, b, highest(want, want.get("cwlVersion"))) or c10.same(b, a)
    if d:
        rec.fail("%s: packed with %s" % (where, d), packed=got)
        return False
    if no_subreq(got):
        rec.fail("%s: the requirement of sub-workflows is missing" % where, packed=got)
        return False
    if loadable:
        from cwl_utils.parser import load_document_by_yaml

        try:
            load_document_by_yaml(copy.deepcopy(got), c10.URI)
        except Exception as exc:
            rec.fail("%s: the packed document is not valid: %s" % (where, str(exc)[-300:]), packed=got)
            return False
        rec.step(1)
    rec.outcome(outcome)
    return True


def no_subreq(p, inherited=False):
    """Is there a workflow with a sub-workflow, but without the requirement of its own or of a workflow around it?"""
    have = inherited or any(r.get("class") == "SubworkflowFeatureRequirement" for r in tolist(p.get("requirements"), "class", None))
    if has_sub(p) and not have:
        return True
    return any(no_subreq(s["run"], have) for s in tolist(p.get("steps"), "id", None) if isinstance(s.get("run"), dict))


def has_sub(p):
    return any(isinstance(s.get("run"), dict) and s["run"].get("class") == "Workflow" for s in p.get("steps", []))


def pack(rec, path, where):
    rec.plain_states += 1
    rec.step(1)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return EX["pack"](path)
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]))
        return None


# ---------------------------------------------------------------- import sites

def tool(v, **kw):
    return dict({"cwlVersion": v, "class": "CommandLineTool", "id": "t", "inputs": [{"id": "p", "type": "File"}],
                 "outputs": [{"id": "o", "type": "File", "outputBinding": {"glob": "x"}}], "baseCommand": "x"}, **kw)


def etool(v, **kw):
    return dict({"cwlVersion": v, "class": "ExpressionTool", "id": "e", "inputs": [{"id": "p", "type": "File"}],
                 "outputs": [{"id": "o", "type": "Any"}], "expression": "$(1)"}, **kw)


def step(run, **kw):
    return dict({"id": "s", "in": [{"id": "p", "source": "a"}], "out": ["o"], "run": run}, **kw)


def wf(v, **kw):
    return dict({"cwlVersion": v, "class": "Workflow", "id": "w", "inputs": [{"id": "a", "type": "File"}],
                 "outputs": [{"id": "z", "type": "Any", "outputSource": "s/o"}],
                 "steps": [step(Part(tool(v), "run", "link"))]}, **kw)


ENUM = {"type": "enum", "symbols": ["x", "y"]}


def inp(**kw):
    return dict({"id": "p", "type": "File"}, **kw)


def outp(**kw):
    return dict({"id": "o", "type": "File", "outputBinding": {"glob": "x"}}, **kw)


IJS = {"class": "InlineJavascriptRequirement"}

# name -> (process maker, W(value) puts a part into its own file, I(text) and J(value) are parts of that part)
SITES = {
    "inputs": lambda v, W, I, J: tool(v, inputs=W([inp(doc=I("text\n"))])),
    "inputs-map": lambda v, W, I, J: tool(v, inputs=W({"p": {"type": "File", "doc": I("t")}, "q": "int?"})),
    "inputs-splice": lambda v, W, I, J: tool(v, inputs=[inp(), W([{"id": "q", "type": "int", "doc": I("x")}, {"id": "r", "type": "File"}])]),
    "requirements-splice": lambda v, W, I, J: tool(v, requirements=[W([dict(IJS), J({"class": "EnvVarRequirement", "envDef": {"A": "x"}})])]),
    "hints-splice": lambda v, W, I, J: tool(v, hints=[W([dict(IJS)]), {"class": "EnvVarRequirement", "envDef": W([{"envName": "A", "envValue": "x"}])}]),
    "arguments-splice": lambda v, W, I, J: tool(v, arguments=["a", W(["b", "c", J("d")]), "e"]),
    "steps-splice": lambda v, W, I, J: wf(v, steps=[W([step(J(tool(v, label="s1"), "link")), dict(step(Part(tool(v, label="s2"), "u", "link")), id="s2")])]),
    "fields-splice": lambda v, W, I, J: tool(v, inputs=[inp(type={"type": "record", "name": "r", "fields": [
        {"name": "e", "type": "int"}, W([{"name": "f", "type": J(ENUM)}, {"name": "g", "type": "File?"}])]})]),
    "input": lambda v, W, I, J: tool(v, inputs=[inp(), W({"id": "q", "type": "int", "default": J({"a": 1})})]),
    "input-type": lambda v, W, I, J: tool(v, inputs=[inp(), {"id": "q", "type": W({"type": "array", "items": J(ENUM)})}]),
    "input-type-name": lambda v, W, I, J: tool(v, inputs=[inp(type=W("File"))]),
    "input-type-list": lambda v, W, I, J: tool(v, inputs=[inp(type=W(["File", "int", {"type": "array", "items": "int?"}]))]),
    "input-type-member": lambda v, W, I, J: tool(v, inputs=[inp(type=["null", W({"type": "array", "items": J("int")})])]),
    "items": lambda v, W, I, J: tool(v, inputs=[inp(type={"type": "array", "items": W({"type": "array", "items": J("File")})})]),
    "fields": lambda v, W, I, J: tool(v, inputs=[inp(type={"type": "record", "name": "r", "fields": W(
        [{"name": "f", "type": "int?", "doc": I("d")}])})]),
    "field": lambda v, W, I, J: tool(v, inputs=[inp(type={"type": "record", "name": "r", "fields": [W(
        {"name": "f", "type": J(ENUM)})]})]),
    "field-type": lambda v, W, I, J: tool(v, inputs=[inp(type={"type": "record", "name": "r", "fields": [
        {"name": "f", "type": W({"type": "array", "items": J("int")})}]})]),
    "input-default": lambda v, W, I, J: tool(v, inputs=[{"id": "q", "type": "Any", "default": W([1, {"x": J([2])}, I("t")])}]),
    "input-binding": lambda v, W, I, J: tool(v, inputs=[inp(inputBinding=W({"position": 1, "valueFrom": I("$(self)")}))]),
    "input-secondary": lambda v, W, I, J: tool(v, inputs=[inp(secondaryFiles=W([".x", "^.y"]))]),
    "outputs": lambda v, W, I, J: tool(v, outputs=W([outp(doc=I("text"))])),
    "outputs-map": lambda v, W, I, J: tool(v, outputs=W({"o": {"type": "File", "doc": I("t"), "outputBinding": {"glob": "*"}}})),
    "output": lambda v, W, I, J: tool(v, outputs=[W(outp(outputBinding=J({"glob": ["a", "b"]})))]),
    "output-type": lambda v, W, I, J: tool(v, outputs=[{"id": "q", "type": W({"type": "array", "items": J("int")}),
                                                       "outputBinding": {"outputEval": "$([])"}}]),
    "output-binding": lambda v, W, I, J: tool(v, outputs=[outp(outputBinding=W({"glob": "x", "outputEval": I("$(self)")}))]),
    "requirements": lambda v, W, I, J: tool(v, requirements=W([dict(IJS, expressionLib=[I("var a;")])])),
    "requirement": lambda v, W, I, J: tool(v, requirements=[dict(IJS), W({
        "class": "EnvVarRequirement", "envDef": J([{"envName": "A", "envValue": "x"}])})]),
    "requirement-field": lambda v, W, I, J: tool(v, requirements=[{"class": "InitialWorkDirRequirement", "listing": W(
        [{"entryname": "e", "entry": I("text")}])}]),
    "requirement-item": lambda v, W, I, J: tool(v, requirements=[{"class": "InitialWorkDirRequirement", "listing": [
        {"entryname": "e0", "entry": "t"}, W({"entryname": "e", "entry": I("text")})]}]),
    "requirement-map": lambda v, W, I, J: tool(v, requirements={"InitialWorkDirRequirement": {"listing": W(
        [{"entryname": "e", "entry": I("text")}])}}),
    "hints": lambda v, W, I, J: tool(v, hints=W([dict(IJS, expressionLib=[I("var a;")])])),
    "hint": lambda v, W, I, J: tool(v, hints=[W({"class": "DockerRequirement", "dockerFile": I("FROM x"), "dockerImageId": "y"})]),
    "hint-map": lambda v, W, I, J: tool(v, hints={"DockerRequirement": {"dockerFile": I("FROM x"), "dockerImageId": "y"},
                                                  "SoftwareRequirement": {"packages": W([{"package": "p", "specs": J(["u:x"])}])}}),
    "arguments": lambda v, W, I, J: tool(v, arguments=W(["a", {"position": 1, "valueFrom": I("v")}])),
    "argument": lambda v, W, I, J: tool(v, arguments=["b", W({"position": 2, "valueFrom": I("v")})]),
    "include-argument": lambda v, W, I, J: tool(v, arguments=[I("line1\nline2"), I("a.b")]),
    "include-doc": lambda v, W, I, J: tool(v, doc=I("- a\n- b: {\n"), label=I(""), stdout=I("out.txt")),
    "include-expression": lambda v, W, I, J: etool(v, expression=I("${return {'a': 1};}\n")),
    "etool-inputs": lambda v, W, I, J: etool(v, inputs=W([inp(doc=I("x"))]), requirements=[W(IJS)]),
    "steps": lambda v, W, I, J: wf(v, steps=W([step(J(tool(v, label="in steps"), "link"))])),
    "step": lambda v, W, I, J: wf(v, steps=[W(step(J(tool(v, label="in step"), "link")))]),
    "step-embedded": lambda v, W, I, J: wf(v, steps=[W(step(tool(v, label="emb", doc=I("x"))))]),
    "step-embedded-wf": lambda v, W, I, J: wf(v, steps=[W(step(wf(v, steps=[step(J(tool(v, label="deep"), "link"))])))]),
    "step-run-import": lambda v, W, I, J: wf(v, steps=[W(step(J(tool(v, label="imp"), "import-run")))]),
    "run-import": lambda v, W, I, J: wf(v, steps=[step(W(tool(v, label="x", doc=I("t")), "import-run"))]),
    "run-import-wf": lambda v, W, I, J: wf(v, steps=[step(W(wf(v, steps=[step(J(tool(v, label="y"), "link"))]), "import-run"))]),
    "run-link": lambda v, W, I, J: wf(v, steps=[step(W(tool(v, label="x", doc=I("t"), hints=J([dict(IJS)])), "link"))]),
    "in": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), **{"in": W([{"id": "p", "source": "a", "default": J([1])}])})]),
    "in-item": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), **{"in": [W({"id": "p", "source": "#a", "valueFrom": I("$(1)")})]})]),
    "in-default": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), **{"in": [{"id": "p", "default": W({"a": J([1]), "b": I("x")})}]})]),
    "step-requirements": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), requirements=W([dict(IJS, expressionLib=[I("var b;")])]))]),
    "step-requirement": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), requirements=[W({"class": "EnvVarRequirement", "envDef": J({"A": "x"})})])]),
    "step-hints": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), hints=[W(dict(IJS, expressionLib=[I("var b;")]))])]),
    "out": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), out=W(["o"]))]),
    "wf-outputs": lambda v, W, I, J: wf(v, outputs=W([{"id": "z", "type": "Any", "outputSource": "s/o", "doc": I("x")}])),
    "wf-output": lambda v, W, I, J: wf(v, outputs=[W({"id": "z", "type": "Any", "outputSource": "#s/o", "doc": I("x")})]),
    "wf-inputs": lambda v, W, I, J: wf(v, inputs=W([{"id": "a", "type": "File", "doc": I("x")}])),
    "wf-input": lambda v, W, I, J: wf(v, inputs=[W({"id": "a", "type": "File", "doc": I("x")})]),
    "wf-requirement": lambda v, W, I, J: wf(v, requirements=[W(dict(IJS, expressionLib=[I("var c;")]))]),
    "when": lambda v, W, I, J: wf(v, steps=[step(Part(tool(v), "run", "link"), **({"when": I("$(true)")} if v == "v1.2" else {"label": I("x")}))]),
}
HOSTS = ("root", "linked", "linked-up", "embedded", "imported")
DIRS = (".", "sub", "..")


def hosted(v, host, proc):
    """The process with the site as the root, or as the process of a step."""
    if host == "root":
        return proc
    run = {"linked": Part(proc, "d/e", "link"), "linked-up": Part(proc, "..", "link"), "imported": Part(proc, "d", "import-run"),
           "embedded": proc}[host]
    return dict(wf(v), id="outer", steps=[step(run)])


def run_import(rec, v, site, host):
    for d in DIRS:
        for inner in (None,) + DIRS:
            if inner is None:
                I = J = lambda x, how=None: x
                J = lambda x, how=None: Part(x, ".", how) if how else x
            else:
                I = lambda x: Part(x, inner, "$include")
                J = lambda x, how="$import": Part(x, inner, how)
            W = lambda x, how="$import": Part(x, d, how)
            doc = hosted(v, host, SITES[site](v, W, I, J))
            where = "%s %s of a %s process, part in %s with a part in %s" % (v, site, host, d, inner)
            w = World(case_dir())
            got = pack(rec, w.main(doc), where)
            if got is not None:
                compare(rec, expected(doc), got, where, "import-same")


# ---------------------------------------------------------------- trees of processes

LINKS = ("link", "import-run", "embedded", "graph", "graph-id", "abs", "uri")


def place(proc, how, d):
    if how == "embedded":
        return proc
    if how == "graph-id":
        return Part(proc, d, "graph", pid="target")
    if how == "graph":
        return Part(proc, d, "graph", pid=None)
    return Part(proc, d, how)


def chain(vs, links):
    """A workflow of workflows ... of a tool, each linked in the given way."""
    if not links:
        return tool(vs[0], label="leaf")
    how, d = links[0]
    inner = chain(vs[1:], links[1:])
    if how == "embedded" and vs[1] == vs[0]:
        inner.pop("cwlVersion")
    return wf(vs[0], label="level %d" % len(links), steps=[step(place(inner, how, d))])


def run_tree(rec, vs, hows):
    for ds in itertools.product(DIRS, repeat=len(hows)):
        if any(h == "embedded" and d != "." for h, d in zip(hows, ds)):
            continue
        doc = chain(vs, list(zip(hows, ds)))
        where = "tree %s of versions %s in %s" % (list(hows), list(vs), list(ds))
        w = World(case_dir())
        got = pack(rec, w.main(doc), where)
        if got is not None:
            compare(rec, expected(doc), got, where, "tree-same")


def run_wide(rec, v, how1, how2):
    """Two steps, with the same or different processes of the same file names."""
    for d1, d2 in itertools.product(DIRS, repeat=2):
        for shared in (False, True):
            a = tool(v, label="a")
            b = a if shared else tool(v, label="b")
            p1, p2 = place(a, how1, d1), place(b, how2, d2)
            if shared and (how1, d1) != (how2, d2):
                continue
            if shared and how1 == "embedded":
                continue
            if not shared and d1 != d2:
                for p in (p1, p2):
                    if isinstance(p, Part):
                        p.name = "same.cwl"     # the directory alone tells them apart
            if shared:
                p1.name = "same.cwl"
                p2 = p1
            doc = wf(v, steps=[step(p1), step(p2, id="s2")],
                     outputs=[{"id": "z", "type": "Any", "outputSource": ["s/o", "#s2/o"], "linkMerge": "merge_nested"}])
            if v != "v1.0" or True:
                doc["requirements"] = [{"class": "MultipleInputFeatureRequirement"}]
            where = "%s two steps, %s in %s and %s in %s%s" % (v, how1, d1, how2, d2, ", the same process" if shared else "")
            w = World(case_dir())
            got = pack(rec, w.main(doc), where)
            if got is not None:
                compare(rec, expected(doc), got, where, "tree-same")


def run_graphlinks(rec, v):
    """Processes of a linked multi-process file that use each other."""
    for ref_, pid in itertools.product(("#b", "g.cwl#b", "./g.cwl#b", "../lib/g.cwl#b"), ("#a", "a")):
        for idform in ("%s", "#%s"):
            for target in ("lib/g.cwl#a", "./lib/g.cwl#a"):
                root = case_dir()
                w = World(root)
                b = tool(v, id=idform % "b", label="b")
                a = wf(v, id=idform % "a", steps=[step(ref_)])
                for x in (a, b):
                    x.pop("cwlVersion")
                bad = tool(v, id=idform % "ab", label="wrong")
                bad.pop("cwlVersion")
                for order in ([a, b, bad], [bad, b, a]):
                    w.write(os.path.join(root, "m/lib/g.cwl"), {"cwlVersion": v, "$graph": order})
                    # decoys that only a wrong base would find
                    w.write(os.path.join(root, "m/g.cwl"), {"cwlVersion": v, "$graph": [bad, dict(bad, id="b"), dict(bad, id="a")]})
                    path = w.main(wf(v, steps=[step(target)]))
                    where = "%s link %s to a graph whose workflow runs %s, ids like %s" % (v, target, ref_, idform % "a")
                    got = pack(rec, path, where)
                    if got is None:
                        continue
                    want = wf(v, steps=[step(dict(a, steps=[step(b)], cwlVersion=v))])
                    g = json.loads(json.dumps(got))
                    for x in (g["steps"][0]["run"], g["steps"][0]["run"]["steps"][0]["run"]):
                        x["id"] = x["id"].lstrip("#")
                    want["steps"][0]["run"]["id"] = "a"
                    inner = dict(b, id="b")
                    if "cwlVersion" in g["steps"][0]["run"]["steps"][0]["run"]:
                        inner["cwlVersion"] = v
                    want["steps"][0]["run"]["steps"] = [step(inner)]
                    compare(rec, want, g, where, "tree-same")


STEPFIELDS = {
    "scatter": {"scatter": "p"}, "scatters": {"scatter": ["p"], "scatterMethod": "dotproduct"},
    "requirements": {"requirements": [{"class": "ScatterFeatureRequirement"}, {"class": "InlineJavascriptRequirement"}]},
    "hints": {"hints": [{"class": "ResourceRequirement", "coresMin": 2}]}, "label": {"label": "l", "doc": "d"},
    "default": {"in": [{"id": "p", "default": 3}]}, "valueFrom": {"in": [{"id": "p", "source": "a", "valueFrom": "$(self)"}]},
    "sources": {"in": [{"id": "p", "source": ["a", "a"], "linkMerge": "merge_flattened"}]}, "noout": {"out": []},
    "outs": {"out": [{"id": "o"}]}, "noin": {"in": []}, "when": {"when": "$(true)"}}


def optool(v, **kw):
    return dict({"cwlVersion": v, "class": "Operation", "id": "op", "inputs": [{"id": "p", "type": "File"}],
                 "outputs": [{"id": "o", "type": "File"}]}, **kw)


def run_stepfield(rec, v, vrun, field):
    """A step with each field, whose process has another version or class, alone or beside a plain one."""
    for kind, how, beside in itertools.product(("tool", "etool", "wf", "op"), ("link", "embedded", "graph-id", "import-run"), (None, "before", "after")):
        if kind == "op" and vrun != "v1.2":
            continue
        if field == "when" and v != "v1.2":
            continue
        run = {"tool": lambda: tool(vrun, label="r"), "etool": lambda: etool(vrun, label="r"), "op": lambda: optool(vrun, label="r"),
               "wf": lambda: wf(vrun, label="r")}[kind]()
        if how == "embedded" and vrun == v:
            run.pop("cwlVersion")
        st = dict(step(place(run, how, "x")), **STEPFIELDS[field])
        if kind == "wf":
            st["out"] = ["z"] if st["out"] == ["o"] else [{"id": "z"}] if st["out"] else []
            st["in"] = [dict(i, id="a") for i in st["in"]]
            if "scatter" in st:
                st["scatter"] = ["a"] if isinstance(st["scatter"], list) else "a"
        steps = [st]
        if beside:
            plain = dict(step(Part(tool(v, label="plain"), "y", "link")), id="other")
            steps = [plain, st] if beside == "before" else [st, plain]
        doc = wf(v, steps=steps, outputs=[])
        where = "%s step with %s of a %s %s by %s%s" % (v, field, vrun, kind, how, ", a plain one %s" % beside if beside else "")
        w = World(case_dir())
        got = pack(rec, w.main(doc), where)
        if got is not None:
            compare(rec, expected(doc), got, where, "tree-same", loadable=(v != "v1.0" or field != "x"))


def run_stepkinds(rec, v, n):
    """Every sequence of kinds of processes in the steps, with every way of declaring requirements."""
    kinds = ("tool", "etool", "wf", "wf-in") + (("op",) if v == "v1.2" else ())
    for seq in itertools.product(kinds, repeat=n):
        for how in ("link", "embedded"):
            for reqs in (None, [], [{"class": "SubworkflowFeatureRequirement"}], {"InlineJavascriptRequirement": {}}):
                steps = []
                for i, k in enumerate(seq):
                    run = {"tool": tool, "etool": etool, "wf": wf, "op": optool}[k.split("-")[0]](v, label="k%d" % i)
                    if k == "wf-in":
                        run["steps"] = [step(Part(wf(v, label="inner"), ".", "link"), out=["z"])]
                        run["outputs"] = []
                    if how == "embedded":
                        run.pop("cwlVersion")
                    steps.append(dict(step(place(run, how, "x")), id="s%d" % i, out=[], **{"in": []}))
                doc = wf(v, steps=steps, outputs=[])
                if reqs is not None:
                    doc["requirements"] = reqs
                where = "%s steps of %s by %s, requirements %s" % (v, seq, how, reqs)
                w = World(case_dir())
                got = pack(rec, w.main(doc), where)
                if got is not None:
                    compare(rec, expected(doc), got, where, "tree-same")


# ---------------------------------------------------------------- forms

def run_form(rec, v, host):
    """Every combination of list, map and predicate forms, and of source notations."""
    ports = {
        "list": ([{"id": "a", "type": "File"}, {"id": "b", "type": "int?", "default": 1}],),
        "map": ({"a": {"type": "File"}, "b": {"type": "int?", "default": 1}},),
        "pred": ({"a": "File", "b": {"type": "int?", "default": 1}},),
        "pred2": ({"a": ["File", "null"], "b": {"type": {"type": "array", "items": "int"}}},),
        "listpred": ([{"id": "a", "type": ["null", "File"]}, {"id": "b", "type": {"type": "array", "items": "int?"}}],),
        "mapnest": ({"a": {"type": {"type": "record", "fields": {"f": "int?", "g": {"type": "File[]"}}}}, "b": "string[]?"},),
    }
    reqs = {"none": None, "list": [{"class": "StepInputExpressionRequirement"}, {"class": "ScatterFeatureRequirement"}],
            "map": {"StepInputExpressionRequirement": {}, "ScatterFeatureRequirement": {}}, "empty": [], "emptymap": {},
            "sub": [{"class": "SubworkflowFeatureRequirement"}], "submap": {"SubworkflowFeatureRequirement": {}}}
    ins = {"list": [{"id": "p", "source": "a"}, {"id": "q", "source": ["a", "b"]}],
           "hash": [{"id": "p", "source": "#a"}, {"id": "q", "source": ["#a", "#b"]}],
           "full": [{"id": "p", "source": "#w/a"}, {"id": "q", "source": ["#w/a", "b"]}],
           "map": {"p": {"source": "a", "valueFrom": "$(1)"}, "q": {"source": ["#a"]}},
           "pred": {"p": "a", "q": ["#b", "a"]}, "predhash": {"p": "#a", "q": "#b"},
           "value": {"p": {"default": "#a"}, "q": {"valueFrom": "#a", "default": ["#a"]}}, "empty": {}}
    outs = {"list": [{"id": "z", "type": "Any", "outputSource": "s/o"}], "hash": [{"id": "z", "type": "Any", "outputSource": "#s/o"}],
            "full": [{"id": "z", "type": "Any", "outputSource": "#w/s/o"}],
            "lists": [{"id": "z", "type": "Any", "outputSource": ["#s/o", "s/o"]}],
            "map": {"z": {"type": "Any", "outputSource": ["#s/o"]}, "y": {"type": "int[]", "outputSource": "#b"}}}
    lists = [("list", "list", "list", "list", "list")]
    for n, vals in enumerate((ports, reqs, ins, outs)):
        pass
    for i, r, n, o, s in itertools.product(ports, reqs, ins, outs, ("list", "map")):
        st = {"in": ins[n], "out": ["o"], "run": tool(v, inputs={"p": "Any", "q": "Any"}) if s == "list" else Part(
            tool(v, inputs=[{"id": "p", "type": "Any"}, {"id": "q", "type": "Any"}]), "x", "link")}
        doc = wf(v, inputs=ports[i][0], outputs=outs[o], steps=[dict(st, id="s")] if s == "list" else {"s": st})
        if reqs[r] is not None:
            doc["requirements"] = reqs[r]
        if host == "noid":
            if n == "full" or o == "full":
                continue
            del doc["id"]
        elif host == "linked":
            doc = wf(v, id="outer", steps=[step(Part(doc, "l", "link"), **{"in": [], "out": ["z"]})],
                     outputs={"y": {"type": "Any", "outputSource": "s/z"}})
        where = "%s %s workflow: inputs %s, requirements %s, in %s, outputs %s, steps %s" % (v, host, i, r, n, o, s)
        w = World(case_dir())
        got = pack(rec, w.main(doc), where)
        if got is not None:
            compare(rec, expected(doc), got, where, "form-same")


# ---------------------------------------------------------------- every construct

def run_construct(rec, v, name):
    """A document with each construct and field value keeps all it says, at the root and in a step."""
    g, gen, oracle = c10.get(v)
    insts = []
    fields = gen.fields(name)
    for f, alts in fields:
        for val in gen.values(name, f, alts):
            if c10.usable(gen, v, name, f, val) and not (f in ("id", "name") and val is None):
                insts.append((f, dict(gen.minimal(name), **{f: val})))
    for k in range(12):
        insts.append(("all %d" % k, c10.all_fields(gen, name, k)))
    for f, inst in insts:
        doc = gen.document(name, inst)
        text = json.dumps(doc)
        if "udt" in text or "SchemaDefRequirement" in text or '"n_x' in text and '"#n_x' in text:
            continue
        if "ProcessGenerator" in text:
            continue          # an extension that cwl-pack does not know
        if "main2" in text or "#t" in text or doc.get("id", "") is None:
            continue
        if oracle.resolve(doc, c10.URI)[0] is None:
            continue
        doc = with_tools(doc, v)
        hosts = [("root", doc)]
        if doc["class"] != "Workflow":
            hosts.append(("step", wf(v, **{"$namespaces": doc["$namespaces"], "steps": [step(Part(doc, "d", "link"))]})))
        for h, d in hosts:
            where = "%s %s.%s in %s" % (v, record_name(name), f, h)
            w = World(case_dir())
            got = pack(rec, w.main(d), where)
            if got is not None:
                want = expected(d)
                if h == "step":
                    want["steps"][0]["run"].pop("$namespaces", None)
                compare(rec, want, got, where, "construct-same")


def with_tools(x, v):
    """Linked processes as parts."""
    if isinstance(x, dict):
        return {k: Part(tool(v), os.path.dirname(y) or ".", "link", name=os.path.basename(y)) if k == "run" and isinstance(y, str)
                else with_tools(y, v) for k, y in x.items()}
    if isinstance(x, list):
        return [with_tools(y, v) for y in x]
    return x


# ---------------------------------------------------------------- namespaces

def run_namespaces(rec, v):
    """Namespaces and schemas of linked documents stay usable."""
    A, B = {"ex": "http://example.com/"}, {"ed": "http://edam.org/"}
    for own, other, deep in itertools.product((None, A, B), (None, A, B, dict(A, **B)), (None, A, B)):
        for how in ("link", "import-run", "graph"):
            if how == "graph" and deep:
                continue
            for schemas in (False, True):
                t2 = tool(v, label="deep")
                t = tool(v, label="t") if deep is None else wf(v, steps=[step(Part(t2, "y", "link"))])
                doc = wf(v, steps=[step(Part(t, "x", how))])
                for d, ns in ((doc, own), (t, other), (t2, deep)):
                    if ns:
                        d["$namespaces"] = dict(ns)
                        d["hints"] = [{"class": list(ns)[-1] + ":Hint"}]
                        d["inputs"] = [dict(d["inputs"][0], format=list(ns)[0] + ":f")]
                        if schemas:
                            d["$schemas"] = ["s.owl"]
                where = "%s namespaces %s, of a %s %s, and below %s, schemas %s" % (v, own, how, other, deep, schemas)
                root = case_dir()
                w = World(root)
                got = pack(rec, w.main(doc), where)
                if got is None:
                    continue
                want = expected(doc)
                allns = {}
                for d in (deep, other, own):
                    allns.update(d or {})
                strip(want)
                if allns:
                    want["$namespaces"] = allns
                got = json.loads(json.dumps(got))
                schemalist = got.pop("$schemas", [])
                full = [urllib.parse.urljoin("file://" + root + "/m/main.cwl", s) for s in schemalist]
                wantschemas = []
                for d, dirn in ((own, ""), (other, "x/"), (deep, "x/y/")):
                    if d and schemas and not (d is deep and t is not doc and deep is None):
                        wantschemas.append("file://" + root + "/m/" + dirn + "s.owl")
                if sorted(full) != sorted(wantschemas):
                    rec.fail("%s: schemas %s instead of %s" % (where, full, wantschemas), packed=got)
                    continue
                compare(rec, want, got, where, "namespaces-same")


def strip(p):
    for k in ("$namespaces", "$schemas"):
        p.pop(k, None)
    for s in p.get("steps", []):
        if isinstance(s.get("run"), dict):
            strip(s["run"])


# ---------------------------------------------------------------- entry points

NAMES = ("main.cwl", "my doc.cwl", "a%20b.cwl", "a+b.cwl", "a;b.cwl", "a?b.cwl", "\u00e9.cwl", "a:b.cwl", "a#b.cwl", "100%.cwl", "a&b=c.cwl")


def run_entry(rec, v, name):
    from pathlib import Path

    for d in ("m", "m n", "m%20n", "m#n", "m?n", "\u00fc"):
        doc = wf(v, steps=[step(Part(tool(v, doc=Part("one.line", "inc", "$include")), "run", "link"))])
        root = case_dir()
        w = World(root)
        path = w.main(doc, d + "/" + name)
        entries = {"absolute": path, "uri": Path(path).as_uri(), "relative": name, "relative dir": os.path.join("..", d, name)}
        if ":" in name:
            entries["relative"] = "./" + name
        for kind, e in entries.items():
            os.chdir(os.path.dirname(path))
            where = "%s %s %r in %r" % (v, kind, name, d)
            got = pack(rec, e, where)
            os.chdir("/")
            if got is not None:
                compare(rec, expected(doc), got, where, "entry-same")


def run_linkname(rec, v):
    """Links are URI references: escaped and plain awkward names both reach the file."""
    for name in ("my tool.cwl", "t\u00f6\u00f6l.cwl", "a+b.cwl", "a;b.cwl", "a&b.cwl", "tool.v1.cwl"):
        for d in ("", "sub dir/", "../x y/"):
            for quote in (False, True):
                for site in ("run", "import", "include"):
                    root = case_dir()
                    w = World(root)
                    link = d + name
                    target = os.path.normpath(os.path.join(root, "m", link))
                    if quote:
                        link = urllib.parse.quote(link)
                    t = tool(v, label="linked")
                    if site == "run":
                        w.write(target, t)
                        doc = wf(v, steps=[step(link)])
                        want = wf(v, steps=[step(t)])
                    elif site == "import":
                        w.write(target, json.dumps([dict(IJS)]))
                        doc, want = tool(v, hints={"$import": link}), tool(v, hints=[dict(IJS)])
                    else:
                        w.write(target, "some text")
                        doc, want = tool(v, doc={"$include": link}), tool(v, doc="some text")
                    path = w.main(doc)
                    where = "%s %s of %r" % (v, site, link)
                    got = pack(rec, path, where)
                    if got is not None:
                        compare(rec, want, got, where, "entry-same")


def run_unchanged(rec, v):
    """A document that is already packed comes back as it is."""
    for n in (1, 2):
        doc = {"cwlVersion": v, "$graph": [wf(v, id="main", steps=[step("#t")]), tool(v, id="t")][-n:]}
        for p in doc["$graph"]:
            p.pop("cwlVersion")
        w = World(case_dir())
        got = pack(rec, w.main(doc), "graph")
        rec.trace(1)
        d = c10.same(json.loads(json.dumps(got)), doc)
        if d:
            rec.fail("%s packed graph changed: %s" % (v, d))
        else:
            rec.outcome("entry-same")
    # missing files are errors, not silent omissions
    for doc in (wf(v, steps=[step("nowhere.cwl")]), tool(v, hints={"$import": "nowhere.yml"}), tool(v, doc={"$include": "no.txt"})):
        w = World(case_dir())
        path = w.main(doc)
        rec.plain_states += 1
        rec.step(1)
        try:
            EX["pack"](path)
        except (Exception, SystemExit):
            rec.outcome("missing-reported")
        else:
            rec.fail("%s: a missing file went unnoticed in %s" % (v, json.dumps(doc)))


ALIASES = {
    "inputs": ("inputs:\n  a: &x {type: int}\n  b: *x\noutputs: []\nclass: CommandLineTool\nbaseCommand: x\n",
               {"inputs": [{"id": "a", "type": "int"}, {"id": "b", "type": "int"}], "outputs": [], "class": "CommandLineTool",
                "baseCommand": "x"}),
    "type": ("inputs:\n  a: {type: &x {type: array, items: int}}\n  b: {type: *x}\noutputs:\n  o: {type: *x, outputBinding: {glob: y}}\nclass: CommandLineTool\nbaseCommand: x\n", None),
    "steps": ("class: Workflow\ninputs: {a: File}\noutputs: []\nsteps:\n  s: &x {run: t.cwl, in: {p: a}, out: [o]}\n  s2: *x\n",
              "steps"),
    "in": ("class: Workflow\ninputs: {a: File}\noutputs: []\nsteps:\n  s: {run: t.cwl, in: &x {p: '#a', q: &y {source: '#a'}, r: *y}, out: [o]}\n"
           "  s2: {run: t.cwl, in: *x, out: [o]}\n", "in"),
    "reqs": ("class: Workflow\ninputs: {a: File}\noutputs: []\nrequirements: {StepInputExpressionRequirement: &e {}, ScatterFeatureRequirement: *e}\nsteps:\n"
             "  s: {run: t.cwl, in: {p: a}, out: [o]}\n", "reqs"),
    "run": ("class: Workflow\ninputs: {a: File}\noutputs: []\nsteps:\n  s: {run: &t {class: CommandLineTool, inputs: {p: File}, outputs: {o: {type: 'int[]?'}},"
            " baseCommand: x}, in: {p: a}, out: [o]}\n  s2: {run: *t, in: {p: a}, out: [o]}\n", "run"),
}


def run_alias(rec, v):
    """YAML anchors and aliases stand for equal, not for identical, parts."""
    for name, (text, want) in ALIASES.items():
        root = case_dir()
        w = World(root)
        t = tool(v)
        if name == "in":
            t["inputs"] += [{"id": "q", "type": "File"}, {"id": "r", "type": "File"}]
        w.write(os.path.join(root, "m/t.cwl"), t)
        path = os.path.join(root, "m/main.cwl")
        w.write(path, "cwlVersion: %s\n" % v + text)
        from ruamel.yaml import YAML

        plain = json.loads(json.dumps(YAML(typ="safe", pure=True).load(text)))
        plain["cwlVersion"] = v

        def links(x):
            if isinstance(x, dict):
                return {k: (t if k == "run" and y == "t.cwl" else links(y)) for k, y in x.items()}
            return [links(y) for y in x] if isinstance(x, list) else x

        where = "%s YAML aliases in %s" % (v, name)
        got = pack(rec, path, where)
        if got is not None:
            compare(rec, links(plain), got, where, "alias-same")


# ---------------------------------------------------------------- remote documents

def server():
    if "srv" not in EX:
        class H(http.server.SimpleHTTPRequestHandler):
            def __init__(self, *a, **k):
                super().__init__(*a, directory=os.path.join(EX["dir"], "case"), **k)

            def log_message(self, *a):
                pass

        EX["srv"] = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        threading.Thread(target=EX["srv"].serve_forever, daemon=True).start()
        for k in list(os.environ):
            if k.lower().endswith("_proxy"):
                del os.environ[k]
    return "http://127.0.0.1:%d/" % EX["srv"].server_address[1]


def run_http(rec, v, how):
    base = server()
    for d, d2 in itertools.product(DIRS, repeat=2):
        for kind in ("tool", "wf", "wf-graph", "include", "import", "symlink"):
            if kind == "tool":
                inner = tool(v, label="remote")
            elif kind == "wf":
                inner = wf(v, steps=[step(Part(tool(v, label="deep"), d2, "link"))])
            elif kind == "wf-graph":
                inner = wf(v, steps=[step(Part(tool(v, label="deep"), d2, "graph", pid="x"))])
            elif kind == "include":
                inner = tool(v, doc=Part("line one\nline two.", d2, "$include"))
            elif kind == "import":
                inner = tool(v, requirements=[Part(dict(IJS, expressionLib=[Part("var a.b;\n", d, "$include")]), d2)])
            else:
                inner = tool(v, label="behind a link")
            if kind == "symlink" and how in ("embedded", "abs", "uri", "graph", "graph-id"):
                continue
            doc = wf(v, steps=[step(place(inner, how, d))])
            if how in ("abs", "uri"):
                continue
            root = case_dir()
            w = World(root)
            path = w.main(doc, "m/k/l/n/main.cwl")
            if kind == "symlink":
                target = [p for p in w.files if p != path][0]
                moved = os.path.normpath(os.path.join(os.path.dirname(target), d2, "real.cwl"))
                w.write(moved, w.files[target])
                w.write(target, os.path.relpath(moved, os.path.dirname(target)))
            where = "%s over http: %s %s in %s with a part in %s" % (v, how, kind, d, d2)
            got = pack(rec, base + os.path.relpath(path, root), where)
            if got is not None:
                compare(rec, expected(doc), got, where, "http-same")


# ---------------------------------------------------------------- command line

def run_cli(rec, v):
    for out, indent in itertools.product((None, "o.json"), (None, 0, 2)):
        doc = wf(v, steps=[step(Part(tool(v, label="\u00e9\u4e2d"), "run", "link"))])
        w = World(case_dir())
        path = w.main(doc)
        args = [sys.executable, "-m", "cwl_utils.pack_cli", path]
        outp_ = os.path.join(EX["dir"], "case", "o.json")
        if out:
            args += ["--outfile", outp_]
        if indent is not None:
            args += ["--indent", str(indent)]
        r = subprocess.run(args, capture_output=True, env=dict(os.environ, PYTHONPATH="/repo/src"), cwd=EX["dir"], timeout=120)
        rec.plain_states += 1
        rec.step(1)
        where = "%s cwl-pack with outfile %s and indent %s" % (v, out, indent)
        if r.returncode:
            rec.fail("%s: exit code %d: %s" % (where, r.returncode, r.stderr[-300:]))
            continue
        text = open(outp_, encoding="utf-8").read() if out else r.stdout.decode()
        if out and r.stdout:
            rec.fail("%s: writes to the standard output, too" % where)
            continue
        compare(rec, expected(doc), json.loads(text), where, "cli-same")
    w = World(case_dir())
    path = w.main(wf(v, steps=[step("nowhere.cwl")]))
    r = subprocess.run([sys.executable, "-m", "cwl_utils.pack_cli", path, "-o", path + ".out"], capture_output=True,
                       env=dict(os.environ, PYTHONPATH="/repo/src"), cwd=EX["dir"], timeout=120)
    rec.check(r.returncode != 0, "%s cwl-pack succeeds although a linked process is missing" % v)


# ---------------------------------------------------------------- enumeration

def items(tier):
    for v in VERSIONS:
        for host in HOSTS:
            for site in SITES:
                yield ["import", v, site, host]
    for a, b in itertools.product(VERSIONS, repeat=2):
        for how in LINKS:
            yield ["tree", [a, b], [how]]
    for vs in itertools.product(VERSIONS, repeat=3):
        for hows in itertools.product(LINKS if tier == "thorough" or len(set(vs)) == 1 else ("link", "embedded", "graph-id"), repeat=2):
            yield ["tree", list(vs), list(hows)]
    deep = ("link", "embedded", "graph-id", "import-run")
    for hows in itertools.product(deep, repeat=3):
        yield ["tree", ["v1.2"] * 4, list(hows)]
    for vs in itertools.product(VERSIONS, repeat=4):
        yield ["tree", list(vs), ["link", "embedded", "link"]]
        if tier == "thorough":
            for hows in itertools.product(deep, repeat=3):
                yield ["tree", list(vs), list(hows)]
    for v in VERSIONS:
        for h1, h2 in itertools.product(LINKS, repeat=2):
            yield ["wide", v, h1, h2]
        yield ["graphlinks", v]
        for n in (1, 2, 3):
            yield ["stepkinds", v, n]
        for f in STEPFIELDS:
            for v2 in VERSIONS:
                yield ["stepfield", v, v2, f]
        for host in ("root", "noid", "linked"):
            yield ["form", v, host]
        for name, _ in c10.table(v):
            yield ["construct", v, name]
        yield ["namespaces", v]
        for n in NAMES:
            yield ["entry", v, n]
        yield ["linkname", v]
        yield ["unchanged", v]
        yield ["alias", v]
        for how in LINKS:
            yield ["http", v, how]
        yield ["cli", v]


def BOUNDS(tier):
    return {"import sites": len(SITES), "hosts": HOSTS, "directories": DIRS, "nesting of imports": 2, "link forms": LINKS,
            "depth of links": 3, "versions per tree": "all combinations", "file names": NAMES}
