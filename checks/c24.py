"""C24: refactored documents are valid, complete and free of expressions."""

import copy
import json
import logging
import os
import tempfile

from checks import c25
from checks.c01 import Unterminated, ref_parts
from mc.cwlrun import PARAM, outs, short
from mc.grammar import VERSIONS

PID = "C24"
LEVEL = "model_checked_code"
RULE = ("one state per document: every place for an expression x every form of expression of the type of that place x standalone tool, workflow step, "
        "scattered step, nested and linked process x version x options; the written document is loaded again and walked completely")
ASSUMPTIONS = c25.ASSUMPTIONS + ["a document with only string interpolations of parameter references may be refactored or left alone",
                                 "a process in another file that several steps run keeps its identifier in each of its refactored copies"]
REQUIRED_OUTCOMES = ("checked", "unmodified")
ITEM_TIMEOUT = 800
DYNAMIC = True
EX = {}


def setup(tier):
    logging.disable(logging.CRITICAL)
    import cwl_utils.expression_refactor as er

    EX.update(dir=os.path.realpath(tempfile.mkdtemp()))
    c25.EX.update(er=er, dir=EX["dir"], tier=tier)


# ---------------------------------------------------------------- JavaScript in a document

def strings(x, path=()):
    """Every string with where it is."""
    if isinstance(x, str):
        yield path, x
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from strings(v, path + (k,))
    elif isinstance(x, list):
        for n, v in enumerate(x):
            yield from strings(v, path + (n,))


def is_js(s, version):
    if "$(" not in s and "${" not in s:
        return False
    try:
        return any(k == "e" and not (e[0] == "(" and (PARAM.match(e) or e == "(null)")) for k, e in ref_parts(s.strip(), 2 if version == "v1.2" else 1))
    except Unterminated:
        return False


def to_do(found, opts):
    """Those of the expressions that the options do not exclude."""
    skipped = {"arguments", "inputBinding"} if "--skip-some1" in opts else set()
    skipped |= {"outputEval", "listing"} if "--skip-some2" in opts else set()
    return [x for x in found if not skipped.intersection(x[0])]


def javascript(doc, version, etools=False, without=("hints",)):
    """The places with JavaScript in a document; the scripts of the generated tools, and ExpressionTools that may stay, do not count."""
    out = []
    for path, s in strings(doc):
        if "expressionLib" in path or path[-1:] == ("doc",) or any(x in path for x in without):
            continue
        if not is_js(s, version):
            continue
        if etools and path[-1] == "expression":
            continue
        out.append((path, s))
    return out


# ---------------------------------------------------------------- a document is complete

def bad(doc):
    """What is wrong with a fully resolved document."""
    seen = {}
    out = []

    def process(p, where):
        if isinstance(p, str):
            out.append("%s: not resolved" % p)
            return
        if "linked.cwl" not in p.get("id", "") and seen.setdefault(p.get("id", id(p)), p) != p:
            out.append("the identifier %s is used twice" % p["id"])
        own = set()

        def new(i):
            if i in own:
                out.append("the identifier %s is used twice" % i)
            own.add(i)

        names = set()
        for i in p.get("inputs") or []:
            new(i["id"])
            names.add(short(i["id"]))
        onames = set()
        for o in p.get("outputs") or []:
            new(o["id"])
            onames.add(short(o["id"]))
        for f in ("inputs", "outputs"):
            if len({short(i["id"]) for i in p.get(f) or []}) != len(p.get(f) or []):
                out.append("%s: names of %s are repeated" % (where, f))
        if p["class"] == "CommandLineTool":
            for path, s in strings({k: v for k, v in p.items() if k not in ("id",)}):
                if "expressionLib" in path:
                    continue
                try:
                    parts = ref_parts(s.strip(), 2) if "$(" in s or "${" in s else []
                except Unterminated:
                    parts = []
                for k, e in parts:
                    m = PARAM.match(e) if k == "e" else None
                    if m and m.group(1) == "inputs" and m.group(2):
                        name = m.group(2)[1:].split(".")[0].split("[")[0] if m.group(2)[0] == "." else None
                        if name and name not in names:
                            out.append("%s: there is no input %s for %s" % (where, name, s))
        if p["class"] != "Workflow":
            return
        known = {i["id"] for i in p.get("inputs") or []}
        for s in p.get("steps") or []:
            new(s["id"])
            for o in outs(s):
                new(o)
                known.add(o)
        kinds = {"ScatterFeatureRequirement": lambda s: s.get("scatter"), "SubworkflowFeatureRequirement": lambda s: isinstance(s["run"], dict) and s["run"]["class"] == "Workflow"}
        for s in p.get("steps") or []:
            ins = set()
            for i in s.get("in") or []:
                new(i["id"])
                ins.add(short(i["id"]))
                for src in c25.cwlrun.aslist(i.get("source")):
                    if src not in known:
                        out.append("%s: the source %s does not exist" % (i["id"], src))
            for n in c25.cwlrun.aslist(s.get("scatter")):
                if n not in [i["id"] for i in s["in"]]:
                    out.append("%s: scatters over %s, which does not exist" % (s["id"], n))
            process(s["run"], s["id"])
            if isinstance(s["run"], dict):
                for i in s["run"].get("inputs") or []:
                    if short(i["id"]) not in ins and i.get("default") is None and not c25.cwlrun.optional(i["type"]):
                        out.append("%s: nothing for the input %s" % (s["id"], short(i["id"])))
                have = {short(o["id"]) for o in s["run"].get("outputs") or []}
                for o in outs(s):
                    if short(o) not in have:
                        out.append("%s: the process has no output %s" % (s["id"], short(o)))
        for o in p.get("outputs") or []:
            for src in c25.cwlrun.aslist(o.get("outputSource")):
                if src not in known:
                    out.append("%s: the source %s does not exist" % (o["id"], src))

    def needs(p, has):
        """Feature requirements are there for what is used, here or further out."""
        if isinstance(p, str) or p["class"] != "Workflow":
            return
        has = has | {r["class"] for r in p.get("requirements") or []}
        for s in p.get("steps") or []:
            if s.get("scatter") and "ScatterFeatureRequirement" not in has:
                out.append("%s: scatters without the requirement" % s["id"])
            if isinstance(s["run"], dict) and s["run"]["class"] == "Workflow" and "SubworkflowFeatureRequirement" not in has:
                out.append("%s: runs a workflow without the requirement" % s["id"])
            for i in s.get("in") or []:
                if isinstance(i.get("source"), list) and len(i["source"]) > 1 and "MultipleInputFeatureRequirement" not in has:
                    out.append("%s: several sources without the requirement" % i["id"])
                if i.get("valueFrom") and "StepInputExpressionRequirement" not in has and not {"StepInputExpressionRequirement"} & {r["class"] for r in s.get("requirements") or []}:
                    out.append("%s: valueFrom without the requirement" % i["id"])
            needs(s["run"], has | {r["class"] for r in s.get("requirements") or []})

    process(doc, "the document")
    needs(doc, set())
    return out


def plain(t):
    """A type without generated names."""
    if isinstance(t, dict):
        return {k: [short(x) for x in v] if k == "symbols" else [[short(x["name"]), plain(x)] for x in v] if k == "fields" else plain(v)
                for k, v in t.items() if k != "name" and not k.endswith("Binding")}
    if isinstance(t, list):
        return [plain(x) for x in t]
    return "File" if t in ("stdout", "stderr") else t.split("#")[-1] if isinstance(t, str) else t


def interface(doc):
    return {f: [[short(i["id"]), plain(i["type"]), i.get("default"), i.get("label"), i.get("doc"), i.get("secondaryFiles"), i.get("streamable"), i.get("format")]
                for i in doc.get(f) or []] for f in ("inputs", "outputs")}


def one(rec, where, doc, ctx, opts, key):
    path = os.path.join(EX["dir"], "d.cwl")
    version = doc["cwlVersion"]
    etools = "--etools" in opts
    everything = [doc]
    if "linked" in doc:
        doc = dict(doc)
        linked = doc.pop("linked")
        with open(os.path.join(EX["dir"], "linked.cwl"), "w", encoding="utf-8") as h:
            json.dump(linked, h)
        everything = [doc, linked]
    rec.plain_states += 1
    rec.step(1)
    rec.trace(1)
    opts = [o for o in opts if o != "again"]
    try:
        code, target = c25.refactor(doc, path, *opts)
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
        return
    js = any(to_do(javascript(d, version, etools, ("hints", "requirements") if d["class"] == "Workflow" else ("hints",)), opts) for d in everything) or any("pickValue" in o for d in everything for p in processes(d) for o in p["outputs"]) or \
        (not etools and any(s == "ExpressionTool" for d in everything for _, s in strings(d)))
    with open(path, encoding="utf-8") as h:
        if json.load(h) != doc:
            rec.fail("%s: the document itself is changed" % where, key=key)
    if code == 7:
        if target is not None:
            rec.fail("%s: unmodified, but a document is written" % where, key=key)
        if js:
            rec.fail("%s: reported as unmodified, but has JavaScript" % where, key=key)
        rec.outcome("unmodified")
        return
    if code or target is None:
        rec.fail("%s: exit code %s, %s written" % (where, code, "nothing" if target is None else "a document"), key=key)
        return
    if not js and not any("$(" in s or "${" in s for d in everything for _, s in strings(d)):
        rec.fail("%s: modified, but there is no expression in it" % where, key=key)
        return
    rec.outcome("modified")
    with open(target, encoding="utf-8") as h:
        text = h.read()
    if not text.startswith("#!/usr/bin/env cwl-runner\n"):
        rec.fail("%s: no first line for the runner" % where, key=key)
    raw = c25.parsed(target)
    if raw.get("cwlVersion") != version:
        rec.fail("%s: the version is %s" % (where, raw.get("cwlVersion")), key=key)
    try:
        old = c25.absolute(path)
        away = [x for x in (path, os.path.join(EX["dir"], "linked.cwl")) if os.path.exists(x)]
        try:
            for x in away:
                os.rename(x, x + ".away")
            new = c25.absolute(target, raw)
        finally:
            for x in away:
                os.rename(x + ".away", x)
    except Exception as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
        return
    wrong = bad(new)
    if wrong:
        rec.fail("%s: %s" % (where, "; ".join(wrong[:3])), key=key, new=text)
    left = to_do(javascript(new, version, etools), opts)
    if left:
        rec.fail("%s: JavaScript is left at %s: %s" % (where, "/".join(map(str, left[0][0])), left[0][1][:200]), key=key)
    for p in processes(new):
        if p["class"] == "ExpressionTool" and not etools:
            rec.fail("%s: an ExpressionTool is left" % where, key=key)
    if interface(new) != interface(old):
        rec.fail("%s: the interface was %s and is %s" % (where, json.dumps(interface(old)), json.dumps(interface(new))), key=key)
    if RICH:
        rich(rec, where, old, new, key)
    for f in ("label", "doc"):
        if old.get(f) != new.get(f) and old["class"] == new["class"]:
            rec.fail("%s: %s is changed" % (where, f), key=key)
    rec.outcome("checked")


# ---------------------------------------------------------------- what a document says besides expressions

RICH = []
PLAIN = [{"class": "DockerRequirement", "dockerPull": "image"}, {"class": "ShellCommandRequirement"}]
PLAIN11 = [{"class": "NetworkAccess", "networkAccess": True}, {"class": "ToolTimeLimit", "timelimit": 77}, {"class": "WorkReuse", "enableReuse": False}, {"class": "InplaceUpdateRequirement", "inplaceUpdate": True}]
HINTS = [{"class": "SoftwareRequirement", "packages": [{"package": "p", "version": ["1"], "specs": ["http://example.com/p"]}]}, {"class": "ex:Other", "ex:value": 3}]


def decorated(doc, v, name="d"):
    """The same document with everything else that a document can say."""
    if not isinstance(doc, dict) or "class" not in doc:
        return doc
    doc = dict(doc, label="label of " + name, doc="doc of " + name)
    doc["ex:note"] = "note of " + name
    for f in ("inputs", "outputs"):
        params = []
        for n, i in enumerate(doc[f]):
            i = dict({"label": "label %d of %s" % (n, name), "doc": "doc %d of %s" % (n, name)}, **i)
            if i["type"] == "File":
                i.update(format="http://example.com/format%d" % n, streamable=True, secondaryFiles=[".idx"] if v == "v1.0" else [{"pattern": ".idx", "required": False}])
            params.append(i)
        doc[f] = params
    if "steps" in doc:
        doc["steps"] = [dict({"label": "label of step %d of %s" % (n, name), "doc": "doc of step %d of %s" % (n, name)}, **dict(s, run=decorated(s["run"], v, name + "." + s["id"])))
                        for n, s in enumerate(doc["steps"])]
    if doc["class"] == "CommandLineTool":
        have = {r["class"] for r in (doc.get("requirements") or []) + (doc.get("hints") or [])}
        doc["requirements"] = [r for r in PLAIN + (PLAIN11 if v != "v1.0" else []) if r["class"] not in have] + (doc.get("requirements") or [])
        doc["hints"] = (doc.get("hints") or []) + HINTS
        doc = dict({"stdin": "$(inputs.f.path)", "successCodes": [0, 3], "temporaryFailCodes": [4], "permanentFailCodes": [5]}, **doc)
    if name in ("d", "linked"):
        doc["$namespaces"] = {"ex": "http://example.com/"}
    if name == "linked":
        doc["lx:note"] = "note in the linked document"
        doc["$namespaces"]["lx"] = "http://example.org/other#"
    return doc


def notes(p):
    """What a process says that refactoring has no reason to change."""
    keep = {k: v for k, v in p.items() if k in ("label", "doc", "stdin", "baseCommand", "successCodes", "temporaryFailCodes", "permanentFailCodes") or "note" in k}
    keep["params"] = {f: {short(i["id"]): {k: i.get(k) for k in ("label", "doc", "format", "streamable", "secondaryFiles", "default") if i.get(k) is not None} for i in p.get(f) or []} for f in ("inputs", "outputs")}
    plainly = {r["class"] for r in PLAIN + PLAIN11 + HINTS}
    keep["requirements"] = {r["class"]: r for r in p.get("requirements") or [] if r["class"] in plainly and not any("$" in s for _, s in strings(r))}
    keep["hints"] = {r["class"]: r for r in p.get("hints") or [] if isinstance(r, dict) and (r["class"] in plainly or "Other" in r["class"])}
    if p["class"] == "Workflow":
        keep["steps"] = {short(s["id"]): {k: s.get(k) for k in ("label", "doc") if s.get(k)} for s in p["steps"]}
    return keep


def missing(a, b, where=""):
    """What of a is not in b; b may have more."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k, x in a.items():
            if k not in b:
                yield "%s/%s is missing" % (where, k)
            else:
                yield from missing(x, b[k], where + "/" + k)
    elif a != b:
        yield "%s was %s and is %s" % (where, json.dumps(a), json.dumps(b))


def rich(rec, where, old, new, key):
    """Every original process is still there, once, with all it said."""
    def found(doc):
        out = {}
        for p in processes(doc):
            if p["class"] != "ExpressionTool" and "label of" in str(p.get("label")):
                out.setdefault((p["class"], p["label"]), []).append(p)
        return out

    was, now = found(old), found(new)
    for kind, ps in was.items():
        cands = now.get(kind, [])
        if not cands:
            rec.fail("%s: the %s with the %s is gone" % (where, *kind), key=key)
            continue
        best = min((list(missing(notes(ps[0]), notes(c))) for c in cands), key=len)
        if best:
            rec.fail("%s: of the %s with the %s: %s" % (where, *kind, "; ".join(best[:4])), key=key)
    rec.outcome("complete")


def run_rich(rec, v, group, site, ctx, etools):
    forms, make = (c25.SITES if group == "tool" else {**c25.WSITES, **c25.W11, **c25.W12})[site]
    for label, e in list(forms.items())[:2 if c25.EX["tier"] == "quick" else None]:
        doc = make(v, e)
        if doc.pop("wl", None):
            doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
        if group == "tool" and ctx != "tool":
            doc = c25.wf(v, doc, ctx == "scatter")
        if "linked" in doc:
            doc = dict(doc, linked=decorated(doc["linked"], v, "linked"))
        RICH.append(True)
        try:
            one(rec, "%s %s of %s in a rich %s%s" % (v, label, site, ctx, " to ExpressionTools" if etools else ""), decorated(doc, v), ctx, ("--etools",) if etools else (),
                ["rich", v, site, label, ctx, etools])
        finally:
            RICH.pop()


def processes(p):
    yield p
    for s in p.get("steps") or []:
        if isinstance(s["run"], dict):
            yield from processes(s["run"])


def run_item(item, rec):
    if item[0] == "rich":
        run_rich(rec, *item[1:])
        return
    saved, c25.one = c25.one, one
    try:
        c25.run_item(item, rec)
    finally:
        c25.one = saved


def items(tier):
    for i in c25.items(tier):
        if i[0] != "again" and not (tier == "quick" and i[0] == "pair"):
            yield i
        if i[0] in ("tool", "wf") and not (tier == "quick" and i[0] == "tool" and i[3:] in (["step", False], ["scatter", True])):
            yield ["rich", i[1], i[0], *(i[2:] if i[0] == "tool" else [i[2], "workflow", i[3]])]


def BOUNDS(tier):
    out = c25.BOUNDS(tier, run=False)
    if tier == "quick":
        out.pop("pairs of places")
    return out
