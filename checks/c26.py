"""C26: the refactoring and normalising commands write correct results."""

import copy
import itertools
import json
import logging
import os
import re
import shutil
import tempfile

from ruamel.yaml import YAML

from checks import c24, c25
from mc import cwlrun
from mc.cwlrun import short
from mc.grammar import VERSIONS

PID = "C26"
LEVEL = "model_checked_code"
CLAIMED = True
RULE = ("one state per command line: every sequence of documents up to the length bound over the kinds of documents (with expressions, without, refused, unsupported) x version x options x way to name the files, "
        "and every form of expression in every place x version x options for the normalising command; exit code and every file in the folders are compared with what the commands document, "
        "and the documents written are run by the reference interpreter beside the originals")
ASSUMPTIONS = c25.ASSUMPTIONS + ["the documents of one command have different file names", "after the error for an unsupported version nothing is said about the documents that follow"]
REQUIRED_OUTCOMES = ("single", "several", "refused", "unsupported", "normalised", "same", "several normalised", "graph")
ITEM_TIMEOUT = 800
DYNAMIC = True
EX = {}


def setup(tier):
    logging.disable(logging.CRITICAL)
    import cwl_utils.expression_refactor as er
    import cwl_utils.normalizer as norm

    EX.update(dir=os.path.realpath(tempfile.mkdtemp()), er=er, norm=norm, tier=tier)
    c24.EX.update(dir=EX["dir"])
    c25.EX.update(er=er, dir=EX["dir"], tier=tier)


def teardown():
    os.chdir("/")


# ---------------------------------------------------------------- several documents in one command

def kinds(v):
    return {
        "expression": c25.SITES["argument"][1](v, "$(inputs.a + 1)"),
        "workflow": c25.wf(v, c25.SITES["env"][1](v, "$(inputs.a + 'x')")),
        "plain": c25.SITES["argument"][1](v, "w"),
        "refused": c25.main(v, [c25.step(c25.tool(v, arguments=["$(inputs.a + 1)"]))], [("st/o", "File")], [c25.ijs()], inputs=[
            dict(i, id=c25.NAMES[i["id"]], **({"secondaryFiles": ["$(self.basename + inputs.wa)"]} if i["id"] == "f" else {})) for i in c25.inputs_of(v)]),
        "unsupported": dict(c25.tool(v), cwlVersion="v1.3.0-dev1"),
        "draft": dict(c25.tool(v), cwlVersion="draft-3"),
    }


NAMES = ("d0.cwl", "d.1.json", "other", "d3.tool.yml")


def contents(folder):
    out = {}
    for base, _, names in os.walk(folder):
        for n in names:
            with open(os.path.join(base, n), "rb") as h:
                out[os.path.relpath(os.path.join(base, n), folder)] = h.read()
    return out


def unnamed(x):
    """Without what is different in every run."""
    return re.sub(r"[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}", "U", x)


def run_batch(rec, v, opts, naming, first):
    base = os.path.join(EX["dir"], "batch")
    docs = kinds(v)
    alone = {}
    for k in ("expression", "workflow"):
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/out")
        os.makedirs(base + "/in")
        with open(base + "/in/%s.cwl" % k, "w", encoding="utf-8") as h:
            json.dump(docs[k], h)
        EX["er"].run([*opts, base + "/out", base + "/in/%s.cwl" % k])
        with open(base + "/out/%s.cwl" % k, encoding="utf-8") as h:
            alone[k] = h.read()
    depth = 2 if EX["tier"] == "quick" else 3
    for n in range(depth + 1):
        for rest in itertools.product(docs, repeat=n):
            seq = [first, *rest]
            where = "%s %s %s %s" % (v, " ".join(seq), naming, " ".join(opts))
            shutil.rmtree(base, ignore_errors=True)
            os.makedirs(base + "/out")
            os.makedirs(base + "/in/deep")
            names = []
            for i, k in enumerate(seq):
                name = NAMES[i] if n else "%s.cwl" % k
                with open(base + "/in/" + name, "w", encoding="utf-8") as h:
                    json.dump(docs[k], h)
                names.append(name)
            before = contents(base + "/in")
            os.chdir(base + {"relative": "", "here": "/in", "deep": "/in/deep"}.get(naming, ""))
            paths = [{"absolute": base + "/in/", "relative": "in/", "here": "", "deep": "../"}[naming] + x for x in names]
            out = {"absolute": base + "/out", "relative": "out", "here": "../out/", "deep": "../../out"}[naming]
            rec.plain_states += 1
            rec.step(1)
            rec.trace(1)
            key = ["batch", v, list(opts), naming, seq]
            try:
                code = EX["er"].run([*opts, out, *paths])
            except (Exception, SystemExit) as exc:
                rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
                continue
            finally:
                os.chdir("/")
            stop = next((i for i, k in enumerate(seq) if k in ("unsupported", "draft")), len(seq))
            want = {}
            for name, k in list(zip(names, seq))[:stop]:
                if k == "plain":
                    if n:
                        want[name] = before[name]
                elif k != "refused":
                    want[name] = alone[k]
            have = contents(base + "/out")
            if stop < len(seq):
                have = {k: x for k, x in have.items() if k not in names[stop + 1:]}
                good = code not in (0, 7)
                rec.outcome("unsupported")
            elif "refused" in seq:
                good = code == 1
                rec.outcome("refused")
            elif n:
                good = code == 0
                rec.outcome("several")
            else:
                good = code == (7 if first == "plain" else 0)
                rec.outcome("single")
            if not good:
                rec.fail("%s: exit code %s" % (where, code), key=key)
            if contents(base + "/in") != before:
                rec.fail("%s: the documents themselves are changed" % where, key=key)
            if sorted(have) != sorted(want):
                rec.fail("%s: written are %s, not %s" % (where, sorted(have), sorted(want)), key=key)
                continue
            for name, x in want.items():
                if isinstance(x, bytes):
                    if have[name] != x:
                        rec.fail("%s: %s is not the unmodified document" % (where, name), key=key)
                elif unnamed(have[name].decode()).replace(name, "D") != unnamed(x).replace(seq[names.index(name)] + ".cwl", "D"):
                    rec.fail("%s: %s is not what the document alone gives" % (where, name), key=key, new=have[name].decode(), alone=x)
            extra = set(os.listdir(base)) - {"in", "out"}
            if extra:
                rec.fail("%s: %s appeared elsewhere" % (where, sorted(extra)), key=key)


# ---------------------------------------------------------------- the normalising command

def run_several(rec, v, opts, naming):
    """Several documents in one command give what each of them gives alone."""
    base = os.path.join(EX["dir"], "several")
    docs = {k: x for k, x in kinds(v).items() if k not in ("refused", "draft")}
    alone = {}
    for seq in [s for n in (1, 2, 3) for s in itertools.product(docs, repeat=n)]:
        if n_unsupported(seq) > 1 or (n_unsupported(seq) and seq[-1] != "unsupported"):
            continue
        key = ["several", v, opts, naming, seq]
        where = "normalising %s %s %s %s" % (v, " ".join(seq), naming, " ".join(opts))
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/out")
        os.makedirs(base + "/in/deep")
        names = NAMES[:len(seq)] if len(seq) > 1 else ["%s.cwl" % seq[0]]
        for name, k in zip(names, seq):
            with open(base + "/in/" + name, "w", encoding="utf-8") as h:
                json.dump(docs[k], h)
        before = contents(base + "/in")
        os.chdir(base + {"relative": "", "here": "/in", "deep": "/in/deep"}.get(naming, ""))
        paths = [{"absolute": base + "/in/", "relative": "in/", "here": "", "deep": "../"}[naming] + x for x in names]
        out = {"absolute": base + "/out", "relative": "out", "here": "../out/", "deep": "../../out"}[naming]
        rec.plain_states += 1
        rec.step(1)
        rec.trace(1)
        try:
            code = EX["norm"].run(EX["norm"].parse_args([*opts, out, *paths]))
        except (Exception, SystemExit) as exc:
            rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
            continue
        finally:
            os.chdir("/")
        if bool(code) != bool(n_unsupported(seq)):
            rec.fail("%s: exit code %s" % (where, code), key=key)
        if contents(base + "/in") != before or set(os.listdir(base)) - {"in", "out"}:
            rec.fail("%s: other files are changed" % where, key=key)
        have = {k: unnamed(x.decode()).replace(k, "D") for k, x in contents(base + "/out").items()}
        if len(seq) == 1 and not n_unsupported(seq):
            alone[seq[0]] = have.get(names[0])
        want = {name: alone[k] for name, k in zip(names, seq) if k != "unsupported"}
        if have != want:
            rec.fail("%s: the documents are not what each alone gives (%s and %s)" % (where, sorted(have), sorted(want)), key=key, new=have, alone=want)
        rec.outcome("several normalised")


def n_unsupported(seq):
    return sum(k == "unsupported" for k in seq)


def run_graph(rec, v, opts):
    """Documents with several processes."""
    base = os.path.join(EX["dir"], "graph")
    lone = c25.wf(v, c25.SITES["argument"][1](v, "$(inputs.a + 1)"))
    lone["requirements"] = lone.get("requirements") or []
    tool = {k: x for k, x in lone["steps"][0]["run"].items() if k != "cwlVersion"}
    doc = {"cwlVersion": v, "$graph": [dict(tool, id="tool"), {k: x for k, x in dict(lone, id="main", steps=[dict(lone["steps"][0], run="#tool")]).items() if k != "cwlVersion"}]}
    for command in ("refactoring", "normalising"):
        if command == "refactoring" and "--no-expression-refactoring" in opts:
            continue
        where = "%s of a $graph in %s %s" % (command, v, " ".join(opts))
        key = ("graph %s %s %s" % (command, v, " ".join(opts))).strip()
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base + "/out")
        for name, x in (("g.cwl", doc), ("lone.cwl", lone)):
            with open(base + "/" + name, "w", encoding="utf-8") as h:
                json.dump(x, h)
        rec.plain_states += 1
        rec.step(1)
        rec.trace(1)
        try:
            args = [*opts, base + "/out", base + "/g.cwl"]
            code = EX["er"].run(args) if command == "refactoring" else EX["norm"].run(EX["norm"].parse_args(args))
        except (Exception, SystemExit) as exc:
            rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
            continue
        if code or not os.path.exists(base + "/out/g.cwl"):
            rec.fail("%s: exit code %s, no document" % (where, code), key=key)
            continue
        try:
            with open(base + "/out/g.cwl", encoding="utf-8") as h:
                raw = YAML(typ="safe").load(h)
            new = c25.absolute(base + "/out/g.cwl", dict(unpacked(raw), cwlVersion=raw["cwlVersion"]))
            old = c25.absolute(base + "/lone.cwl")
            left = "--no-expression-refactoring" not in opts and c24.javascript(new, raw["cwlVersion"], "--etools" in opts)
        except Exception as exc:
            rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
            continue
        if left:
            rec.fail("%s: JavaScript is left" % where, key=key)
        for values in c25.VALUES:
            a, b = (cwlrun.run(x, c25.job(values, x), c25.FILES) for x in (old, new))
            rec.step(2)
            if a != b:
                rec.fail("%s: the original gives %s, the result %s" % (where, json.dumps(a)[:300], json.dumps(b)[:300]), key=key)
                break
        rec.outcome("graph")


NORM = ([], ["--etools"], ["--no-expression-refactoring"])
SKIP = (["--skip-some1"], ["--skip-some2"])


def unpacked(doc):
    """The main process of a packed document with the others in their places."""
    if "$graph" not in doc:
        return doc
    graph = {p["id"].lstrip("#"): p for p in doc["$graph"]}

    def put(p):
        p = copy.deepcopy(p)
        for s in p.get("steps") or []:
            if isinstance(s["run"], str):
                s["run"] = graph[s["run"].lstrip("#")]
            s["run"] = put(s["run"])
        return p

    return dict(put(graph["main"]), cwlVersion=doc.get("cwlVersion"))


def interface(doc):
    """Packing puts the types of a SchemaDefRequirement where they are named."""
    types = {short(t["name"]): c24.plain(t) for r in doc.get("requirements") or [] if r["class"] == "SchemaDefRequirement" for t in r["types"]}

    def put(t):
        if isinstance(t, dict):
            return {k: put(x) for k, x in t.items()}
        if isinstance(t, list):
            return [put(x) for x in t]
        return types.get(t, t) if isinstance(t, str) else t

    return {f: [[name, put(typ), *rest] for name, typ, *rest in l] for f, l in c24.interface(doc).items()}


def run_norm(rec, v, group, site, ctx, opts):
    forms, make = (c25.SITES if group == "tool" else {**c25.WSITES, **c25.W11, **c25.W12})[site]
    few = 2 if EX["tier"] == "quick" else None
    for label, e in itertools.islice(forms.items(), few):
        doc = make(v, e)
        if doc.pop("wl", None):
            doc["inputs"][1]["type"] = {"type": "array", "items": "string"}
        if group == "tool" and ctx != "tool":
            doc = c25.wf(v, doc, ctx == "scatter")
        normalise(rec, "%s %s of %s in a %s %s" % (v, label, site, ctx, " ".join(opts)), doc, opts, ["norm", v, site, label, ctx, opts])


def normalise(rec, where, doc, opts, key):
    base = os.path.join(EX["dir"], "norm")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/out")
    os.makedirs(base + "/in")
    doc = dict(doc)
    path = base + "/in/d.cwl"
    linked = doc.pop("linked", None)
    if linked:
        with open(base + "/in/linked.cwl", "w", encoding="utf-8") as h:
            json.dump(linked, h)
    with open(path, "w", encoding="utf-8") as h:
        json.dump(doc, h)
    before = contents(base + "/in")
    rec.plain_states += 1
    rec.step(1)
    target = base + "/out/d.cwl"
    try:
        code = EX["norm"].run(EX["norm"].parse_args([*opts, base + "/out", path]))
        with open(target, encoding="utf-8") as h:
            raw = json.load(h)
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key)
        return
    if code:
        rec.fail("%s: exit code %s" % (where, code), key=key)
    if contents(base + "/in") != before:
        rec.fail("%s: the document itself is changed" % where, key=key)
    others = sorted(set(contents(base + "/out")) - {"d.cwl"})
    if others:
        rec.fail("%s: %s is written as well" % (where, others), key=key)
    if not isinstance(raw, dict) or raw.get("cwlVersion") != "v1.2":
        rec.fail("%s: the version is %s" % (where, raw.get("cwlVersion") if isinstance(raw, dict) else "missing"), key=key, new=raw)
        return
    os.rename(base + "/in", base + "/hidden")
    try:
        main = unpacked(raw)
        new = c25.absolute(target, main)
    except Exception as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]), key=key, new=raw)
        return
    finally:
        os.rename(base + "/hidden", base + "/in")
    old = c25.absolute(path)
    wrong = c24.bad(new)
    if wrong:
        rec.fail("%s: %s" % (where, "; ".join(wrong[:3])), key=key, new=raw)
    was, now = interface(old), interface(new)
    if was != now:
        rec.fail("%s: the interface was %s and is %s" % (where, json.dumps(was), json.dumps(now)), key=key)
    if "--no-expression-refactoring" not in opts:
        left = c24.to_do(c24.javascript(new, "v1.2", "--etools" in opts), opts)
        if left:
            rec.fail("%s: JavaScript is left at %s" % (where, "/".join(map(str, left[0][0]))), key=key)
    rec.outcome("normalised")
    for n, values in enumerate(c25.VALUES):
        j = c25.job(values, doc)
        a, b = cwlrun.run(old, j, c25.FILES), cwlrun.run(new, j, c25.FILES)
        rec.trace(1)
        rec.step(2)
        if "error" in a and "error" in b:
            rec.outcome("fails")
            continue
        if a != b:
            rec.fail("%s: values %d: the original gives %s, the normalised %s" % (where, n, json.dumps(a)[:500], json.dumps(b)[:500]), key=key, new=raw)
            return
        rec.outcome("same")


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


def items(tier):
    for v in VERSIONS:
        for opts in NORM:
            yield ["graph", v, opts]
            for naming in ("absolute", "relative", "here", "deep"):
                yield ["several", v, opts, naming]
        for opts in ([], ["--etools"]):
            for naming in ("absolute", "relative", "here", "deep"):
                for first in kinds(v):
                    yield ["batch", v, opts, naming, first]
        for opts in NORM + SKIP:
            for site in c25.SITES:
                for ctx in ("tool", "step", "scatter") if opts in NORM else ("tool",):
                    yield ["norm", v, "tool", site, ctx, opts]
            for site in {**c25.WSITES, **({} if v == "v1.0" else c25.W11), **(c25.W12 if v == "v1.2" else {})}:
                yield ["norm", v, "wf", site, "workflow", opts]


def BOUNDS(tier):
    return {"documents in one command": 3 if tier == "quick" else 4, "places": len(c25.SITES) + len(c25.WSITES) + len(c25.W11) + len(c25.W12), "forms per place": 2 if tier == "quick" else "all", "versions": 3}
