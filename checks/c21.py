"""C21: software requirements are all reported."""

import contextlib
import io
import itertools
import json
import logging
import os
import subprocess
import sys
import tempfile

from mc import reqtree
from mc.grammar import VERSIONS
from mc.tree import Part, World

PID = "C21"
LEVEL = "model_checked_code"
RULE = ("one state per document: every shape of nested and linked workflows up to the depth bound x link form of every step x "
        "every set of positions (requirements and hints of every process and step) that hold software requirements x notation, "
        "every assignment of versions to the files, and every small list of packages; the lines the real command prints are "
        "compared with those of the abstract tree in document order")
ASSUMPTIONS = ["one line per package: 'Package: NAME, version: LIST, specs: LIST'"]
REQUIRED_OUTCOMES = ("none", "one", "many", "cli", "packages")
ITEM_TIMEOUT = 800
EX = {}


def setup(tier):
    logging.disable(logging.CRITICAL)
    from cwl_utils import cite_extract

    EX["mod"] = cite_extract
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())


def package(name, version=None, specs=None, form="list"):
    p = {"package": name}
    if version is not None:
        p["version"] = version
    if specs is not None:
        p["specs"] = specs
    return p


def make(n):
    k = n % 4
    # names that repeat in other requirements, and that are not in alphabetical order
    ps = [package(("same", "pk%d" % (99 - n))[n % 2], *((), (["1.%d" % n],), (["2", "3.%d" % n], ["https://x.org/%d" % n]), (None, ["https://x.org/a%d" % n, "https://y.org/b#c"]))[k])]
    if n % 3 == 1:
        ps.append(package(("another%d" % n, "same")[n % 2], ["0"]))
    return {"class": "SoftwareRequirement", "packages": ps}


def lines(reqs):
    out = []
    for r in reqs:
        for p in r["packages"]:
            out.append("Package: %s, version: %s, specs: %s" % (p["package"], p.get("version"), p.get("specs")))
    return out


def run(rec, path, where):
    mod = EX["mod"]
    out = io.StringIO()
    rec.plain_states += 1
    rec.step(1)
    try:
        with contextlib.redirect_stdout(out):
            code = mod.run(mod.arg_parser().parse_args([path]))
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]))
        return None
    if code:
        rec.fail("%s: exit code %s" % (where, code))
        return None
    return [l for l in out.getvalue().split("\n") if l]


def run_item(item, rec):
    if item[0] == "packages":
        return run_packages(rec, item[1])
    if item[0] == "cli":
        return run_cli(rec, item[1])
    for tree, where in reqtree.trees(item, make):
        want = lines([r for _, r in tree.expected])
        got = run(rec, tree.write(reqtree.case(EX["dir"])), where)
        if got is None:
            continue
        rec.trace(1)
        if rec.check(got == want, "%s: prints %s instead of %s" % (where, got[:8], want[:8])):
            rec.outcome("none" if not want else "one" if len(want) == 1 else "many")


def run_packages(rec, v):
    """Lists of packages in list and map notation."""
    vers = (None, [], ["1"], ["1", "2.0-b"])
    specs = (None, ["https://x.org/a"], ["https://x.org/a", "http://y.org/b#c"])
    singles = [(a, b) for a in vers for b in specs]
    for combo in [(x,) for x in singles] + [(x, y) for x in singles for y in singles]:
        for names, form in itertools.product(("pq", "qp", "pp"), ("list", "map", "short")):
            if len(combo) == 1 and names != "pq" or names == "pp" and form != "list":
                continue
            ps = [package(names[i], a, b) for i, (a, b) in enumerate(combo)]
            if form == "list":
                val = ps
            elif form == "map":
                val = {p["package"]: {k: x for k, x in p.items() if k != "package"} for p in ps}
            else:
                if any("version" in p or not p.get("specs") for p in ps):
                    continue
                val = {p["package"]: p["specs"] for p in ps}
            for field in ("requirements", "hints"):
                doc = {"cwlVersion": v, "class": "CommandLineTool", "inputs": [], "outputs": [], "baseCommand": "x",
                       field: [{"class": "SoftwareRequirement", "packages": val}]}
                where = "%s %s with packages %s as %s" % (v, field, combo, form)
                got = run(rec, World(reqtree.case(EX["dir"])).main(doc), where)
                if got is not None:
                    rec.trace(1)
                    want = lines([{"packages": ps}])
                    if rec.check(got == want, "%s: prints %s instead of %s" % (where, got, want)):
                        rec.outcome("packages")


def run_cli(rec, v):
    for shape in (("wf", ("wf", "tool"), "tool"), "tool"):
        for hows in reqtree.links(shape, ("link", "embedded")):
            n = len(reqtree.slots(shape))
            tree = reqtree.Tree(v, shape, hows, (1 << n) - 1, "mixed", make)
            path = tree.write(reqtree.case(EX["dir"]))
            r = subprocess.run([sys.executable, "-m", "cwl_utils.cite_extract", path], capture_output=True, text=True,
                               env=dict(os.environ, PYTHONPATH="/repo/src"), cwd=EX["dir"], timeout=120)
            rec.plain_states += 1
            rec.step(1)
            rec.trace(1)
            want = lines([q for _, q in tree.expected])
            if rec.check(r.returncode == 0 and r.stdout.split("\n")[:-1] == want,
                         "%s cwl-cite-extract of %s by %s: exit %d, prints %r" % (v, shape, hows, r.returncode, r.stdout[:300])):
                rec.outcome("cli")
    path = World(reqtree.case(EX["dir"])).main({"cwlVersion": v, "class": "Workflow", "inputs": [], "outputs": [],
                                               "steps": [{"id": "s", "in": [], "out": [], "run": "nowhere.cwl"}]})
    r = subprocess.run([sys.executable, "-m", "cwl_utils.cite_extract", path], capture_output=True, text=True,
                       env=dict(os.environ, PYTHONPATH="/repo/src"), cwd=EX["dir"], timeout=120)
    rec.check(r.returncode != 0, "%s: a missing linked process is not reported" % v)


def items(tier):
    yield from reqtree.items(tier, VERSIONS)
    for v in VERSIONS:
        yield ["packages", v]
        yield ["cli", v]


def BOUNDS(tier):
    return {"depth of links": 3, "link forms": reqtree.HOWS, "steps per workflow": 3, "notations": reqtree.FORMS,
            "filled positions": "all subsets of up to 6 positions (thorough: 10), up to 3 of more"}
