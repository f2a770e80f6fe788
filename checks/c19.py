"""C19: container requirements are all found and correctly named."""

import contextlib
import io
import itertools
import logging
import os
import subprocess
import sys
import tempfile

from mc import reqtree, stubs
from mc.grammar import VERSIONS
from mc.tree import World

PID = "C19"
LEVEL = "model_checked_code"
RULE = ("one state per document: every shape of nested and linked workflows up to the depth bound x link form of every step x "
        "every set of positions (requirements and hints of every process and step) that hold container requirements x "
        "notation, every assignment of versions to the files, every form of image name at every position; the requirements "
        "the real code yields, and the commands the command line tool runs on stub engines, are compared with those of the "
        "abstract tree in document order")
ASSUMPTIONS = ["the images of steps may or may not be given the default tag, which the engines take as the same"]
REQUIRED_OUTCOMES = ("none", "one", "many", "image", "cli", "cli-none")
ITEM_TIMEOUT = 800
EX = {}
IMAGES = ("img", "img:1", "a/img", "quay.io/a/img", "quay.io/a/img:v1.2", "host:5000/img", "host:5000/a/img:2", "img@sha256:%064d" % 7,
          "host:5000/a/img@sha256:%064d" % 8, "img:1@sha256:%064d" % 9, "localhost/img", "host:5000/a/b/c", "img:latest")


def setup(tier):
    logging.disable(logging.CRITICAL)
    from cwl_utils import docker_extract
    from cwl_utils.parser import load_document_by_uri

    EX["mod"], EX["load"] = docker_extract, load_document_by_uri
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    EX["bin"] = os.path.join(EX["dir"], "bin")
    EX["log"] = os.path.join(EX["dir"], "log")
    os.makedirs(EX["bin"])
    for name in ("docker", "podman", "udocker", "singularity", "apptainer", "my-engine"):
        stubs.stub(EX["bin"], name, EX["log"],
                   'case "$1" in --version) echo "%s version 3.8.1";; esac; exit 0' % name)


def make(n):
    image = IMAGES[n % len(IMAGES)].replace("img", "img%d" % n)
    k = n % 5
    req = {"class": "DockerRequirement"}
    if k == 3:
        req["dockerImageId"] = "id%d" % n
        return req
    req["dockerPull"] = image
    if k == 1:
        req["dockerImageId"] = "other%d" % n
    if k == 2:
        req["dockerOutputDirectory"] = "/out"
    return req


def tagged(image):
    last = image.rsplit("/", 1)[-1]
    return image if ":" in last or "@" in last else image + ":latest"


def fits(slot, req, got):
    """A requirement found against the one of the tree."""
    for f in ("dockerImageId", "dockerOutputDirectory", "dockerLoad", "dockerFile", "dockerImport"):
        if getattr(got, f) != req.get(f):
            return False
    return pull_fits(slot, req, got.dockerPull)


def pull_fits(slot, req, image):
    want = req.get("dockerPull")
    if want is None:
        return image is None
    if slot[0] and isinstance(slot[0][-1], str):
        return image in (want, tagged(want))
    return image == tagged(want)


def show(reqs):
    return [r.get("dockerPull") or r.get("dockerImageId") for r in reqs][:8]


def run_item(item, rec):
    if item[0] in ("image", "cli"):
        return globals()["run_" + item[0]](rec, *item[1:])
    for tree, where in reqtree.trees(item, make):
        compare(rec, tree, tree.write(reqtree.case(EX["dir"])), where,
                "none" if not tree.expected else "one" if len(tree.expected) == 1 else "many")


def compare(rec, tree, path, where, outcome):
    rec.plain_states += 1
    rec.step(1)
    try:
        process = EX["load"](path)
        got = list(EX["mod"].traverse(process))
        again = list(EX["mod"].traverse(process))
    except Exception as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]))
        return
    rec.trace(1)
    for which, reqs in (("", got), (" the second time", again)):
        if len(reqs) != len(tree.expected) or not all(fits(s, r, g) for (s, r), g in zip(tree.expected, reqs)):
            rec.fail("%s: finds%s %s instead of %s" % (where, which, [g.dockerPull or g.dockerImageId for g in reqs][:8], show([r for _, r in tree.expected])))
            return
    rec.outcome(outcome)


def run_image(rec, v):
    """Every form of image name at every position of a small tree."""
    for shape in ("tool", ("wf", "tool"), ("wf", ("wf", "tool"))):
        for hows in reqtree.links(shape, ("link", "embedded")):
            for k, _ in enumerate(reqtree.slots(shape)):
                for image in IMAGES:
                    tree = reqtree.Tree(v, shape, hows, 1 << k, "list", lambda n: {"class": "DockerRequirement", "dockerPull": image})
                    compare(rec, tree, tree.write(reqtree.case(EX["dir"])), "%s %s by %s, image %s at %d" % (v, shape, hows, image, k), "image")


ENGINES = ((None, False), ("podman", False), ("my-engine", False), (None, True), ("apptainer", True))


def run_cli(rec, v):
    for shape in (("wf", ("wf", "tool"), "etool"), "tool", ("wf",)):
        n = len(reqtree.slots(shape))
        for hows in list(reqtree.links(shape, ("link", "embedded")))[:2]:
            for mask in (0, 1, 3, (1 << n) - 1):
                for (engine, sing), force, withdir in itertools.product(ENGINES, (False, True), (True, False)):
                    if sing and not withdir:
                        continue
                    tree = reqtree.Tree(v, shape, hows, mask, "mixed", make)
                    root = reqtree.case(EX["dir"])
                    path = tree.write(root)
                    args = [path]
                    if withdir:
                        args += ["--dir", os.path.join(root, "im ages", "d")]
                    if sing:
                        args += ["--singularity"]
                    if engine:
                        args += ["--container-engine", engine]
                    if force:
                        args += ["--force-download"]
                    where = "%s cwl-docker-extract %s of %s, slots %x" % (v, args[1:], shape, mask)
                    cli(rec, args, tree, engine or ("singularity" if sing else "docker"), sing, where)
    # saving images of Singularity needs a directory
    root = reqtree.case(EX["dir"])
    tree = reqtree.Tree(v, "tool", (), 1, "list", make)
    r, calls = command([tree.write(root), "--singularity"])
    rec.check(r.returncode != 0 and not calls, "%s: --singularity without --dir does not fail" % v)


def command(args):
    if os.path.exists(EX["log"]):
        os.remove(EX["log"])
    env = dict(os.environ, PYTHONPATH="/repo/src", PATH=EX["bin"] + ":" + os.environ["PATH"])
    r = subprocess.run([sys.executable, "-m", "cwl_utils.docker_extract"] + args, capture_output=True, text=True, env=env,
                       cwd=EX["dir"], timeout=120)
    return r, stubs.calls(EX["log"])


def cli(rec, args, tree, engine, sing, where):
    # in this process where nothing depends on the environment of a new one
    rec.plain_states += 1
    rec.step(1)
    if os.path.exists(EX["log"]):
        os.remove(EX["log"])
    path = os.environ["PATH"]
    os.environ["PATH"] = EX["bin"] + ":" + path
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            EX["mod"].run(EX["mod"].arg_parser().parse_args(args))
    except (Exception, SystemExit) as exc:
        rec.fail("%s: %s: %s" % (where, type(exc).__name__, str(exc)[-300:]))
        return
    finally:
        os.environ["PATH"] = path
    rec.trace(1)
    pulls = [c for c in stubs.calls(EX["log"]) if c[1:2] == ["pull"]]
    want = [(s, r) for s, r in tree.expected if r.get("dockerPull")]
    image = lambda c: c[-1][len("docker://"):] if sing and c[-1].startswith("docker://") else c[-1]
    if len(pulls) != len(want) or not all(c[0] == engine and pull_fits(s, r, image(c)) for (s, r), c in zip(want, pulls)):
        rec.fail("%s: runs %s for %s" % (where, pulls[:6], show([r for _, r in want])))
        return
    rec.outcome("cli" if want else "cli-none")




def items(tier):
    yield from reqtree.items(tier, VERSIONS)
    for v in VERSIONS:
        yield ["image", v]
        yield ["cli", v]


def BOUNDS(tier):
    return {"depth of links": 3, "link forms": reqtree.HOWS, "steps per workflow": 3, "notations": reqtree.FORMS, "images": IMAGES,
            "filled positions": "all subsets of up to 6 positions (thorough: 10), up to 3 of more"}
