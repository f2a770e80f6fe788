"""C20: image saving runs the right commands for every cache state."""

import contextlib
import importlib
import io
import itertools
import logging
import os
import sys
import tempfile

from checks.c05 import in_child
from mc import stubs
from mc.tree import fresh

PID = "C20"
LEVEL = "model_checked_code"
RULE = ("one state per reached configuration: every history of save operations up to the depth bound over images x forced or not "
        "x fault (none, pull failing with and without output, save failing, command missing), from every initial content of "
        "the target, for every engine, target directory and way of giving it, on stub engines that keep images and refuse what "
        "the real ones refuse, compared step by step with a reference model of commands, files and results; every pair of "
        "image names; every version of the container software in the grid, each in a process of its own")
ASSUMPTIONS = ["engines behave as the stubs: save overwrites its target, singularity pull refuses an existing target unless forced"]
REQUIRED_OUTCOMES = ("saved", "cached", "replaced", "pull-only", "pull-failed", "save-failed", "missing", "names", "sif", "img", "unknown")
ITEM_TIMEOUT = 800
EX = {}
FAULTS = ("none", "pull-fails", "pull-fails-silently", "save-fails", "missing")
DOCKER = ("docker", "podman", "my-docker")
SING = ("singularity", "apptainer")
DIRS = ("abs", "rel", "path", "space", "none")


def setup(tier):
    logging.disable(logging.CRITICAL)
    import cwl_utils.image_puller as mod

    EX["mod"] = mod
    EX["dir"] = os.path.realpath(tempfile.mkdtemp())
    EX["bin"] = os.path.join(EX["dir"], "bin")
    os.makedirs(EX["bin"])
    EX["path"] = os.environ["PATH"]


def teardown():
    os.chdir("/")


def engine_stub(name, log, pulls, fault, version="3.8.1"):
    """A container engine; every successful pull yields a new image."""
    lines = [
        'if [ "$1" = --version ]; then echo "singularity version %s"; exit 0; fi' % version,
        'cmd="$1"; shift; force=; out=; ref=',
        'while [ $# -gt 0 ]; do case "$1" in --force|-F) force=1;; --name|-o|--output) out="$2"; shift;; -*) echo "unknown option $1"; exit 125;; '
        '*) [ -z "$ref" ] || { echo "too many arguments"; exit 125; }; ref="$1";; esac; shift; done',
        'case "$cmd" in',
        "pull)",
    ]
    if fault == "pull-fails":
        lines.append("echo 'no such image'; exit 1;;")
    elif fault == "pull-fails-silently":
        lines.append("exit 2;;")
    elif name in SING:
        lines += ['case "$ref" in docker://?*) ;; *) echo "bad reference"; exit 255;; esac',
                  'if [ -e "$out" ] && [ -z "$force" ]; then echo "exists"; exit 255; fi',
                  'echo x >>%s' % pulls,
                  'n=$(wc -l <%s); echo "${ref#docker://} $n" >"$out" || exit 1; exit 0;;' % pulls]
    else:
        lines += ['[ -z "$force$out" ] || exit 125', 'echo x >>%s; exit 0;;' % pulls]
    if name not in SING:
        lines.append("save)")
        if fault == "save-fails":
            lines.append("echo 'no space' >&2; exit 1;;")
        else:
            lines.append('n=$(wc -l <%s); echo "$ref $n" >"$out" || exit 1; exit 0;;' % pulls)
    lines += ['*) echo "unknown command $cmd"; exit 125;;', "esac"]
    stubs.stub(EX["bin"], name, log, "\n".join(lines))


def puller(engine, image, directory, force):
    cls = EX["mod"].SingularityImagePuller if engine in SING else EX["mod"].DockerImagePuller
    return cls(image, directory, engine, force)


def the_dir(root, kind):
    """Directory argument, and the directory it denotes."""
    import pathlib

    full = os.path.join(root, "im ages" if kind == "space" else "images")
    os.makedirs(full)
    if kind == "none":
        return None, None
    if kind == "rel":
        return os.path.relpath(full, root), full
    return (pathlib.Path(full) if kind == "path" else full), full


INITIAL = {"absent": None, "stale": "stale", "empty": ""}
OPS = [(i, f, x) for i in (0, 1) for f in (False, True) for x in FAULTS]
IMAGES = ("reg:5000/a/img:1", "reg:5000/a/img:2")


def contents(d):
    return {n: open(os.path.join(d, n)).read() for n in sorted(os.listdir(d)) if os.path.isfile(os.path.join(d, n))}


def run_history(rec, engine, kind, initial, ops):
    """One history of save operations against the model."""
    mod = EX["mod"]
    root = fresh(os.path.join(EX["dir"], "case"))
    log, pulls = os.path.join(root, "log"), os.path.join(root, "pulls")
    open(pulls, "w").close()
    os.chdir(root)
    arg, full = the_dir(root, kind)
    sing = engine in SING
    if sing and full is None:
        full = root
    os.environ["PATH"] = EX["bin"] + ":" + EX["path"]
    try:
        engine_stub("singularity", log, pulls, "none")
        if engine != "singularity":
            engine_stub(engine, log, pulls, "none")
        names = [puller(engine, i, arg, False).get_image_name() for i in IMAGES]
        where0 = "%s, directory %s, target %s" % (engine, kind, initial)
        for n in names:
            if "/" in n or not n:
                rec.fail("%s: the name %r of an image file" % (where0, n))
                return False
        files = {}
        if initial != "absent" and full:
            for n in names:
                with open(os.path.join(full, n), "w") as h:
                    h.write(INITIAL[initial])
                files[n] = INITIAL[initial]
                os.utime(os.path.join(full, n), (0, 0))
        npulls = 0
        for k, (i, force, fault) in enumerate(ops):
            where = "%s: %s" % (where0, ", then ".join("%s of %s%s" % (x, IMAGES[j], " forced" if f else "") for j, f, x in ops[:k + 1]))
            image, name = IMAGES[i], names[i]
            if fault == "missing":
                # (the version command of singularity stays)
                if engine == "singularity":
                    fault = "pull-fails"
                    engine_stub(engine, log, pulls, fault)
                elif os.path.exists(os.path.join(EX["bin"], engine)):
                    os.remove(os.path.join(EX["bin"], engine))
            else:
                engine_stub(engine, log, pulls, fault)
            if os.path.exists(log):
                os.remove(log)
            # the model
            cached = sing and name in files and not force
            fails = fault in ("pull-fails", "pull-fails-silently", "missing") or (fault == "save-fails" and not sing and full is not None)
            want_cmds = []
            if cached:
                fails = False
            elif fault != "missing":
                want_cmds.append("pull")
                if not fault.startswith("pull") and not sing and full is not None:
                    want_cmds.append("save")
            before = dict(files)
            exc = None
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    puller(engine, image, arg, force).save_docker_image()
            except Exception as e:
                exc = e
            rec.step(1)
            calls = [c for c in stubs.calls(log) if c[1:2] != ["--version"]]
            if fails != (exc is not None):
                rec.fail("%s: %s" % (where, "no error" if fails else "%s: %s" % (type(exc).__name__, str(exc)[:200])))
                return False
            if [c[1] for c in calls] != want_cmds or any(c[0] != engine for c in calls):
                rec.fail("%s: runs %s instead of %s" % (where, calls, want_cmds))
                return False
            for c in calls:
                target = os.path.join(full, name) if full else None
                if (c[-1] if not sing else c[-1].removeprefix("docker://")) != image:
                    rec.fail("%s: runs %s for another image" % (where, c))
                    return False
                if (c[1] == "save" or sing) and not any(os.path.join(root, a) == target for a in c[2:]):
                    rec.fail("%s: runs %s with another target than %s" % (where, c, target))
                    return False
            if exc is None and not cached:
                npulls += 1
                if full:
                    files[name] = "%s %d\n" % (image, npulls)
            elif not cached and full:
                now = contents(full)
                if fault == "save-fails":
                    npulls += 1
                # what is left of the target after a failure is not specified
                files.pop(name, None)
                if name in now:
                    files[name] = now[name]
                    if now[name] not in (before.get(name),):
                        rec.fail("%s: a failing command leaves %r" % (where, now[name]))
                        return False
            elif exc is not None and fault == "save-fails":
                npulls += 1
            elif exc is None and not full:
                pass
            now = {n: c for n, c in contents(full).items() if n in names or full != root} if full else {}
            if now != files:
                rec.fail("%s: the files are %s instead of %s" % (where, now, files))
                return False
            rec.outcome("cached" if cached else "missing" if fault == "missing" else "pull-failed" if fails and fault.startswith("pull") else
                        "save-failed" if fails else "pull-only" if not full else "replaced" if name in before else "saved")
        return True
    finally:
        os.environ["PATH"] = EX["path"]
        os.chdir("/")


def run_engine(rec, engine, kind, initial, depth, first):
    for n in range(0, depth):
        ops = OPS if n < 2 else [o for o in OPS if o[2] in ("none", "pull-fails")]
        for rest in itertools.product(ops, repeat=n):
            rec.state(("history", engine, kind, initial, str(OPS[first]), str(rest)))
            rec.trace(1)
            run_history(rec, engine, kind, initial, (OPS[first],) + rest)


REPOS = ("img", "a/img", "host:5000/a/img", "host.x/a-b/c_d")
TAGS = ("1", "2", "1.0", "1_0", "1-0", "latest", "Latest", "v1", "v1.", "a_b", "a.b", "1__0")
DIGESTS = ("@sha256:%064x" % 1, "@sha256:%064x" % 2, "@sha512:%064x" % 1)


def run_names(rec, engine):
    log, pulls = os.path.join(EX["dir"], "log"), os.path.join(EX["dir"], "pulls")
    engine_stub("singularity", log, pulls, "none")
    os.environ["PATH"] = EX["bin"] + ":" + EX["path"]
    try:
        for repo in REPOS:
            images = [repo + ":" + t for t in TAGS] + [repo + d for d in DIGESTS]
            names = {i: puller(engine, i, None, False).get_image_name() for i in images}
            for a, b in itertools.combinations(images, 2):
                rec.plain_states += 1
                rec.step(1)
                if rec.check(names[a] != names[b] and "/" not in names[a] + names[b],
                             "%s: the file names of %s and %s are %s and %s" % (engine, a, b, names[a], names[b])):
                    rec.outcome("names")
            for i in images:
                for force in (False, True):
                    for d in (None, "/x", "rel"):
                        if puller(engine, i, d, force).get_image_name() != names[i]:
                            rec.fail("%s: the file name of %s depends on other options" % (engine, i))
                rec.check(names[i].endswith(".sif" if engine in SING else ".tar"), "%s: the file name of %s is %s" % (engine, i, names[i]))
    finally:
        os.environ["PATH"] = EX["path"]


FLAVOURS = ("singularity", "singularity-ce", "apptainer")
ENDINGS = ("", ".0", ".11", "-dist", "-1.el7", ".1-rc.2")


def new_modules():
    """The modules as in a process that asked for no version yet."""
    for name in ("cwl_utils.singularity", "cwl_utils.image_puller"):
        sys.modules.pop(name, None)
    return importlib.import_module("cwl_utils.singularity"), importlib.import_module("cwl_utils.image_puller")


def run_version(rec, flavour, major):
    os.environ["PATH"] = EX["bin"] + ":" + EX["path"]
    try:
        for minor in range(0, 13):
            for ending in ENDINGS:
                out = "%s version %d.%d%s" % (flavour, major, minor, ending)
                stubs.stub(EX["bin"], "singularity", "/dev/null", "echo '%s'" % out)
                rec.plain_states += 1
                rec.step(1)
                rec.trace(1)

                def ask():
                    sing, mod = new_modules()
                    res = {}
                    for f in ("is_version_2_6", "is_version_3_or_newer", "is_version_3_1_or_newer", "is_version_3_4_or_newer", "is_apptainer_1_or_newer"):
                        res[f] = getattr(sing, f)()
                    try:
                        res["name"] = mod.SingularityImagePuller("img:1", None, "singularity", False).get_image_name()
                    except Exception as exc:
                        res["error"] = type(exc).__name__
                    return res

                got = in_child(ask)
                app = flavour == "apptainer"
                v = (major, minor)
                want = {"is_version_2_6": not app and v == (2, 6), "is_version_3_or_newer": v >= (3, 0) or app and major >= 1,
                        "is_version_3_1_or_newer": v >= (3, 1) or app and major >= 1,
                        "is_version_3_4_or_newer": v >= (3, 4) or app and major >= 1,
                        "is_apptainer_1_or_newer": app and major >= 1}
                if got.get("exc"):
                    rec.fail("%s: %s" % (out, got))
                    continue
                for f, w in want.items():
                    rec.check(got[f] == w, "%s: %s is %s" % (out, f, got[f]))
                suffix = ".img" if want["is_version_2_6"] else ".sif" if want["is_version_3_or_newer"] else None
                if suffix is None:
                    rec.check("error" in got, "%s: the file is named %s" % (out, got.get("name")))
                    rec.outcome("unknown")
                elif rec.check(got.get("name", "").endswith(suffix), "%s: the file is named %s" % (out, got)):
                    rec.outcome(suffix[1:])
        if major == 0:
            for out, code in (("garbage", 0), ("", 0), ("3.8.1", 0), ("singularity version x", 0), ("singularity version 3.8.1", 1)):
                stubs.stub(EX["bin"], "singularity", "/dev/null", "echo '%s'; exit %d" % (out, code))
                got = in_child(lambda: {"name": new_modules()[1].SingularityImagePuller("img:1", None, "singularity", False).get_image_name()})
                rec.plain_states += 1
                rec.check("exc" in got, "singularity --version prints %r and exits with %d: the file is named %s" % (out, code, got.get("name")))
    finally:
        os.environ["PATH"] = EX["path"]


def run_item(item, rec):
    globals()["run_" + item[0]](rec, *item[1:])


def items(tier):
    thorough = tier == "thorough"
    for engine in DOCKER + SING:
        for kind in DIRS:
            for initial in INITIAL:
                for first in range(len(OPS)):
                    if initial == "empty" and not thorough and kind not in ("abs", "none"):
                        continue
                    yield ["engine", engine, kind, initial, (4 if thorough else 3) if kind in ("abs", "none") else 3 if thorough else 2, first]
    for engine in ("docker", "singularity"):
        yield ["names", engine]
    for flavour in FLAVOURS:
        for major in range(0, 6):
            yield ["version", flavour, major]


def BOUNDS(tier):
    return {"engines": DOCKER + SING, "faults": FAULTS, "directories": DIRS, "length of histories": 4 if tier == "thorough" else 3,
            "images": len(REPOS) * (len(TAGS) + len(DIGESTS)), "versions": 3 * 6 * 13 * len(ENDINGS)}
