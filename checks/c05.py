"""C05: finding, version-checking and starting the JavaScript engine."""

import itertools
import json
import os
import shutil
import signal
import tempfile
import threading

PID = "C05"
LEVEL = "model_checking"
RULE = (
    "every combination of answers of nodejs, node and the configured container engine "
    "(command missing, not executable, failing, answering wrongly, too old, exactly the "
    "minimum, newer, pre-release; image absent, present, listing or pull or run failing; "
    "pull forced or not), for each container engine kind, with stub executables on an "
    "isolated search path that record their command lines and run the real node, and "
    "histories of up to three engine starts; every pair of versions around the minimum"
)
ASSUMPTIONS = [
    "container engines behave as their documented command lines (modelled by stubs, unknown options are errors)",
]
REQUIRED_OUTCOMES = ("local", "container", "none", "pulled", "present", "forced")
ENGINES = ("docker", "podman", "udocker", "singularity")
LOCAL = {
    # name: (file present, mode, probe output, probe exit, version output, version exit)
    "missing": None,
    "noexec": (0o644, "t", 0, "v20.1.0", 0),
    "fails": (0o755, "", 1, "v20.1.0", 0),
    "wrong": (0o755, "x", 0, "v20.1.0", 0),
    "crash-after": (0o755, "t", 3, "v20.1.0", 0),
    "old": (0o755, "t", 0, "v0.10.25", 0),
    "old-lexi": (0o755, "t", 0, "v0.9.99", 0),
    "vfail": (0o755, "t", 0, "", 1),
    "edge": (0o755, "t", 0, "v0.10.26", 0),
    "new": (0o755, "t", 0, "v22.3.1", 0),
    "nightly": (0o755, "t", 0, "v21.0.0-nightly20230801d396a041f7", 0),
}
WORKS = {"old", "old-lexi", "vfail", "edge", "new", "nightly"}
USABLE = {"edge", "new", "nightly"}
LIST = ("absent", "present", "fails")
NODE = None


def BOUNDS(tier):
    return {"local_answers": len(LOCAL), "engines": len(ENGINES), "engine_starts": 3}


def container_states(engine):
    yield {"exe": "missing"}
    for lst in LIST:
        if engine == "singularity" and lst == "fails":
            continue
        for pull in ("ok", "fails"):
            for force in (False, True):
                for run in ("ok", "fails"):
                    if engine == "singularity":
                        for cache in (False, True):
                            for userns in (False, True):
                                if run == "fails" and userns:
                                    continue
                                yield {"exe": "ok", "list": lst, "pull": pull, "force": force, "run": run,
                                       "cache": cache, "userns": userns}
                    else:
                        yield {"exe": "ok", "list": lst, "pull": pull, "force": force, "run": run}


def items(tier):
    names = sorted(LOCAL)
    th = tier == "thorough"
    for a, b in itertools.product(names, names):
        if a in USABLE or (a not in WORKS and b in USABLE):
            yield {"kind": "start", "nodejs": a, "node": b, "engine": "docker",
                   "states": [{"exe": "ok", "list": "present", "pull": "ok", "force": False, "run": "ok"},
                              {"exe": "missing"}]}
            continue
        for e in ENGINES:
            states = list(container_states(e))
            small = not th and (a, b) not in (
                ("missing", "missing"), ("old", "missing"), ("missing", "old"), ("fails", "vfail"))
            if small:
                states = [s for s in states if s.get("run", "ok") == "ok" and s.get("pull", "ok") == "ok"
                          and not s.get("force") and not s.get("cache") and not s.get("userns")]
            yield {"kind": "start", "nodejs": a, "node": b, "engine": e, "states": states}
    for e in ENGINES:
        for lst in ("absent", "present"):
            for n in (2, 3):
                yield {"kind": "history", "engine": e, "list": lst, "n": n}
    yield {"kind": "unknown"}
    for mi in ("0.10.26", "4.0.0", "10.2.3"):
        yield {"kind": "version", "min": mi}


def setup(tier):
    global NODE
    NODE = shutil.which("node") or shutil.which("nodejs")
    assert NODE
    import cwl_utils.sandboxjs  # noqa: the forked children start from the pristine module


def write(path, text, mode):
    with open(path, "w") as handle:
        handle.write(text)
    os.chmod(path, mode)


def local_stub(name, spec, log):
    mode, out, code, ver, vcode = spec
    return "\n".join([
        "#!/bin/sh",
        'if [ "$1" = "-v" ] || [ "$1" = "--version" ]; then echo "%s probe" >>%s; %s exit %d; fi'
        % (name, log, "echo '%s';" % ver if ver else "", vcode),
        'case "$2" in "process.stdout.write("*) echo "%s probe" >>%s; printf "%%s" "%s"; exit %d;; esac'
        % (name, log, out, code),
        'echo "%s start" >>%s' % (name, log),
        'exec %s "$@"' % NODE, ""])


def container_stub(engine, st, d, log):
    img = os.path.join(d, "image")
    full = {"docker": "node:alpine docker.io/library/node:alpine docker.io/node:alpine"}.get(
        engine, "docker.io/library/node:alpine docker.io/node:alpine")
    lines = ["#!/bin/sh", "IMG=%s; LOG=%s" % (img, log),
             "names=' %s '" % full,
             'cmd="$1"; [ $# -gt 0 ] && shift']
    if engine == "singularity":
        lines += [
            'case "$cmd" in',
            '--version) echo "singularity-ce version 3.11.4";;',
            'pull) force=; if [ "$1" = "--force" ]; then force=1; shift; fi',
            '  echo "pull $force" >>$LOG',
            '  case "$1" in docker://docker.io/node:alpine|docker://docker.io/library/node:alpine|docker://node:alpine) ;; *) echo "bad reference $1" >&2; exit 255;; esac',
            '  [ $# -eq 1 ] || exit 255',
            '  if [ -e node_alpine.sif ] && [ -z "$force" ]; then exit 255; fi',
            "  %s" % ("exit 255" if st["pull"] == "fails" else 'echo img > node_alpine.sif; echo "pulled"'),
            "  ;;",
            'exec) ns=; while :; do case "$1" in --contain|--ipc|--cleanenv|--pid) shift;; --userns) ns=1; shift;; *) break;; esac; done',
            '  case "$1" in *hello.simg) %s; exit 255;; esac' % (
                'echo "FATAL: exec true failed: executable file not found in \\$PATH" >&2' if st.get("userns")
                else 'echo "FATAL: user namespaces disabled" >&2'),
            '  if [ -n "$ns" ]; then %s; fi' % (":" if st.get("userns") else 'echo "no userns" >&2; exit 255'),
            '  case "$1" in docker://docker.io/node:alpine|docker://docker.io/library/node:alpine) ;; *node_alpine.sif) [ -e "$1" ] || exit 255;; *) exit 255;; esac',
            '  shift; [ "$1" = node ] || exit 127; shift',
            '  echo "start" >>$LOG',
            "  %s" % ("exit 255" if st["run"] == "fails" else 'exec %s "$@"' % NODE),
            "  ;;",
            '*) exit 1;;', 'esac', ""]
        return "\n".join(lines)
    lines += ['case "$cmd" in']
    if engine == "udocker":
        lines += ['images) [ $# -eq 0 ] || exit 1; %s' % (
            "exit 1" if st["list"] == "fails" else
            'echo "REPOSITORY"; echo "docker.io/library/other:alpine    ."; [ -e $IMG ] && echo "docker.io/library/node:alpine    ."; exit 0'),
            ";;"]
    else:
        lines += ['images) [ "$1" = "-q" ] || [ "$1" = "--quiet" ] || exit 125; case "$names" in *" $2 "*) ;; *) exit 0;; esac; %s' % (
            "exit 1" if st["list"] == "fails" else 'if [ -e $IMG ]; then echo "0a1b2c3d4e5f"; fi; exit 0'),
            ";;"]
    lines += [
        'pull) echo "pull" >>$LOG; [ $# -eq 1 ] || { echo "unknown flag" >&2; exit 125; }',
        '  case "$names" in *" $1 "*) ;; *) exit 125;; esac',
        "  %s" % ("exit 1" if st["pull"] == "fails" else "echo x > $IMG; echo sha256:0a1b"),
        ";;",
        "run) tty=; rm=; while :; do case \"$1\" in --interactive|-i) tty=1; shift;; --rm) rm=1; shift;;"
        " --attach=*|--sig-proxy=*|--device=*) shift;; -*) exit 125;; *) break;; esac; done",
        '  case "$names" in *" $1 "*) ;; *) exit 125;; esac',
        '  [ -e $IMG ] || exit 125',
        '  shift; [ "$1" = node ] || exit 127; shift',
        '  echo "start" >>$LOG',
    ]
    if engine != "udocker":
        lines += ['  [ -n "$tty" ] || exec </dev/null', '  [ -n "$rm" ] || echo "norm" >>$LOG']
    lines += ["  %s" % ("exit 125" if st["run"] == "fails" else 'exec %s "$@"' % NODE), ";;", "*) exit 1;;", "esac", ""]
    return "\n".join(lines)


def in_child(fn):
    """Run fn in a forked child (module level caches of the code stay untouched)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setpgid(0, 0)
            try:
                out = fn()
            except BaseException as exc:  # noqa
                out = {"exc": type(exc).__name__, "mro": [c.__name__ for c in type(exc).__mro__], "msg": str(exc)[:500]}
            with os.fdopen(w, "w") as handle:
                json.dump(out, handle)
        finally:
            try:
                signal.signal(signal.SIGTERM, signal.SIG_IGN)
                os.killpg(0, signal.SIGTERM)
            finally:
                os._exit(0)
    os.close(w)
    with os.fdopen(r) as handle:
        data = handle.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def launch(nodejs, node, engine, st, n=1):
    d = os.path.realpath(tempfile.mkdtemp())
    try:
        bindir = os.path.join(d, "bin")
        work = os.path.join(d, "work")
        cache = os.path.join(d, "cache")
        for p in (bindir, work, cache):
            os.mkdir(p)
        log = os.path.join(d, "log")
        open(log, "w").close()
        for name, a in (("nodejs", nodejs), ("node", node)):
            if LOCAL[a]:
                write(os.path.join(bindir, name), local_stub(name, LOCAL[a], log), LOCAL[a][0])
        for e in ENGINES:
            if e == engine:
                if st["exe"] != "missing":
                    write(os.path.join(bindir, e), container_stub(e, st, d, log), 0o755)
            else:
                write(os.path.join(bindir, e), '#!/bin/sh\necho "other %s" >>%s\nexit 1\n' % (e, log), 0o755)
        if st.get("list") == "present":
            open(os.path.join(d, "image"), "w").close()
            if engine == "singularity":
                open(os.path.join(cache if st.get("cache") else work, "node_alpine.sif"), "w").close()

        def go():
            from cwl_utils import sandboxjs
            os.environ["PATH"] = bindir
            os.chdir(work)
            if st.get("cache"):
                os.environ["CWL_SINGULARITY_CACHE"] = cache
            engine_obj = sandboxjs.NodeJSEngine()
            vals = []
            errs = []

            def one(i):
                try:
                    vals.append(engine_obj.eval("[%d, 'v' + (1+%d)]" % (i, i), "", timeout=60,
                                                force_docker_pull=bool(st.get("force")), container_engine=engine))
                except BaseException as exc:  # noqa
                    errs.append({"exc": type(exc).__name__, "mro": [c.__name__ for c in type(exc).__mro__],
                                 "msg": " ".join(map(str, exc.args))[:600]})
            for i in range(n):
                # a new thread starts its own engine process
                t = threading.Thread(target=one, args=(i,))
                t.start()
                t.join()
            return {"vals": vals, "errs": errs}

        out = in_child(go)
        with open(log) as handle:
            out["log"] = handle.read().splitlines()
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_item(item, rec):
    kind = item["kind"]
    if kind == "start":
        for st in item["states"]:
            one_start(dict(item, states=[st]), st, rec)
    elif kind == "history":
        history(item, rec)
    elif kind == "unknown":
        rec.step()
        rec.trace()
        out = launch("missing", "missing", "lxc", {"exe": "missing"})
        rec.state(repr(item))
        rec.check(out.get("errs"), "an unknown container engine gave a value: %r" % (out,))
        rec.check(not [x for x in out["log"] if x.startswith("other")],
                  "another container engine than the configured one was run", log=out["log"])
    else:
        version(item, rec)


def one_start(item, st, rec):
    a, b, engine = item["nodejs"], item["node"], item["engine"]
    out = launch(a, b, engine, st)
    rec.state(json.dumps([a, b, engine, st], sort_keys=True))
    rec.step(len(out.get("log", ())) + 1)
    rec.trace()
    if "exc" in out:
        rec.fail("harness child failed: %r" % out, item=item)
        return
    log = out["log"]
    vals, errs = out["vals"], out["errs"]
    rec.check(not [x for x in log if x.startswith("other")], "another container engine than the configured one was run",
              item=item, log=log)
    if vals:
        rec.check(vals == [[0, "v1"]], "wrong value %r" % vals, item=item)
    for e in errs:
        rec.check("JavascriptException" in e["mro"], "reported as %s: %s" % (e["exc"], e["msg"]), item=item, log=log)
    first = a if a in WORKS else (b if b in WORKS else None)
    first_name = "nodejs" if a in WORKS else "node"
    cstarts = [x for x in log if x == "start"]
    pulls = [x for x in log if x.split()[0] == "pull"]
    if first in USABLE:
        rec.outcome("local")
        rec.sample("local", {"nodejs": a, "node": b, "log": log})
        rec.check(bool(vals), "a working %s was not used: %r" % (first_name, errs), item=item, log=log)
        rec.check(log.count(first_name + " start") == 1 and not cstarts and not pulls
                  and log.count(("node" if first_name == "nodejs" else "nodejs") + " start") == 0,
                  "the process must be started from %s" % first_name, item=item, log=log)
        return
    # no value may come from a local engine that is not usable
    later_ok = a in WORKS and b in USABLE
    if later_ok and "node start" in log and vals and not cstarts:
        rec.outcome("later-local")
        return
    if st["exe"] == "missing":
        rec.outcome("none")
        rec.sample("none", {"nodejs": a, "node": b, "errs": errs})
        rec.check(errs and not vals, "a value without any usable engine: %r" % vals, item=item, log=log)
        return
    present = st["list"] == "present"
    need_pull = not present or st["force"]
    if st["list"] == "fails":
        rec.outcome("list-fails")
        rec.check(bool(errs) or bool(cstarts), "no container and no error", item=item, log=log)
        return
    if not need_pull:
        rec.outcome("present")
        rec.check(not pulls, "pulled although the image is present and no pull was forced", item=item, log=log)
    else:
        rec.outcome("forced" if present else "pulled")
        rec.check(len(pulls) == 1, "%d pulls of an %s image" % (len(pulls), st["list"]), item=item, log=log)
    if need_pull and st["pull"] == "fails":
        rec.outcome("pull-fails")
        rec.check(errs and not vals, "the failed pull went unnoticed: %r" % vals, item=item, log=log)
        return
    if st["run"] == "fails":
        rec.outcome("run-fails")
        rec.check(errs and not vals, "the failed container went unnoticed: %r" % vals, item=item, log=log)
        return
    rec.outcome("container")
    rec.sample("container", {"engine": engine, "state": st, "log": log})
    rec.check(bool(vals) and len(cstarts) == 1, "the %s container was not used: %r" % (engine, errs), item=item, log=log)
    rec.check("norm" not in log, "the container is not removed after use", item=item, log=log)


def history(item, rec):
    st = {"exe": "ok", "list": item["list"], "pull": "ok", "force": False, "run": "ok"}
    out = launch("missing", "old", item["engine"], st, n=item["n"])
    rec.state(repr(item))
    rec.step(item["n"])
    rec.trace()
    rec.outcome("history")
    if "exc" in out:
        rec.fail("harness child failed: %r" % out)
        return
    rec.check(out["vals"] == [[i, "v%d" % (i + 1)] for i in range(item["n"])] and not out["errs"],
              "values %r errors %r" % (out["vals"], out["errs"]), log=out["log"])
    pulls = [x for x in out["log"] if x.split()[0] == "pull"]
    rec.check(len(pulls) == (0 if item["list"] == "present" else 1),
              "%d pulls over %d engine starts" % (len(pulls), item["n"]), log=out["log"])


def version(item, rec):
    """check the threshold for every version within one of the minimum in each component."""
    mi = tuple(int(x) for x in item["min"].split("."))
    vs = set()
    for delta in itertools.product((-1, 0, 1), repeat=3):
        v = tuple(x + y for x, y in zip(mi, delta))
        if min(v) >= 0:
            vs.add(v)
    vs |= {(9, 9, 9), (100, 0, 0), (0, 100, 0), (4, 10, 0), (10, 10, 10)}
    d = tempfile.mkdtemp()
    try:
        names = {}
        for i, v in enumerate(sorted(vs)):
            for suffix in ("", "-rc.1"):
                name = os.path.join(d, "n%d%s" % (i, suffix))
                write(name, "#!/bin/sh\n[ \"$1\" = -v ] && echo 'v%d.%d.%d%s'\n" % (v + (suffix,)), 0o755)
                names[name] = v

        def go():
            from cwl_utils.sandboxjs import NodeJSEngine
            e = NodeJSEngine(minimum_node_version_str=item["min"])
            return {n: bool(e.check_js_threshold_version(n)) for n in names}

        res = in_child(go)
        for n, v in names.items():
            rec.state("%s %s" % (item["min"], n))
            rec.step()
            rec.trace()
            rec.check(res.get(n) == (v >= mi), "version %s against minimum %s judged %s" % (v, item["min"], res.get(n, res)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
