"""Development helper: confirm planted bugs and run checks against them.

  plant.py add SPEC.py [ID...]   confirm the bugs of a spec file and keep them in seeded/
  plant.py check [ID...]         run each kept bug's check (quick) and report what it says

Every bug is tried in a scratch copy of /repo which is bind-mounted over /repo in a
private mount namespace, so that the real working tree is never touched.
A spec file defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)].
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"],
                      capture_output=True, text=True).stdout.strip()


def sh(cmd, timeout=900, **kw):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors="replace", **kw)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def inside(copy, script, timeout=900):
    return sh(["unshare", "-Urm", "bash", "-c", 'mount --bind "$0" /repo && cd /repo && ' + script, copy], timeout)


def make_copy():
    d = tempfile.mkdtemp(prefix="plant-")
    c = os.path.join(d, "repo")
    subprocess.run(["cp", "-a", "/repo", c], check=True)
    subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."], check=True)
    return c


def failed(out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    return out


def stable(path):
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(path))
    want = set(base["stable"])
    return sorted(want - set(res["passed"]))


def add(spec):
    pid = spec["id"]
    c = make_copy()
    tmp = os.path.dirname(c)
    try:
        for f, old, new in spec["edits"]:
            p = os.path.join(c, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: old text of %s occurs %d times" % (pid, f, s.count(old))
            # line provenance
            start = s[: s.index(old)].count("\n") + 1
            end = start + old.rstrip("\n").count("\n")
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True).stdout
        subprocess.run(["git", "-C", c, "checkout", "-q", "--", "."], check=True)
        orig = check_lines(c, diff)
        if orig:
            return "%s: %s" % (pid, orig)
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        for name, text in {"demo.sh": spec["demo"], **spec.get("files", {})}.items():
            open(os.path.join(demo, name), "w").write(text)
        os.chmod(os.path.join(demo, "demo.sh"), 0o755)
        rc, out = inside(c, "bash /opt/vp/build.sh && bash %s/demo.sh" % demo, 300)
        if rc:
            return "%s: demo fails on the clean tree: rc %s\n%s" % (pid, rc, out[-1500:])
        open(os.path.join(tmp, "p.diff"), "w").write(diff)
        rc, out = sh(["git", "-C", c, "apply", os.path.join(tmp, "p.diff")])
        if rc:
            return "%s: does not apply %s" % (pid, out)
        rc, out = inside(c, "bash /opt/vp/build.sh", 300)
        if rc:
            return "%s: does not build: %s" % (pid, out[-800:])
        rc, out = inside(c, "bash %s/demo.sh" % demo, 300)
        if rc == 0:
            return "%s: demo passes with the bug" % pid
        rc2, out2 = inside(c, "bash /opt/vp/test.sh %s/res.json" % tmp, 600)
        bad = stable(os.path.join(tmp, "res.json"))
        if bad:
            return "%s: tests fail: %s" % (pid, bad[:5])
        d = os.path.join(SEEDED, pid)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(demo, d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        return "%s: kept (demo: %s)" % (pid, " ".join(out.strip().splitlines()[-1:])[-150:])
    finally:
        shutil.rmtree(tmp)


def check_lines(c, diff):
    """At least one removed line must come from the original repository, and none from our commits."""
    f, ln, removed = None, 0, []
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        elif line.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            removed.append((f, ln)); ln += 1
        elif line.startswith(" "):
            ln += 1
    if not removed:
        return "changes no existing line"
    for f, ln in removed:
        out = subprocess.run(["git", "-C", c, "blame", "-l", "-s", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f],
                             capture_output=True, text=True).stdout
        if out.split()[0].lstrip("^")[:38] != BASE[:38]:
            return "line %d of %s was not in the original repository: %s" % (ln, f, out.strip()[40:])
    return ""


def check(pid, tier="quick", prop=None):
    d = os.path.join(SEEDED, pid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    prop = prop or meta["property"]
    c = make_copy()
    v = os.path.join(os.path.dirname(c), "verif")
    try:
        rc, out = sh(["git", "-C", c, "apply", os.path.join(d, "patch.diff")])
        if rc:
            return "%-28s %s DOES NOT APPLY %s" % (pid, prop, out[:200])
        os.mkdir(v)
        subprocess.run("tar -C %s --exclude=./seeded --exclude=./.git --exclude=./replays -cf - . | tar -C %s -xf -" % (ROOT, v), shell=True, check=True)
        rc, out = inside(c, "cd %s && ./run %s %s" % (v, prop, tier), 1200)
        lines = [l for l in out.splitlines() if l.strip()]
        hit = [l for l in lines if l.startswith("VIOLATION property=%s " % prop)]
        info = [l for l in lines if not l.startswith("VIOLATION")]
        st = "caught" if rc == 1 and hit else ("MISSED" if rc == 0 else "ERROR rc=%s" % rc)
        return "%-28s %s %s (%d) %s" % (pid, prop, st, len(hit), (" | ".join(info[:3]))[:260] if st != "MISSED" else "")
    finally:
        shutil.rmtree(os.path.dirname(c))


def main():
    mode, args = sys.argv[1], sys.argv[2:]
    jobs = int(os.environ.get("JOBS", "3"))
    if mode == "add":
        spec = runpy.run_path(args[0])["BUGS"]
        todo = [b for b in spec if not args[1:] or b["id"] in args[1:]]
        with ThreadPoolExecutor(jobs) as ex:
            for r in ex.map(add, todo):
                print(r, flush=True)
        args = [b["id"] for b in todo if os.path.isdir(os.path.join(SEEDED, b["id"]))]
        if os.environ.get("NOCHECK"):
            return
    ids = args or sorted(os.listdir(SEEDED))
    with ThreadPoolExecutor(2) as ex:
        for i, r in zip(ids, ex.map(check, ids)):
            print(r, flush=True)
            path = os.path.join(ROOT, "tools", "caught.json")
            known = json.load(open(path)) if os.path.exists(path) else {}
            known[i] = r.split()[2].lower()
            json.dump(known, open(path, "w"), indent=1, sort_keys=True)


main()
