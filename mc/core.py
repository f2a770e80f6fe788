"""Bounded exhaustive exploration harness.

A check module (checks/cNN.py) provides

  PID, LEVEL, RULE, ASSUMPTIONS
  items(tier)        deterministic iterator over JSON-able work items; together
                     the items enumerate the whole bounded space
  run_item(item, r)  explores one item on the real code, reporting to recorder r
  setup(tier)        optional, called once in every worker before any item
  BOUNDS(tier)       optional, dict describing the bound that was completed

The driver forks N workers which take items by index modulo N, so that the
union of the workers is the complete enumeration; nothing is sampled.
"""

import hashlib
import importlib
import json
import multiprocessing
import logging
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = "/repo/src"
MAX_REPORTED = 5


class HarnessError(Exception):
    """Something is wrong with the check itself (never a verdict)."""


def bind_repo():
    """Import cwl_utils from /repo's working tree, and prove it."""
    if sys.path[0] != REPO_SRC:
        sys.path.insert(0, REPO_SRC)
    import cwl_utils

    where = list(cwl_utils.__path__)
    if where != [REPO_SRC + "/cwl_utils"]:
        raise HarnessError("cwl_utils imported from %s" % where)
    logging.disable(logging.CRITICAL)


class Recorder:
    """Collects counts, samples and violations of one worker."""

    def __init__(self):
        self.states = set()      # hashes of distinct canonical states
        self.plain_states = 0    # states counted without hashing (unique by construction)
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}       # distinct observed outcome classes -> count
        self.samples = {}
        self.violations = []
        self.nviol = 0
        self.item = None

    def state(self, obj):
        if not isinstance(obj, (str, bytes)):
            obj = json.dumps(obj, sort_keys=True, default=repr)
        if isinstance(obj, str):
            obj = obj.encode("utf-8", "surrogatepass")
        self.states.add(hashlib.blake2b(obj, digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name, n=1):
        self.outcomes[name] = self.outcomes.get(name, 0) + n

    def sample(self, kind, obj):
        if kind not in self.samples:
            self.samples[kind] = obj

    def fail(self, msg, item=None, key=None, **detail):
        """A property violation. item replays it; key identifies it for known findings."""
        self.nviol += 1
        item = self.item if item is None else item
        if not isinstance(key, str):
            key = json.dumps(item if key is None else key, sort_keys=True, default=repr)
        if len(self.violations) < 200:
            self.violations.append(
                {"msg": msg, "item": item, "key": key, "detail": detail}
            )

    def check(self, cond, msg, item=None, key=None, **detail):
        if not cond:
            self.fail(msg, item, key, **detail)
        return cond

    def dump(self):
        return {
            "states": [s.hex() for s in self.states],
            "plain_states": self.plain_states,
            "transitions": self.transitions,
            "traces": self.traces,
            "outcomes": self.outcomes,
            "samples": self.samples,
            "violations": self.violations,
            "nviol": self.nviol,
        }


def load_known(pid):
    """known_findings.txt: 'finding: property=C01 key=<regex-free exact key> :: what'."""
    known = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as handle:
            for line in handle:
                m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line.strip())
                if m and m.group(1) == pid:
                    known[m.group(2)] = m.group(3)
    return known


ENOUGH = 25  # violations of a worker after which nothing more is explored


def _worker(mod, tier, idx, n, outpath, known, turn):
    rec = Recorder()
    if hasattr(mod, "setup"):
        mod.setup(tier)
    stop = os.path.join(os.path.dirname(outpath), "stop")
    mine = idx if turn is None else claim(turn)
    for i, item in enumerate(mod.items(tier)):
        if i != mine:
            continue
        mine = i + n if turn is None else claim(turn)
        rec.item = item
        run_one(mod, item, rec)
        if sum(v["key"] not in known for v in rec.violations) >= ENOUGH:
            open(stop, "w").close()
        if os.path.exists(stop) or rec.nviol > 2000:
            break
    if hasattr(mod, "teardown"):
        mod.teardown()
    with open(outpath, "w") as handle:
        json.dump(rec.dump(), handle, default=repr)


def claim(turn):
    """The next item that no worker has."""
    with turn.get_lock():
        turn.value += 1
        return turn.value - 1


class ItemTimeout(BaseException):
    """The code under test did not come back."""


def _on_alarm(signum, frame):
    raise ItemTimeout("no answer within the item's time limit")


def run_one(mod, item, rec):
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, getattr(mod, "ITEM_TIMEOUT", 240))
    try:
        mod.run_item(item, rec)
    except HarnessError:
        raise
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as exc:  # noqa: unexpected failure inside code under test
        rec.fail(
            "unexpected %s: %s" % (type(exc).__name__, str(exc)[:300]),
            traceback=traceback.format_exc()[-1500:],
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    replay = None
    rest = argv[1:]
    while rest:
        a = rest.pop(0)
        if a == "--replay":
            replay = rest.pop(0)
        else:
            tier = a
    seed = int(os.environ.get("VERIF_SEED") or "1")
    start = time.time()
    bind_repo()
    mod = importlib.import_module("checks." + pid.lower())
    assert mod.PID == pid
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    os.environ["MC_TIER"] = tier
    code = 2
    try:
        if replay:
            code = do_replay(mod, tier, replay)
        else:
            code = drive(mod, pid, tier, seed, start, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return code


def do_replay(mod, tier, path):
    with open(path) as handle:
        data = json.load(handle)
    rec = Recorder()
    if hasattr(mod, "setup"):
        mod.setup(tier)
    rec.item = data["item"]
    run_one(mod, data["item"], rec)
    if hasattr(mod, "teardown"):
        mod.teardown()
    for v in rec.violations:
        print("REPRODUCED", json.dumps(v, indent=1, default=repr))
    return 1 if rec.violations else 0


def drive(mod, pid, tier, seed, start, tmp):
    n = getattr(mod, "WORKERS", None) or min(8, os.cpu_count() or 1)
    pids = {}
    known = load_known(pid)
    turn = multiprocessing.Value("i", 0) if getattr(mod, "DYNAMIC", False) else None
    for idx in range(n):
        out = os.path.join(tmp, "w%d.json" % idx)
        child = os.fork()
        if child == 0:
            rc = 1
            try:
                os.setpgid(0, 0)
                wd = os.path.join(tmp, "wd%d" % idx)
                os.mkdir(wd)
                os.environ["TMPDIR"] = wd
                tempfile.tempdir = wd
                _worker(mod, tier, idx, n, out, known, turn)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(rc)
        pids[child] = (idx, out)
    failed = False
    for child in list(pids):
        _, status = os.waitpid(child, 0)
        try:
            os.killpg(child, signal.SIGKILL)
        except OSError:
            pass
        if status != 0:
            failed = True
    if failed:
        print("ERROR: a worker of %s did not finish" % pid)
        return 2
    states = set()
    plain = transitions = traces = nviol = 0
    outcomes = {}
    samples = {}
    viols = []
    for child, (idx, out) in sorted(pids.items(), key=lambda x: x[1][0]):
        with open(out) as handle:
            d = json.load(handle)
        states.update(d["states"])
        plain += d["plain_states"]
        transitions += d["transitions"]
        traces += d["traces"]
        nviol += d["nviol"]
        viols.extend(d["violations"])
        for k, v in d["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        for k, v in d["samples"].items():
            samples.setdefault(k, v)
    seen_known = set()
    real = []
    for v in viols:
        if v["key"] in known:
            seen_known.add(v["key"])
        else:
            real.append(v)
    for key in sorted(known):
        if key in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, known[key]))
    nreal = nviol - (len(viols) - len(real))
    bounds = mod.BOUNDS(tier) if hasattr(mod, "BOUNDS") else {}
    nstates = len(states) + plain
    if not real and (nstates == 0 or transitions == 0 or traces == 0):
        print("ERROR: %s explored nothing" % pid)
        return 2
    need = getattr(mod, "REQUIRED_OUTCOMES", ())
    missing = [o for o in need if o not in outcomes]
    if missing and not real:
        print("ERROR: vacuous exploration, outcomes never observed: %s" % missing)
        return 2
    coverage = {
        "states": nstates,
        "transitions": transitions,
        "traces_validated_against_impl": traces,
        "distinct_outcome_classes": len(outcomes),
        "outcomes": outcomes,
        "bounds": bounds,
        "rule": mod.RULE,
        "samples": [{"kind": k, "case": v} for k, v in sorted(samples.items())][:12],
        "exhaustive": True,
        "known_findings_seen": sorted(seen_known),
    }
    ev = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": coverage,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - start, 2),
        "violations": nreal,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as handle:
        json.dump(ev, handle, indent=1, default=repr)
        handle.write("\n")
    print(
        "%s %s: states=%d transitions=%d traces=%d outcomes=%d wall=%.1fs"
        % (pid, tier, nstates, transitions, traces, len(outcomes), time.time() - start)
    )
    if real:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        for i, v in enumerate(real[:MAX_REPORTED]):
            path = os.path.join(ROOT, "replays", "%s-%d.json" % (pid, i))
            with open(path, "w") as handle:
                json.dump(dict(v, property=pid), handle, indent=1, default=repr)
            print("  %s  [key=%s]" % (v["msg"], v["key"][:300]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        print("%d violation(s) in total" % nreal)
        return 1
    return 0
