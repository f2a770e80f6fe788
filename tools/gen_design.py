"""Writes DESIGN.md from design_notes.py, the check modules, known_findings.txt, seeded/ and (if present) the timing file."""
import importlib, json, os, re, sys, textwrap
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools")]
from design_notes import HEAD, NOTES
import design_notes
out = [HEAD.rstrip(), "", "## Properties", ""]
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
known = open(os.path.join(ROOT, "known_findings.txt")).read().splitlines()
cost = json.load(open(os.path.join(ROOT, "tools", "costs.json"))) if os.path.exists(os.path.join(ROOT, "tools", "costs.json")) else {}


def para(text):
    return textwrap.fill(re.sub(r"\s+", " ", text).strip(), 100)


for p in props:
    pid = p["id"]
    out += ["### %s %s" % (pid, p["title"]), ""]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    m = importlib.import_module("checks." + pid.lower()) if os.path.exists(path) else None
    if m is None or not getattr(m, "CLAIMED", True):
        out += [para("Not claimed: " + design_notes.NOT_CLAIMED.get(pid, "no check built yet.")), ""]
        continue
    note, why = NOTES[pid]
    out += [para(note), "", para("**Enumerated:** " + m.RULE + "."), ""]
    b = m.BOUNDS("quick")
    text = []
    for k, v in b.items():
        v = json.dumps(v, ensure_ascii=False) if not isinstance(v, str) else v
        text.append("%s: %s" % (k, v if len(v) < 200 else v[:190] + " ..."))
    out += [para("**Bounds (quick):** " + "; ".join(text) + ".").replace("`", "'"), ""]
    t = m.BOUNDS("thorough")
    diff = ["%s: %s" % (k, json.dumps(v, ensure_ascii=False)[:160]) for k, v in t.items() if v != b.get(k)]
    if diff:
        out += [para("**Thorough:** " + "; ".join(diff) + ".").replace("`", "'"), ""]
    out += [para("**Assumes:** " + "; ".join(m.ASSUMPTIONS) + ".").replace("`", "'"), ""]
    if pid in cost:
        out += [para("**Cost (8 cores):** " + cost[pid] + "."), ""]
    out += [para("**Beyond the tests:** " + why), ""]
out += ["## Defects found", "",
        para("Every one was shown on the real code by the check of the property and then repaired by a commit "
             "`fix: ...` in /repo, or is listed as a known finding; known_findings.txt is the authoritative list."), ""]
for line in known:
    r = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if r:
        out.append("* %s `%s` %s" % r.groups())
finds = [l for l in known if l.startswith("finding:")]
out += ["", "### Known findings (not repaired)", ""]
what = {}
for line in finds:
    r = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line)
    what.setdefault((r.group(1), r.group(3)), []).append(r.group(2))
for (pid, w), keys in what.items():
    out.append("* %s (%d case%s) %s" % (pid, len(keys), "s" * (len(keys) > 1), w))
if not finds:
    out.append("None.")
out += ["", design_notes.TAIL.strip(), "", "## Planted bugs", "",
        para("Each directory of seeded/ was confirmed by tools/plant.py (applies, builds, stable tests pass, demo passes "
             "without and fails with it). Last result of the check of its property (quick):"), "",
        "| bug | needs | check |", "|---|---|---|"]
res = json.load(open(os.path.join(ROOT, "tools", "caught.json"))) if os.path.exists(os.path.join(ROOT, "tools", "caught.json")) else {}
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    meta = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    out.append("| %s | %s | %s %s |" % (d, meta["needs"].replace("|", "/"), meta["property"], res.get(d, "not run")))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out) + "\n")
