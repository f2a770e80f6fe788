"""Writes MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
DEFAULT_T = "model checking: exhaustive bounded exploration of the real code against an explicit reference model"
TECH = {
    "C04": "model checking: stateless exploration of the real engine driver under a fault injector (all chunkings, crash points, histories, thread orders in the bound)",
    "C05": "model checking: exhaustive enumeration of environment states and command histories with stubbed executables",
    "C17": "model checking: all packing histories up to a depth on the real code against a reference model",
    "C20": "model checking: all cache states, command outcomes and operation sequences up to a depth on the real pullers",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(ROOT, "checks", pid.lower() + ".py")
    m = importlib.import_module("checks." + pid.lower()) if os.path.exists(path) else None
    if m is not None and getattr(m, "CLAIMED", True):
        checks.append({
            "property": pid,
            "quick_cmd": "./run %s quick" % pid,
            "thorough_cmd": "./run %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH.get(pid, DEFAULT_T),
            "level": m.LEVEL,
            "level_note": "Exhaustive within the bounds in the evidence file: " + m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS),
        })
    else:
        na.append({"property": pid, "reason": "no check built yet"})
man = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed: the checks drive the public functions and commands of /repo/src directly."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
