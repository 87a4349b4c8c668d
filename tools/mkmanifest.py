"""Writes MANIFEST.json: every property with a check module is claimed."""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if not os.path.exists("%s/vf/checks/%s.py" % (V, pid)):
        na.append({"property": pid, "reason": "no check has been built for it (time), although the technique would apply"})
        continue
    m = importlib.import_module("vf.checks." + pid)
    checks.append({
        "property": pid, "quick_cmd": "./run.sh %s quick" % pid, "thorough_cmd": "./run.sh %s thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": getattr(m, "TECHNIQUE", "model-based property testing of generated programs against a Python reference model, under ASan/UBSan, with shrinking"),
        "level": getattr(m, "LEVEL", "exploration"),
        "level_note": getattr(m, "LEVEL_NOTE", "seeded random search; deterministic for a given VERIF_SEED; the thorough command runs 20x the cases")})
man = {"version": 1, "setup_cmd": "./run.sh setup", "checks": checks, "not_applicable": na,
       "notes": "Every check builds the sources of /repo's working tree itself (into /verif/build). No hooks in /repo: the harness compiles the existing sources with its own main and the existing DEBUG_STRESS_GC / DEBUG_FINAL_MEM defines."}
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed", len(na), "not")
