"""Writes DESIGN.md from the check modules, properties.jsonl, known-findings.txt and seeded/*/meta.json plus the texts below."""
import glob, importlib, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

ORACLE = {
 "L01": "a Python evaluator of the expression tree; all renderings of one tree must agree with it and each other",
 "L02": "a Python interpreter of the generated control flow, which predicts every printed trace line",
 "L03": "a Python interpreter with explicit environments and cells",
 "L04": "a Python model of the parameter binding rules (required, default, variadic, unpacked)",
 "L05": "a Python model of the class chain: lookup order, traits, super, statics, attribute tables",
 "L06": "a Python model of what is declared; refusals counted per REPL line, the protected value observed afterwards",
 "L07": "L05's model queried for the same information",
 "L08": "a Python model of each built-in: the input cut into lines, the text of each value, truth, and the set of names defined so far",
 "D01": "Python lists", "D02": "Python dicts with Dictu's key identity", "D03": "Python sets with Dictu's key identity",
 "D04": "byte-string functions in Python written from the documentation", "D05": "Python indexing and slicing with Dictu's documented bounds",
 "D06": "a Python object graph with explicit identity", "D07": "structural printing and equality in Python, plus the two constructions against each other",
 "D08": "the bytes or the double from which the literal was written (53-bit mantissa rebuilt by exact powers of two)",
 "D09": "a Python model of Result and its combinators",
 "M01": "metamorphic: three collection schedules must agree; AddressSanitizer decides each run",
 "M02": "the interpreter's own count of bytes allocated minus bytes returned must be 0; memory limit for churn loops",
 "R01": "only 'compiled' or 'compile error with a line of the text' are allowed outcomes; for the size families the value is computed in Python",
 "R02": "L02/L03's interpreter model extended with the source line of every statement and frame",
 "I01": "a Python model of run-once modules with their own namespaces",
 "C01": "a Python model of the session; file, -c and REPL against one another",
 "S01": "Python's strict json parser plus exact layout rules; round trip", "S02": "Python integers (truncated division)",
 "S03": "Python bytearray and struct", "S04": "Python base64, hashlib, hmac; bcrypt against libcrypt/round trip", "S05": "Python model of the text rules; os.* calls on the same tree",
 "S06": "collections.deque and list", "S07": "differential against Python's sqlite3 on the same shared library", "S08": "Python byte arrays per file; the directory snapshot afterwards",
 "S09": "Python's math and fractions; exact comparison", "S10": "calendar arithmetic on integers in Python, format and parse written from the documentation",
 "S11": "set of admissible values, completeness with error probability below 1e-20, version and variant bits", "S12": "a Python dict plus the environment of a real child process",
 "S13": "a Python model of the declared parser", "S14": "Python os calls replayed on a twin tree by the same unprivileged user; complete snapshots compared",
 "S15": "a child written for the purpose that reports argument vector, environment and working directory and emits generated output", "S16": "a scripted HTTP server / socket peer in the harness that records raw requests",
 "S19": "the C library's inet_pton through Python; the size the pseudo-terminal was given", "S20": "a Python model of every value on both sides, plus the interpreter's own methods on the same objects",
 "S17": "a Python model of the runner's documented report", "S18": "a Python model of the destination's exact bytes; stamps must lie between the clock before and after",
}

def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    out = [open(V + "/tools/design-head.md").read().rstrip(), "", "## Per property", "",
           "For each: what is generated and observed, the oracle that decides, bounds or assumptions, why the tests cannot settle it. Costs are the quick command's on 8 cores; "
           "thorough runs 20 times the cases (other seeds) unless the module says otherwise.", ""]
    for p in props:
        m = importlib.import_module("vf.checks." + p["id"])
        out.append("### %s  %s" % (p["id"], p["title"]))
        out.append("*Generated:* %s." % m.RULE.rstrip("."))
        out.append("")
        out.append("*Oracle:* %s." % ORACLE[p["id"]].rstrip("."))
        if getattr(m, "ASSUMES", None):
            out.append("*Assumes:* %s." % "; ".join(m.ASSUMES))
        n = ", ".join("%s %d" % (q.name, q.quick) for q in m.parts()) if hasattr(m, "parts") else ""
        out.append("*Cases (quick):* %s." % (n or "see the module"))
        w = p.get("why_tests_cant")
        if w:
            out.append("*Beyond the tests:* %s" % w)
        out.append("")
    kf = open(V + "/known-findings.txt").read().splitlines()
    out += ["## Defects found in Dictu", "", "Recorded, not repaired (the check prints KNOWN-FINDING and reports anything else):", ""]
    for l in kf:
        if l.startswith("known:"):
            pid, js = re.match(r"known: property=(\w+) (.*)", l).groups()
            out.append("* %s: %s" % (pid, json.loads(js)["what"]))
    out += ["", open(V + "/tools/design-known.md").read().rstrip(), "", "Repaired (one `fix:` commit each, `fixed:` lines of known-findings.txt):", ""]
    cnt = {}
    for l in kf:
        x = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
        if x:
            cnt.setdefault(x[1], []).append((x[2], x[3]))
    for k in sorted(cnt):
        out.append("* **%s**: %s" % (k, "; ".join("%s (%s)" % (b, a[:7]) for a, b in cnt[k])))
    out += ["", "## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        out.append("| %s | %s | %s | %s |" % (i, d["property"], d["needs"], caught.get(i, "not yet run")))
    out += ["", open(V + "/tools/design-tail.md").read().rstrip()]
    open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")

main()
