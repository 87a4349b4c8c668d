"""Prints a replay file readably."""
import json, sys
d = json.load(open(sys.argv[1]))
print(d["message"])
for r in d["runs"][-2:]:
    print("--- %s %s\n%s\n--- stdout\n%s\n--- stderr\n%s" % (r["variant"], r["status"], r["source"], r["stdout"], r["stderr"]))
