"""Add 'fixed' entries: record_fixed.py P07 <commit> <what failed>"""
import json, sys
f = "known_findings.json"
k = json.load(open(f))
p, c, what = sys.argv[1:]
k["fixed"].append(f"fixed: property={p} {c} {what}")
json.dump(k, open(f, "w"), indent=1)
