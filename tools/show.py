"""Print a replay file compactly."""
import json, sys
for f in sys.argv[1:]:
    d = json.load(open(f))
    print("==", f.split("/")[-1], d["violation"]["kind"], d["violation"]["key"], "|", d["violation"]["detail"][:300])
    t = d["trace"]
    spec = t.get("spec") or t.get("g", {}).get("spec")
    if spec:
        for i, n in enumerate(spec["nodes"]):
            print("   ", f"n{i}", n["t"], n["a"], n["p"] or "", "SUB" if "sub" in n else "")
    for k, v in t.items():
        if k == "g":
            print("   timing", json.dumps(v["timing"]))
        elif k not in ("spec", "order_seed"):
            print("   ", k, json.dumps(v)[:600])
    for l in d.get("log", [])[-6:]:
        print("    >", l[:300])
