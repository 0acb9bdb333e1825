#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json, os
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(D + "/properties.jsonl")]
VG = "whole-program value analysis (gated value graph over go/ssa)"
# id: (technique, level, note)
C = {}
def claim(id, technique, level, note):
    C[id] = (technique, level, note)
exec(open(D + "/tools/claims.py").read())
NA = {
 "N01": "The DWD reference grids are not in this tree and the property is a numerical tolerance over them; no static argument decides it. C27 decides the formulas and constants instead.",
 "N02": "Cost is a quantity of executions (time, total allocation). Its structural parts - bounded allocation sizes and terminating loops - are decided by C02 and C03.",
 "N03": "Rounding error bounds need a floating-point error analysis of libm functions; the value analysis compares expressions over the reals (assumption A-real).",
}
checks = []
for p in props:
    i = p["id"]
    if i in C:
        t, lv, note = C[i]
        checks.append({"property": i, "quick_cmd": f"bin/radocheck -p {i}", "thorough_cmd": f"bin/radocheck -tier thorough -p {i}",
                       "technique": t, "level": lv, "level_note": note})
na = [{"property": p["id"], "reason": NA.get(p["id"], "The check is not finished yet.")} for p in props if p["id"] not in C]
m = {"version": 1,
 "setup_cmd": "cd checker && GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/radocheck .",
 "checks": checks, "not_applicable": na,
 "notes": "No hooks: the checks read /repo's source as it is. Static analysis only; nothing of /repo is executed."}
json.dump(m, open(D + "/MANIFEST.json", "w"), indent=1)
open(D + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not applicable")
