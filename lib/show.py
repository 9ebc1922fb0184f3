"""Human-readable digest of one engine result."""
import json, sys
j = json.load(open(sys.argv[1]))
tot, reach, n = {}, {}, 0
for p in j["parts"]:
    for k, v in p.items():
        if isinstance(v, int): tot[k] = max(tot.get(k, 0), v) if "max" in k else tot.get(k, 0) + v
print(j["entry"], "parse", j["parse_ms"], "wall", j["wall_ms"], {k: v for k, v in tot.items() if v})
for p in j["parts"]:
    for i in p["incomplete"][:3]: print("INC", i[:700])
    for v in p.get("violations", [])[:4]:
        n += 1
        if n < 12: print("VIOL", v["kind"], v["what"][:300], v["witness"]["inputs"], [bytes.fromhex(x) for x in v["witness"]["prints"]])
    for k, v in p.get("reach", {}).items(): reach[k] = reach.get(k, 0) + v["count"]
    if "-w" in sys.argv:
        for v in p.get("path_witnesses", [])[:5]: print(v["inputs"], [bytes.fromhex(x) for x in v["prints"]])
print(reach)
