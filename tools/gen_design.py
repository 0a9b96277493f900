#!/usr/bin/env python3
"""Fill in the tables of DESIGN.md: cost (from evidence/, where present) and planted bugs (from tools/catches.json)."""
import json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
d = open(H + "/DESIGN.md").read()
missed = {"matrix-set-skips-zero": "M01: empty lists and zero entries added to the alphabet",
          "mdp-set-last": "M05: sets that differ in single entries, solves in between",
          "hex-right-open-edge": "G02: deeper meshes, coarsening right above the middle layer",
          "finelayer-third-level": "G04: third and fourth level of coarsening"}
missed.update(json.load(open(H + "/tools/missed.json")) if os.path.exists(H + "/tools/missed.json") else {})
rows = ["| bug | property | needs | caught | |", "|---|---|---|---|---|"]
for k, v in sorted(json.load(open(H + "/tools/catches.json")).items(), key=lambda i: (i[1]["property"], i[0])):
    p = H + "/seeded/%s/meta.json" % k
    if os.path.exists(p):
        m = json.load(open(p))
        rows.append("| %s | %s | %s | %s | %s |" % (k, m["property"], m["needs"].replace("|", "/"), "yes" if v["caught"] else "**no**",
                                                   "first missed → " + missed[k] if k in missed else ""))
d = re.sub(r"(<!-- BUGS -->\n).*(<!-- /BUGS -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d, flags=re.S)
ev = sorted(f for f in os.listdir(H + "/evidence") if f.endswith(".json")) if os.path.isdir(H + "/evidence") else []
cp = H + "/tools/cost.json"
cost = json.load(open(cp)) if os.path.exists(cp) else {}
for f in ev:
    e = json.load(open(H + "/evidence/" + f))
    c = e["coverage"]
    if c.get("exhaustive") and not e.get("violations"):
        cost.setdefault(e["property"], {})[e["tier"]] = [c["cases_in_bounded_space"], c["oracle_comparisons"], c.get("transitions", 0), c.get("states", 0), round(e["wall_s"])]
json.dump(cost, open(cp, "w"), indent=1, sort_keys=True)
rows = ["| property | tier | cases | comparisons | transitions | states | seconds |", "|---|---|---|---|---|---|---|"]
for k in sorted(cost):
    for t in ("quick", "thorough"):
        if t in cost[k]:
            rows.append("| %s | %s | %d | %d | %d | %d | %d |" % tuple([k, t] + cost[k][t]))
d = re.sub(r"(<!-- COST -->\n).*(<!-- /COST -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d, flags=re.S)
open(H + "/DESIGN.md", "w").write(d)
