#!/usr/bin/env python3
"""Fills the generated parts of DESIGN.md (between the markers): the table of costs (the outputs of checks given as arguments, and
those seen earlier), and the table of the
seeded changes from seeded/*/meta.json and seeded_results.json."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
rows = ["| property | executions | states | transitions | comparisons | wall (s) |", "|---|---|---|---|---|---|"]
costs = json.load(open(V + "/tools/costs.json"))
for f in sys.argv[1:]:
    # The output of a check (run.py), named after the property.
    m = re.search(r"P\d\d", os.path.basename(f))
    t = open(f).read()
    b = re.search(r"built in ([\d.]+) s", t)
    r = re.search(r"(\d+) executions, (\d+) distinct states, (\d+) transitions, (\d+) comparisons.* ([\d.]+) s", t)
    if m and b and r and "VIOLATION" not in t:
        costs[m.group()] = [int(r.group(k)) for k in range(1, 5)] + [round(float(b.group(1)) + float(r.group(5)))]
json.dump(costs, open(V + "/tools/costs.json", "w"), indent=1, sort_keys=True)
for i, c in sorted(costs.items()):
    rows.append("| %s | %d | %d | %d | %d | %d |" % (i, *c))
s = re.sub(r"(<!-- costs -->\n).*?(<!-- /costs -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
res = json.load(open(V + "/tools/seeded_results.json")) if os.path.exists(V + "/tools/seeded_results.json") else {}
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"], d["needs"], res.get(i, "?")))
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), s, flags=re.S)
open(p, "w").write(s)
