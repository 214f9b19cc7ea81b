"""DESIGN.md = tools/design.md with the table of bounds inserted (from jobs.py)."""
import sys, os, re, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs, json
titles = {j["id"]: j["title"] for j in map(json.loads, open(V + "/properties.jsonl"))}
out = []
for p in sorted(jobs.PROPS):
    s = jobs.PROPS[p]
    n = [sum(t in j["tiers"] for j in s["jobs"]) for t in ("quick", "thorough")]
    hs = collections.OrderedDict()
    for j in s["jobs"]:
        hs.setdefault(j["h"], [0, 0])
        for i, t in enumerate(("quick", "thorough")):
            hs[j["h"]][i] += t in j["tiers"]
    out.append(f"| {p} | {titles[p]} | " + ", ".join(f"{h} {a}/{b}" for h, (a, b) in hs.items()) + f" | {s['outside']} |")
t = open(V + "/tools/design.md").read()
t = t.replace("@@BOUNDS@@", "| id | property | harness functions (runs quick/thorough) | outside the bounds |\n|---|---|---|---|\n" + "\n".join(out))
seeds = collections.defaultdict(list)
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    seeds[m["property"]].append((d, m))
t = t.replace("@@SEEDS@@", "| property | change | needs | breaks |\n|---|---|---|---|\n" + "\n".join(f"| {p} | {d} | {m['needs']} | {m['what_it_breaks']} |" for p in sorted(seeds) for d, m in seeds[p]))
open(V + "/DESIGN.md", "w").write(t)
