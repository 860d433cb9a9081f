#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, properties.jsonl, the rules in mc/props and seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
rows = []
for line in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    head = open(os.path.join(H, "mc", "props", i.lower() + ".cpp")).read()
    rule = re.search(r"^// rule: (.+)$", head, re.M).group(1)
    q = "; ".join(x for x in (p["quantifier"]["text"],))
    t = "?"
    try:
        e = json.load(open(os.path.join(H, "quick_times.json")))
        t = e[i]
    except Exception:
        pass
    rows.append("| %s %s | %s | %s | %s |" % (i, p["title"], rule, t, p["why_tests_cant"]))
seeds = []
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], d.get("caught_by", "?")))
s = open(os.path.join(H, "DESIGN.in.md")).read()
s = s.replace("@TABLE@", "\n".join(rows))
s = s.replace("@SEEDED@", "| change | property | what it breaks | needs | caught by (quick tier) |\n|---|---|---|---|---|\n" + "\n".join(seeds) if seeds else "None yet.")
open(os.path.join(H, "DESIGN.md"), "w").write(s)
