#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property (caught by its quick check) | what it breaks | what it needs |", "|---|---|---|---|"]
for b in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{b}/meta.json"))
    c = lambda t: t.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {b} | {m['property']}{'' if m.get('caught', True) else ' (missed)'} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
p = H + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
