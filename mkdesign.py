#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
D = os.path.dirname(os.path.abspath(__file__))
rows = ["<!-- seeded:begin (mkdesign.py) -->", "| planted bug | breaks | needs | caught by | first |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(D + "/seeded")):
    m = json.load(open(f"{D}/seeded/{i}/meta.json"))
    f = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append(f"| {i} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {m.get('caught_by', m['property'])} | {m.get('first', 'caught')} |")
rows.append("<!-- seeded:end -->")
p = D + "/DESIGN.md"
s = open(p).read()
t = "\n".join(rows)
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- seeded:begin.*?<!-- seeded:end -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
