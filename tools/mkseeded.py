#!/usr/bin/env python3
"""Renders seeded/*/meta.json into the table of DESIGN.md (documentation only)."""
import json, os, re, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(sys.argv[1:])
rows = ["| bug | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
def k(b):
    return json.load(open(f"{root}/seeded/{b}/meta.json"))["property"], b
for b in sorted(os.listdir(f"{root}/seeded"), key=k):
    m = json.load(open(f"{root}/seeded/{b}/meta.json"))
    c = lambda t: t.replace("|", "/").replace("\n", " ")
    rows.append(f"| {b} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} | {'missed' if b in missed else m['property']} |")
p = f"{root}/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
if "<!-- seeded -->" in s:
    s = re.sub(r"<!-- seeded -->.*?<!-- /seeded -->", lambda _: t, s, flags=re.S)
else:
    s = re.sub(r"^SEEDED$", lambda _: t, s, flags=re.M)
open(p, "w").write(s)
