#!/usr/bin/env python3
"""Puts DESIGN.md together from design/head.md, design/notes/*.md and the machine-readable files."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(f"{V}/checks.json"))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl") if l.strip()]
na = json.load(open(f"{V}/not_applicable.json")) if os.path.exists(f"{V}/not_applicable.json") else []
head = open(f"{V}/design/head.md").read()
rows = ["| planted bug | check | what it breaks |", "|---|---|---|"]
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['what_it_breaks']} |")
head = head.replace("SEEDED_HERE", "\n".join(rows))
fx = f"{V}/design/fixes.md"
head = head.replace("FIXES_HERE", open(fx).read() if os.path.exists(fx) else "")
out = [head]
for p in props:
    i = p["id"]
    out.append(f"### {i} — {p['title']}\n")
    out.append(p["statement"] + "\n")
    n = f"{V}/design/notes/{i}.md"
    if i in checks:
        c = checks[i]
        if os.path.exists(n):
            out.append(open(n).read().strip() + "\n")
        fns = {}
        for u in c["units"]:
            f = f"{V}/units/{u}.rs" if os.path.exists(f"{V}/units/{u}.rs") else None
            if not f:
                continue
            t = open(f).read()
            for inc in re.findall(r"//@ include (\S+)", t):
                q = f"{V}/units/{inc}"
                t += open(q).read() if os.path.exists(q) else ""
            for m in re.finditer(r"//@ (?:fn|fns|impl-fns) (\S+) ::", t):
                fns[m.group(1)] = fns.get(m.group(1), 0) + 1
        out.append("- Units: " + ", ".join(f"`{u}`" for u in c["units"]) + ". Code under contract in: " + ", ".join(f"`{k}`" for k in sorted(fns)) + ".")
        if c.get("bounded_fns"):
            out.append("- Bounded, not proved: " + "; ".join(c["bounded_fns"]) + f" ({c['iters']} iterations per run, seeded; x25 thorough).")
        if c.get("assumptions"):
            out.append("- Assumed: " + "; ".join(c["assumptions"]) + ".")
        out.append("- Beyond tests: " + p["why_tests_cant"] + "\n")
    else:
        r = next((x["reason"] for x in na if x["property"] == i), "")
        out.append(f"Not applicable: {r}\n")
open(f"{V}/DESIGN.md", "w").write("\n".join(out))
