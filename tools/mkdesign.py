#!/usr/bin/env python3
"""Rewrites the generated coverage table at the end of DESIGN.md from harness/*/harness.json."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- generated by tools/mkdesign.py below -->"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]

def tier(t):
    b = ", ".join(f"{k} {v}" for k, v in t.get("bounds", {}).items()) or "fixed scenario"
    if "preempt" in t:
        b += f"; {t['preempt']} preemptions"
    return b

out = [MARK, "",
       "Per harness: quick bounds / thorough bounds. *sched*: `free` = every runnable goroutine may be",
       "continued at a blocking point, `delay` = deviations from round-robin are counted against the",
       "preemption bound. Labels in *must reach* have to be reached on some path, otherwise the harness",
       "counts as vacuous (reported as incomplete).", ""]
for p in props:
    f = f"{V}/harness/{p['id']}/harness.json"
    if not os.path.exists(f):
        continue
    h = json.load(open(f))
    out += [f"**{p['id']} {p['title']}**", ""]
    out += ["| harness | package | quick | thorough | sched | must reach |", "|---|---|---|---|---|---|"]
    for u in h["units"]:
        for x in u["harnesses"]:
            s = ("free" if x.get("sched_free") else "") + (" delay" if x.get("delay") else "")
            out.append(f"| {x['name']} | {u['pkg']} | {tier(x.get('quick', {}))} | {tier(x.get('thorough', {}))} | {s.strip() or '-'} | {', '.join(x.get('reach', [])) or '-'} |")
    rw = sorted({y for u in h["units"] for l in u.get("rewrite", {}).values() for y in l})
    cs = sorted({f"{k}={v}" for u in h["units"] for d in u.get("consts", {}).values() for k, v in d.items()})
    out.append("")
    if rw:
        out.append("Replaced at the edge: " + ", ".join(f"`{r}`" for r in rw) + ".")
    if cs:
        out.append("Constants scaled down: " + ", ".join(f"`{c}`" for c in cs) + ".")
    out.append("Assumed: " + "; ".join(h.get("assumptions", [])) + ".")
    out.append("Outside: " + "; ".join(h.get("outside", [])) + ".")
    out.append("")
d = open(f"{V}/DESIGN.md").read().split(MARK)[0].rstrip() + "\n\n" + "\n".join(out)
open(f"{V}/DESIGN.md", "w").write(d)
