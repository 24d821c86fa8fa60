#!/usr/bin/env python3
import json, os, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
rd = lambda n: open(os.path.join(H, n)).read()
out = [rd("design_head.md"), "\n## The properties\n"]
checks = json.load(open(os.path.join(H, "checks.json")))
notes = dict(l.split(": ", 1) for l in rd("design_props.md").splitlines() if l)
fixed = [f["what"] for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if f.get("status") == "fixed"]
catches = json.load(open(os.path.join(H, "catches.json")))
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); c = checks[p["id"]]
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"*Decided by* {c['technique']}.\n")
    out.append(f"*Explored*: {p['quantifier']['text']}. *Beyond the tests because*: {p['why_tests_cant']}\n")
    out.append(notes.get(p["id"], "").strip() + "\n")
    out.append("*Bounds and limits*: " + c["note"] + "\n")
    if c.get("assumptions"): out.append("*Assumes*: " + "; ".join(c["assumptions"]) + ".\n")
    fx = [f for f in fixed if f"property={p['id']} " in f]
    if fx: out.append("*Defects found and repaired* (see known_findings.json): " + "; ".join(f.split(f"property={p['id']} ")[1].split(" ", 1)[0] + " " + f.split(f"property={p['id']} ")[1].split(" ", 1)[1] for f in fx) + ".\n")
out.append(rd("design_tail.md"))
out.append("## Known findings\n\nNone is open: every genuine defect found was repaired by a `fix:` commit in /repo (%d entries).\n" % len(fixed))
out.append("## Planted bugs\n\n`tools/plant.py ID` builds /repo plus the patch, runs the tests, the demonstration on both trees, and the property's quick check.\n\n| bug | needs | check |\n|---|---|---|\n" +
  "\n".join(f"| {os.path.basename(os.path.dirname(m))} | {json.load(open(m))['needs']} | {catches.get(os.path.basename(os.path.dirname(m)), '?')} |" for m in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json")))))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
