#!/usr/bin/env python3
"""Regenerates DESIGN.md: the text below, the tables from properties.jsonl,
level_notes.json, known_findings.json and the planted bugs."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
notes = json.load(open(V + "/tools/level_notes.json"))
fixed = json.load(open(V + "/known_findings.json"))
HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
SPEC = json.load(open(V + "/tools/design_specs.json"))
out = [HEAD]
out.append("## The properties, one by one\n")
for p in props:
    i = p["id"]
    mods, what = SPEC[i]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"*Specification:* {mods}. {what}\n")
    out.append(f"*Decided by:* {notes[i]['technique']}.\n")
    out.append(f"*Bounds:* {notes[i]['note']}\n")
    out.append(f"*Why tests cannot:* {p['why_tests_cant']}\n")
out.append("## Planted bugs\n")
out.append("Each is caught (exit 1, VIOLATION line) by the quick check of its property.\n")
out.append("| bug | needs | breaks |\n|----|----|----|")
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    out.append(f"| {os.path.basename(os.path.dirname(d))} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
out.append("")
out.append(f"## Repaired defects ({len(fixed['fixed'])})\n")
out.append("Each was shown on the real code by the check named first, repaired in its own commit, and is listed in known_findings.json; "
           "a regression is reported again.  There are no known findings that are left unrepaired.\n")
for f in fixed["fixed"]:
    x = f.split(" ", 3)
    out.append(f"* {x[1].split('=')[1]} `{x[2]}` {x[3]}")
out.append("")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
