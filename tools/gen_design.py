#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from design_head.md, props_meta.py, design_notes.py, the harness sources, known findings and seeded bugs."""
import re, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props_meta import PROPS
from design_notes import NOTES
import design_notes
subs = {}
for f in sorted(glob.glob(root + '/harness/src/props/*.rs')):
    t = open(f).read()
    for m in re.finditer(r'Prop \{\s*id: "(C\d+)"', t):
        n = re.search(r'Prop \{\s*id: "', t[m.end():])
        seg = t[m.start():m.end() + (n.start() if n else len(t))]
        rule = re.search(r'rule:\s*"((?:[^"\\]|\\.)*)"', seg).group(1)
        subs[m.group(1)] = (os.path.basename(f), re.findall(r'name: "([^"]+)", quick: ([\d_]+)', seg), re.findall(r'Probe \{\s*key: "([^"]+)"', seg), rule)
o = [open(here + '/design_head.md').read().rstrip() + '\n\n## Properties\n']
for p in sorted(PROPS, key=lambda p: p['id']):
    i = p['id']; f, ss, pr, rule = subs[i]; how, why, lim = NOTES[i]
    o.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    o.append(f"* **Decided by** ({f}): {how}")
    o.append("* **Sub-checks** (cases in the quick tier; thorough ×12): " + ', '.join(f"`{a}` {b}" for a, b in ss) + '.')
    o.append(f"* **Non-trivial:** {rule}.")
    o.append(f"* **Why tests cannot settle it:** {p['why']} {why}")
    if lim: o.append(f"* **Bounds and design decisions respected:** {lim}")
    if pr: o.append("* **Open findings (probed):** " + ', '.join(f"`{k}`" for k in pr) + '.')
    o.append('')
o.append(design_notes.MID)
o.append('## Findings\n\nOpen (listed in `known_findings.jsonl`, probed on every run):\n')
F = [json.loads(l) for l in open(root + '/known_findings.jsonl') if l.strip()]
for k in F:
    if k['status'] == 'open': o.append(f"* **{k['property']} `{k['key']}`** — {k['what']}.")
fx = [k for k in F if k['status'] == 'fixed']
o.append(f"\nRepaired with `fix:` commits ({len(fx)} records):\n")
for k in sorted(fx, key=lambda k: k['property']):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', k['what']); o.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
o.append('\n## Planted bugs\n\nEach was written from the property text and the code; `caught` says what the check did with it.\n\n| id | property | what it breaks | needs | caught |\n|---|---|---|---|---|')
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); esc = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    o.append(f"| {i} | {m['property']} | {esc(m['what_it_breaks'])} | {esc(m['needs'])} | {design_notes.CAUGHT.get(i, '?')} |")
o.append('\n' + design_notes.TAIL)
open(root + '/DESIGN.md', 'w').write('\n'.join(o).rstrip() + '\n')
