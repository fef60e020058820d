#!/usr/bin/env python3
# Writes DESIGN.md: design.in.md with the catch table and the property table filled in.
import json, os, re
d = os.path.dirname(os.path.abspath(__file__))
P = [json.loads(l) for l in open(d + '/properties.jsonl')]
M = json.load(open(d + '/MANIFEST.json'))
props = open(d + '/tool/props.go').read()
rule = {}
for m in re.finditer(r'\{id: "(\w+)".*?rule: "(.*?)"\}', props, re.S):
    rule[m.group(1)] = m.group(2)
seed = {}
for s in sorted(os.listdir(d + '/seeded')):
    j = json.load(open(f'{d}/seeded/{s}/meta.json'))
    seed.setdefault(j['property'], []).append((s, j))
notes = {}
cur = None
for line in open(d + '/design.bounds.md'):
    m = re.match(r'^(\w\d\d): (.*)', line)
    if m:
        notes[m.group(1)] = m.group(2).strip()
rows = []
for p in P:
    i = p['id']
    if i not in rule:
        continue
    rows.append(f"### {i} {p['title']}\n\n- Decided by: {rule[i]}\n- Reach and bounds: {notes.get(i, 'no bound: every input and history in the quantifier.')}\n"
                f"- Why tests cannot: {p['why_tests_cant']}\n- Planted bugs caught by this check: "
                + (', '.join(s for s, _ in seed.get(i, [])) or 'none planted') + '\n')
na = '\n'.join(f"- **{n['property']}**: {n['reason']}" for n in M['not_applicable'])
tab = '\n'.join(f"| {s} | {i} | {j['needs']} |" for i in sorted(seed) for s, j in seed[i])
t = open(d + '/design.in.md').read()
t = t.replace('@PROPERTIES@', '\n'.join(rows)).replace('@NA@', na).replace('@SEEDED@', '| change | property | needs |\n|---|---|---|\n' + tab)
open(d + '/DESIGN.md', 'w').write(t)
