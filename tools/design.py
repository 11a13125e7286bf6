"""DESIGN.md from properties.jsonl, the checks and the notes below"""
import ast
import json
import os
import re

V = '/verif'
HEAD = open(V+'/tools/design_head.md').read()
TAIL = open(V+'/tools/design_tail.md').read()
NOTES = {}
cur = None
for ln in open(V+'/tools/design_notes.md'):
    m = re.match(r'# (C\d\d)', ln)
    if m:
        cur = m.group(1)
        NOTES[cur] = ''
    elif cur:
        NOTES[cur] += ln


def lit(n):
    try:
        return ast.literal_eval(n)
    except ValueError:
        return []


def check(fn):
    t = ast.parse(open(fn).read())
    h, b, a = [], [], []
    for n in t.body:
        if isinstance(n, ast.FunctionDef) and n.name.startswith('h_'):
            d = ' '.join((ast.get_docstring(n) or '').split())
            h.append((n.name, d))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == 'BOUNDS':
                b = lit(n.value)
            if n.targets[0].id == 'ASSUMPTIONS':
                a = lit(n.value)
    return h, b, a


out = [HEAD]
na = json.load(open(V+'/MANIFEST.json'))['not_applicable']
for ln in open(V+'/properties.jsonl'):
    d = json.loads(ln)
    i = d['id']
    out.append(f"\n### {i} {d['title']}\n")
    fn = f'{V}/checks/{i.lower()}.py'
    if [x for x in na if x['property'] == i]:
        out.append('Not applicable: ' +
                   [x for x in na if x['property'] == i][0]['reason']+'\n')
        continue
    h, b, a = check(fn)
    if i in NOTES:
        out.append(NOTES[i].strip()+'\n')
    out.append('\nHarnesses (`checks/'+i.lower()+'.py`):\n')
    out += [f'- `{n}`: {x}' for n, x in h]
    if b:
        out.append('\nBounds: '+'; '.join(b)+'.')
    if a:
        out.append('\nAssumptions: '+'; '.join(a)+'.')
out.append('\n## Genuine defects found\n')
fixed, known = [], []
for ln in open(V+'/known_findings.jsonl'):
    ln = ln.strip()
    if ln.startswith('fixed:'):
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', ln)
        fixed.append(m.groups())
    elif ln and not ln.startswith('#'):
        known.append(json.loads(ln))
out.append(f'{len(fixed)} repaired by "fix:" commits in /repo, recorded in '
           '`known_findings.jsonl` (the check of the property reports each of '
           'them again if it returns):\n')
out += [f'- {p} `{c}` {w}' for p, c, w in fixed]
out.append('\nRecorded, not repaired (`KNOWN-FINDING` lines):\n')
out += [f"- {k['property']} `{k['harness']}` {k['label']}: {k['what']}"
        for k in known]
out.append('\n## Planted changes\n')
out.append('Each was written from the statement and the code, confirmed in a '
           'scratch copy (builds, stable tests pass, demo fails), and run '
           'against the check with `tools/seed.py`.\n')
out.append('| id | property | what it breaks | needs | check |\n'
           '|---|---|---|---|---|')
res = json.load(open(V+'/tools/seed_results.json')) \
    if os.path.exists(V+'/tools/seed_results.json') else {}
for s in sorted(os.listdir(V+'/seeded')):
    d = json.load(open(f'{V}/seeded/{s}/meta.json'))
    out.append(f"| {s} | {d['property']} | {d['what_it_breaks']} | "
               f"{d['needs']} | {res.get(s, '')} |")
out.append(TAIL)
open(V+'/DESIGN.md', 'w').write('\n'.join(out)+'\n')
