#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
P = {}; NA = []
T = 'the {n} parser tests try a fixed handful of documents; the statement ranges over every document of the described shapes and every name, digit, blank and letter case in it'
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
             'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or ['parser result'], 'hook_needed': None}}
def na(id, reason): NA.append({'property': id, 'reason': reason})
exec(open(V + '/tools/props_text.py').read())
for c in CHECKS: assert c in P, c
for p in P: assert p in CHECKS or any(n['property'] == p for n in NA), p
with open(V + '/properties.jsonl', 'w') as f:
    for p in sorted(P): f.write(json.dumps(P[p]) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': NA,
     'notes': 'No hooks in /repo: the checks read the shipped sources. Known findings: known-findings.txt.'}
for p in sorted(CHECKS):
    m['checks'].append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (z3)', 'level': 'model_checking',
        'level_note': ('Every input within the bounds: %s. Outside: %s. Trusts clang, the executor in /verif/engine and the stand-in for the absent takatori headers.' % (CHECKS[p]['bounds'], CHECKS[p].get('outside') or 'larger inputs'))})
with open(V + '/MANIFEST.json', 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(P), 'properties', len(CHECKS), 'checks', len(NA), 'not applicable')

def section(text, name, lines):
    a, b = '<!-- %s -->\n' % name, '<!-- /%s -->' % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + '\n'.join(lines) + '\n' + text[j:]
d = open(V + '/DESIGN.md').read()
rows = ['| id | property | entries of | bound and what lies outside |', '|---|---|---|---|']
for p in sorted(CHECKS):
    c = CHECKS[p]; n = len(c.get('thorough', []))
    rows.append('| %s | %s | %s: %d%s | %s. *Outside:* %s |' % (p, P[p]['title'], ', '.join(sorted({e.split('.')[0] for e in c['quick']})), len(c['quick']), ' (+%d thorough)' % n if n else '', c['bounds'].replace('|', '/'), c.get('outside') or 'larger inputs'))
d = section(d, 'table', rows)
rows = ['| change | property | needs |', '|---|---|---|']
import glob
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs']))
d = section(d, 'seeded', rows)
with open(V + '/DESIGN.md', 'w') as f: f.write(d)
