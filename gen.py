#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from propdefs.py and props.py"""
import json
from propdefs import D, NA
from props import PROPS
with open('properties.jsonl', 'w') as f:
    for d in D: f.write(json.dumps({k: v for k, v in d.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup',
  hooks=dict(guard='UCSIM_VERIF', enable='no hooks were needed: the harnesses include the class headers with private members made accessible', source_commits=[]),
  checks=[dict(property=d['id'], quick_cmd='python3 check.py %s quick' % d['id'], thorough_cmd='python3 check.py %s thorough' % d['id'], evidence_file='evidence/%s.json' % d['id'],
     technique='symbolic execution of the LLVM bitcode of the real sources, every assertion decided by Z3 over all symbolic values', level='model_checking', level_note=d['_note'] + ' Bounds: ' + PROPS[d['id']]['bounds'])
     for d in D if d['id'] in PROPS],
  not_applicable=[dict(property=i, reason=r) for i, r in NA], notes='See DESIGN.md. Only solver-discharged assertions count; undecided cases are printed as INCONCLUSIVE and listed in the evidence.')
na = {i for i, _ in NA}
assert all((d['id'] in PROPS) != (d['id'] in na) for d in D)
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
import subprocess, os
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json'))); s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open('properties.jsonl'): jsonschema.validate(json.loads(l), s)
    print('valid', len(D), 'properties')
except ImportError: print('jsonschema not available')

import glob, sys
sys.path.insert(0, 'doc')
from oracle import O
o = open('doc/head.md').read() + '## Properties\n\n'
for d in D:
    i = d['id']; o += '### %s %s\n\n%s\n\n' % (i, d['title'], d['statement'])
    if i not in PROPS: o += 'Not applicable: %s\n\n' % dict(NA)[i]; continue
    p = PROPS[i]
    o += 'Quantifier: %s. Beyond tests: %s.\n\nBounds: %s. %s\n\n%s\n\n' % (d['quantifier']['text'], d['why_tests_cant'], p['bounds'], d['_note'], O.get(i, ''))
    if p.get('assumptions'): o += 'Assumptions: %s.\n\n' % '; '.join(p['assumptions'])
o += '## Findings\n\nGenuine defects the checks found in the original tree; each was repaired by a commit in /repo (hash given), replayed natively before and quiet after. Open findings, if any, start with "finding".\n\n'
for l in open('known_findings.txt'):
    if l.strip(): o += '* ' + l.strip() + '\n'
o += '\n## Planted bugs\n\n`tools/seedrun.sh ID` applies one, runs its check and undoes it. Each was run against its check in quick mode; the last column is the outcome.\n\n| bug | property | needs | caught |\n|---|---|---|---|\n'
missed = set(open('doc/missed.txt').read().split())
for f in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[1]
    o += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'].replace('|', '\\|').replace('\n', ' '), 'no' if n in missed else 'yes')
o += '\n' + open('doc/tail.md').read()
open('DESIGN.md', 'w').write(o)
