#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props/*.py (one dict per property)"""
import os, json, glob, runpy
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools/props'))
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(R, 'tools/props/*.py'))):
    g = runpy.run_path(f)
    for p in g['PROPS']:
        claim = p.pop('claim', None)
        reason = p.pop('na', None)
        props.append(p)
        if claim:
            i = p['id']
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': claim['technique'],
                           'level': 'other', 'level_note': claim['note']})
        else:
            na.append({'property': p['id'], 'reason': reason})
props.sort(key=lambda p: p['id'])
with open(os.path.join(R, 'properties.jsonl'), 'w') as o:
    for p in props:
        o.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': sorted(checks, key=lambda c: c['property']),
     'not_applicable': sorted(na, key=lambda c: c['property']),
     'notes': 'Static analysis only: a libTooling extractor (engine/extract.cpp) dumps the type-checked syntax tree of every source of /repo; '
              'engine/interp.py walks it path by path with value-numbered terms (no solver, no execution); rules/cNN.py state each property as '
              'obligations over those paths. See DESIGN.md.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
