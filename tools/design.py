#!/usr/bin/env python3
"""assembles DESIGN.md"""
import json, os, glob, runpy, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'tools/design/')
ev = sys.argv[1] if len(sys.argv) > 1 else os.path.join(R, 'evidence')
T = runpy.run_path(D + 'texts.py')['T']
out = [open(D + 'head.md').read()]
m = json.load(open(R + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in m['not_applicable']}
for l in open(R + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s\n' % na[i])
        continue
    out.append(T[i] + '\n')
    e = json.load(open('%s/%s.json' % (ev, i)))
    c = e['coverage']
    out.append('*Reach*: %s\n' % p['why_tests_cant'])
    out.append('Obligations (%d over %d functions, %d paths; %.0f s once the trees are extracted):\n' % (c['obligations'], c['functions_analysed'], c['paths_analysed'], e['wall_s'] + .5))
    for r, t in c['rules'].items():
        out.append('- *%s*: %s.' % (r, t))
    out.append('')
f = [l.strip() for l in open(R + '/known_findings.txt') if l.strip() and not l.startswith('#')]
s = []
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    j = json.load(open(d))
    s.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
tail = open(D + 'tail.md').read()
tail = tail.replace('@FINDINGS@', '\n'.join('- ' + x for x in f))
tail = tail.replace('@SEEDS@', '| change | caught by | breaks | needs |\n|---|---|---|---|\n' + '\n'.join(s))
out.append(tail)
open(R + '/DESIGN.md', 'w').write('\n'.join(out))
