"""Shared machinery of the rules: obligations, known findings, evidence, and queries over analysed paths."""
import os, sys, json, re
import prog
from prog import Broken
from terms import *
from interp import Interp, Ev, Path, TooBig, empty_state

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.progs = {}
        self.obl = []            # (rule, where, ok, text)
        self.viol = []           # dict
        self.notes = []
        self.functions = set()
        self.paths = 0
        self.ips = 0
        self.problems = []
        self.rules = {}
        self.explain = ''
        self.assumptions = []
        self.undecided = []

    # ------------------------------------------------------------- program
    def prog(self, config='base'):
        if config not in self.progs:
            self.progs[config] = prog.load(config)
        return self.progs[config]

    # ------------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, where, ok, text, key=None, detail=None):
        """one obligation; a failed one is a violation identified by key"""
        self.obl.append((rule, where, bool(ok), text))
        if not ok:
            key = key or '%s@%s' % (rule, where)
            if not any(v['key'] == key for v in self.viol):
                self.viol.append({'rule': rule, 'where': where, 'what': text, 'key': key, 'path': detail})
        return ok

    def fail(self, rule, where, text, key=None, detail=None):
        return self.ob(rule, where, False, text, key, detail)

    def need(self, cond, what):
        if not cond:
            raise Broken(what)

    def undecide(self, what):
        self.undecided.append(what)

    # ------------------------------------------------------------- analysis
    def fns(self, q, config='base', need=True, pred=None):
        fs = [f for f in self.prog(config).byq.get(q, []) if f.get('body') is not None or f.get('kind') == 'ctor' or f.get('defaulted')]
        if pred:
            fs = [f for f in fs if pred(f)]
        if need and not fs:
            raise Broken('no definition of %s found' % q)
        return fs

    def run(self, f, opaque=None, config='base', this=('d', ('this',)), dyn=None, args=None, st=None, maxpaths=4000,
            depth=14, **kw):
        p = self.prog(config)
        opq = opaque if callable(opaque) else (lambda g: g['q'] in (opaque or ()))
        ip = Interp(p, opaque=lambda g: g['usr'] != f['usr'] and opq(g), maxpaths=maxpaths, depth=depth, **kw)
        try:
            r = ip.run(f, this=this, dyn=dyn, args=args, st=st)
        except TooBig:
            raise Broken('too many paths in %s' % f['q'])
        self.ips += 1
        self.paths += len(r)
        for u in ip.visited:
            g = p.fns.get(u)
            if g:
                self.functions.add(g['q'])
        return r

    # ------------------------------------------------------------- result
    def finish(self, wall, broken):
        known = []
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    known.append((m.group(2), m.group(3)))
        new = [v for v in self.viol if v['key'] not in [k for k, _ in known]]
        hit = [(k, w) for k, w in known if any(v['key'] == k for v in self.viol)]
        for k, w in hit:
            print('KNOWN-FINDING: property=%s %s [%s]' % (self.pid, w, k))
        evd = os.environ.get('VERIF_EVID') or os.path.join(ROOT, 'evidence')
        os.makedirs(evd, exist_ok=True)
        per = {}
        for r, w, ok, t in self.obl:
            per.setdefault(r, [0, 0])
            per[r][0] += 1
            per[r][1] += 0 if ok else 1
        sites = sorted({w for _, w, _, _ in self.obl})
        if not broken and not self.obl:
            broken = 'no obligation was generated: the anchors of this property are gone'
        expl = self.explain or 'static analysis'
        evidence = {
            'property': self.pid, 'tier': self.tier if self.tier in ('quick', 'thorough') else 'quick',
            'seed': int(os.environ.get('VERIF_SEED', '1')),
            'level': 'other',
            'coverage': {
                'explanation': expl,
                'rules': {k: self.rules.get(k, '') for k in per},
                'obligations': len(self.obl),
                'discharged': len([1 for o in self.obl if o[2]]),
                'per_rule': {k: {'obligations': v[0], 'failed': v[1]} for k, v in per.items()},
                'functions_analysed': len(self.functions),
                'paths_analysed': self.paths,
                'analyses_run': self.ips,
                'functions': sorted(self.functions)[:400],
                'sites': sites[:400],
                'undecided': self.undecided[:60],
            },
            'wall_s': round(wall, 2),
            'violations': len(new),
            'assumptions': self.assumptions or ['the clang 18 syntax tree of the sources, as compiled for the base configuration'],
        }
        if broken:
            evidence['coverage']['no_answer'] = broken
        with open(os.path.join(evd, self.pid + '.json'), 'w') as o:
            json.dump(evidence, o, indent=1)
        for i, v in enumerate(new):
            rd = os.path.join(evd, 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%d.json' % (self.pid, i))
            with open(rp, 'w') as o:
                json.dump(v, o, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            print('  %s: %s\n  rule %s: %s\n  key %s' % (v['where'], v['what'], v['rule'], self.rules.get(v['rule'], ''), v['key']))
            if v.get('path'):
                print('  path: %s' % v['path'])
        print('%s: %d obligations at %d sites, %d functions, %d paths, %d violations%s (%.1fs)' % (
            self.pid, len(self.obl), len(sites), len(self.functions), self.paths, len(new),
            ', %d known' % len(hit) if hit else '', wall))
        if new:
            if broken:
                print('INCOMPLETE: ' + broken)
            return 1
        if broken:
            print('NO ANSWER: ' + broken)
            return 2
        return 0


# ---------------------------------------------------------------- events
def flat(evs, ctx=()):
    """(event, ctx) over nested loops; ctx = ((loop, kind, state), ...)"""
    for e in evs:
        yield e, ctx
        if e.k == 'loop':
            for kind, s, sub in e.paths:
                yield from flat(sub, ctx + ((e, kind, s),))


def linbase(t):
    if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][1] == 1 and not isinstance(t[1], float):
        return t[2][0][0], t[1]
    if t[0] == 'lit' and isinstance(t[1], int):
        return ('zero',), t[1]
    return t, 0


def bounds(st):
    """closure of the path's order facts: {(x, y): c} meaning x - y <= c"""
    d = {}

    def le(x, y, c):
        if (x, y) not in d or d[(x, y)] > c:
            d[(x, y)] = c
    for a, v in st.facts.items():
        if a[0] == 'lt':
            (x, c1), (y, c2) = linbase(a[1]), linbase(a[2])
            if v:
                le(x, y, c2 - c1 - 1)
            else:
                le(y, x, c1 - c2)
        elif a[0] == 'eq' and v:
            (x, c1), (y, c2) = linbase(a[1]), linbase(a[2])
            le(x, y, c2 - c1)
            le(y, x, c1 - c2)
    nodes = {x for k in d for x in k}
    for k in nodes:
        for i in nodes:
            if (i, k) in d:
                for j in nodes:
                    if (k, j) in d:
                        le(i, j, d[(i, k)] + d[(k, j)])
    return d


def top(evs):
    return [e for e in evs if e.k != 'loop']


def lname(q):
    return q.split('::')[-1]


def site(f):
    return '%s:%d' % (f['files'][f['L'][0]].split('/repo/')[-1], f['L'][1])


def inner(cls):
    """what a rule about one class sees from outside: everything but its members and free functions of source files or of the model library"""
    return lambda g: not g['q'].startswith(cls + '::') and (g.get('cls') is not None or g.get('body') is None or not ('/rocnnet/' in site(g) or site(g).split(':')[0].endswith('.cpp')))


def sig(f):
    return '(%s)' % ','.join(p['t'].get('s', '?') + {'r': '&&', 'l': '&'}.get(p['t'].get('ref'), '') for p in f['params'])


def fld_loc(loc, name):
    """the object whose field `name` the location lies in (innermost), or None"""
    while loc and loc[0] in ('f', 'e', 'm', 'nth', 'nk', 'mit'):
        if loc[0] == 'f' and loc[2] == name:
            return loc[1]
        loc = loc[1]
    return None


def fwrites(e, name):
    """write-like event touching field `name`: -> owner location"""
    if e.k in ('write', 'cmut'):
        return fld_loc(e.loc, name)
    return None
