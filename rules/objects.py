"""Whole-object queries: special members of classes, owned pointers, what a path leaves in each member."""
from common import *

THIS = ('this',)
TLOC = ('d', THIS)
NS = ('nnet::', 'rocnnet::')


def classes(p, one=True):
    """repository classes, one instantiation per template pattern unless told otherwise"""
    for k, c in sorted(p.classes.items()):
        if c['q'].startswith(NS):
            yield k, c


def home(p, k):
    """files that hold the class or its member functions"""
    out = set()
    for f in members(p, k):
        out.add(fnfile(f))
    return out


def fnfile(f):
    return f['files'][f['L'][0]] if f.get('L') else None


_mem = {}


def members(p, k):
    if id(p) not in _mem:
        d = {}
        for f in p.fns.values():
            if f.get('cls'):
                d.setdefault(f['cls'], []).append(f)
        _mem[id(p)] = d
    return _mem[id(p)].get(k, [])


def fields(p, k):
    return [(x['n'], x['t']) for x in p.classes[k].get('fields', []) if not x.get('static')]


def bases(p, k):
    """usr of direct repository bases"""
    return [b for b in direct(p, k) if b in p.classes]


def direct(p, k):
    out = []
    for b in p.classes[k]['bases']:
        if isinstance(b, dict):
            b = b.get('usr') or b.get('rec')
        out.append(b)
    return out


def has_state(p, k):
    if k not in p.classes:
        return False
    return bool(fields(p, k)) or any(has_state(p, b) for b in bases(p, k))


def ancestors(p, k):
    out = set()
    for b in bases(p, k):
        out.add(b)
        out |= ancestors(p, b)
    return out


def is_def(f):
    return f.get('body') is not None or f.get('kind') == 'ctor'


def special(p, k):
    """[(kind, f)] user-written copy/move constructors and assignments; kind in copy-ctor, move-ctor, copy=, move="""
    for f in members(p, k):
        if f.get('defaulted') or f.get('implicit') or not is_def(f) or not f['params']:
            continue
        t = f['params'][0]['t']
        if t.get('rec') != k or not t.get('ref') or t.get('ptr'):
            continue
        mv = t['ref'] == 'r'
        if f.get('kind') == 'ctor':
            if all('string' in x['t'].get('s', '') for x in f['params'][1:]):
                yield ('move-ctor' if mv else 'copy-ctor'), f
        elif lname(f['q']) == 'operator=' and len(f['params']) == 1:
            yield ('move=' if mv else 'copy='), f


def local_only(p, k, extra=()):
    """opaque predicate: only functions that live with class k (or are compiler-made, or std) are looked into"""
    hm = home(p, k)

    def opq(g):
        if g.get('defaulted') or g.get('implicit'):
            return False
        if g.get('cls') and g['cls'] != k:
            return True
        if lname(g['q']) in extra:
            return True
        return fnfile(g) not in hm
    return opq


def is_move(f):
    return f and f['params'] and f['params'][0]['t'].get('ref') == 'r'


def selfcmp(path, o):
    """True/False/None: does the path know that the argument is the object itself"""

    for a, v in path.facts.items():
        if a[0] == 'eq' and set(map(strip_dyn, a[1:])) == {THIS, o}:
            return v
    return None


def strip_dyn(t):
    while t[0] == 'dyn':
        t = t[2]
    return t


def mentions(t, f):
    return any_term(t, lambda x: x == f)


CLONERS = ('clone', 'move', 'clone_impl', 'move_impl', 'get')
