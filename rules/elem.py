"""What each element of an array is after a piece of code: guarded cases, and equality with a function given by cases, decided by
going through every order of the values compared."""
from itertools import product
from ops import *


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for c in t:
            if isinstance(c, tuple):
                yield from subterms(c)


def allloops(evs):
    for e in evs:
        if e.k == 'loop':
            yield e
            for kind, s, sub in e.paths:
                yield from allloops(sub)


IX = ('idx', '*')


def cases(ip, evs, v):
    """[(facts, element at IX)], number of elements: or None when the array is not given element by element"""
    if v[0] in ('map', 'gen') and (v[0] == 'map' or size(v[1]) == ZERO):
        return [({}, subst_idx(v[4], v[2], IX))], v[3]
    if v[0] == 'loopv':
        for e in allloops(evs):
            for loc, x in e.d['V'].items():
                if x != v:
                    continue
                init = e.W.get(loc)
                out = []
                ok = True
                for kind, s, sub in e.paths:
                    if kind != 'next':
                        ok = False
                        break
                    w = s.env.get(loc)
                    idx = ('idx', e.depth)
                    ph = w
                    while ph is not None and ph[0] == 'upd':
                        ph = ph[1]
                    if w is None or w[0] == 'phi':
                        el = ('at', init, idx)
                    elif w[0] == 'upd' and w[2] == idx and w[1][0] == 'phi':
                        el = w[3]
                    elif w[0] == 'push' and w[1][0] == 'phi' and size(init) == ZERO:
                        el = w[2]
                        ph = w[1]
                    else:
                        ok = False
                        break
                    f = lambda x: IX if x == idx else at(init, IX) if x == ('at', ph, idx) else init if x == ph else None
                    out.append(({subst_free(a, e.depth, f): b for a, b in s.facts.items()}, subst_free(el, e.depth, f)))
                if ok:
                    return out, v[4]
        return None
    if v[0] in ('res', 'mfn', 'par', 'memof'):
        return [({}, ('at', v, IX))], size(v)
    return None


class Stuck(Exception):
    pass


class Ordered:
    """values of terms when the order of some symbols is fixed: rank {symbol name: number}"""

    def __init__(self, leaf, rank, path=None):
        self.rank = rank
        self.m = Meaning(self._leaf, path)
        self.leaf = leaf

    def _leaf(self, t):
        if t[0] == 'fn' and t[1] in ('max', 'min', 'fmax', 'fmin') and len(t) == 4:
            a, b = self.m.of(t[2]), self.m.of(t[3])
            x, y = self.num(a), self.num(b)
            if x is None or y is None:
                return None
            return (a if x >= y else b) if 'max' in t[1] else (a if x <= y else b)
        if t[0] == 'ite':
            c = self.cond(t[1])
            if c is not None:
                return self.m.of(t[2] if c else t[3])
        if t[0] == 'cmp':
            c = self.cond(t)
            if c is not None:
                return ratf.num(int(c))
        return self.leaf(t)

    def num(self, f):
        c = f.const()
        if c is not None:
            return c
        s = ratf.simp(f)
        if s.d == ratf.ONE and len(s.n) == 1:
            (m, k), = s.n.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'x':
                return self.rank.get(m[0][0][1])
        return None

    def cond(self, t):
        """truth of a condition or None"""
        if t[0] == 'cmp':
            x, y = self.num(self.m.of(t[2])), self.num(self.m.of(t[3]))
            if x is None or y is None:
                return None
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[t[1]]
        if t[0] in ('lt', 'eq') and len(t) == 3:
            return self.cond(('cmp', '<' if t[0] == 'lt' else '==', t[1], t[2]))
        if t[0] == 'nz' and len(t) == 2:
            if t[1][0] == 'cmp':
                return self.cond(t[1])
            x = self.num(self.m.of(t[1]))
            return None if x is None else x != 0
        if t[0] in ('not', 'lnot') and len(t) == 2:
            c = self.cond(t[1])
            return None if c is None else not c
        if t[0] == 'op' and t[1] in ('&&', '||') and len(t) == 4:
            a, b = self.cond(t[2]), self.cond(t[3])
            if a is None or b is None:
                return None
            return (a and b) if t[1] == '&&' else (a or b)
        return None

    def holds(self, facts):
        for a, v in facts.items():
            if a[0] not in ('lt', 'eq', 'nz'):
                continue
            c = self.cond(a)
            if c is not None and c != bool(v):
                return False
        return True

    def value(self, t):
        """with symbols of equal rank identified"""
        f = self.m.of(t)
        return self.ident(f)

    def ident(self, f):
        first = {}
        sub = {}
        for n in sorted(self.rank):
            r = self.rank[n]
            if r in first:
                sub[n] = ratf.sym(first[r])
            else:
                first[r] = n
        return ratf.subst(f, sub) if sub else f


def orders(names, fixed=None):
    """every weak order of the symbols, as ranks"""
    seen = set()
    for r in product(range(len(names)), repeat=len(names)):
        k = sorted(set(r))
        c = tuple(k.index(x) for x in r)
        if c in seen:
            continue
        seen.add(c)
        m = dict(fixed or {})
        m.update(zip(names, (x + 1 for x in c)))
        yield m


def same_by_cases(cs, leaf, names, spec, path=None):
    """each element equals the specification in every order: spec(rank) -> F.  -> (ok, what fails)"""
    n = 0
    for rank in orders(names):
        o = Ordered(leaf, rank, path)
        want = o.ident(spec(rank))
        live = [(f, v) for f, v in cs if o.holds(f)]
        if not live:
            continue
        n += 1
        for f, v in live:
            if v is None or not o.value(v).same(want):
                return False, 'when %s the element is %s, not %r' % (
                    ' '.join('%s=%d' % (k, r) for k, r in sorted(rank.items())), show(v)[:80] if v else v, want)
    return n > 0, 'no case applies'
