"""Kernels of operator nodes: what each element of the output is, in a small vocabulary of tensors and coordinates.
  ('src', k)            the data of operand k          ('ins', k) / ('outs',)   the shape of operand k / of the output
  ('n', S) ('rank', S)  elements and rank of a shape   ('dim', S, d)            its extent along d
  ('coord', S, i)       the coordinate of the i-th element                      ('flat', S, v)  the index of coordinate v"""
from elem import *

SH = ('par', 'shapes')
DEST = ('mem', ('par', 'dest'))


def canon(t, ip=None, st=None):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'addr' and ip is not None and isinstance(t[1], tuple) and t[1] and t[1][0] in ('v', 't'):
        v = ip.load(st, t[1])
        s = shp(canon(v, ip, st))
        if s is not None:
            return s
        if v[0] == 'cobj' and v[1] == 'nnet::tensorshape::tensorshape' and len(v[2]) == 1:
            # a shape made of the extents in a vector
            return ('made', canon(v[2][0], ip, st))
    x = tuple(canon(c, ip, st) if isinstance(c, tuple) else c for c in t)
    k = x[0] if x else None
    if k == 'memof' and x[1][0] == 'at' and x[1][1] == ('par', 'srcs') and x[1][2][0] == 'lit':
        return ('src', x[1][2][1])
    if k == 'deref' and x[1][0] == 'at' and x[1][1] == ('par', 'srcs') and x[1][2][0] == 'lit':
        return ('at', ('src', x[1][2][1]), ('lit', 0))
    if k == 'addr' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'f' and x[1][2] == 'outs_':
        return ('outs',)
    if k == 'fld' and x[2] == 'outs_':
        return ('outs',)
    if k == 'dataof' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'f' and x[1][2] == 'ins_':
        return ('ins', 0)
    if k == 'padd' and x[1] == ('ins', 0) and x[2][0] == 'lit':
        return ('ins', x[2][1])
    if k == 'at' and x[1][0] == 'fld' and x[1][2] == 'ins_' and x[2][0] == 'lit':
        return ('ins', x[2][1])
    if k in ('refof', 'deref', 'addr') and len(x) == 2 and isinstance(x[1], tuple) and shp(x[1]) is not None:
        return x[1]
    if k == 'mfn' and isinstance(x[1], str) and x[1].startswith('nnet::tensorshape::'):
        nm, s = lname(x[1]), shp(x[2])
        if s is not None:
            if nm == 'n_elems':
                return ('n', s)
            if nm == 'rank':
                return ('rank', s)
            if nm == 'as_list':
                return ('dims', s)
            if nm == 'coordinate_from_idx':
                return ('coord', s, x[3])
            if nm == 'flat_idx':
                return ('flat', s, x[3])
    if k == 'dims' and x[1][0] == 'made':
        return x[1][1]
    if k == 'at' and x[1][0] == 'dims':
        return ('dim', x[1][1], x[2])
    if k == 'size' and x[1][0] == 'dims':
        return ('rank', x[1][1])
    if k == 'size' and x[1][0] == 'coord':
        return ('rank', x[1][1])
    if k == 'lin':
        # terms may have become equal
        acc = {}
        for a, c in x[2]:
            acc[a] = acc.get(a, 0) + c
        acc = {a: c for a, c in acc.items() if c}
        if x[1] == 0 and len(acc) == 1 and list(acc.values()) == [1]:
            return list(acc)[0]
        return ('lin', x[1], tuple(sorted(acc.items(), key=repr)))
    return x


def shp(t):
    return t if isinstance(t, tuple) and t and t[0] in ('ins', 'outs', 'made') else None


class Run:
    """one path of a kernel"""

    def __init__(self, op, pa, nd, st, ev):
        self.op, self.pa, self.nd, self.st, self.ev = op, pa, nd, st, ev
        self.ip = pa.ip
        self.facts = {canon(a, self.ip, st): v for a, v in st.facts.items() if a not in pa.facts}
        self.dest = self.ip.load(st, DEST)
        self.loops = list(allloops(ev))

    def cases(self):
        """[(facts, element IX, loops it was computed by)], count"""
        v = self.dest
        if v[0] in ('map', 'loopv') and v[1 if v[0] == 'map' else 2] == ('memof', ('par', 'dest')):
            for e in self.loops:
                if e.d['V'].get(DEST) != v:
                    continue
                idx = ('idx', e.depth)
                out = []
                for kind, s, sub in e.paths:
                    if kind in ('throw', 'abort'):
                        continue
                    if kind != 'next':
                        return None
                    el = elemof(s.env.get(DEST), idx, e.depth)
                    if el is None:
                        return None
                    f = lambda x: IX if x == idx else None
                    fs = dict(self.facts)
                    for a, b in s.facts.items():
                        if a not in self.pa.facts:
                            fs[canon(subst_free(a, e.depth, f), self.ip, s)] = b
                    out.append((fs, canon(subst_free(el, e.depth, f), self.ip, s), list(allloops(sub))))
                return out, canon(v[4] if v[0] == 'loopv' else v[3], self.ip, self.st)
        if v[0] == 'map' and v[1] == ('memof', ('par', 'dest')):
            return [(self.facts, canon(subst_idx(v[4], v[2], IX), self.ip, self.st), [])], canon(v[3], self.ip, self.st)
        if v[0] == 'blit' and v[1] == ('memof', ('par', 'dest')) and v[2] == ('lit', 0) and v[4] == ('lit', 0):
            return [(self.facts, canon(('at', v[3], IX)), [])], canon(v[5], self.ip, self.st)
        return None

    def phi(self, t, loops):
        """the loop that carries a value round, its value before and after an iteration"""
        for e in list(loops or ()) + self.loops:
            if e.depth == t[1] and t[2] in e.W:
                return e, e.W[t[2]], [s.env.get(t[2]) for k, s, sub in e.paths if k == 'next']
        return None


def elemof(w, idx, depth):
    """the element written at idx in one iteration of the loop over the output"""
    if w is None:
        return None
    if w[0] == 'upd' and w[2] == idx and (w[1][0] == 'phi' or elemof(w[1], idx, depth) is not None):
        return w[3]
    # accumulated in place by an inner loop
    if w[0] == 'scatter' and w[4] == idx:
        e0 = elemof(w[1], idx, depth)
        if e0 is None:
            return None
        d = w[2]
        body = subst(w[5], lambda x: ('prev',) if x[0] == 'at' and len(x) == 3 and x[2] == idx and
                     (x[1] == ('phi', d, DEST) or x[1] == w[1]) else None)
        return ('acc', e0, d, w[3], body)
    if w[0] == 'loopv' and len(w[3]) == 1 and w[3][0][0] == 'upd' and w[3][0][1] == ('prev',) and w[3][0][2] == idx:
        e0 = elemof(w[2], idx, depth)
        if e0 is None:
            return None
        body = subst(w[3][0][3], lambda x: ('prev',) if x[0] == 'at' and len(x) == 3 and x[2] == idx and x[1] == ('prev',) else None)
        return ('acc', e0, w[1], w[4], body)
    if w[0] == 'loopv' and len(w[3]) == 1 and w[3][0][0] == 'loopv' and w[3][0][2] == ('prev',):
        e0 = elemof(w[2], idx, depth)
        i = w[3][0]
        if e0 is None or len(i[3]) != 1 or i[3][0][0] != 'upd' or i[3][0][1] != ('prev',) or i[3][0][2] != idx:
            return None
        body = subst(i[3][0][3], lambda x: ('prev',) if x[0] == 'at' and len(x) == 3 and x[2] == idx and x[1] == ('prev',) else None)
        return ('acc', e0, w[1], w[4], ('acc', ('prev',), i[1], i[4], body))
    if w[0] == 'loopv' and len(w[3]) == 1 and w[3][0][0] == 'scatter' and w[3][0][1] == ('prev',) and w[3][0][4] == idx:
        e0 = elemof(w[2], idx, depth)
        if e0 is None:
            return None
        i = w[3][0]
        d = i[2]
        body = subst(i[5], lambda x: ('prev',) if x[0] == 'at' and len(x) == 3 and x[2] == idx and
                     (x[1][0] == 'prev' or x[1][0] == 'phi' and x[1][2] == DEST) else None)
        return ('acc', e0, w[1], w[4], ('acc', ('prev',), d, i[3], body))
    return None


def runs(ctx, o):
    """every path of every kernel of an operator"""
    seen = set()
    for pa in o.paths:
        for nd in pa.nodes:
            k = nd.kernel
            if k is None or k in seen:
                continue
            seen.add(k)
            for st, v, ev in apply(pa, k, [('par', 'dest'), ('par', 'srcs'), SH]):
                yield Run(o, pa, nd, st, ev)


# ---------------------------------------------------------------- scenarios
class Scen:
    """truth and value of terms when some quantities are fixed"""

    def __init__(self, env):
        self.env = env

    def num(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == 'lit' and isinstance(t[1], (int, float)):
            return t[1]
        if k == 'lin':
            r = t[1]
            for a, c in t[2]:
                x = self.num(a)
                if x is None:
                    return None
                r += c * x
            return r
        if k == 'op' and len(t) == 4 and t[1] in '+-*/%':
            a, b = self.num(t[2]), self.num(t[3])
            if t[1] == '*' and (a == 0 or b == 0):
                return 0
            if a is None or b is None:
                return None
            if t[1] in '/%' and b == 0:
                return None
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '/': lambda: a // b, '%': lambda: a % b}[t[1]]()
        if k == 'fn' and t[1] in ('max', 'min') and len(t) == 4:
            a, b = self.num(t[2]), self.num(t[3])
            return None if a is None or b is None else (max if t[1] == 'max' else min)(a, b)
        if k in ('cmp', 'lt', 'eq', 'nz', 'not', 'lnot') or k == 'op' and len(t) > 1 and t[1] in ('&&', '||'):
            c = self.cond(t)
            return None if c is None else int(c)
        if k == 'ite':
            c = self.cond(t[1])
            return None if c is None else self.num(t[2] if c else t[3])
        return None

    def cond(self, t):
        k = t[0]
        if k in ('cmp', 'lt', 'eq'):
            op, a, b = (t[1], t[2], t[3]) if k == 'cmp' else ('<' if k == 'lt' else '==', t[1], t[2])
            x, y = self.num(a), self.num(b)
            if x is None or y is None:
                return None
            return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if k == 'nz':
            return self.cond(t[1]) if t[1][0] == 'cmp' else (None if self.num(t[1]) is None else self.num(t[1]) != 0)
        if k in ('not', 'lnot'):
            c = self.cond(t[1])
            return None if c is None else not c
        if k == 'op' and t[1] in ('&&', '||'):
            a, b = self.cond(t[2]), self.cond(t[3])
            if t[1] == '&&':
                return False if a is False or b is False else True if a and b else None
            return True if a or b else False if a is False and b is False else None
        if k == 'lit':
            return bool(t[1])
        return None

    def holds(self, facts):
        return all(self.cond(a) in (None, bool(v)) for a, v in facts.items() if a[0] in ('lt', 'eq', 'nz', 'has'))

    def simp(self, t):
        """the term with what is known of it put in"""
        if not isinstance(t, tuple) or not t:
            return t
        if isinstance(t[0], str):
            if t == IX or t[0] in ('par', 'src', 'ins', 'outs', 'lit'):
                return t
            if t[0] in ('cmp', 'ite', 'op', 'lin', 'n', 'rank', 'dim'):
                x = self.num(t)
                if x is not None and t[0] not in ('n', 'rank', 'dim'):
                    return ('lit', x)
            if t[0] == 'ite':
                c = self.cond(t[1])
                if c is not None:
                    return self.simp(t[2] if c else t[3])
            if t[0] == 'op' and len(t) == 4 and t[1] == '*':
                a, b = self.simp(t[2]), self.simp(t[3])
                if a == ('lit', 1):
                    return b
                if b == ('lit', 1):
                    return a
                if ('lit', 0) in (a, b):
                    return ('lit', 0)
                return ('op', '*', a, b)
            if t[0] == 'lin':
                r = ('lit', t[1])
                for a, c in t[2]:
                    r = iadd(r, imul(('lit', c), self.simp(a)))
                return r
        return tuple(self.simp(c) if isinstance(c, tuple) else c for c in t)


class Shapes(Scen):
    """a scenario that fixes the extents of every shape, and the element"""

    def __init__(self, lists, env, at=None):
        Scen.__init__(self, env)
        self.lists, self.pos = lists, at

    def num(self, t):
        if t == IX and self.pos is not None:
            return self.pos
        if t in self.env:
            return self.env[t]
        if t[0] in ('rank', 'n', 'dim'):
            l = self.extents(t[1])
            if l is None:
                return None
            if t[0] == 'dim':
                k = self.num(t[2])
                return l[k] if k is not None and 0 <= k < len(l) else None
            if t[0] == 'rank':
                return len(l)
            n = 1
            for x in l:
                n *= x
            return n
        if t[0] == 'size':
            l = self.vec(t[1])
            return None if l is None else len(l)
        if t[0] == 'at' and len(t) == 3:
            l, k = self.vec(t[1]), self.num(t[2])
            return l[k] if l is not None and k is not None and 0 <= k < len(l) else None
        if t[0] == 'flat':
            l, c = self.extents(t[1]), self.vec(t[2])
            if not l or not c:
                return None
            n = min(len(l), len(c))
            r, m = 0, 1
            for j in range(n):
                r += c[j] * m
                m *= l[j]
            return r
        return Scen.num(self, t)

    def extents(self, s):
        if s[0] == 'made':
            return self.vec(s[1])
        return self.lists.get(s)

    def vec(self, v):
        k = v[0]
        if k == 'dims':
            return self.extents(v[1])
        if k == 'coord':
            l, i = self.extents(v[1]), self.num(v[2])
            if l is None or i is None:
                return None
            r = []
            for d in l:
                r.append(i % d)
                i //= d
            return r
        if k == 'seq':
            return self.all(v[1])
        if k == 'upd':
            b, i, x = self.vec(v[1]), self.num(v[2]), self.num(v[3])
            if b is None or i is None or x is None or not 0 <= i < len(b):
                return None
            return b[:i] + [x] + b[i + 1:]
        if k == 'push':
            b, x = self.vec(v[1]), self.num(v[2])
            return None if b is None or x is None else b + [x]
        if k == 'pop':
            b = self.vec(v[1])
            return b[:-1] if b else None
        if k == 'cat':
            xs = [self.vec(x) for x in v[1]]
            return None if None in xs else [y for x in xs for y in x]
        if k == 'slice':
            b, i, j = self.vec(v[1]), self.num(v[2]), self.num(v[3])
            return None if b is None or i is None or j is None else b[i:j]
        if k == 'filln':
            n, x = self.num(v[1]), self.num(v[2])
            return None if n is None or x is None else [x] * n
        if k == 'ite':
            c = self.cond(v[1])
            return None if c is None else self.vec(v[2] if c else v[3])
        return None

    def all(self, xs):
        r = [self.num(x) for x in xs]
        return None if None in r else r


# ---------------------------------------------------------------- coordinates
class Coord:
    """components of coordinate vectors at a position, positions being told apart by a scenario that numbers them"""

    def __init__(self, run, scen, loops=None):
        self.run, self.scen, self.loops = run, scen, loops

    def comp(self, v, k, depth=0):
        """component number k (an int) of vector v: ('c', shape, i, position) | a term | None"""
        t = v[0]
        if depth > 40:
            return None
        if t == 'coord':
            return ('c', v[1], v[2], k)
        if t == 'upd':
            p = self.scen.num(v[2])
            n = self.length(v[1])
            if p is None or n is not None and p >= n:
                return None
            return self.val(v[3], depth) if p == k else self.comp(v[1], k, depth + 1)
        if t == 'push':
            n = self.scen.num(size(v[1]))
            if n is None:
                n = self.scen.num(canon(size(v[1])))
            if n is None:
                return None
            return self.val(v[2], depth) if n == k else self.comp(v[1], k, depth + 1)
        if t == 'seq':
            return self.val(v[1][k], depth) if k < len(v[1]) else None
        if t == 'cat':
            for x in v[1]:
                n = self.scen.num(canon(size(x)))
                if n is None:
                    return None
                if k < n:
                    return self.comp(x, k, depth + 1)
                k -= n
            return None
        if t == 'slice':
            a = self.scen.num(canon(v[2]))
            return None if a is None else self.comp(v[1], k + a, depth + 1)
        if t == 'filln':
            return self.val(v[2], depth)
        if t == 'phi':
            r = self.run.phi(v, self.loops)
            if r is None:
                return None
            e, init, nexts = r
            init = canon(subst_free(init, -1, self.ren), self.run.ip, self.run.st)
            x0 = self.comp(init, k, depth + 1)
            for w in nexts:
                w = canon(w, self.run.ip, self.run.st)
                if w == v:
                    continue
                y = self.through(w, v, k, depth)
                if y is not True:
                    return None
            return x0
        if t == 'loopv':
            return self.loopv(v, k, depth)
        return None

    def length(self, v, depth=0):
        t = v[0]
        if depth > 40:
            return None
        if t == 'upd':
            return self.length(v[1], depth + 1)
        if t == 'push':
            n = self.length(v[1], depth + 1)
            return None if n is None else n + 1
        if t == 'cat':
            ns = [self.length(x, depth + 1) for x in v[1]]
            return None if None in ns else sum(ns)
        if t == 'seq':
            return len(v[1])
        if t == 'phi':
            r = self.run.phi(v, self.loops)
            if r is None:
                return None
            return self.length(canon(subst_free(r[1], -1, self.ren), self.run.ip, self.run.st), depth + 1)
        return self.scen.num(canon(size(v)))

    def ren(self, x):
        return IX if x == ('idx', 1) else None

    def through(self, w, ph, k, depth):
        """the iteration leaves component k as it was"""
        if w == ph:
            return True
        if w[0] == 'upd':
            p = self.scen.num(w[2])
            return self.through(w[1], ph, k, depth) if p is not None and p != k else False
        if w[0] == 'scatter':
            p = self.scen.num(w[4])
            return self.through(w[1], ph, k, depth) if p is not None and p != k else False
        if w[0] == 'loopv':
            return all(self.through(a, ('prev',), k, depth) for a in w[3]) and self.through(w[2], ph, k, depth)
        return False

    def loopv(self, v, k, depth):
        return None

    def val(self, t, depth):
        """a component's value with the components of other vectors in it resolved"""
        return subst(t, lambda x: self.at(x, depth))

    def at(self, x, depth):
        if x[0] == 'at' and len(x) == 3 and x[1][0] in ('coord', 'upd', 'push', 'cat', 'slice', 'phi', 'filln'):
            p = self.scen.num(x[2])
            if p is not None:
                return self.comp(x[1], p, depth + 1)
        return None
