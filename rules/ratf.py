"""Normal forms of real functions: quotients of polynomials over atoms (operands, scalars and applied elementary functions).
Two forms are equal when their cross product is, after reducing sin^2, roots, exponentials and powers.  An atom is a tuple:
('x', name) a symbol, (function, form...) an applied function; a form is a pair (numerator, denominator) of tuples of
((monomial, coefficient)...)."""
from fractions import Fraction


class F:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else {(): Fraction(1)}

    def __add__(self, o):
        if self.d == o.d:
            return simp(F(padd(self.n, o.n), self.d))
        return simp(F(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d)))

    def __neg__(self):
        return F({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return simp(F(pmul(self.n, o.n), pmul(self.d, o.d)))

    def inv(self):
        return simp(F(self.d, self.n))

    def __truediv__(self, o):
        return self * o.inv()

    def zero(self):
        return not reduce_poly(self.n)

    def same(self, o):
        return (self - o).zero()

    def key(self):
        s = simp(self)
        return (tuple(sorted(s.n.items(), key=repr)), tuple(sorted(s.d.items(), key=repr)))

    def const(self):
        s = simp(self)
        if not s.n:
            return Fraction(0)
        if set(s.n) == {()} and set(s.d) == {()}:
            return s.n[()] / s.d[()]
        return None

    def __repr__(self):
        def sp(p):
            if not p:
                return '0'
            out = []
            for m, c in sorted(p.items(), key=repr):
                t = '*'.join(sa(a) + ('^%s' % e if e != 1 else '') for a, e in m)
                out.append(str(c) if not m else t if c == 1 else '%s*%s' % (c, t))
            return ' + '.join(out)
        return sp(self.n) if self.d == {(): Fraction(1)} else '(%s)/(%s)' % (sp(self.n), sp(self.d))


def sa(a):
    if a[0] == 'x':
        return str(a[1]) if isinstance(a[1], str) else '?'
    return '%s(%s)' % (a[0], ', '.join(repr(unkey(k)) if iskey(k) else str(k) for k in a[1:]))


def iskey(k):
    return isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) and isinstance(k[1], tuple) and bool(k[1]) and \
        isinstance(k[1][0], tuple) and len(k[1][0]) == 2 and isinstance(k[1][0][1], Fraction)


def unkey(k):
    return F(dict(k[0]), dict(k[1]))


def padd(a, b):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + c
        if not out[m]:
            del out[m]
    return out


def mmul(m1, m2):
    d = dict(m1)
    for x, e in m2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=repr))


def pmul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
            if not out[m]:
                del out[m]
    return out


ONE = {(): Fraction(1)}


def reduce_poly(p):
    """sin^2 = 1 - cos^2, sqrt^2 = its argument; negative powers cleared by the caller"""
    todo, out = dict(p), {}
    while todo:
        m, c = todo.popitem()
        for a, e in m:
            if a[0] == 'sin' and e >= 2:
                rest = {mmul(m, ((a, -2),)): c}
                co = ('cos', a[1])
                for mm, cc in pmul(rest, {(): Fraction(1), ((co, 2),): Fraction(-1)}).items():
                    todo[mm] = todo.get(mm, 0) + cc
                    if not todo[mm]:
                        del todo[mm]
                break
            if a[0] == 'sqrt' and e >= 2:
                arg = unkey(a[1])
                if arg.d == ONE:
                    for mm, cc in pmul({mmul(m, ((a, -2),)): c}, arg.n).items():
                        todo[mm] = todo.get(mm, 0) + cc
                        if not todo[mm]:
                            del todo[mm]
                    break
        else:
            out[m] = out.get(m, 0) + c
            if not out[m]:
                del out[m]
    return out


def simp(f):
    n, d = reduce_poly(f.n), f.d
    d = reduce_poly(d)
    if not n:
        return F({}, ONE)
    if not d:
        return F({((('x', 'undefined'), 1),): Fraction(1)}, ONE)
    # common monomial, negative exponents, constant factor of the denominator
    atoms = {a for p in (n, d) for m in p for a, _ in m}
    sh = []
    for a in atoms:
        lo = min(dict(m).get(a, 0) for p in (n, d) for m in p)
        if lo:
            sh.append((a, -lo))
    if sh:
        sh = tuple(sorted(sh, key=repr))
        n = {mmul(m, sh): c for m, c in n.items()}
        d = {mmul(m, sh): c for m, c in d.items()}
    lead = d[min(d, key=repr)]
    if lead != 1:
        n = {m: c / lead for m, c in n.items()}
        d = {m: c / lead for m, c in d.items()}
    if n == d:
        return F(dict(ONE))
    return F(n, d)


def num(c):
    c = Fraction(c)
    return F({(): c} if c else {})


def sym(name):
    return F({((('x', name), 1),): Fraction(1)})


def app(fn, *args):
    return F({(((fn,) + tuple(a.key() if isinstance(a, F) else a for a in args), 1),): Fraction(1)})


def sin(x):
    s, x = sgn(x)
    return num(s) * app('sin', x) if not x.zero() else num(0)


def cos(x):
    return app('cos', sgn(x)[1]) if not x.zero() else num(1)


def sgn(x):
    """a canonical representative of {x, -x}"""
    a, b = x.key(), (-x).key()
    return (1, x) if repr(a) <= repr(b) else (-1, -x)


def exp(x):
    x = simp(x)
    if x.d == ONE:
        r = num(1)
        for m, c in x.n.items():
            if c.denominator == 1 and m:
                r = r * F({((('exp', F({m: Fraction(1)}).key()), int(c)),): Fraction(1)})
            else:
                r = r * app('exp', F({m: c}))
        return r
    return app('exp', x)


def log(x):
    return num(0) if x.const() == 1 else app('log', x)


def sqrt(x):
    return power(x, num(Fraction(1, 2)))


def power(b, e):
    c = e.const()
    if c is not None:
        k = c.numerator // c.denominator
        r = num(1)
        if abs(k) > 6:
            return app('pow', b, e)
        for _ in range(abs(k)):
            r = r * b
        if k < 0:
            r = r.inv()
        rest = c - k
        if rest == Fraction(1, 2):
            return r * app('sqrt', b)
        if rest:
            return r * app('pow', b, num(rest))
        return r
    e = simp(e)
    if e.d == ONE and () in e.n:
        c = e.n[()]
        return power(b, num(c)) * app('pow', b, F({m: v for m, v in e.n.items() if m}))
    return app('pow', b, e)


def diff(f, x):
    """derivative by the symbol x"""
    f = simp(f)
    dn, dd = dpoly(f.n, x), dpoly(f.d, x)
    n, d = F(f.n), F(f.d)
    return (dn * d - n * dd) / (d * d)


def dpoly(p, x):
    out = num(0)
    for m, c in p.items():
        for a, e in m:
            da = datom(a, x)
            if not da.zero():
                rest = F({mmul(m, ((a, -1),)): c * e})
                out = out + rest * da
    return out


def datom(a, x):
    if a[0] == 'x':
        return num(1 if a[1] == x else 0)
    u = unkey(a[1])
    du = diff(u, x)
    if a[0] == 'pow':
        de = diff(unkey(a[2]), x)
        if not de.zero():
            raise ValueError('exponent depends on the operand')
    if du.zero() and not any(mentions(k, x) for k in a[2:] if iskey(k)):
        return num(0)
    if a[0] == 'sin':
        return cos(u) * du
    if a[0] == 'cos':
        return -sin(u) * du
    if a[0] == 'exp':
        return app('exp', u) * du
    if a[0] == 'log':
        return du / u
    if a[0] == 'sqrt':
        return du / (num(2) * app('sqrt', u))
    if a[0] == 'pow':
        return unkey(a[2]) * app('pow', u, unkey(a[2])) / u * du
    if a[0] == 'abs':
        return (app('less', num(0), u) - app('less', u, num(0))) * du
    raise ValueError('no derivative of %s' % a[0])


def mentions(k, x):
    f = unkey(k)
    return any(a == ('x', x) or any(iskey(y) and mentions(y, x) for y in a[1:]) for p in (f.n, f.d) for m in p for a, _ in m)


def subst(f, m):
    """replace symbols: {name: F}"""
    def poly(p):
        r = num(0)
        for mo, c in p.items():
            t = num(c)
            for a, e in mo:
                v = satom(a, m)
                t = t * (power(v, num(e)))
            r = r + t
        return r
    f = simp(f)
    return poly(f.n) / poly(f.d)


REB = {'sin': sin, 'cos': cos, 'exp': exp, 'log': log, 'sqrt': sqrt, 'pow': power}


def satom(a, m):
    if a[0] == 'x':
        return m.get(a[1], F({((a, 1),): Fraction(1)}))
    args = [subst(unkey(k), m) if iskey(k) else k for k in a[1:]]
    return REB.get(a[0], lambda *z: app(a[0], *z))(*args)
