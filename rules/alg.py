"""Algebra over the terms of node expressions: two expressions are the same function when their normal forms are equal."""
from fractions import Fraction
from common import *

NEUTRAL = ('identity',)


def nonum(t):
    """drop the counters that tell apart two nodes made by the same call"""
    if isinstance(t, tuple):
        if t and t[0] == 'res' and len(t) > 2:
            return ('res', 0) + tuple(nonum(x) for x in t[2:])
        return tuple(nonum(x) for x in t)
    return t


def _mul(a, b):
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            d = dict(m1)
            for x, e in m2:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(((x, e) for x, e in d.items() if e), key=repr))
            out[m] = out.get(m, 0) + c1 * c2
    return {m: c for m, c in out.items() if c}


def _add(a, b, s=1):
    out = dict(a)
    for m, c in b.items():
        out[m] = out.get(m, 0) + s * c
    return {m: c for m, c in out.items() if c}


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(x):
    return {((x, 1),): Fraction(1)}


def canon(p):
    return ('poly',) + tuple(sorted(p.items(), key=repr))


def power(p, e):
    if e == int(e) and 0 <= e <= 8:
        r = const(1)
        for _ in range(int(e)):
            r = _mul(r, p)
        return r
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 or e == int(e):
            return {tuple((x, k * e) for x, k in m): c ** int(e) if e == int(e) else Fraction(1)}
    return {((canon(p), e),): Fraction(1)}


def inverse(p):
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((x, -k) for x, k in m): 1 / c}
    return {((canon(p), Fraction(-1)),): Fraction(1)}


def opname(t):
    """name and operands of an operator node term"""
    if t[0] in ('res', 'mfn'):
        k = 2 if t[0] == 'res' else 1
        return lname(t[k]), t[k + 1:]
    return None, ()


def num(t):
    if t[0] == 'lit' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return Fraction(t[1]).limit_denominator(10 ** 12)
    return None


def poly(t, leaf=lambda t: None):
    """normal form {monomial: coefficient}; leaf(t) may name an atom"""
    x = leaf(t)
    if x is not None:
        return x if isinstance(x, dict) else atom(x)
    n = num(t)
    if n is not None:
        return const(n)
    if t[0] == 'lin':
        r = const(Fraction(t[1]))
        for a, c in t[2]:
            r = _add(r, _mul(const(Fraction(c)), poly(a, leaf)))
        return r
    if t[0] in ('op', 'fop') and len(t) == 4 and t[1] in ('+', '-', '*', '/'):
        return arith(t[1], poly(t[2], leaf), poly(t[3], leaf))
    if t[0] in ('op', 'fop') and len(t) == 3 and t[1] == 'neg':
        return _mul(const(-1), poly(t[2], leaf))
    if t[0] in ('i2f', 'cast', 'widen') and len(t) == 2:
        return poly(t[1], leaf)
    nm, ops = opname(t)
    if nm:
        if nm in NEUTRAL:
            return poly(ops[0], leaf)
        if nm.startswith('operator') and nm[8:] in ('+', '-', '*', '/') and len(ops) == 2:
            return arith(nm[8:], poly(ops[0], leaf), poly(ops[1], leaf))
        if nm == 'operator-' and len(ops) == 1:
            return _mul(const(-1), poly(ops[0], leaf))
        if nm == 'operator+' and len(ops) == 1:
            return poly(ops[0], leaf)
        if nm == 'pow' and len(ops) == 2 and num(ops[1]) is not None:
            return power(poly(ops[0], leaf), num(ops[1]))
        if nm == 'sqrt' and len(ops) == 1:
            return power(poly(ops[0], leaf), Fraction(1, 2))
        return atom((nm,) + tuple(canon(poly(o, leaf)) if o and isinstance(o, tuple) and o[0] not in ('some', 'none') else o for o in ops))
    return atom(nonum(t))


def arith(op, a, b):
    if op == '+':
        return _add(a, b)
    if op == '-':
        return _add(a, b, -1)
    if op == '*':
        return _mul(a, b)
    return _mul(a, inverse(b))


def same(a, b):
    return not _add(a, b, -1)


def A(name):
    return atom(name)


def fn(name, *ops):
    """an opaque operator applied to normal forms or raw terms"""
    return atom((name,) + tuple(canon(o) if isinstance(o, dict) else o for o in ops))
