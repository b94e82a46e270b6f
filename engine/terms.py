"""Value-numbering terms: constructors with local normalisation, substitution, printing."""

NULL = ('null',)
TRUE = ('lit', True)
FALSE = ('lit', False)
ZERO = ('lit', 0)
ONE = ('lit', 1)


def lit(v):
    return ('lit', v)


def islit(t):
    return t[0] == 'lit'


# ---------------------------------------------------------------- integers: linear normal form
def _lin(t):
    """t -> (const, {atom: coef})"""
    if t[0] == 'lit' and isinstance(t[1], (int, bool)) and not isinstance(t[1], float):
        return int(t[1]), {}
    if t[0] == 'lin':
        return t[1], dict(t[2])
    return 0, {t: 1}


def _unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return ('lit', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(d.items(), key=repr)))


def iadd(a, b, sign=1):
    ca, da = _lin(a)
    cb, db = _lin(b)
    for k, v in db.items():
        da[k] = da.get(k, 0) + sign * v
    return _unlin(ca + sign * cb, da)


def isub(a, b):
    return iadd(a, b, -1)


def imul(a, b):
    ca, da = _lin(a)
    cb, db = _lin(b)
    if not da:
        return _unlin(ca * cb, {k: v * ca for k, v in db.items()})
    if not db:
        return _unlin(ca * cb, {k: v * cb for k, v in da.items()})
    x, y = sorted((a, b), key=repr)
    return ('op', '*', x, y)


def lindiff(a, b):
    """constant value of a-b when known, else None"""
    d = isub(a, b)
    return d[1] if d[0] == 'lit' else None


def iop(op, a, b):
    if op == '+':
        return iadd(a, b)
    if op == '-':
        return isub(a, b)
    if op == '*':
        return imul(a, b)
    if a[0] == 'lit' and b[0] == 'lit' and isinstance(a[1], (int, bool)) and isinstance(b[1], (int, bool)):
        x, y = int(a[1]), int(b[1])
        try:
            return ('lit', {'/': lambda: int(x / y) if y else None, '%': lambda: x - y * int(x / y), '<<': lambda: x << y,
                            '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]())
        except Exception:
            pass
    if op in ('/',) and b == ONE:
        return a
    if op == '%' and b == ONE:
        return ZERO
    if op in '&|^':
        a, b = sorted((a, b), key=repr)
    return ('op', op, a, b)


def fop(op, a, b):
    if a[0] == 'lit' and b[0] == 'lit' and isinstance(a[1], (int, float)) and isinstance(b[1], (int, float)):
        x, y = float(a[1]), float(b[1])
        try:
            return ('lit', {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]())
        except Exception:
            pass
    return ('op', op, a, b)


# ---------------------------------------------------------------- structure
def struct(cls, fields):
    return ('struct', cls, tuple(sorted(fields.items())))


def pair(a, b):
    return ('struct', 'std::pair', (('first', a), ('second', b)))


def getf(v, n, epoch=0):
    if v[0] == 'struct':
        for k, x in v[2]:
            if k == n:
                return x
    if v[0] == 'with':
        for k, x in v[2]:
            if k == n:
                return x
        return getf(v[1], n, epoch)
    if v[0] == 'ite':
        return ('ite', v[1], getf(v[2], n, epoch), getf(v[3], n, epoch))
    return ('fld', v, n, epoch) if epoch else ('fld', v, n)


def setf(v, n, x):
    if v[0] == 'struct':
        d = dict(v[2])
        d[n] = x
        return struct(v[1], d)
    if v[0] == 'with':
        d = dict(v[2])
        d[n] = x
        return ('with', v[1], tuple(sorted(d.items())))
    return ('with', v, ((n, x),))


def size(v):
    k = v[0]
    if k == 'seq':
        return ('lit', len(v[1]))
    if k == 'push':
        return iadd(size(v[1]), ONE)
    if k == 'upd':
        return size(v[1])
    if k == 'filln':
        return v[1]
    if k == 'cat':
        r = ZERO
        for x in v[1]:
            r = iadd(r, size(x))
        return r
    if k == 'gen':
        return iadd(size(v[1]), v[3])
    if k == 'map':
        return size(v[1])
    if k == 'pop':
        return isub(size(v[1]), ONE)
    if k == 'slice':
        return isub(v[3], v[2])
    if k == 'emptym':
        return ZERO
    if k == 'bytes':
        return v[3]
    if k == 'resized':
        return v[2]
    if k == 'perm':
        return size(v[1])
    if k == 'loopv' and all(a[0] == 'upd' and a[1] == ('prev',) or a == ('prev',) for a in v[3]):
        return size(v[2])
    return ('size', v)


def at(v, i):
    k = v[0]
    if k == 'seq' and i[0] == 'lit' and isinstance(i[1], int) and 0 <= i[1] < len(v[1]):
        return v[1][i[1]]
    if k == 'upd':
        d = lindiff(v[2], i)
        if d == 0:
            return v[3]
        if d is not None:
            return at(v[1], i)
    if k == 'push':
        d = lindiff(size(v[1]), i)
        if d == 0:
            return v[2]
        if d is not None and d > 0:
            return at(v[1], i)
    if k == 'filln':
        return v[2]
    if k == 'gen' and size(v[1]) == ZERO:
        return subst_idx(v[4], v[2], i)
    if k == 'map':
        return subst_idx(v[4], v[2], i)
    if k == 'slice':
        return at(v[1], iadd(v[2], i))
    return ('at', v, i)


def vhas(m, k):
    """known membership or None"""
    if m[0] == 'mupd':
        if m[2] == k:
            return True
        return vhas(m[1], k)
    if m[0] == 'merase':
        if m[2] == k:
            return False
        r = vhas(m[1], k)
        return False if r is False else None
    if m[0] == 'emptym':
        return False
    if k[0] == 'nkey' and k[1] == m:
        return True
    return None


def mget(m, k):
    if m[0] == 'mupd' and m[2] == k:
        return m[3]
    return ('mget', m, k)


def subst(t, f):
    """bottom-up rewrite; f(term) -> term or None"""
    if not isinstance(t, tuple) or not t:
        return t
    r = f(t)
    if r is not None:
        return r
    ch = False
    out = []
    for x in t:
        if isinstance(x, tuple):
            y = subst(x, f)
            ch = ch or y is not x
            out.append(y)
        else:
            out.append(x)
    if not ch:
        return t
    return rebuild(tuple(out))


def rebuild(t):
    k = t[0] if t else None
    if k == 'lin':
        c, d = t[1], {}
        r = ('lit', c)
        for a, v in t[2]:
            r = iadd(r, imul(('lit', v), a))
        return r
    if k == 'at':
        return at(t[1], t[2])
    if k == 'size':
        return size(t[1])
    if k == 'mget':
        return mget(t[1], t[2])
    if k == 'fld':
        return getf(t[1], t[2], t[3] if len(t) > 3 else 0)
    return t


BODY = {'map': (2, (4,)), 'gen': (2, (4,)), 'last': (2, (4,)), 'genm': (2, (4, 5)), 'scatter': (2, (4, 5)), 'fold': (3, (5,)), 'loopv': (1, (3,))}


def subst_free(t, d, f):
    """subst, where the loops inside the term that count at the same depth keep their own counter"""
    def g(x):
        r = f(x)
        if r is not None:
            return r
        b = BODY.get(x[0]) if x else None
        if b and len(x) > max(b[1]) and x[b[0]] == d:
            return rebuild(tuple(y if i in b[1] or not isinstance(y, tuple) else subst_free(y, d, f) for i, y in enumerate(x)))
        return None
    return subst(t, g)


def subst_idx(t, d, val):
    target = ('idx', d)
    return subst_free(t, d, lambda x: val if x == target else None)


def replace(t, a, b):
    return subst(t, lambda x: b if x == a else None)


def mentions(t, a):
    if t == a:
        return True
    if isinstance(t, tuple):
        return any(mentions(x, a) for x in t if isinstance(x, tuple))
    return False


def any_term(t, pred):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and pred(t):
            return True
        return any(any_term(x, pred) for x in t if isinstance(x, tuple))
    return False


def walk(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def root(loc):
    while loc[0] in ('f', 'e', 'm', 'nth', 'nk', 'n'):
        loc = loc[1]
    return loc


def fields_of(loc):
    out = []
    while loc[0] in ('f', 'e', 'm', 'nth', 'nk', 'n'):
        if loc[0] == 'f':
            out.append(loc[2])
        loc = loc[1]
    return out[::-1]


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if depth > 14:
        return '...'
    if k == 'lit':
        return str(t[1]).lower() if isinstance(t[1], bool) else str(t[1])
    if k == 'str':
        return '"%s"' % t[1]
    if k == 'null':
        return 'nullptr'
    if k == 'this':
        return 'this'
    if k == 'par':
        return t[1]
    if k == 'addr':
        return '&' + showloc(t[1], depth + 1)
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'fld':
        b = t[1]
        pre = (s(b[1]) + '->') if b[0] == 'deref' else s(b) + '.'
        return pre + str(t[2]) + ("'" * 1 if len(t) > 3 else '')
    if k == 'at':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'mget':
        return '%s[%s]' % (s(t[1]), s(t[2]))
    if k == 'lin':
        return '(' + ' + '.join([str(t[1])] * (t[1] != 0) + [(s(a) if v == 1 else '%d*%s' % (v, s(a))) for a, v in t[2]]) + ')'
    if k == 'op':
        return '(%s)' % (' %s ' % t[1]).join(s(x) for x in t[2:])
    if k == 'idx':
        return 'i%s' % t[1]
    if k in ('fn', 'mfn'):
        return '%s(%s)' % (t[1], ', '.join(s(x) for x in t[2:]))
    if k == 'res':
        return '%s(%s)#%s' % (t[2], ', '.join(s(x) for x in t[3:]), t[1])
    if k == 'lam':
        return 'lambda%d' % t[1]
    if k == 'h' or k == 'new':
        return 'new#%s' % (t[1],)
    return '%s(%s)' % (k, ', '.join(s(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                                    ('[' + ', '.join(s(y) for y in x) + ']' if isinstance(x, tuple) else str(x)) for x in t[1:]))


def showloc(l, depth=0):
    k = l[0]
    if k == 'd':
        return '*' + show(l[1], depth)
    if k == 'f':
        if l[1][0] == 'd':
            return show(l[1][1], depth) + '->' + l[2]
        return showloc(l[1], depth) + '.' + l[2]
    if k in ('e', 'm', 'nth', 'nk'):
        return '%s[%s]' % (showloc(l[1], depth), show(l[2], depth))
    if k == 'v':
        return 'v%s' % (l[2],)
    if k == 'mem':
        return show(l[1], depth) + '[]'
    return show(l, depth)


def showatom(a, v=True):
    k = a[0]
    s = show
    if k == 'nz':
        r = s(a[1])
        return r if v else '!' + r
    if k == 'eq':
        return '%s %s %s' % (s(a[1]), '==' if v else '!=', s(a[2]))
    if k == 'lt':
        return '%s < %s' % (s(a[1]), s(a[2])) if v else '%s >= %s' % (s(a[1]), s(a[2]))
    if k == 'has':
        return '%s %s %s' % (s(a[2]), 'in' if v else 'not in', s(a[1]))
    return ('' if v else '!') + s(a)
