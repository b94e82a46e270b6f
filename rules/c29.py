"""C29: shapes compare, merge and hold data as their known extents say."""
import itertools
from common import *
from c14 import num, atom, dims, Odd, Outside, prod

THIS = ('this',)
EXT = (0, 1, 2, 3)


def swap(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(swap(x, m) if isinstance(x, tuple) else x for x in t)
    return t


class Table:
    """what a function answers, for every assignment of abstract extents: one path must apply"""

    def __init__(self, ctx, f, paths, leaf=None):
        self.f, self.ctx = f, ctx
        m = leaf or {}
        self.rows = []
        for p in paths:
            fs = [(swap(a, m), v) for a, v in p.facts.items() if a[0] in ('nz', 'eq', 'lt')]
            if len(fs) != len(p.facts):
                ctx.need(False, '%s depends on %s' % (f['q'], [show(a)[:80] for a in p.facts if a[0] not in ('nz', 'eq', 'lt')]))
            self.rows.append((fs, p, None if p.val is None else swap(p.val, m)))

    def at(self, env):
        """(how it ends, its value, path)"""
        seen, hit = {}, []
        for fs, p, v in self.rows:
            for a, b in fs:
                if a not in seen:
                    try:
                        seen[a] = atom(a, env)
                    except Outside:
                        seen[a] = None
                    except Odd as x:
                        self.ctx.need(False, '%s decides by %s' % (self.f['q'], x))
                if seen[a] is not b:
                    break
            else:
                hit.append((p.out, v, p))
        self.ctx.need(len(hit) == 1, '%s: %d paths apply to %s' % (self.f['q'], len(hit), env))
        return hit[0]


def preset(st, n, loc, r):
    st.env[('f', loc, 'dimensions_')] = ('seq', tuple(('par', '%s%d' % (n, i)) for i in range(r)))


def table(ctx, f, r, s=None, args=None):
    from interp import empty_state
    st = empty_state()
    preset(st, 'a', ('d', THIS), r)
    if s is not None:
        preset(st, 'b', ('d', ('par', f['params'][0]['n'])), s)
    return Table(ctx, f, ctx.run(f, lambda g: False, st=st, maxpaths=60000, mods=False, branchy=True, args=args))


def envs(r, s=0, ext=EXT):
    for x in itertools.product(ext, repeat=r + s):
        e = {'a%d' % i: x[i] for i in range(r)}
        e.update({'b%d' % i: x[r + i] for i in range(s)})
        yield x[:r], x[r:], e


def truth(ctx, f, out, v, env):
    if out != 'ret':
        return out
    try:
        return bool(num(v, env))
    except Outside as x:
        return str(x)
    except Odd as x:
        ctx.need(False, '%s answers %s' % (f['q'], x))


def number(ctx, f, out, v, env):
    if out != 'ret':
        return out
    try:
        return num(v, env)
    except Outside as x:
        return str(x)
    except Odd as x:
        ctx.need(False, '%s answers %s' % (f['q'], x))


def shape(ctx, f, out, v, p, env):
    if out != 'ret':
        return out
    try:
        d = dims(p.ip, v)
        ctx.need(d is not None, '%s answers %s' % (f['q'], show(v)[:160]))
        return tuple(num(x, env) for x in d)
    except Outside as x:
        return str(x)
    except Odd as x:
        ctx.need(False, '%s answers %s' % (f['q'], x))


# ---------------------------------------------------------------- what must come out
def match(a, b):
    return len(a) == len(b) and all(x == y or not x or not y for x, y in zip(a, b))


def strip(d):
    i, j = 0, len(d) - 1
    while i < j and d[i] == 1:
        i += 1
    while j > i and d[j] == 1:
        j -= 1
    return d[i:j + 1]


def cuts(d):
    """d without some of the ones and unknowns at its ends"""
    for i in range(len(d)):
        if any(x > 1 for x in d[:i]):
            break
        for j in range(len(d), i, -1):
            if any(x > 1 for x in d[j:]):
                break
            yield d[i:j]


def compatible(a, b):
    """(must be, may be)"""
    if not a or not b:
        return True, True
    if len(a) == len(b):
        m = match(a, b)
        return m, m
    x, y = sorted((strip(a), strip(b)), key=len)
    k = len(y) - len(x)
    must = False
    i = 0
    while i < k and y[i] == 0:
        i += 1
    z = y[i:]
    j = k - i
    if all(q == 0 for q in z[len(z) - j:]) if j else True:
        must = match(x, z[:len(z) - j])
    if all(a) and all(b):
        return must, must
    return must, must or any(match(p, q) for p in cuts(a) for q in cuts(b))


def merged(a, b):
    if not a or not b:
        return a or b
    if len(a) != len(b):
        return 'throw'
    return tuple(x or y for x, y in zip(a, b))


def trimmed(d):
    t = strip(d)
    return () if t == (1,) else t


# ---------------------------------------------------------------- rules
def check(ctx):
    ctx.explain = ('For shapes of every rank up to the bound the answer of each function is tabulated over the abstract extents unknown, one, two, three, '
                'from its paths, and compared with the rule.')
    pairs = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)]
    if ctx.tier == 'thorough':
        pairs += [(3, 3), (1, 4), (2, 4), (4, 2), (3, 4), (4, 3)]
    relate(ctx, pairs)
    merge(ctx, pairs[:9] if ctx.tier != 'thorough' else pairs[:12])
    alone(ctx, 3 if ctx.tier != 'thorough' else 4)
    guesses(ctx, 2 if ctx.tier != 'thorough' else 3)
    pour(ctx)


def relate(ctx, pairs):
    ctx.rule('compatible', 'shapes of one rank are compatible exactly when their known extents agree; of two ranks, when they agree without the ones (or unknowns) at their ends; an undefined shape fits all')
    ctx.rule('symmetric', 'compatibility does not depend on the order')
    for f in ctx.fns('nnet::tensorshape::is_compatible_with'):
        T = {rs: table(ctx, f, *rs) for rs in set(pairs) | {(s, r) for r, s in pairs}}
        for r, s in pairs:
            bad = odd = None
            n = 0
            ext = EXT if r + s < 6 else EXT[:3]
            for a, b, env in envs(r, s, ext):
                out, v, p = T[(r, s)].at(env)
                got = truth(ctx, f, out, v, env)
                must, may = compatible(a, b)
                n += 1
                if got not in (True, False) or (must and not got) or (got and not may):
                    bad = bad or '%s with %s is %s' % (list(a), list(b), got)
                rev = {'a%d' % i: x for i, x in enumerate(b)}
                rev.update({'b%d' % i: x for i, x in enumerate(a)})
                o2, v2, p2 = T[(s, r)].at(rev)
                if truth(ctx, f, o2, v2, rev) != got:
                    odd = odd or '%s with %s is %s, but not the other way round' % (list(a), list(b), got)
            ctx.ob('compatible', site(f), bad is None, bad or 'ranks %d and %d (%d cases)' % (r, s, n), key='compatible@%d-%d' % (r, s))
            ctx.ob('symmetric', site(f), odd is None, odd or 'ranks %d and %d' % (r, s), key='symmetric@%d-%d' % (r, s))


def merge(ctx, pairs):
    ctx.rule('merge', 'merging keeps this shape\'s known extents and fills in the unknown ones; other ranks are refused; an undefined shape gives way')
    ctx.rule('join', 'joining appends the other shape\'s extents')
    for name, rule, want in (('merge_with', 'merge', merged), ('concatenate', 'join', lambda a, b: a + b)):
        for f in ctx.fns('nnet::tensorshape::' + name):
            for r, s in pairs:
                T = table(ctx, f, r, s)
                bad = None
                for a, b, env in envs(r, s, EXT if r + s < 5 else EXT[:3]):
                    out, v, p = T.at(env)
                    got = shape(ctx, f, out, v, p, env)
                    if got != want(a, b):
                        bad = bad or '%s and %s give %s' % (list(a), list(b), got)
                ctx.ob(rule, site(f), bad is None, bad or 'ranks %d and %d' % (r, s), key='%s@%d-%d' % (rule, r, s))


def alone(ctx, top):
    ctx.rule('extent', 'rank, element counts and definedness follow from the extents, unknowns being left out of the known count')
    ctx.rule('refit', 'trimming drops the ones at both ends; fitting a rank cuts at the end or appends ones')
    N = (('rank', lambda d: len(d)), ('n_elems', lambda d: prod(d) if d else 0), ('n_known', lambda d: prod([x for x in d if x]) if d else 0),
         ('is_part_defined', lambda d: bool(d)), ('is_fully_defined', lambda d: bool(d) and all(d)))
    S = (('trim', None, lambda d, k: trimmed(d)), ('as_list', None, lambda d, k: d),
         ('with_rank', 1, lambda d, k: d[:k] + (1,) * (k - len(d))),
         ('with_rank_at_least', 1, lambda d, k: d + (1,) * (k - len(d))),
         ('with_rank_at_most', 1, lambda d, k: d[:k]))
    for r in range(top + 1):
        for name, want in N:
            for f in ctx.fns('nnet::tensorshape::' + name):
                T = table(ctx, f, r)
                bad = None
                for a, b, env in envs(r):
                    out, v, p = T.at(env)
                    got = number(ctx, f, out, v, env)
                    if got != want(a):
                        bad = bad or '%s of %s is %s' % (name, list(a), got)
                ctx.ob('extent', site(f), bad is None, bad or '%s at rank %d' % (name, r), key='extent@' + name)
        for name, n, want in S:
            for f in ctx.fns('nnet::tensorshape::' + name):
                for k in range(top + 2) if n else (None,):
                    T = table(ctx, f, r, args={0: ('lit', k)} if n else None)
                    bad = None
                    for a, b, env in envs(r):
                        out, v, p = T.at(env)
                        got = shape(ctx, f, out, v, p, env)
                        if got != want(a, k):
                            bad = bad or '%s%s of %s is %s' % (name, '' if k is None else ' %d' % k, list(a), got)
                    ctx.ob('refit', site(f), bad is None, bad or '%s at rank %d' % (name, r), key='refit@' + name)
    for f in ctx.fns('nnet::tensorshape::undefine'):
        from interp import empty_state
        st = empty_state()
        preset(st, 'a', ('d', THIS), 2)
        for p in ctx.run(f, lambda g: False, st=st, mods=False, branchy=True):
            v = p.load(('f', ('d', THIS), 'dimensions_'))
            d = dims(p.ip, v)
            ctx.ob('refit', site(f), p.out == 'ret' and d == (), 'undefining leaves %s' % show(v)[:80], key='refit@undefine')


def guesses(ctx, top):
    ctx.rule('guess', 'a shape guessed for data keeps every known extent and holds the data exactly, or (loosely) with the least room; it is refused exactly when there is none')
    ctx.rule('fits', 'data fits a defined shape when it fills it (loosely: when it is not more), a partial one when the known extents divide it, and is measured against the allocated shape if there is one')
    T = ('d', THIS)

    def state(r, alloc=None):
        from interp import empty_state
        st = empty_state()
        preset(st, 'a', ('f', T, 'allowed_shape_'), r)
        if alloc is not None:
            st.env[('f', T, 'raw_data_')] = ('new', 'data') if alloc else ('null',)
            preset(st, 'b', ('f', T, 'alloc_shape_'), alloc)
        return st

    def leaf(f):
        n = f['params'][0]['n']
        return {('size', ('deref', ('par', n))): ('par', 'n'), ('size', ('par', n)): ('par', 'n')}

    def guess(name, f, r, want):
        Tb = Table(ctx, f, ctx.run(f, lambda g: False, st=state(r), mods=False, branchy=True), leaf(f))
        bad = None
        for a, b, env in envs(r):
            for n in range(1, 10):
                env['n'] = n
                out, v, p = Tb.at(env)
                if out == 'ret' and v == ('none',):
                    got = None
                elif out == 'ret':
                    ctx.need(v[0] == 'some', '%s answers %s' % (f['q'], show(v)[:120]))
                    got = shape(ctx, f, out, v[1], p, env)
                else:
                    got = out
                if not want(a, n, got):
                    bad = bad or '%d values in shape %s give %s' % (n, list(a), got if got is None or isinstance(got, str) else list(got))
        ctx.ob('guess', site(f), bad is None, bad or '%s at rank %d' % (name, r), key='guess@' + name)

    def keeps(a, g):
        return isinstance(g, tuple) and (len(g) == len(a) and all(not x or x == y for x, y in zip(a, g)) if a else len(g) == 1)

    def known(a):
        return prod([x for x in a if x])

    def exact(a, n, g):
        if a and (all(a) and known(a) != n or n % known(a)):
            return g is None
        return keeps(a, g) and prod(g) == n

    def loose(a, n, g):
        if a and all(a):
            return g == a if prod(a) >= n else g is None
        return keeps(a, g) and n <= prod(g) < n + known(a)

    def fit(name, f, r, s, want):
        Tb = Table(ctx, f, ctx.run(f, lambda g: False, st=state(r, s), mods=False, branchy=True), leaf(f))
        bad = None
        for x in itertools.product(*([EXT] * r + [EXT[1:]] * s)):
            a, b = x[:r], x[r:]
            env = {'a%d' % i: y for i, y in enumerate(a)}
            env.update({'b%d' % i: y for i, y in enumerate(b)})
            for n in range(1, 10):
                env['n'] = n
                out, v, p = Tb.at(env)
                got = truth(ctx, f, out, v, env)
                if got != want(b or a, n):
                    bad = bad or '%s: %d values in shape %s is %s' % (name, n, list(b or a), got)
        ctx.ob('fits', site(f), bad is None, bad or '%s at rank %d%s' % (name, r, ', allocated with rank %d' % s if s else ''), key='fits@' + name)

    def fills(a, n):
        return n == prod(a) if a and all(a) else n % known(a) == 0

    def within(a, n):
        return n <= prod(a) if a and all(a) else True

    for r in range(top + 1):
        for name, want in (('guess_shape', exact), ('loosely_guess_shape', loose)):
            for f in ctx.fns('nnet::tensor::' + name):
                guess(name, f, r, want)
        for name, want in (('is_compatible_with', fills), ('is_loosely_compatible_with', within)):
            for f in ctx.fns('nnet::tensor::' + name):
                if f['params'][0]['t'].get('rq') != 'std::vector':
                    continue
                for s in (0, 1, 2):
                    fit(name, f, r, s, want)


# ---------------------------------------------------------------- pouring data into another shape
def pour(ctx):
    from interp import empty_state
    ctx.rule('pour', 'data poured into another shape keeps each value at its coordinates as far as both shapes reach, the rest is zero, and nothing outside either buffer is touched')
    ranks = [(1, 1, 3), (1, 2, 3), (2, 1, 3), (2, 2, 3), (2, 3, 2), (3, 2, 2), (3, 3, 2)]
    if ctx.tier == 'thorough':
        ranks += [(1, 3, 3), (3, 1, 3), (2, 3, 3), (3, 2, 3), (3, 3, 3), (4, 3, 2), (3, 4, 2)]
    for f in ctx.fns('nnet::fit_toshape'):
        D, O, S, I = [p['n'] for p in f['params']]
        for r, s, top in ranks:
            bad = None
            n = 0
            for x in itertools.product(range(1, top + 1), repeat=r + s):
                out, inn = x[:r], x[r:]
                st = empty_state()
                for nm, d in ((O, out), (I, inn)):
                    st.env[('f', ('d', ('par', nm)), 'dimensions_')] = ('seq', tuple(('lit', y) for y in d))
                ps = ctx.run(f, lambda g: False, st=st, mods=False, branchy=True)
                ctx.need(len(ps) == 1, '%s takes %d paths for one pair of shapes' % (f['q'], len(ps)))
                n += 1
                p = ps[0]
                if p.out != 'ret':
                    bad = bad or 'shape %s into %s ends by %s' % (list(inn), list(out), p.out)
                    continue
                try:
                    got = contents(p.load(('mem', ('par', D))), D, S, prod(out), prod(inn))
                except Outside as e:
                    bad = bad or 'shape %s into %s %s' % (list(inn), list(out), e)
                    continue
                except Odd as e:
                    ctx.need(False, '%s fills the result by %s' % (f['q'], e))
                want = wanted(out, inn)
                if got != want:
                    k = [j for j in range(len(want)) if got[j] != want[j]][0]
                    bad = bad or 'shape %s into %s: place %d holds %s, not %s' % (list(inn), list(out), k, said(got[k]), said(want[k]))
            ctx.ob('pour', site(f), bad is None, bad or 'rank %d into rank %d (%d pairs)' % (s, r, n), key='pour@%d-%d' % (s, r))


def said(x):
    return {0: 'zero', None: 'nothing'}.get(x, x) if x in (0, None) and not isinstance(x, tuple) else 'value %d' % x[1]


def wanted(out, inn):
    w = []
    for i in range(prod(out)):
        c, k = [], i
        for d in out:
            c.append(k % d)
            k //= d
        j, base, inside = 0, 1, True
        for a in range(max(len(out), len(inn))):
            y = c[a] if a < len(c) else 0
            d = inn[a] if a < len(inn) else 1
            inside = inside and y < d
            j += y * base
            base *= d
        w.append(('src', j) if inside else 0)
    return w


def count(t):
    """how many elements a block of bytes (or a range) is"""
    if t[0] == 'lit':
        return t[1]
    if t[0] == 'lin' and t[1] == 0 and len(t[2]) == 1 and t[2][0][0][0] == 'sizeof':
        return t[2][0][1]
    if t[0] == 'sizeof':
        return 1
    raise Odd(show(t)[:100])


def contents(v, D, S, no, ni):
    steps = []
    while v not in (('memof', ('par', D)), ('mem', ('par', D))):
        steps.append(v)
        if v[0] not in ('blit', 'upd', 'blitset', 'setn', 'splice', 'filln'):
            raise Odd(show(v)[:120])
        if v[0] in ('blitset', 'filln'):
            break
        v = v[1]
    m = [None] * no

    def put(i, x):
        if not 0 <= i < no:
            raise Outside('writes place %d of %d' % (i, no))
        m[i] = x

    def get(i):
        if not 0 <= i < ni:
            raise Outside('reads value %d of %d' % (i, ni))
        return ('src', i)
    for t in reversed(steps):
        if t[0] == 'blitset':
            if t[1] != ('lit', 0):
                raise Odd(show(t)[:100])
            for i in range(count(t[2])):
                put(i, 0)
        elif t[0] == 'filln':
            if t[2] not in (('lit', 0), ('lit', 0.0)):
                raise Odd(show(t)[:100])
            for i in range(count(t[1])):
                put(i, 0)
        elif t[0] == 'splice':
            q = t[3]
            if t[2][0] != 'lit' or q[0] != 'slice' or q[1] not in (('memof', ('par', S)), ('mem', ('par', S))) or q[2][0] != 'lit' or q[3][0] != 'lit':
                raise Odd(show(t)[:100])
            for i in range(q[3][1] - q[2][1]):
                put(t[2][1] + i, get(q[2][1] + i))
        elif t[0] == 'setn':
            if t[2][0] != 'lit' or t[3] != ('lit', 0):
                raise Odd(show(t)[:100])
            for i in range(count(t[4])):
                put(t[2][1] + i, 0)
        elif t[0] == 'blit':
            if t[2][0] != 'lit' or t[4][0] != 'lit' or t[3] not in (('memof', ('par', S)), ('mem', ('par', S))):
                raise Odd(show(t)[:100])
            for i in range(count(t[5])):
                put(t[2][1] + i, get(t[4][1] + i))
        else:
            if t[2][0] != 'lit':
                raise Odd(show(t)[:100])
            x = t[3]
            if x[0] == 'lit':
                put(t[2][1], 0 if x[1] == 0 else ('lit', x[1]))
            elif x[0] == 'at' and x[1] in (('memof', ('par', S)), ('mem', ('par', S))) and x[2][0] == 'lit':
                put(t[2][1], get(x[2][1]))
            else:
                raise Odd(show(x)[:100])
    return m
