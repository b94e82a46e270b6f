"""C14: the shape of every operation follows from the shapes of its operands; operands that do not fit are refused."""
import itertools
from kern import *

EXT = (1, 2, 3)


def L(x):
    return ('lit', x)


def shaped(n, r):
    return ('struct', 'nnet::tensorshape', (('dimensions_', ('seq', tuple(('par', '%s%d' % (n, i)) for i in range(r)))),))


def dims(ip, v):
    """the extents of a shape value"""
    if v is None:
        return None
    for _ in range(20):
        k = v[0]
        if k in ('with', 'struct'):
            d = dict(v[2])
            if 'dimensions_' in d:
                return seq(d['dimensions_'])
            if k == 'struct':
                return ()
            v = v[1]
            continue
        if k == 'cobj' and len(v[2]) == 1:
            v = v[2][0]
            continue
        return seq(v)
    return None


def seq(v):
    if v[0] == 'seq':
        return v[1]
    if v[0] == 'upd':
        b = seq(v[1])
        if b is not None and v[2][0] == 'lit':
            if not 0 <= v[2][1] < len(b):
                raise Outside('writes extent %d of %d' % (v[2][1], len(b)))
            return b[:v[2][1]] + (v[3],) + b[v[2][1] + 1:]
        return None
    if v[0] == 'push':
        b = seq(v[1])
        return None if b is None else b + (v[2],)
    if v[0] == 'cat':
        xs = [seq(x) for x in (v[1] if v[1] and isinstance(v[1][0], tuple) else v[1:])]
        return None if any(x is None for x in xs) else tuple(y for x in xs for y in x)
    if v[0] == 'pop':
        b = seq(v[1])
        return b[:-1] if b else None
    if v[0] == 'erased':
        b = seq(v[1])
        if b is None or not all(x[0] == 'i' and x[1][0] == 'lit' for x in v[2:]):
            return None
        i = v[2][1][1]
        j = v[3][1][1] if len(v) > 3 else i + 1
        if not 0 <= i <= j <= len(b):
            raise Outside('drops extent %d of %d' % (i, len(b)))
        return b[:i] + b[j:]
    if v[0] == 'resized' and v[2][0] == 'lit':
        b = seq(v[1])
        n = v[2][1]
        return None if b is None else (b + ((v[3] if len(v) > 3 else L(0)),) * (n - len(b)))[:n]
    if v[0] == 'slice':
        b = seq(v[1])
        return b[v[2][1]:v[3][1]] if b is not None and v[2][0] == v[3][0] == 'lit' else None
    if v[0] == 'filln' and v[1][0] == 'lit':
        return (v[2],) * v[1][1]
    return None


class Odd(Exception):
    pass


class Outside(Exception):
    """a vector is accessed where it has no element"""


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a // b, '%': lambda a, b: a % b}
CMP = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>': lambda a, b: a > b,
       '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b}


def num(t, env):
    k = t[0]
    if k == 'lit':
        return t[1]
    if k == 'par' and t[1] in env:
        return env[t[1]]
    if k == 'size':
        b = seq(t[1])
        if b is not None:
            return len(b)
    if k == 'lin':
        return t[1] + sum(c * num(a, env) for a, c in t[2])
    if k == 'op' and len(t) == 4 and t[1] in OPS:
        return OPS[t[1]](num(t[2], env), num(t[3], env))
    if k == 'cmp':
        return CMP[t[1]](num(t[2], env), num(t[3], env))
    if k == 'ite':
        return num(t[2] if num(t[1], env) else t[3], env)
    if k == 'not':
        return not num(t[1], env)
    if k in ('and', 'or'):
        xs = t[1:] if isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], str) else t[1]
        return (all if k == 'and' else any)(num(x, env) for x in xs)
    if k == 'at' and t[2][0] == 'lit':
        b = seq(t[1])
        if b is not None:
            if not 0 <= t[2][1] < len(b):
                raise Outside('reads extent %d of %d' % (t[2][1], len(b)))
            return num(b[t[2][1]], env)
    if k == 'fn' and t[1] in ('min', 'max'):
        return (min if t[1] == 'min' else max)(num(x, env) for x in t[2:])
    if k in ('cast', 'widen', 'i2f', 'f2i') and len(t) == 2:
        return int(num(t[1], env))
    raise Odd(show(t)[:120])


def atom(a, env):
    if a[0] == 'nz':
        return bool(num(a[1], env))
    if a[0] == 'eq':
        return num(a[1], env) == num(a[2], env)
    if a[0] == 'lt':
        return num(a[1], env) < num(a[2], env)
    raise Odd(repr(a)[:120])


# ---------------------------------------------------------------- what shapes must come out
def trim(d):
    d = list(d)
    while d and d[0] == 1:
        d.pop(0)
    while d and d[-1] == 1:
        d.pop()
    return tuple(d)


def rtrim(d, keep=0):
    d = list(d)
    while len(d) > keep and d[-1] == 1:
        d.pop()
    return tuple(d)


def prod(d):
    n = 1
    for x in d:
        n *= x
    return n


# a specification answers (must, results): must is True (has to be accepted), False (has to be refused), None (either);
# results are the shapes it may then have
def elementwise(*S):
    big = [s for s in S if prod(s) > 1]
    if not big:
        # one element
        return True, lambda d: prod(d) == 1
    if all(s == big[0] for s in big):
        return True, lambda d: d == big[0]
    if all(trim(s) == trim(big[0]) for s in big):
        return None, lambda d: d in big
    return False, None


def drop(d, k):
    """a shape without one of its dimensions, the way reductions leave it out"""
    if k >= len(d):
        return d
    if len(d) == 1:
        return (1,)
    if k == 0:
        return d[1:]
    if k == len(d) - 1:
        return d[:-1]
    return d[:k] + (1,) + d[k + 1:]


def axial(k, side):
    def f(*S):
        a, r = S[side], S[1 - side]
        if prod(a) == 1:
            return True, lambda d: d == r
        if prod(r) == 1:
            return True, lambda d: d == a
        if k >= len(r) or len(r) == 1:
            # nothing is left of a shape without its axis
            return (None, lambda d: d == r) if prod(a) == prod(r) else (False, None)
        w = drop(r, k)
        if a == w:
            return True, lambda d: d == r
        if trim(a) == trim(w):
            return None, lambda d: d == r
        return False, None
    return f


def matmul(a, b):
    ay = a[1] if len(a) > 1 else 1
    by = b[1] if len(b) > 1 else 1
    if a[0] != by or rtrim(a[2:]) != rtrim(b[2:]):
        return False, None
    return True, lambda d: rtrim(d, 2) == rtrim((b[0], ay) + tuple(a[2:]), 2)


def transpose(i, j):
    def f(a):
        l = list(a) + [1] * (max(i, j) + 1 - len(a))
        l[i], l[j] = l[j], l[i]
        return True, lambda d: d == tuple(l)
    return f


def extend(k, m):
    def f(a):
        l = list(a) + [1] * (k + 1 - len(a))
        l[k] *= m
        return True, lambda d: d == tuple(l)
    return f


def compress(k):
    return lambda a: (True, lambda d: d == ((1,) if k is None else drop(a, k)))


def argcompress(k):
    return lambda a: (False, None) if k is not None and k >= len(a) else (True, lambda d: d == ((1,) if k is None else drop(a, k)))


def crosscorr(i, j):
    def f(a, w):
        if i == j or i >= len(a) or j >= len(a):
            return False, None
        wi, wj = [w[x] if x < len(w) else 1 for x in (i, j)]
        if wi > a[i] or wj > a[j]:
            return False, None
        l = list(a)
        l[i] -= wi - 1
        l[j] -= wj - 1
        return True, lambda d: d == tuple(l)
    return f


def pair(i, j):
    return ('struct', 'std::pair', (('first', L(i)), ('second', L(j))))


def opt(k):
    return ('none',) if k is None else ('some', L(k))


def cases(o):
    """[(what, {parameter: value}, specification)]"""
    n = o.name
    if '_axial_' in n:
        side = 0 if n.endswith('_a') else 1
        return [('axis %d' % k, {2: L(k)}, axial(k, side)) for k in range(4)]
    if n == 'transpose':
        return [('%d,%d' % (i, j), {1: pair(i, j)}, transpose(i, j)) for i in range(4) for j in range(4) if i != j]
    if n == 'fit':
        return [('', {}, lambda a, w: (True, lambda d: d == w))]
    if n == 'extend':
        return [('%d,%d' % (k, m), {1: L(k), 2: L(m)}, extend(k, m)) for k in range(4) for m in (2, 3)]
    if n == 'compress':
        return [(str(k), {2: opt(k)}, compress(k)) for k in (None, 0, 1, 2, 3)]
    if n == 'arg_compress':
        return [(str(k), {2: opt(k)}, argcompress(k)) for k in (None, 0, 1, 2, 3)]
    if n == 'flip':
        return [('', {}, lambda a: (True, lambda d: d == a))]
    if n == 'l2norm':
        return [('', {}, lambda a: (True, lambda d: d == (1,)))]
    if n == 'cross_corr2d':
        return [('%d,%d' % (i, j), {2: pair(i, j)}, crosscorr(i, j)) for i in range(3) for j in range(3)]
    if n == 'matmul':
        return [('', {}, matmul)]
    if n == 'reduce_mean':
        return [(str(k), {1: opt(k)}, k) for k in (None, 0, 1, 2, 3)]
    return [('', {}, elementwise)]


def check(ctx):
    top = 4 if ctx.tier == 'thorough' else 3
    ctx.explain = ('the shape function of every node every operator makes, for every choice of its axis or dimension parameters up to the rank '
                   'and beyond, interpreted over operand shapes of every rank 1 to %d with symbolic extents; the conditions under which it '
                   'accepts and the extents it gives are compared with what the operation must have, for all equality patterns of the extents; '
                   'and the way shapes, tensors and the result reach the shape function and the kernel' % top)
    ctx.rule('shape', 'an operation accepts operands that fit and has the shape that follows from theirs')
    ctx.rule('refuse', 'operands that do not fit are refused')
    ctx.rule('extract', 'a node made of extents of its operand fills the shape it has')
    ctx.rule('forward', 'shape function and kernel get the operands in order, and the result is allocated with, or checked against, the shape')
    ctx.rule('place', 'places in a tensor and coordinates of its shape correspond one to one')
    p = ctx.prog()
    n = 0
    for o in operators(ctx):
        for what, args, spec_ in cases(o):
            paths = ctx.run(o.f, opq, mods=False, args=args) if args else o.paths
            seen = {}
            for pa in paths:
                for e in pa.ev:
                    if e.k == 'call' and lname(e.q) == 'get' and e.q.split('::')[-2] in NODES and e.args:
                        nd = Node(o, pa, e)
                        if nd.shaper is None:
                            continue
                        k = repr(lam(nd.shaper, pa))
                        if k in seen:
                            continue
                        seen[k] = 1
                        n += 1
                        if nd.cls == 'shape_dep':
                            extract(ctx, o, what, spec_, pa, nd, top)
                        else:
                            shaper(ctx, o, what, spec_, pa, nd, top)
    ctx.need(n >= 60, 'shape functions of the operators')
    raises(ctx)
    redraw(ctx)
    forward(ctx)
    places(ctx, top)


def zero(a, v, ps):
    """the fact that a value is zero, and of which of the parameters it says so"""
    for p in ps:
        P = ('par', p)
        if a[0] == 'nz' and a[1] == P and v is False:
            return p
        if a[0] == 'eq' and v and P in a[1:] and any(x[0] == 'lit' and x[1] == 0 for x in a[1:]):
            return p
        if a[0] == 'nz' and a[1][0] in ('res', 'mfn') and P in subs(a[1]) and any(x in (('lit', 0), ('lit', 0.0)) for x in subs(a[1])):
            q = a[1][2] if a[1][0] == 'res' else a[1][1]
            if str(q).endswith('operator==') and v or str(q).endswith('operator!=') and not v:
                return p
    return None


def subs(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            yield from subs(x)


def raises(ctx):
    """when an operator refuses its arguments"""
    ctx.rule('raise', 'an operator raises only for a constant divisor of zero (and then always), a norm bound that is not positive or a probability outside 0 to 1')
    n = 0
    for o in operators(ctx):
        div = o.name == 'operator/' or o.name.startswith('div_axial')
        by = [q['n'] for q in o.params][1:2]
        for pa in o.paths:
            fs = list(pa.facts.items())
            if pa.out == 'ret':
                if div and pa.nodes and any(a[0] == 'nz' and a[1][0] == 'dyn' and 'constant' in a[1][1] and a[1][2] == ('par', by[0]) and v for a, v in fs):
                    ctx.ob('raise', o.where, any(zero(a, not v, by) for a, v in fs), '%s builds an operation without asking whether its constant divisor is zero' % o.id, key='divides@' + o.id, detail=pa.where())
                continue
            if pa.out not in ('throw', 'abort'):
                continue
            n += 1
            P = [('par', q) for q in o.scalars]
            if div:
                ok = any(zero(a, v, by) for a, v in fs)
            elif o.name == 'clip_norm':
                ok = any(a[0] == 'lt' and a[1] == ('lit', 0) and a[2] in P and not v or a[0] == 'lt' and a[2] == ('lit', 0) and a[1] in P and v for a, v in fs)
            elif o.name == 'binomial_sample':
                ok = any(a[0] == 'lt' and v and (a[1] in P and a[2] == ('lit', 0) or a[1] == ('lit', 1) and a[2] in P) for a, v in fs)
            else:
                ok = False
            ctx.ob('raise', o.where, ok, '%s refuses arguments it should take: %s' % (o.id, ', '.join(showatom(a, v)[:80] for a, v in fs[-2:])), key='raise@' + o.id, detail=pa.where())
    ctx.need(n >= 6, 'refusals of the operators')


def redraw(ctx):
    """a generator has the shape of its source"""
    ctx.rule('generator', 'a random node is drawn anew, in the shape of its source, exactly when it has nothing yet or what it has does not fit that shape')
    oq = lambda g: g['q'].startswith(('nnet::tensor::', 'nnet::tensorshape::', 'nnet::subject::', 'nnet::initializer')) or lname(g['q']) in ('good_status', 'get_shape', 'notify')
    D = ('fld', ('deref', ('this',)), 'data_')
    n = 0
    for f in ctx.fns('nnet::generator::update'):
        for pa in ctx.run(f, oq, mods=False):
            if pa.out != 'ret':
                continue
            n += 1
            said = {}
            for a, v in pa.facts.items():
                if a[0] != 'nz':
                    continue
                if a[1] == D:
                    said['data'] = v
                if a[1][0] in ('mfn', 'res'):
                    q = a[1][1] if a[1][0] == 'mfn' else a[1][2]
                    said[lname(str(q))] = v
                if a[1][0] == 'dyn' and v is False:
                    said['source'] = False
            shp = lambda x: isinstance(x, tuple) and x[0] in ('mfn', 'res') and 'inode::get_shape' in str(x[1:3])
            made = fit = drawn = False
            for e, c in flat(pa.ev):
                if e.k == 'call' and e.q == 'nnet::tensor::tensor' and any(shp(x) for x in e.args):
                    made = True
                if e.k == 'call' and lname(e.q) == 'set_shape' and any(shp(x) for x in e.args):
                    fit = True
                if e.k in ('call', 'icall') and 'initializer::operator()' in str(e.d.get('q')):
                    drawn = True if made or fit else 'early'
            w = site(f)
            ready = said.get('source') is not False and said.get('good_status') is not False and said.get('is_fully_defined') is not False
            if not ready:
                ctx.ob('generator', w, not (made or fit or drawn), 'a random node is drawn although its source has no shape yet', key='generator@early', detail=pa.where())
            elif said.get('data') is False:
                ctx.ob('generator', w, made and drawn is True, 'a random node without data is not drawn in the shape of its source', key='generator@first', detail=pa.where())
            elif said.get('is_compatible_with') is False:
                ctx.ob('generator', w, (fit or made) and drawn is True, 'a random node that no longer fits its source is not drawn anew in its shape', key='generator@refit', detail=pa.where())
            else:
                ctx.ob('generator', w, said.get('is_compatible_with') is True and not (made or fit or drawn), 'a random node is drawn anew although its source kept the shape', key='generator@keep', detail=pa.where())
    ctx.need(n >= 4, 'the update of a random node')


def lam(t, pa):
    """closures are told apart by their code and what they hold"""
    return t


def results(pa, fn, args, ranks):
    pa.ip.opaque = lambda g: False
    pa.ip.branchy = True
    st = pa.st.fork()
    for nm, r in ranks:
        for i in range(r):
            x = ('par', '%s%d' % (nm, i))
            st.facts[('lt', ('lit', 0), x)] = True
            st.facts[('nz', x)] = True
    known = dict(st.facts)
    out = []
    for s, v in stdmodel.applyv(pa.ip, fn, args, st, {'L': None}):
        out.append(({a: x for a, x in s.facts.items() if a not in known}, v))
    return out


def accepts(rs, env, ip):
    hit = []
    for f, v in rs:
        if all(atom(a, env) == x for a, x in f.items()):
            hit.append(v)
    return hit


def shaper(ctx, o, what, spec_, pa, nd, top):
    nops = len(nd.operands or ())
    ctx.need(nops in (1, 2), 'operands of %s' % o.id)
    names = 'ab'[:nops]
    tag = '%s%s' % (o.id, '[%s]' % what if what else '')
    more = [(4, 4), (4, 3), (3, 4)] if o.name in ('matmul', 'operator+') and nops == 2 and top < 4 else []
    for ranks in list(itertools.product(range(1, top + 1), repeat=nops)) + more:
        rk = list(zip(names, ranks))
        rs = results(pa, nd.shaper, [('seq', tuple(shaped(a, r) for a, r in rk))], rk)
        bad = {}
        vals = EXT if sum(ranks) <= 6 else (1, 2)
        cnt = 0
        for ext in itertools.product(vals, repeat=sum(ranks)):
            env = dict(zip(['%s%d' % (a, i) for a, r in rk for i in range(r)], ext))
            S, at = [], 0
            for r in ranks:
                S.append(tuple(ext[at:at + r]))
                at += r
            cnt += 1
            must, res = spec_(*S)
            try:
                hit = accepts(rs, env, pa.ip)
                if any(v is not None and v[0] in ('icall', 'res') and ('null',) in v[1:] for v in hit):
                    raise Outside('has no shape function')
                ds = [dims(pa.ip, v) for v in hit]
                ctx.need(all(d is not None for d in ds), 'the shape %s gives: %s' % (tag, show(hit[0])[:120] if hit else ''))
                ds = [tuple(num(x, env) for x in d) for d in ds]
            except Outside as x:
                bad.setdefault('shape', '%s of %s %s' % (tag, ' and '.join(str(list(s)) for s in S), x))
                continue
            except Odd as x:
                ctx.need(False, 'the shape function of %s decides by %s' % (tag, x))
                return
            sh = ' and '.join(str(list(s)) for s in S)
            if must is False:
                if hit:
                    bad.setdefault('refuse', '%s accepts %s' % (tag, sh))
                continue
            if not hit and must:
                bad.setdefault('shape', '%s refuses %s' % (tag, sh))
            for d in ds:
                if not res(d):
                    bad.setdefault('shape', '%s of %s has shape %s' % (tag, sh, list(d)))
        for r in ('shape', 'refuse'):
            ctx.ob(r, o.where, r not in bad, bad.get(r) or '%s of ranks %s, %d patterns of extents' % (tag, ranks, cnt), key='%s@%s' % (r, tag),
                   detail=pa.where())


def extract(ctx, o, what, k, pa, nd, top):
    if o.name != 'reduce_mean':
        return
    want = dims(pa.ip, nd.e.args[2])
    ok = want is not None and all(x[0] == 'lit' for x in want)
    ctx.ob('extract', o.where, ok and len(want) >= 1, '%s has a shape of its own' % o.id, key='extract@' + o.id)
    if not ok:
        return
    size = prod([x[1] for x in want])
    for r in range(1, top + 1):
        st = results(pa, nd.shaper, [shaped("a", r)], [('a', r)])
        bad = None
        for ext in itertools.product(EXT, repeat=r):
            env = {'a%d' % i: x for i, x in enumerate(ext)}
            try:
                got = [tuple(num(x, env) for x in seq(v) or (('?',),)) for v in accepts(st, env, pa.ip)]
            except Outside as x:
                bad = 'of %s it %s' % (list(ext), x)
                continue
            except Odd as x:
                ctx.need(False, 'the extents %s takes: %s' % (o.id, x))
                return
            w = prod(ext) if k is None else ext[k] if k < r else 1
            if len(got) != 1 or len(got[0]) != size or got[0] != (w,):
                bad = 'along %s of %s it takes %s' % (k, list(ext), got)
        ctx.ob('extract', o.where, bad is None, '%s: %s' % (o.id, bad), key='extract@%s[%s]' % (o.id, k), detail=pa.where())


# ---------------------------------------------------------------- from node to kernel
DEPS = ('fld', ('deref', ('this',)), 'dependencies_')


def vector(v, n):
    """the element a vector of n elements has at ('idx', 0), or None"""
    if v[0] in ('refof', 'deref') and isinstance(v[1], tuple):
        v = v[1]
    if v[0] == 'gen' and v[1] in (('seq', ()),) and v[3] == n:
        return subst(v[4], lambda x: ('idx', 0) if x == ('idx', v[2]) else None)
    if v[0] == 'map' and v[3] == n and size(v[1]) == n:
        return subst(v[4], lambda x: ('idx', 0) if x == ('idx', v[2]) else None)
    return None


def mcall(t, name, *args):
    """t is the result of the method `name` on ..."""
    if t is None or t[0] not in ('mfn', 'res'):
        return None
    q, a = (t[1], t[2:]) if t[0] == 'mfn' else (t[2], t[3:])
    return a if isinstance(q, str) and lname(q) == name else None


def bare(t):
    while isinstance(t, tuple) and t and t[0] in ('deref', 'refof', 'addr', 'cast', 'static') and len(t) == 2:
        t = t[1]
    return t


def isdata(t):
    t = bare(t)
    return t[0] == 'fld' and t[2] == 'data_' or t[0] == 'f' and t[2] == 'data_'


def depval(t):
    """what operand i evaluates to"""
    a = mcall(t, 'take_eval')
    if not a:
        return False
    x = bare(a[-1])
    while x[0] in ('dyn', 'cast'):
        x = bare(x[-1])
    return x == ('at', DEPS, ('idx', 0))


def shapeof(t, what):
    a = mcall(t, 'get_shape')
    return bool(a) and what(a[0])


def fopq(g):
    return g['q'].startswith(('nnet::tensor::', 'nnet::tensorshape::', 'nnet::print_shape')) or lname(g['q']) in ('take_eval', 'get_raw', 'print_shape') \
        or lname(g['q']).startswith('operator()')


def forward(ctx):
    n = size(DEPS)
    for cls in ('immutable', 'shape_dep'):
        fs = ctx.fns('nnet::%s::forward_pass' % cls)
        for f in fs:
            got = 0
            for pa in ctx.run(f, fopq, mods=False):
                if pa.out != 'ret':
                    continue
                got += 1
                passed(ctx, f, cls, pa, n)
            ctx.need(got, 'a computing path of %s' % f['q'])
    for f in ctx.fns('nnet::transfer_func::operator()'):
        for pa in ctx.run(f, lambda g: lname(g['q']) == 'get_raw' or g['q'].startswith('nnet::tensor::') and lname(g['q']) == 'get_shape', mods=False):
            if pa.out == 'ret':
                handed(ctx, f, pa)


def passed(ctx, f, cls, pa, n):
    w = site(f)
    calls = [e for e in pa.ev if e.k == 'call' and lname(e.q).startswith('operator()') and e.recv is not None]
    ok = len(calls) == 1 and len(calls[0].args) >= 2
    ctx.ob('forward', w, ok, '%s works the kernel of the node %d times' % (f['q'], len(calls)), key='once@' + cls)
    if not ok:
        return
    e = calls[0]
    val = vector(e.args[1], n)
    if cls == 'immutable':
        ok = val is not None and depval(val)
    else:
        ok = val is not None and shapeof(val, depval)
    ctx.ob('forward', w, ok, '%s gives the kernel %s' % (f['q'], show(e.args[1])[:200]), key='operands@' + cls, detail=pa.where())
    if cls == 'immutable':
        ic = [x for x in pa.ev if x.k == 'icall' and bare(x.callee if 'callee' in x.d else x.d.get('fn', ('?',)))[-1] == 'shaper_']
        if not ic:
            ic = [x for x in pa.ev if x.k == 'icall']
        ok = len(ic) == 1 and len(ic[0].args) == 1
        v2 = vector(ic[0].args[0], n) if ok else None
        ctx.ob('forward', w, ok and v2 is not None and shapeof(v2, depval), '%s gives the shape function %s' % (
            f['q'], show(ic[0].args[0])[:200] if ok else '%d times' % len(ic)), key='shapes@' + cls, detail=pa.where())
        isshape = lambda t: isinstance(t, tuple) and any(x[0] == 'res' and x[2] == 'icall' for x in subterms(t) if len(x) > 2)
    else:
        isshape = lambda t: bare(t)[0] in ('fld', 'f') and bare(t)[2] == 'shape_'
    # what the result is put in
    out = e.args[0]
    hasdata = [v for a, v in pa.facts.items() if a[0] == 'nz' and isdata(a[1])]
    made = [x for x in pa.ev if x.k == 'write' and x.loc[0] == 'f' and x.loc[2] == 'data_']
    if False in hasdata:
        news = [x for x in pa.ev if x.k == 'call' and x.d.get('ctor') and lname(x.q) == 'tensor' and x.args and isshape(x.args[0])]
        ok = len(made) == 1 and len(news) == 1
        ctx.ob('forward', w, ok, '%s computes with nothing to put the result in' % f['q'], key='made@' + cls, detail=pa.where())
    else:
        ctx.ob('forward', w, isdata(out), '%s puts the result in %s' % (f['q'], show(out)[:100]), key='result@' + cls, detail=pa.where())
        if cls != 'immutable':
            return
        al = defd = comp = None
        for a, v in pa.facts.items():
            if a[0] != 'nz':
                continue
            x = mcall(a[1], 'is_alloc')
            if x and isdata(x[0]):
                al = v
            x = mcall(a[1], 'is_fully_defined')
            if x:
                defd = v
            x = mcall(a[1], 'is_compatible_with')
            if x:
                comp = v
        grown = [x for x in pa.ev if x.k == 'call' and lname(x.q) == 'allocate' and isdata(x.recv) and x.args and isshape(x.args[0])]
        ok = defd is False or al is True and comp is True or bool(grown) and al is not True or any(
            mcall(a[1], 'allocate') for a, v in pa.facts.items() if a[0] == 'nz')
        ctx.ob('forward', w, ok, '%s computes into a tensor that was neither allocated with the shape nor checked against it' % f['q'],
               key='checked@' + cls, detail=pa.where())


def handed(ctx, f, pa):
    w = site(f)
    ic = [x for x in pa.ev if x.k == 'icall']
    ok = len(ic) == 1 and len(ic[0].args) == 3
    ctx.ob('forward', w, ok, '%s works its function %d times' % (f['q'], len(ic)), key='handed-once')
    if not ok:
        return
    d, src, io = ic[0].args
    pn = [p['n'] for p in f['params']]
    n = size(('deref', ('par', pn[1])))
    x = mcall(d, 'get_raw')
    ctx.ob('forward', w, bool(x) and bare(x[-1]) == ('par', pn[0]), '%s writes to %s' % (f['q'], show(d)[:100]), key='handed-dest')
    arg = lambda t: bare(t) in (('at', ('deref', ('par', pn[1])), ('idx', 0)), ('at', ('par', pn[1]), ('idx', 0)))
    v = vector(src, n)
    x = mcall(v, 'get_raw') if v else None
    ctx.ob('forward', w, bool(x) and arg(x[-1]), '%s reads from %s' % (f['q'], show(src)[:160]), key='handed-sources')
    fl = dict(io[2]) if io[0] == 'struct' else {}
    ctx.ob('forward', w, shapeof(fl.get('outs_'), lambda t: bare(t) == ('par', pn[0])), '%s has result shape %s' % (
        f['q'], show(fl['outs_'])[:100] if 'outs_' in fl else 'unknown'), key='handed-outs')
    v = vector(fl['ins_'], n) if 'ins_' in fl else None
    ctx.ob('forward', w, shapeof(v, arg), '%s has operand shapes %s' % (f['q'], show(fl['ins_'])[:160] if 'ins_' in fl else 'unknown'), key='handed-ins')


# ---------------------------------------------------------------- places
def single(ctx, q, r, args=None):
    """the result of a method of a shape of rank r, which takes no decisions"""
    from interp import empty_state
    out = []
    for f in ctx.fns(q):
        st = empty_state()
        st.env[('f', ('d', ('this',)), 'dimensions_')] = ('seq', tuple(('par', 'a%d' % i) for i in range(r)))
        for i in range(r):
            st.facts[('lt', ('lit', 0), ('par', 'a%d' % i))] = True
        out.append((f, ctx.run(f, lambda g: False, mods=False, branchy=True, st=st, args=args)))
    return out


def atom_(a, env):
    try:
        return atom(a, env)
    except Outside:
        return None


def decided(ctx, f, ps, env):
    hit = []
    for pa in ps:
        if pa.out == 'ret' and all(atom_(a, env) == v for a, v in pa.facts.items() if a[0] in ('nz', 'eq', 'lt')):
            hit.append(pa.val)
    return hit[0] if len(hit) == 1 else None


def value(t, env):
    try:
        return num(t, env)
    except Outside:
        return None


def places(ctx, top):
    for r in range(1, top + 1):
        T = {}
        for q, args in (('rank', None), ('n_elems', None), ('coordinate_from_idx', {0: ('par', 'i')})):
            T[q] = single(ctx, 'nnet::tensorshape::' + q, r, args)
        fl = {m: single(ctx, 'nnet::tensorshape::flat_idx', r, {0: ('seq', tuple(('par', 'c%d' % k) for k in range(m)))}) for m in range(1, r + 2)}
        bad = {}
        try:
            for ext in itertools.product(EXT, repeat=r):
                env = {'a%d' % i: x for i, x in enumerate(ext)}
                for q, want in (('rank', r), ('n_elems', prod(ext))):
                    for f, ps in T[q]:
                        v = decided(ctx, f, ps, env)
                        if v is None or value(v, env) != want:
                            bad.setdefault(q, (f, '%s of %s is %s' % (q, list(ext), show(v)[:100] if v else 'undecided')))
                for i in range(prod(ext)):
                    co, k = [], i
                    for x in ext:
                        co.append(k % x)
                        k //= x
                    env['i'] = i
                    for f, ps in T['coordinate_from_idx']:
                        v = decided(ctx, f, ps, env)
                        l = seq(v) if v else None
                        if l is None or [value(x, env) for x in l] != co:
                            bad.setdefault('coordinate', (f, 'the coordinate of place %d in %s is %s' % (i, list(ext), show(v)[:160] if v else 'undecided')))
                    for m, fp in fl.items():
                        cs = (co + [1])[:m]
                        env2 = dict(env)
                        env2.update({'c%d' % j: x for j, x in enumerate(cs)})
                        w, b = 0, 1
                        for j in range(min(m, r)):
                            w += cs[j] * b
                            b *= ext[j]
                        for f, ps in fp:
                            v = decided(ctx, f, ps, env2)
                            if v is None or value(v, env2) != w:
                                bad.setdefault('flat', (f, 'the place of coordinate %s in %s is %s' % (cs, list(ext), show(v)[:160] if v else 'undecided')))
        except Odd as x:
            ctx.need(False, 'places are computed by %s' % x)
        for q in ('rank', 'n_elems', 'coordinate', 'flat'):
            f, t = bad.get(q, (T['rank'][0][0], '%s in shapes of rank %d' % (q, r)))
            ctx.ob('place', site(f), q not in bad, t, key='place@' + q)
