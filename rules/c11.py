"""C11: what an operator returns instead of a new node (folded constants, shortcuts) has the value the node would have."""
import itertools
from ops import *
import elem
from elem import subterms


def check(ctx):
    ctx.explain = ('every path on which an operator answers without a node of its own, for each operator: the value returned, under what the '
                   'path has decided about the operands, equals the function the operator stands for (as quotients of polynomials over '
                   'elementary functions), and a folded constant keeps the shape of the constant it folds')
    ctx.rule('shortcut', 'the value returned equals the operator applied to the operands, under the conditions of the path')
    ctx.rule('fold', 'the elements of a folded constant are the operator applied to those of the constant operand')
    ctx.rule('fold-shape', 'a folded constant has as many elements and the shape of the operand it folds')
    ctx.rule('inverse', 'an operator that undoes its own node returns the operand of that node')
    ctx.rule('composed', 'an operator defined by others composes them as named')
    O = operators(ctx)
    n = 0
    labels = {}
    for o in O:
        for pa in o.paths:
            for nd in pa.nodes:
                labels.setdefault(repr(nonum(nd.label)), []).append(o)
    for o in O:
        sp = fullspec(o)
        for pa in o.paths:
            v = pa.val
            if pa.out != 'ret' or v is None or v[0] == 'null':
                continue
            if v[0] == 'res' and lname(v[2]) in SEARCH or any(nd.e.res == v for nd in pa.nodes):
                continue
            if any(pa.facts.get(('nz', ('par', q))) is False for q in o.nodes_p):
                continue
            n += 1
            judge(ctx, o, pa, v, sp, labels)
    ctx.need(n >= 80, 'shortcuts of the operators')


def sample_leaf(pa):
    """draws of a binomial distribution"""
    def leaf(t):
        if t[0] == 'res' and isinstance(t[2], str) and 'binomial_distribution' in t[2] and t[2].endswith('operator()'):
            loc = t[3]
            while isinstance(loc, tuple) and loc[0] in ('addr', 'refof'):
                loc = loc[1]
            for e, cx in flat(pa_events(pa)):
                if e.k == 'ext' and e.d.get('res') and e.res[:4] == t[:4] and e.d.get('recvval') and e.recvval[0] == 'cobj':
                    return ('dist',) + tuple(e.recvval[2])
        return None
    return leaf


def pa_events(pa):
    return pa if isinstance(pa, list) else pa.ev


def fullspec(o):
    """as spec, for the operators that are functions of other things too"""
    s = spec(o)
    if s is not None:
        return s
    P = {p['n']: ratf.sym(p['n']) for p in o.params}
    names = [p['n'] for p in o.params]
    if o.name == 'conditional':
        return ratf.app('cond', P[names[0]], P[names[1]], repr(('par', names[2])))
    if o.name == 'binomial_sample':
        return ratf.app('sample', P[names[0]], P[names[1]])
    if o.name == 'softmax':
        return ratf.exp(P[names[0]]) / ratf.app('total', ratf.exp(P[names[0]]))
    return None


class M(Meaning):
    """with comparisons through a parameter, samples and totals"""

    def __init__(self, op, pa, events=None, extra=None, fix=lambda t: t):
        sl = symleaf(op)
        self.ev = events if events is not None else pa.ev
        self.dist = sample_leaf(self.ev)

        def leaf(t):
            x = extra(t) if extra else None
            if x is None:
                x = sl(t)
            if x is not None:
                return x
            if t[0] == 'res' and t[2] == 'icall' and len(t) == 6 and t[3][0] == 'par':
                return ratf.app('cond', self.of(t[4]), self.of(t[5]), repr(t[3]))
            d = self.dist(t)
            if d is not None:
                return ratf.app('sample', self.of(fix(d[1])), self.of(fix(d[2])))
            if t[0] in ('f2i', 'f2s') and len(t) == 2:
                return self.of(t[1])
            return None
        super().__init__(leaf, pa)

    def op(self, nm, ops):
        if nm == 'conditional' and ops[2][0] == 'par':
            return ratf.app('cond', self.of(ops[0]), self.of(ops[1]), repr(ops[2]))
        if nm == 'binomial_sample':
            return ratf.app('sample', self.of(ops[0]), self.of(ops[1]))
        if nm == 'reduce_sum' and len(ops) == 2 and ops[1][0] == 'none':
            return ratf.app('total', self.of(ops[0]))
        return super().op(nm, ops)


def held(pa, t):
    """a count with the shape it was asked of in place of the temporary that held it"""
    if t[0] == 'mfn' and t[2][0] in ('addr', '&') and t[2][1][0] in 'vt':
        return t[:2] + (pa.ip.load(pa.st, t[2][1]),) + t[3:]
    return t


def standsfor(t, pa):
    """the first element of a constant's content is taken for the constant only where that is its only element"""
    bad = []
    for x in subterms(t):
        if x[0] == 'at' and x[2] == ('lit', 0):
            a = content(x[1])
            if a is None or a[0] != 'par':
                continue
            isconst = any(f[0] == 'nz' and f[1][0] == 'dyn' and strip(f[1]) == a and y for f, y in pa.facts.items())
            one = any((f[0] == 'eq' and y and ('lit', 1) in f or f[0] == 'lt' and (f[2] == ('lit', 2) and y or f[1] == ('lit', 1) and not y)) and
                      any(isinstance(z, tuple) and content_of(held(pa, z)) == a for z in f[1:]) for f, y in pa.facts.items())
            if not (isconst and one):
                bad.append(a)
    return bad


def judge(ctx, o, pa, v, sp, labels):
    m = M(o, pa)
    bad = standsfor(v, pa)
    if bad:
        ctx.fail('shortcut', o.where, '%s takes the first element of %s for all of it' % (o.id, show(bad[0])), key='first@%s' % o.id, detail=pa.where())
    sub = facts_subst(o, pa)
    where = o.where
    if v[0] == 'res' and v[2] == 'nnet::constant::get':
        a = v[3:]
        x = a[0]
        if len(a) > 1:
            return fold(ctx, o, pa, x, a[1], sp, m, sub)
        if sp is None:
            return special(ctx, o, pa, v, m)
        got = m.of(x)
        ctx.ob('shortcut', where, ratf.subst(got, sub).same(ratf.subst(sp, sub)),
               '%s answers the constant %s' % (o.id, show(x)[:120]), key='shortcut@%s:%s' % (o.id, short(pa, sub)), detail=pa.where())
        return
    # undoing a node with a known label
    if v[0] == 'at' and v[1][0] == 'mfn' and lname(v[1][1]) == 'get_arguments' and v[2] == ('lit', 0):
        return inverse(ctx, o, pa, v, sp, labels)
    if sp is None:
        return special(ctx, o, pa, v, m)
    got = m.of(v)
    ctx.ob('shortcut' if o.name not in ('sigmoid', 'tanh', 'softmax', 'eq', 'neq') else 'composed', where,
           ratf.subst(got, sub).same(ratf.subst(sp, sub)), '%s answers %s' % (o.id, show(v)[:160]),
           key='shortcut@%s:%s' % (o.id, short(pa, sub)), detail=pa.where())


def short(pa, sub):
    return ','.join('%s=%r' % (k, sub[k]) for k in sorted(sub)) or 'else'


def inverse(ctx, o, pa, v, sp, labels):
    x = v[1][2]
    ok, why = False, 'the node whose operand is returned is not identified'
    for a, val in pa.facts.items():
        if a[0] == 'eq' and val:
            for l, k in ((a[1], a[2]), (a[2], a[1])):
                if l[0] == 'mfn' and lname(l[1]) == 'get_label' and l[2] == x:
                    mk = labels.get(repr(nonum(k)), [])
                    ones = pa.facts.get(('eq', ('lit', 1), ('size', v[1]))) or pa.facts.get(('eq', ('size', v[1]), ('lit', 1)))
                    if not mk:
                        why = 'no operator makes nodes labelled %s' % show(k)
                    elif not ones:
                        why = 'the node may have other operands'
                    else:
                        ok = all(undoes(o, q, sp) for q in mk)
                        why = '%s of a node of %s answers that node\'s operand' % (o.id, mk[0].id)
    ctx.ob('inverse', o.where, ok, '%s: %s' % (o.id, why), key='inverse@' + o.id, detail=pa.where())


def undoes(o, q, sp):
    """o(q(x)) = x"""
    if sp is not None and len(o.nodes_p) == 1 and not o.scalars:
        s2 = spec(q)
        if s2 is None or len(q.nodes_p) != 1:
            return False
        return ratf.subst(sp, {o.nodes_p[0]: s2}).same(ratf.sym(q.nodes_p[0]))
    return o.name == q.name == 'transpose'      # the same two dimensions: they are part of the label


def fold(ctx, o, pa, x, shp, sp, m, sub):
    where = o.where
    key = '%s:%s' % (o.id, short(pa, sub))
    cand = [('par', p) for p in o.nodes_p if any(a[0] == 'nz' and v and a[1][0] == 'dyn' and a[1][-1] == ('par', p) for a, v in pa.facts.items())]
    ctx.ob('fold-shape', where, shp[0] == 'mfn' and lname(shp[1]) == 'get_shape' and strip(shp[2]) in cand,
           '%s folds a constant into the shape %s' % (o.id, show(shp)[:80]), key='fold-shape@' + key, detail=pa.where())
    r = elem.cases(pa.ip, pa.ev, x)
    if r is None:
        ctx.fail('fold', where, '%s folds to %s' % (o.id, show(x)[:160]), key='fold@' + key, detail=pa.where())
        return
    cs, cnt = r
    ctx.ob('fold-shape', where, content_of(cnt) in cand, '%s folds %s elements' % (o.id, show(cnt)[:80]), key='fold-count@' + key, detail=pa.where())
    # every element read is the one at the same place
    for f, body in cs:
        bad = [t for t in elem.subterms(body) if t[0] == 'at' and content(t[1]) is not None and t[2] != elem.IX and not t[2][0] == 'idx']
        ctx.ob('fold', where, not bad, '%s folds to %s' % (o.id, show(body)[:160]), key='fold@' + key, detail=pa.where())
    cs = [(merge(pa.facts, f), v) for f, v in cs]
    if o.name in ('clip_val', 'clip_norm'):
        a = cand[0] if cand else None
        src = lambda t: content(t) == a
        names, spec_, extra = pieces(o, lambda t: t[0] == 'at' and t[2] == elem.IX and src(t[1]), src)
        ok, why = elem.same_by_cases(cs, extra, names, spec_, pa)
        ctx.ob('fold', where, ok, '%s folds a constant: %s' % (o.id, why), key='fold@' + o.id, detail=pa.where())
        return
    for f, body in cs:
        got = m.of(body)
        ctx.ob('fold', where, sp is not None and ratf.subst(got, sub).same(ratf.subst(sp, sub)),
               '%s folds to %s' % (o.id, show(body)[:160]), key='fold@' + key, detail=pa.where())


def merge(a, b):
    r = dict(a)
    r.update(b)
    return r


def pieces(o, isel, src):
    """clip_val and clip_norm by cases: symbols compared, the element in a given order, the symbol of a term"""
    P = [p['n'] for p in o.params]
    if o.name == 'clip_val':
        names = ['e', P[1], P[2]]

        def spec_(rank):
            lo, hi = sorted((P[1], P[2]), key=lambda n: rank[n])
            return ratf.sym(lo if rank['e'] < rank[lo] else hi if rank['e'] > rank[hi] else 'e')
    else:
        names = [P[1], 'norm']

        def spec_(rank):
            e, cap, norm = ratf.sym('e'), ratf.sym(P[1]), ratf.sym('norm')
            return e * cap / norm if rank['norm'] > rank[P[1]] else e

    def leaf(t):
        if isel(t):
            return ratf.sym('e')
        if t[0] == 'par' and t[1] in P:
            return ratf.sym(t[1])
        if o.name == 'clip_norm' and t[0] == 'fn' and t[1] == 'sqrt' and sumsq(t[2], src):
            return ratf.sym('norm')
        return None
    return names, spec_, leaf


def strip(t):
    while t[0] in ('dyn', 'cast', 'deref', 'refof'):
        t = t[-1]
    return t


def content(v):
    """the node whose constant content an array is"""
    if v[0] in ('res', 'mfn') and isinstance(v[2 if v[0] == 'res' else 1], str) and lname(v[2 if v[0] == 'res' else 1]) == 'expose':
        return strip(v[-1])
    return None


def content_of(cnt):
    if cnt[0] == 'size':
        return content(cnt[1])
    if cnt[0] == 'mfn' and lname(cnt[1]) == 'n_elems':
        x = cnt[2]
        while x[0] in ('addr', 'refof', 'deref'):
            x = x[-1]
        if x[0] == 'mfn' and lname(x[1]) == 'get_shape':
            return strip(x[2])
    return None


def special(ctx, o, pa, v, m):
    """operators without an elementwise formula"""
    a = ('par', o.nodes_p[0]) if o.nodes_p else None
    where = o.where
    zero = facts_subst(o, pa)
    P = [p['n'] for p in o.params]
    if o.name == 'l2norm' and v[0] == 'res':
        x = v[3]
        ok = x[0] == 'fn' and x[1] == 'sqrt' and sumsq(x[2], lambda t: content(t) == a)
        ctx.ob('fold', where, ok, 'l2norm of a constant is %s' % show(x)[:160], key='fold@' + o.id, detail=pa.where())
        return
    if o.name == 'fit':
        ok = v == a and zero.get(P[0]) is not None and zero[P[0]].const() == 0
        ctx.ob('shortcut', where, ok, 'fit answers %s' % show(v)[:100], key='shortcut@' + o.id, detail=pa.where())
        return
    if o.name == 'extend':
        k = ('par', P[2])
        none = pa.facts.get(('nz', k)) is False
        one = any(f[0] == 'eq' and x and k in f and ('lit', 1) in f for f, x in pa.facts.items())
        isz = v[0] == 'res' and v[2] == 'nnet::constant::get' and v[3] == ('lit', 0)
        ctx.ob('shortcut', where, (none and isz) or (one and v == a), 'extend answers %s' % show(v)[:100],
               key='shortcut@%s:%s' % (o.id, 'zero' if none else 'one' if one else 'else'), detail=pa.where())
        return
    nm, ops = opcall(v)
    d = [('par', x) for x in P]
    if o.name in COLLECT:
        ok, body = collected(pa, o, v)
        ctx.ob('composed', where, ok, '%s collects with %s' % (o.id, show(body)[:80] if body else show(v)[:80]), key='composed@' + o.id)
        return
    if o.name == 'reduce_mean':
        ok = nm == 'operator/' and opcall(ops[0])[0] == 'reduce_sum' and opcall(ops[0])[1][:2] == (d[0], d[1])
        ctx.ob('composed', where, ok, 'reduce_mean divides the sum', key='composed-sum@' + o.id, detail=pa.where())
        den = [nd for nd in pa.nodes if nd.cls == 'shape_dep' and nm and nd.e.res == ops[1]]
        ctx.ob('composed', where, bool(den) and denom(pa, den[0], d), 'reduce_mean divides by the number of elements summed',
               key='composed-count@' + o.id, detail=pa.where())
        return
    if o.name == 'conv2d':
        ok = nm == 'cross_corr2d' and ops[0] == d[0] and ops[2] == d[2]
        if ok:
            n2, o2 = opcall(ops[1])
            ok = n2 == 'flip' and o2[0] == d[1] and o2[1][0] == 'seq' and \
                set(o2[1][1]) == {('fld', d[2], 'first'), ('fld', d[2], 'second')}
        ctx.ob('composed', where, ok, 'conv2d correlates with the flipped filter: %s' % show(v)[:120], key='composed@' + o.id)
        return
    ctx.fail('shortcut', where, '%s answers %s' % (o.id, show(v)[:160]), key='shortcut@%s' % o.id, detail=pa.where())


COLLECT = ('reduce_max', 'reduce_sum', 'arg_max')


def collected(pa, o, v):
    """a reduction gives its operand and axis on, with the function it is named for"""
    nm, ops = opcall(v)
    d = [('par', p['n']) for p in o.params]
    if nm != ('arg_compress' if o.name == 'arg_max' else 'compress') or ops[0] != d[0] or ops[2] != d[1]:
        return False, None
    if o.name == 'arg_max':
        return all(argmax(apply(pa, ops[1], [('seq', tuple(('par', '?%d' % i) for i in range(n)))]), n) for n in (1, 2, 3)), None
    r = apply(pa, ops[1], [('par', '?l'), ('par', '?r')])
    body = r[0][1] if len(r) == 1 else None
    l, rr = ratf.sym('?l'), ratf.sym('?r')
    if o.name == 'reduce_sum':
        return body is not None and Meaning(lambda t: ratf.sym(t[1]) if t[0] == 'par' else None).of(body).same(l + rr), body
    return ismax(r), body


def denom(pa, nd, d):
    if nd.operands != (d[0],):
        return False
    dim = pa.facts.get(('nz', d[1]))
    if dim is None:
        dim = pa.facts.get(('has', d[1]))
    r = apply(pa, nd.e.args[1], [('par', '?s')])
    s = ('par', '?s')
    if not r:
        return False
    for st, v, ev in r:
        if v is None or v[0] != 'seq' or len(v[1]) != 1:
            return False
        x = v[1][0]

        def isshape(u):
            return u[0] == 'addr' and u[1][0] in 'vt' and pa.ip.load(st, u[1]) in (s, ('deref', s)) or strip2(u) == s
        full = x[0] == 'mfn' and lname(x[1]) == 'n_elems' and isshape(x[2])
        ax = x[0] == 'at' and x[1][0] == 'mfn' and lname(x[1][1]) == 'as_list' and isshape(x[1][2]) and x[2] == ('oget', d[1])
        outside = x == ('lit', 1) and any(a[0] == 'lt' and not v2 and a[1] == ('oget', d[1]) and lname(a[2][1]) == 'rank'
                                          for a, v2 in st.facts.items() if a[0] == 'lt' and a[2][0] == 'mfn')
        if x[0] == 'ite':
            return ax_ite(x, d, s)
        if hasdim(pa, d[1]) and not (ax or outside) or not hasdim(pa, d[1]) and not full:
            return False
    return True


def ax_ite(x, d, s):
    c, a, b = x[1:4]
    if not (b == ('lit', 1) and a[0] == 'at'):
        return False
    return a[2] == ('oget', d[1]) and a[1][0] == 'mfn' and lname(a[1][1]) == 'as_list' and strip2(a[1][2]) == s


def hasdim(pa, t):
    for a, v in pa.facts.items():
        if a[0] in ('nz', 'has') and a[1] == t or a[0] == 'has' and len(a) > 1 and a[1] == t:
            return v
    return None


def strip2(t):
    while t[0] in ('addr', 'refof', 'deref'):
        t = t[-1]
    return t


def ismax(r):
    """each outcome returns the larger of its two arguments"""
    l, rr = ('par', '?l'), ('par', '?r')
    if len(r) == 1 and r[0][1] and r[0][1][0] == 'fn' and r[0][1][1] in ('max', 'fmax') and set(r[0][1][2:]) == {l, rr}:
        return True
    for st, v, ev in r:
        if v not in (l, rr):
            return False
        lt, gt = st.facts.get(('lt', l, rr)), st.facts.get(('lt', rr, l))
        if v == l and not (lt is False or gt is True) or v == rr and not (lt is True or gt is False):
            return False
    return bool(r)


def argmax(r, n):
    """whatever the values, every outcome they lead to is the place of a largest one"""
    for vals in itertools.product((-4, -1, 0, 3), repeat=n):
        env = {('par', '?%d' % i): x for i, x in enumerate(vals)}
        hit = [v for st, v, ev in r if all(worth(a, env) in (None, b) for a, b in st.facts.items())]
        if not hit or any(v is None or v[0] != 'lit' or not 0 <= v[1] < n or vals[v[1]] != max(vals) for v in hit):
            return False
    return True


def worth(t, env):
    """value of a term or fact when the named values are known, or None"""
    if t in env:
        return env[t]
    if t[0] == 'lit':
        return t[1]
    xs = [worth(x, env) if isinstance(x, tuple) else x for x in t[1:]]
    if None in xs:
        return None
    k = t[0] if t[0] not in ('op', 'fn', 'cmp') else xs.pop(0)
    f = {'lt': lambda a, b: a < b, '<': lambda a, b: a < b, 'eq': lambda a, b: a == b, 'nz': lambda a: a != 0, 'neg': lambda a: -a, 'abs': abs, 'fabs': abs,
         '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b}.get(k)
    return f(*xs) if f else None


def sumsq(t, src):
    if t[0] != 'fold' or t[1] != '+' or t[2] != ('lit', 0):
        return False
    d, n, body = t[3], t[4], t[5]
    el = None
    for x in subterms(body):
        if x[0] == 'at' and x[2] == ('idx', d) and src(x[1]):
            el = x
    if el is None:
        return False
    sq = Meaning(lambda u: ratf.sym('e') if u == el else None).of(body)
    e = ratf.sym('e')
    return sq.same(e * e) and (n[0] == 'size' and src(n[1]) or content_of(n) is not None or n[0] in ('mfn', 'n'))
