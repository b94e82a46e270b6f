"""C13: the kernel of every operator computes, for every element of the output, what the operator stands for."""
from kern import *
from c11 import M as Meaning11, fullspec, pieces, sumsq, sample_leaf, COLLECT, collected

ROWS = {}
P_ = lambda n: ('par', n)


def check(ctx):
    ctx.explain = ('every path of the kernel of every operator node, for any number of elements: each element of the output is the function the '
                   'operator stands for of the elements of the operands at the same place, a scalar operand standing for all places, an axial '
                   'operand being read at the place without the axis; operators that move elements read each from the coordinate that goes '
                   'there, in every case of the positions relative to the rank')
    ctx.rule('every-element', 'the kernel writes each element of the output')
    ctx.rule('element', 'each element is the function the operator stands for')
    ctx.rule('place', 'each element is read from the place of its operand that belongs there')
    ctx.rule('operands', 'a node is built over the operands its kernel reads, in their order')
    O = operators(ctx)
    n = 0
    for o in O:
        for pa in o.paths:
            for nd in pa.nodes:
                if nd.kernel is not None:
                    operands(ctx, o, Run(o, pa, nd, pa.st, ()))
        served = {}
        for r in runs(ctx, o):
            r.o_served = served.setdefault(r.nd.kernel, set())
            if any(o_.k in ('throw', 'abort') for o_ in r.ev[-1:]):
                continue
            n += 1
            kernel(ctx, o, r)
        if '_axial_' in o.name:
            for k, got in served.items():
                miss = [x for x in axials() if x not in got]
                ctx.ob('every-element', o.where, not miss, '%s computes nothing for %s' % (o.id, miss[:1]), key='every-element@' + o.id)
    ctx.need(n >= 60, 'kernels of the operators')
    arity(ctx, O)
    ctx.rule('collects', 'a reduction or search hands on its operand and axis, with the function it is named for')
    for o in O:
        if o.name in COLLECT:
            for pa in o.paths:
                if pa.out == 'ret' and opcall(pa.val)[0]:
                    ctx.ob('collects', o.where, collected(pa, o, pa.val)[0], '%s collects with its own function: %s' % (o.id, show(pa.val)[:120]), key='collects@' + o.id, detail=pa.where())


def arity(ctx, O):
    """a kernel runs for as many operands as its node has, and stops only for a probability outside 0 to 1"""
    ctx.rule('runs', 'a kernel runs for the operands its node has; only a probability that is none stops it')
    for o in O:
        ks = {}
        for r in runs(ctx, o):
            n = len(r.nd.operands or ())
            fs = [(a, v) for a, v in r.st.facts.items() if a not in r.pa.facts]
            ok = all(holds(a, n) in (v, None) for a, v in fs if ('size', ('par', 'srcs')) in a[1:])
            ks.setdefault(r.nd.kernel, []).append(ok and not any(e.k in ('throw', 'abort') for e in r.ev[-1:]))
            for lp in r.loops:
                for kind, s, sub in lp.paths:
                    if kind in ('throw', 'abort'):
                        new = [(a, v) for a, v in s.facts.items() if a not in r.st.facts]
                        out = any(v and a[0] == 'lt' and (a[2] == ('lit', 0) or a[1] == ('lit', 1)) for a, v in new if 'srcs' in repr(a))
                        ctx.ob('runs', o.where, o.name == 'binomial_sample' and out, '%s stops at elements it should take: %s' % (o.id, [showatom(a, v)[:80] for a, v in new][-1:]),
                               key='runs@' + o.id)
        for k, got in ks.items():
            ctx.ob('runs', o.where, any(got), '%s stops for the operands its node has' % o.id, key='runs@' + o.id)


def holds(a, n):
    """a fact about the number of operands, when there are n"""
    x = [n if t == ('size', ('par', 'srcs')) else t[1] if t[0] == 'lit' else None for t in a[1:]]
    if None in x:
        return None
    return x[0] == x[1] if a[0] == 'eq' else x[0] < x[1] if a[0] == 'lt' else bool(x[0]) if a[0] == 'nz' else None


def operands(ctx, o, r):
    args = o.nodes_p
    if o.name == 'clip_norm':
        nm, ops = opcall(r.nd.operands[0]) if r.nd.operands else (None, ())
        ok = r.nd.operands is not None and len(r.nd.operands) == 2 and nm == 'l2norm' and ops == (P_(args[0]),) and r.nd.operands[1] == P_(args[0])
    elif o.name == 'matmul':
        ok = matmul_operands(r)
    else:
        ok = r.nd.operands == tuple(P_(a) for a in args)
    ctx.ob('operands', o.where, ok, 'the node of %s is built over %s' % (o.id, ', '.join(show(x)[:40] for x in r.nd.operands or ())),
           key='operands@%s' % o.id, detail=r.pa.where())


def kernel(ctx, o, r):
    r.facts = {canon(a, r.ip, r.st): v for a, v in r.st.facts.items()}
    if o.name in ROWS:
        return ROWS[o.name](ctx, o, r)
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    cs, cnt = cs
    if '_axial_' in o.name:
        return axial(ctx, o, r, cs)
    n = len(o.nodes_p)
    P = [p['n'] for p in o.params]
    big = 7
    for size_ in ([(big,)] if n == 1 else [(big, big), (1, big), (big, 1), (1, 1)]):
        out = max(size_)
        env = {('n', ('ins', k)): s for k, s in enumerate(size_)}
        env[('n', ('outs',))] = out
        sc = Scen(env)
        if not sc.holds(r.facts):
            continue
        for f, v, lp in cs:
            if not sc.holds(f):
                continue
            bad = []

            def leaf(t):
                if t[0] == 'at' and t[1][0] == 'src':
                    i = sc.simp(t[2])
                    k = t[1][1]
                    if k < n and (i == IX and (size_[k] > 1 or out == 1) or i == ('lit', 0) and size_[k] == 1):
                        return ratf.sym(o.nodes_p[k])
                    bad.append(t)
                    return ratf.sym('?' + repr(t))
                return None
            m = Meaning11(o, r.pa, r.ev, extra=leaf, fix=lambda t: canon(subst_free(t, -1, lambda x: IX if x == ('idx', 1) else None), r.ip, r.st))
            if o.name in ('clip_val',):
                continue
            got = m.of(sc.simp(v))
            sp = fullspec(o)
            ctx.ob('place', o.where, not bad, '%s reads element %s' % (o.id, show(bad[0])[:80] if bad else ''), key='place@' + o.id, detail=r.pa.where())
            if bad:
                continue
            sub = facts_subst(o, r.pa)
            ctx.ob('element', o.where, sp is not None and ratf.subst(got, sub).same(ratf.subst(sp, sub)),
                   'an element of %s is %s' % (o.id, show(v)[:160]), key='element@' + o.id, detail=r.pa.where())
    if o.name == 'clip_val':
        by_cases(ctx, o, r, cs, 0)


def by_cases(ctx, o, r, cs, k):
    bad = [t for f, v, lp in cs for t in subterms(v) if t[0] == 'at' and t[1][0] == 'src' and t[2] != IX and t[1] != ('src', 1 - k)]
    ctx.ob('place', o.where, not bad, '%s reads element %s' % (o.id, show(bad[0])[:80] if bad else ''), key='place@' + o.id)
    names, spec_, leaf0 = pieces(o, lambda t: t == ('at', ('src', k), IX), lambda t: False)

    def leaf(t):
        if k == 1 and t == ('at', ('src', 0), ('lit', 0)):
            return ratf.sym('norm')
        return leaf0(t)
    ok, why = same_by_cases([(f, v) for f, v, lp in cs], leaf, names, spec_, r.pa)
    ctx.ob('element', o.where, ok, '%s: %s' % (o.id, why), key='element@' + o.id, detail=r.pa.where())


def clip_norm(ctx, o, r):
    cs = r.cases()
    if written(ctx, o, r, cs):
        by_cases(ctx, o, r, cs[0], 1)


def l2norm(ctx, o, r):
    v = canon(r.dest, r.ip, r.st)
    ok = v[0] == 'upd' and v[2] == ('lit', 0) and v[3][0] == 'fn' and v[3][1] == 'sqrt'
    if ok:
        t = v[3][2]
        ok = sumsq(t, lambda x: x == ('src', 0)) and t[4] == ('n', ('ins', 0))
    ctx.ob('element', o.where, ok, 'l2norm writes %s' % show(v)[:160], key='element@' + o.id)


def written(ctx, o, r, cs):
    return ctx.ob('every-element', o.where, cs is not None and iscount(cs[1]),
                  '%s writes %s' % (o.id, show(r.dest)[:160] if cs is None else show(cs[1])[:60] + ' elements'), key='every-element@' + o.id, detail=r.pa.where())


def iscount(c):
    if c == ('n', ('outs',)):
        return True
    # bytes
    return c[0] == 'op' and c[1] == '*' and ('n', ('outs',)) in c[2:] and any(x[0] == 'sizeof' for x in c[2:])


# ---------------------------------------------------------------- axial operators
# (shape of the result, axis, shapes the axial operand may be given with)
AXIAL = [((4, 3, 5), 0, [(3, 5)]), ((4, 3, 5), 1, [(4, 1, 5)]), ((4, 3, 5), 2, [(4, 3)]), ((3, 4), 0, [(4,)]), ((3, 4), 1, [(3,)]),
         ((1, 3, 2), 2, [(1, 3), (3,), (3, 1)]), ((2, 1, 3), 0, [(1, 3), (3,)]), ((2, 3, 1), 0, [(3, 1), (3,), (1, 3)]),
         ((1, 3, 4), 1, [(1, 1, 4), (4,)]), ((4, 3, 1), 1, [(4, 1, 1), (4,)]), ((2, 3, 4, 5), 1, [(2, 1, 4, 5)]), ((2, 3, 4, 5), 2, [(2, 3, 1, 5)])]


def count(l):
    n = 1
    for x in l:
        n *= x
    return n


def axials():
    """[(shape of the result, axis, shape of the axial operand, shape of the other)]"""
    out = []
    for R, k, As in AXIAL:
        one = [(1,) * n for n in (1, len(R))]
        out += [(R, k, A, R) for A in As]
        # an operand of one element stands for all places, on either side
        out += [(R, k, A, R) for A in one] + [(R, k, R, B) for B in one]
    out += [((1,), 0, (1,), (1,)), ((1, 1), 1, (1, 1), (1,))]
    # along an axis of extent one nothing is left out
    out += [((1, 4), 0, (4,), (1, 4)), ((4, 1), 1, (4,), (4, 1))]
    return out


def axial(ctx, o, r, cs):
    side = 0 if o.name.endswith('_a') else 1
    ax = P_(o.params[2]['n'])
    sp = fullspec(o)
    for R, k, A, B in axials():
        lists = {('ins', side): list(A), ('ins', 1 - side): list(B), ('outs',): list(R)}
        sc = Shapes(lists, {ax: k})
        if not sc.holds(r.facts):
            continue
        # the element of the axial operand that belongs to each place
        w = list(R)
        w[k] = 1
        n = count(R)
        for f, v, lp in cs:
            if not sc.holds(f):
                continue
            r.o_served.add((R, k, A, B))
            bad = []

            def leaf(t):
                if t[0] == 'at' and t[1][0] == 'src':
                    i = t[1][1]
                    L = A if i == side else B
                    for pos in range(n):
                        sp_ = Shapes(lists, {ax: k}, pos)
                        c = sp_.vec(('coord', ('outs',), IX))
                        c[k] = 0
                        want = 0 if count(L) == 1 else pos if count(L) == n else Shapes({('outs',): w}, {}).num(
                            ('flat', ('outs',), ('seq', tuple(('lit', x) for x in c))))
                        if sp_.num(t[2]) != want:
                            bad.append(t)
                            return ratf.sym('?' + repr(t))
                    return ratf.sym(o.nodes_p[i])
                return None
            m = Meaning11(o, r.pa, r.ev, extra=leaf, fix=lambda t: canon(subst_free(t, -1, lambda x: IX if x == ('idx', 1) else None), r.ip, r.st))
            got = m.of(v)
            ctx.ob('place', o.where, not bad, '%s, an axial operand of shape %s along axis %d of %s, reads %s' % (
                o.id, list(A), k, list(R), show(bad[0])[:160] if bad else ''), key='place@' + o.id, detail=r.pa.where())
            if not bad:
                sub = facts_subst(o, r.pa)
                ctx.ob('element', o.where, ratf.subst(got, sub).same(ratf.subst(sp, sub)),
                       'an element of %s is %s' % (o.id, show(v)[:160]), key='element@' + o.id, detail=r.pa.where())


def c(k):
    return ('c', ('outs',), IX, k)


# ---------------------------------------------------------------- operators that move elements
def reads(ctx, o, r, sc, v, want, R, what, lp=None):
    """v is the element of operand 0 at the coordinate `want`"""
    co = Coord(r, sc, lp)
    ok = v[0] == 'at' and v[1] == ('src', 0)
    if ok and v[2] == IX:
        got = [c(j) for j in range(R)]
    elif ok and v[2][0] == 'flat' and v[2][1] == ('ins', 0):
        got = [norm(co.comp(v[2][2], j)) for j in range(R)]
    else:
        got = None
    return ctx.ob('place', o.where, got == [norm(w) for w in want], '%s, %s, reads %s' % (o.id, what, show(v)[:200]), key='place@' + o.id,
                  detail=r.pa.where())


def norm(t):
    """dimensions by number"""
    return t


def transpose(ctx, o, r):
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    ax = P_(o.params[1]['n'])
    R = 3
    for x in range(5):
        for y in range(5):
            env = {('fld', ax, 'first'): x, ('fld', ax, 'second'): y, ('rank', ('ins', 0)): R, ('rank', ('outs',)): max(R, x + 1, y + 1)}
            sc = Scen(env)
            if not sc.holds(r.facts):
                continue
            want = [c(y if k == x else x if k == y else k) for k in range(R)]
            for f, v, lp in cs[0]:
                if sc.holds(f):
                    reads(ctx, o, r, sc, v, want, R, 'axes %d and %d' % (x, y), lp)


def extend(ctx, o, r):
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    ix = P_(o.params[1]['n'])
    R = 3
    for a in range(5):
        env = {ix: a, ('rank', ('ins', 0)): R, ('rank', ('outs',)): max(R, a + 1)}
        sc = Scen(env)
        if not sc.holds(r.facts):
            continue
        want = [('op', '%', c(k), ('dim', ('ins', 0), ix)) if k == a else c(k) for k in range(R)]
        for f, v, lp in cs[0]:
            if sc.holds(f):
                reads(ctx, o, r, sc, v, want, R, 'axis %d of %d' % (a, R), lp)


def fit(ctx, o, r):
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    zero = False
    for f, v, lp in cs[0]:
        if v == ('lit', 0):
            zero = True
            continue
        sc = Scen({('rank', ('outs',)): 3})
        reads(ctx, o, r, sc, v, [c(k) for k in range(3)], 3, 'within the operand', lp)
    ctx.ob('element', o.where, zero, 'fit fills with zero outside the operand', key='fit-zero@' + o.id)
    for f, v, lp in cs[0]:
        for a, x in f.items():
            if a[0] == 'nz' and any(t[0] in ('cmp', 'eq', 'lt') for t in subterms(a)):
                ok, why = inbounds(r, a[1], lp)
                ctx.ob('place', o.where, ok and x == (v != ('lit', 0)), 'fit: %s' % why, key='fit-inside@' + o.id, detail=r.pa.where())


def inbounds(r, t, lp):
    """the condition that the coordinate lies in the operand: below its extent in each of its dimensions, zero in the others"""
    cmps = [x for x in subterms(t) if x[0] in ('cmp', 'lt', 'eq')]
    coord_ = ('coord', ('outs',), IX)
    ranks = [canon(('fn', 'min', a, b)) for q in (('ins', 1), ('outs',)) for a, b in
             ((('rank', q), ('rank', ('ins', 0))), (('rank', ('ins', 0)), ('rank', q)))]
    below = zero = False
    for x in cmps:
        ops = x[1:] if x[0] in ('lt', 'eq') else x[2:]
        kind = '<' if x[0] == 'lt' or x[0] == 'cmp' and x[1] in '<>' else '==' if x[0] == 'eq' or x[1] in ('==', '!=') else x[1]
        if x[0] == 'cmp' and x[1] == '>':
            ops = ops[::-1]
        if kind == '<' and ops[0][0] == 'at' and ops[0][1] == coord_:
            below = below or ops[1] == ('dim', ('ins', 0), ops[0][2])
        if kind == '==' and ('lit', 0) in ops:
            zero = zero or any(y[0] == 'at' and y[1] == coord_ for y in ops)
    if not below:
        return False, 'nothing keeps the coordinate below the extents of the operand'
    if not zero:
        return False, 'nothing keeps the coordinate at zero in the dimensions the operand has not'
    total, n1 = ZERO, None
    for x in subterms(t):
        if x[0] != 'last':
            continue
        if not any(e.depth == x[2] and any(l[0] == 'v' and w[0] == 'last' and canon(subst_free(w, -1, lambda y: IX if y == ('idx', 1) else None), r.ip, r.st) == x and
                                           stops(e, l) for l, w in e.d['V'].items()) for e in lp):
            return False, 'a dimension outside the operand is forgotten for the next'
        total = iadd(total, x[3])
        off = [y for y in subterms(x[4]) if y[0] == 'at' and y[1] == coord_]
        if off and off[0][2] == ('idx', x[2]):
            n1 = x[3]
    if total != ZERO and canon(total) not in (('rank', ('outs',)), ('rank', ('ins', 1))):
        return False, '%s dimensions are looked at' % show(total)
    if n1 is not None and n1 not in ranks and n1 != canon(total):
        return False, 'the extents of %s dimensions are looked at' % show(n1)
    return True, ''


def stops(e, loc):
    for s in e.d.get('stop') or ():
        st = s[0]
        if st.facts.get(('nz', ('phi', e.depth, loc))) is False:
            return True
    # or the value itself takes the previous one in
    return False


def flip(ctx, o, r):
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    dims = P_(o.params[1]['n'])
    for f, v, lp in cs[0]:
        ok = v[0] == 'at' and v[1] == ('src', 0) and v[2][0] == 'flat' and v[2][1] == ('ins', 0)
        x = v[2][2] if ok else None
        why = show(v)[:200]
        ok = ok and x[0] == 'loopv' and x[2] == ('coord', ('outs',), IX) and x[4] == ('size', dims)
        if ok:
            ok = False
            for e in r.loops:
                if e.depth != x[1] or not any(show(w) for w in ()) and e.hi != ('size', dims):
                    continue
                for loc, w in e.d['V'].items():
                    if canon(subst_free(w, e.depth, lambda t: IX if t == ('idx', e.depth - 1) else None), r.ip, r.st) != x:
                        continue
                    ok, seen = True, set()
                    d = ('at', dims, ('idx', e.depth))
                    for inside in (True, False):
                        sc = Scen({d: 1 if inside else 5, ('rank', ('outs',)): 3, ('size', ('phi', e.depth, loc)): 3, ('rank', ('ins', 0)): 3})
                        for kind, s, sub in e.paths:
                            if kind != 'next':
                                ok = False
                                continue
                            fs = {canon(a, r.ip, s): b for a, b in s.facts.items()}
                            if not sc.holds(fs):
                                continue
                            w = canon(s.env.get(loc), r.ip, s)
                            ph = ('phi', e.depth, loc)
                            if inside:
                                want = isub(isub(('dim', ('outs',), d), ONE), ('at', ph, d))
                                want2 = isub(isub(('dim', ('ins', 0), d), ONE), ('at', ph, d))
                                ok = ok and w is not None and w[0] == 'upd' and w[1] == ph and w[2] == d and w[3] in (canon(want), canon(want2))
                            else:
                                ok = ok and w in (ph, None)
                            seen.add(inside)
                    ok = ok and seen == {True, False}
                    why = 'not mirrored along each of the dimensions'
        ctx.ob('place', o.where, ok, 'flip reads %s' % why, key='place@' + o.id, detail=r.pa.where())


# ---------------------------------------------------------------- operators that gather
def dropped(R, a):
    """rank of the output when the axis is removed"""
    return R if R == 1 or a not in (0, R - 1) else R - 1


def along(R, a, j):
    """coordinate of the operand with the axis at j"""
    if R == 1:
        return [j]
    if a == 0:
        return [j] + [c(k) for k in range(R - 1)]
    return [c(k) if k != a else j for k in range(R)]


def as_acc(v):
    """(init, depth, count, body of ('prev',)) of an accumulation"""
    if v[0] == 'acc':
        return v[1], v[2], v[3], v[4]
    if v[0] == 'loopv' and len(v[3]) == 1:
        return v[2], v[1], v[4], v[3][0]
    if v[0] == 'fold':
        return v[2], v[3], v[4], ('op', v[1], ('prev',), v[5])
    return None


def comps(co, v, R):
    if v[0] == 'at' and v[1][0] == 'src' and v[2][0] == 'flat' and v[2][1] == ('ins', v[1][1]):
        return [co.comp(v[2][2], j) for j in range(R)]
    return None


def compress(ctx, o, r):
    ix = P_(o.params[2]['n'])
    col = P_(o.params[1]['n'])
    given = r.pa.facts.get(('nz', ix))
    if given is None:
        given = r.pa.facts.get(('has', ix))
    if not given:
        v = canon(r.dest, r.ip, r.st)
        empty = r.facts.get(('nz', ('n', ('ins', 0)))) is False
        if empty:
            return
        ok = v[0] == 'upd' and v[2] == ('lit', 0)
        acc = as_acc(v[3]) if ok else None
        ok = acc is not None
        if ok:
            e0, d, cnt, body = acc
            ok = e0 == ('at', ('src', 0), ('lit', 0)) and cnt == isub(('n', ('ins', 0)), ONE) and \
                callof(body, col, (('prev',), ('at', ('src', 0), iadd(('idx', d), ONE))))
        ctx.ob('element', o.where, ok, '%s without an axis collects %s' % (o.id, show(v)[:160]), key='element-all@' + o.id)
        return
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    for R in (1, 3):
        for a in range(5):
            env = {('oget', ix): a, ('rank', ('ins', 0)): R, ('rank', ('outs',)): dropped(R, a) if a < R else R}
            sc = Scen(env)
            if not sc.holds(r.facts):
                continue
            for f, v, lp in cs[0]:
                if not sc.holds(f):
                    continue
                what = 'axis %d of %d' % (a, R)
                if a >= R:
                    reads(ctx, o, r, sc, v, [c(k) for k in range(R)], R, what, lp)
                    continue
                acc = as_acc(v)
                ok = acc is not None
                if ok:
                    e0, d, cnt, body = acc
                    co = Coord(r, sc, lp)
                    ok = comps(co, e0, R) == along(R, a, ('lit', 0))
                    ok = ok and cnt == isub(('dim', ('ins', 0), ('oget', ix)), ONE)
                    args = callargs(body, col)
                    ok = ok and args is not None and args[0] == ('prev',) and comps(co, args[1], R) == along(R, a, iadd(('idx', d), ONE))
                ctx.ob('place', o.where, ok, '%s, %s, collects %s' % (o.id, what, show(v)[:200]), key='place@' + o.id, detail=r.pa.where())


def callargs(t, fn):
    while t[0] in ('i2f', 'cast'):
        t = t[-1]
    if t[0] == 'res' and t[2] == 'icall' and t[3] == fn:
        return t[4:]
    return None


def callof(t, fn, args):
    return callargs(t, fn) == tuple(args)


def arg_compress(ctx, o, r):
    ix = P_(o.params[2]['n'])
    fn = P_(o.params[1]['n'])
    given = r.pa.facts.get(('nz', ix))
    if not given:
        v = canon(r.dest, r.ip, r.st)
        ok = v[0] == 'upd' and v[2] == ('lit', 0)
        ok = ok and callof(v[3], fn, (('slice', ('src', 0), ('lit', 0), ('n', ('ins', 0))),))
        ctx.ob('element', o.where, ok, '%s without an axis searches %s' % (o.id, show(v)[:160]), key='element-all@' + o.id)
        return
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    for R in (1, 3):
        for a in range(R):
            env = {('oget', ix): a, ('rank', ('ins', 0)): R, ('rank', ('outs',)): dropped(R, a)}
            sc = Scen(env)
            if not sc.holds(r.facts):
                continue
            for f, v, lp in cs[0]:
                if not sc.holds(f):
                    continue
                args = callargs(v, fn)
                ok = args is not None and args[0][0] == 'gen' and size(args[0][1]) == ZERO and args[0][3] == ('dim', ('ins', 0), ('oget', ix))
                if ok:
                    g = args[0]
                    ok = comps(Coord(r, sc, lp), g[4], R) == along(R, a, ('idx', g[2]))
                ctx.ob('place', o.where, ok, '%s, axis %d of %d, searches %s' % (o.id, a, R, show(v)[:200]), key='place@' + o.id, detail=r.pa.where())


def cross(ctx, o, r):
    cs = r.cases()
    if not written(ctx, o, r, cs):
        return
    dm = P_(o.params[2]['n'])
    p, q = ('fld', dm, 'first'), ('fld', dm, 'second')
    R = 3
    for x in range(R):
        for y in range(R):
            if x == y:
                continue
            for R2 in (max(x, y) + 1, R):
                env = {p: x, q: y, ('rank', ('ins', 0)): R, ('rank', ('outs',)): R, ('rank', ('ins', 1)): R2}
                sc = Scen(env)
                for f, v, lp in cs[0]:
                    co = Coord(r, sc, lp)
                    if not sc.holds(f):
                        continue
                    ok, why = correlates(sc, co, v, p, q, x, y, R, R2)
                    ctx.ob('place', o.where, ok, '%s along %d and %d: %s' % (o.id, x, y, why), key='place@' + o.id, detail=r.pa.where())


def correlates(sc, co, v, p, q, x, y, R, R2):
    a1 = as_acc(v)
    if a1 is None:
        return False, 'not a sum: ' + show(v)[:120]
    e0, d1, n1, body = a1
    a2 = as_acc(body)
    if a2 is None:
        return False, 'not a double sum: ' + show(v)[:120]
    e1, d2, n2, b2 = a2
    if e0 != ('lit', 0) or e1 != ('prev',):
        return False, 'starts at ' + show(e0)[:60]
    ext = lambda d: (iadd(isub(('dim', ('ins', 0), d), ('dim', ('outs',), d)), ONE), ('dim', ('ins', 1), d))
    i1, i2 = ('idx', d1), ('idx', d2)
    if n1 in map(canon, ext(p)) and n2 in map(canon, ext(q)):
        at_ = {x: i1, y: i2}
    elif n1 in map(canon, ext(q)) and n2 in map(canon, ext(p)):
        at_ = {x: i2, y: i1}
    else:
        return False, 'sums over %s and %s' % (show(n1)[:80], show(n2)[:80])
    want0 = [canon(iadd(c(k), at_[k])) if k in at_ else c(k) for k in range(R)]
    want1 = [at_.get(k, ('lit', 0)) for k in range(R2)]
    bad = []

    def leaf(t):
        if t == ('prev',):
            return ratf.sym('prev')
        if t[0] == 'at' and t[1][0] == 'src':
            k = t[1][1]
            g = comps(co, t, R if k == 0 else R2)
            if g == (want0 if k == 0 else want1):
                return ratf.sym('s%d' % k)
            bad.append((t, g))
        return None
    f = Meaning(leaf).of(b2)
    if bad:
        return False, 'reads %s' % show(bad[0][0])[:160]
    return f.same(ratf.sym('prev') + ratf.sym('s0') * ratf.sym('s1')), 'adds %s' % show(b2)[:120]


def matmul_operands(r):
    """each operand is the parameter, or its transpose where that is asked for"""
    o = r.op
    if r.nd.operands is None or len(r.nd.operands) != 2:
        return False
    for k in (0, 1):
        x, t = P_(o.params[k]['n']), r.nd.operands[k]
        asked = r.pa.facts.get(('nz', P_(o.params[2 + k]['n'])))
        if asked is None:
            return False
        if not asked:
            if t != x:
                return False
            continue
        nm, args = opcall(t)
        if nm == 'transpose' and args[0] == x and pair01(args[1]):
            continue
        if t[0] == 'res' and isinstance(t[2], str) and lname(t[2]) == 'unary_parent_search' and t[3] == x and t[4] == ('str', 'transpose_0_1') \
                and r.pa.facts.get(('nz', t)):
            continue
        return False
    return True


def pair01(t):
    if t[0] == 'struct':
        v = [x for n, x in t[2]]
        return sorted(v) == [('lit', 0), ('lit', 1)]
    return t[0] == 'seq' and sorted(t[1]) == [('lit', 0), ('lit', 1)]


def matmul(ctx, o, r):
    """dest[x + X y + X Y b] = sum over z of A[z + Z y + Z Y b] B[x + X z + X Z b] for every x < X, y < Y, b"""
    def flat(t):
        return subst(t, lambda x: flat(x[1][1][1][x[2][1]]) if x[0] == 'at' and x[1][0] == 'memof' and x[1][1][0] == 'seq' and
                     x[2][0] == 'lit' else None)
    v = flat(canon(r.dest, r.ip, r.st))
    Z, X = ('dim', ('ins', 0), ('lit', 0)), ('dim', ('ins', 1), ('lit', 0))
    low = r.facts.get(('lt', ('rank', ('ins', 0)), ('lit', 2)))
    if low is None:
        return ctx.ob('element', o.where, False, 'matmul does not tell vectors from matrices', key='element@' + o.id)
    Y = ('lit', 1) if low else ('dim', ('ins', 0), ('lit', 1))
    size_ = {'x': X, 'y': Y, 'z': Z}
    over, why = {}, None
    batch = [canon(('op', '/', ('n', ('ins', 0)), q)) for q in ([Z] if low else [('op', '*', Z, Y), ('op', '*', Y, Z)])]

    def role(d, n):
        nm = 'b' if n in batch else [k for k, s in size_.items() if s == n]
        nm = nm if isinstance(nm, str) else nm[0] if len(nm) == 1 else None
        if nm is None or nm in over.values():
            return False
        over[d] = nm
        return True

    def peel(t):
        """down to the accumulation"""
        if t[0] == 'loopv' and len(t[3]) == 1 and t[3][0][0] == 'loopv' and t[3][0][2][0] in ('prev', 'upd') and t[2][0] in ('prev', 'memof'):
            return peel(t[3][0]) if role(t[1], t[4]) else None
        if t[0] == 'loopv' and len(t[3]) == 1 and t[3][0][0] == 'upd' and t[2][0] == 'upd' and t[2][1] == ('prev',):
            if not role(t[1], t[4]) or over[t[1]] != 'z':
                return None
            i0, i1 = t[2][2], t[3][0][2]
            if i0 != i1 or t[3][0][1] != ('prev',):
                return None
            return i0, t[2][3], subst(t[3][0][3], lambda x: ('prev',) if x[0] == 'at' and x[1] == ('prev',) and x[2] == i1 else None)
        if t[0] == 'loopv' and len(t[3]) == 1 and t[3][0][0] in ('upd', 'scatter', 'map', 'gen') and t[3][0][1] == ('prev',) or \
                t[0] in ('scatter', 'map'):
            if t[0] == 'loopv':
                if not role(t[1], t[4]):
                    return None
                if t[3][0][0] == 'upd':
                    i, el = t[3][0][2], t[3][0][3]
                else:
                    return peel(t[3][0])
            else:
                n = t[3]
                if not role(t[2], n):
                    return None
                i, el = (t[4], t[5]) if t[0] == 'scatter' else (('idx', t[2]), t[4])
            acc = as_acc(el)
            if acc is None or not role(acc[1], acc[2]) or over[acc[1]] != 'z':
                return None
            return i, acc[0], acc[3]
        return None

    def poly(t):
        def leaf(x):
            if x[0] == 'idx' and x[1] in over:
                return ratf.sym(over[x[1]])
            if x[0] == 'dim':
                return ratf.sym(repr(x))
            return None
        return Meaning(leaf).of(t)
    got = peel(v)
    if got is None:
        return ctx.ob('element', o.where, False, 'matmul computes %s' % show(v)[:300], key='element@' + o.id)
    i, e0, body = got
    S = lambda n: ratf.sym(n)
    D = {k: ratf.num(1) if s == ('lit', 1) else ratf.sym(repr(s)) for k, s in size_.items()}
    row = ratf.num(0) if low and 'y' not in over.values() else S('y')
    lin = lambda a, A, b, B: a + A * b + A * B * S('b')
    ok = {'x', 'z', 'b'} <= set(over.values()) and ('y' in over.values() or low)
    ctx.ob('every-element', o.where, ok and poly(i).same(lin(S('x'), D['x'], row, D['y'])), 'matmul writes element %s' % show(i)[:200],
           key='every-element@' + o.id, detail=r.pa.where())
    bad = []

    def leaf(t):
        if t == ('prev',):
            return S('prev')
        if t[0] == 'at' and t[1][0] == 'src':
            want = lin(S('z'), D['z'], row, D['y']) if t[1][1] == 0 else lin(S('x'), D['x'], S('z'), D['z'])
            if poly(t[2]).same(want):
                return S('s%d' % t[1][1])
            bad.append(t)
            return S('?')
        return None
    f = Meaning(leaf).of(body)
    ctx.ob('place', o.where, not bad, 'matmul reads %s' % (show(bad[0])[:240] if bad else ''), key='place@' + o.id, detail=r.pa.where())
    if not bad:
        ctx.ob('element', o.where, e0 == ('lit', 0) and f.same(S('prev') + S('s0') * S('s1')), 'matmul sums %s from %s' % (show(body)[:160], show(e0)),
               key='element@' + o.id, detail=r.pa.where())


ROWS.update(transpose=transpose, extend=extend, fit=fit, flip=flip, compress=compress, arg_compress=arg_compress, cross_corr2d=cross,
            matmul=matmul, l2norm=l2norm, clip_norm=clip_norm)
