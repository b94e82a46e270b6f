"""C12: gradients follow the rules of differentiation."""
from ops import *
from edges import THIS
from elem import allloops, subterms

ARGS = ('par', 'args')
# operators whose gradient is a convention (steps, selections, samples, lengths), not the derivative of what they compute
CONVENTION = set('round clip_val l2norm clip_norm conditional eq neq binomial_sample fit extend compress arg_compress cross_corr2d'.split())
ONE_, ZERO_ = 'get_shared_one', 'get_shared_zero'


def pair(k, side):
    return ('fld', ('at', ARGS, ('lit', k)), side)


def check(ctx):
    ctx.explain = ('the gradient of every operator node against the derivative of the function the operator stands for, in every operand, the '
                   'axes along which operands are combined, the factors a matrix product and an axial operator add for the shape of a leaf, '
                   'and the functions that put the gradient of a graph together from those of its nodes')
    ctx.rule('derivative', 'the gradient of a node is the sum over its operands of the derivative in that operand times the operand\'s gradient')
    ctx.rule('along', 'in the gradient of an axial operator, operands without the axis meet operands with it only along that axis, and the result has it')
    ctx.rule('moved', 'the gradient of an operator that moves elements is the gradient of the operand moved the same way')
    ctx.rule('grouped', 'the gradient of a reduction is grouped by its dimension, and operands grouped by different dimensions meet along the dimension')
    ctx.rule('kept', 'what is grouped by a dimension stays so through every element by element operator')
    ctx.rule('product', 'a matrix product adds to each operand\'s gradient the product of what is above it with the other operand transposed, turned back for a transposed operand')
    ctx.rule('axial-sum', 'an axial operator sums along its axis what is above it for the variables of the operand without the axis')
    ctx.rule('leaf', 'a variable has gradient one in itself and zero in everything else; constants, placeholders and generated values have zero')
    ctx.rule('chain', 'the gradient of a node in a variable is made of every operand with that operand\'s gradient in the variable, kept for it, zero when the node does not depend on it, and passed through the factors of the node from the last')
    ctx.rule('factors', 'factors are added for the variables given, before or after those inherited, and inherited from the operands; where operands bring different ones each is applied to its own')
    n = 0
    for o in operators(ctx):
        for pa in o.paths:
            grouping(ctx, o, pa)
            kept(ctx, o, pa)
            for nd in pa.nodes:
                if nd.back is None or o.name in CONVENTION:
                    if nd.back is not None and o.name == 'compress':
                        compress(ctx, o, pa, nd)
                    continue
                n += 1
                node(ctx, o, pa, nd)
                factors(ctx, o, pa, nd)
    ctx.need(n >= 40, 'operators with gradients')
    for c in sorted(CONVENTION):
        ctx.undecide('%s: its gradient is a convention of the library' % c)
    leaves(ctx)
    chain(ctx)
    constants(ctx)


def gradsym(o):
    """operands and their gradients as symbols"""
    def leaf(t):
        for k, nme in enumerate(o.nodes_p):
            if t == pair(k, 'first'):
                return ratf.sym(nme)
            if t == pair(k, 'second'):
                return ratf.sym("d" + nme)
        if t[0] == 'par' and t[1] in [p['n'] for p in o.params]:
            return ratf.sym(t[1])
        return None
    return leaf


def only_sym(f):
    """the symbol a form is, or None"""
    s = ratf.simp(f)
    if s.d == ratf.ONE and len(s.n) == 1:
        (m, c), = s.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'x':
            return m[0][0][1]
    return None


def known(leaf, facts, base):
    """what decisions taken inside a gradient say about the symbols"""
    m = dict(base)
    for a, v in facts.items():
        if a[0] == 'nz' and v and a[1][0] in ('res', 'mfn') and lname(str(a[1][2 if a[1][0] == 'res' else 1])) == 'operator==':
            ops = a[1][3:] if a[1][0] == 'res' else a[1][2:]
            if len(ops) == 2 and ops[1][0] == 'lit':
                y = ops[0]
                while y[0] in ('deref', 'dyn', 'cast', 'refof'):
                    y = y[-1]
                x = leaf(y)
                if x is not None and only_sym(x):
                    m[only_sym(x)] = ratf.num(Fr(ops[1][1]))
    return m


def node(ctx, o, pa, nd):
    leaf = gradsym(o)
    try:
        rs = apply(pa, nd.back, [ARGS])
    except Exception as e:
        ctx.need(False, 'the gradient of %s (%s)' % (o.id, e))
    for st, v, ev in rs:
        if ev and ev[-1].k in ('throw', 'abort'):
            continue
        if o.name in ('transpose', 'flip'):
            moved(ctx, o, v)
            continue
        if o.name == 'matmul':
            nm, ops = opcall(v)
            ok = nm == 'eq' and ops[0] == ops[1] and opcall(ops[0])[0] == 'matmul' and opcall(ops[0])[1][:2] == (pair(0, 'first'), pair(1, 'first')) \
                and all(x == ('lit', False) for x in opcall(ops[0])[1][2:])
            ctx.ob('product', o.where, ok, 'the gradient of matmul before its factors is a matrix of ones: %s' % show(v)[:120], key='ones@matmul', detail=pa.where())
            continue
        sp = spec(o)
        if sp is None or v is None:
            ctx.fail('derivative', o.where, 'the gradient of %s is %s' % (o.id, show(v)[:120] if v else v), key='derivative@' + o.id)
            continue
        sub = known(leaf, st.facts, facts_subst(o, pa))
        want = ratf.num(0)
        for nme in o.nodes_p:
            want = want + ratf.diff(sp, nme) * ratf.sym('d' + nme)
        got = Meaning(leaf, pa).of(v)
        ctx.ob('derivative', o.where, ratf.subst(got, sub).same(ratf.subst(want, sub)),
               'the gradient of %s is %s' % (o.id, show(v)[:200]), key='derivative@' + o.id, detail=pa.where())
        if '_axial_' in o.name:
            k, why = along(o, v, pa)
            ctx.ob('along', o.where, k == 'full', 'the gradient of %s: %s' % (o.id, why or 'it lacks the axis'), key='along@' + o.id, detail=show(v)[:300])


def along(o, v, pa):
    red = 0 if o.name.endswith('_a') else 1
    axis = ('par', [p['n'] for p, k in zip(o.params, o.kinds) if k == 'o'][0])

    def go(t):
        if t[0] in ('lit', 'lin', 'fop') or t[0] == 'par':
            return 'any', None
        for k in (0, 1):
            if t in (pair(k, 'first'), pair(k, 'second')):
                return ('red' if k == red else 'full'), None
        nm, ops = opcall(t)
        if nm is None:
            return 'any', None
        if '_axial_' in nm:
            a, b = go(ops[0]), go(ops[1])
            if a[1] or b[1]:
                return None, a[1] or b[1]
            w = ('red', 'full') if nm.endswith('_a') else ('full', 'red')
            if a[0] not in (w[0], 'any') or b[0] not in (w[1], 'any'):
                return None, 'an operand %s the axis is on the wrong side of %s' % ('without' if a[0] == 'red' or w[0] == 'red' else 'with', nm)
            if ops[2] != axis:
                return None, '%s goes along another axis' % nm
            return 'full', None
        ks = []
        for x in ops:
            if isinstance(x, tuple) and x and (opcall(x)[0] or x[0] == 'fld'):
                k, why = go(x)
                if why:
                    return None, why
                ks.append(k)
        ks = {k for k in ks if k != 'any'}
        if len(ks) > 1:
            return None, '%s combines operands with and without the axis' % nm
        return (ks.pop() if ks else 'any'), None
    return go(v)


def both(t):
    return {fld_of(t, 'first'), fld_of(t, 'second')}


def fld_of(t, n):
    if t[0] == 'with':
        for k, v in t[2]:
            if k == n:
                return v
        return fld_of(t[1], n)
    if t[0] == 'struct':
        for k, v in t[2]:
            if k == n:
                return v
    return ('fld', t, n)


def moved(ctx, o, v):
    g = pair(0, 'second')
    nm, ops = opcall(v) if v else (None, ())
    ok = nm == o.name and ops[0] == g
    if ok and o.name == 'transpose':
        P = ('par', o.params[1]['n'])
        ok = both(ops[1]) == both(P)
    elif ok:
        ok = ops[1] == ('par', o.params[1]['n'])
    ctx.ob('moved', o.where, ok, 'the gradient of %s is %s' % (o.id, show(v)[:140] if v else v), key='moved@' + o.id)


def compress(ctx, o, pa, nd):
    ind = ('par', o.params[2]['n'])
    given = pa.facts.get(('nz', ind))
    if given is None:
        given = pa.facts.get(('has', ind))
    for st, v, ev in apply(pa, nd.back, [ARGS]):
        vv = v
        while opcall(vv)[0] in IDENT:
            vv = opcall(vv)[1][0]
        ctx.ob('grouped', o.where, vv == pair(0, 'second'), 'the gradient of %s is %s' % (o.id, show(v)[:120]), key='gathered@' + o.id)
        sets = [e for e, cx in flat(ev) if e.k == 'call' and lname(e.q) == 'set_metadata']
        if given is None:
            given = st.facts.get(('nz', ind))
        if given is not False:
            ok = any(e.args[0] == ('str', 'grouping') and e.args[1] in (('oget', ind), ind) and e.recv == v for e in sets)
            ctx.ob('grouped', o.where, ok, 'the gradient of a reduction along a dimension is %s' %
                   (', '.join('marked %s' % [show(a)[:30] for a in e.args] for e in sets) or 'not grouped'), key='group@' + o.id, detail=pa.where())
        else:
            ctx.ob('grouped', o.where, not sets, 'the gradient of a reduction to a scalar is grouped', key='nogroup@' + o.id, detail=pa.where())


def grouping(ctx, o, pa):
    """+ - * / of grouped operands"""
    if o.name not in ('operator+', 'operator-', 'operator*', 'operator/') or o.kinds != 'nn' or pa.out != 'ret':
        return
    a, b = [('par', x) for x in o.nodes_p]
    if any(pa.facts.get(('nz', x)) is not True for x in (a, b)):
        return
    g = {}
    for f, v in pa.facts.items():
        if f[0] in ('nz', 'has'):
            t = f[1]
            if t[0] == 'mfn' and lname(t[1]) == 'get_metadata' and t[2] in (a, b):
                g[t[2]] = v
    ga, gb = g.get(a), g.get(b)
    nm, ops = opcall(pa.val)
    base = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'div'}[o.name[-1]]
    if (ga, gb) in ((True, False), (False, True)):
        x = a if ga else b
        want = base + ('_axial_b' if ga else '_axial_a')
        ok = nm == want and ops[0] == a and ops[1] == b and ops[2][0] == 'oget' and ops[2][1][0] == 'mfn' and \
            ops[2][1][2] == x and ops[2][1][3] == ('str', 'grouping')
        ctx.ob('grouped', o.where, ok, '%s of %s grouped operand answers %s' % (o.id, 'a left' if ga else 'a right', show(pa.val)[:120]),
               key='mixed@%s:%s' % (o.id, 'l' if ga else 'r'), detail=pa.where())
    elif nm and '_axial_' in nm:
        ctx.fail('grouped', o.where, '%s of %s answers %s' % (o.id, 'operands grouped alike' if ga else 'ungrouped operands', show(pa.val)[:100]),
                 key='plain@' + o.id, detail=pa.where())
    else:
        ctx.ob('grouped', o.where, ga == gb, '%s decides by the grouping of one operand only' % o.id, key='plain@' + o.id, detail=pa.where())


def marked(pa, v, ops):
    """the node v takes over the grouping of one of the operands"""
    for e, cx in flat(pa.ev):
        if e.k == 'call' and e.recv == v:
            if lname(e.q) == 'extract_metadata' and e.args and e.args[0] in ops:
                return True
            if lname(e.q) == 'set_metadata' and e.args and e.args[0] == ('str', 'grouping') and any(any_term(e.args[1], lambda t: t == x) for x in ops):
                return True
    return False


def kept(ctx, o, pa):
    if pa.out != 'ret':
        return
    ops = [('par', x) for x in o.nodes_p]
    if any(f[0] in ('nz', 'has') and not v and f[1][0] == 'mfn' and lname(f[1][1]) == 'get_metadata' and f[1][2] in ops for f, v in pa.facts.items()) and o.kinds != 'nn':
        return      # nothing to keep
    if o.kinds.count('n') == 1 and o.name != 'binomial_sample':
        for nd in pa.nodes:
            if nd.shaper is not None and nd.shaper[0] == 'fnref' and nd.e.res == pa.val:
                ctx.ob('kept', o.where, marked(pa, pa.val, ops), '%s of a grouped operand stays grouped' % o.id, key='kept@' + o.id, detail=pa.where())
    if o.name in ('operator+', 'operator-', 'operator*', 'operator/') and o.kinds == 'nn':
        g = {}
        for f, v in pa.facts.items():
            if f[0] in ('nz', 'has') and f[1][0] == 'mfn' and lname(f[1][1]) == 'get_metadata' and f[1][2] in ops:
                g[f[1][2]] = v
        if not any(g.values()):
            return
        mixed = not all(g.get(x) for x in ops)
        if mixed or any(nd.e.res == pa.val for nd in pa.nodes):
            ctx.ob('kept', o.where, marked(pa, pa.val, ops), '%s of %s stays grouped' % (o.id, 'a grouped and an ungrouped operand' if mixed else 'operands grouped alike'),
                   key='lost@%s:%s' % (o.id, 'mixed' if mixed else 'both'), detail=pa.where())


# ---------------------------------------------------------------- factors
def tr(f):
    """transposed, element by element"""
    def at_(a):
        if a[0] == 'x':
            return ('T', F({((a, 1),): ratf.Fraction(1)}).key())
        if a[0] == 'T':
            x = ratf.unkey(a[1])
            (m, c), = x.n.items()
            return m[0][0]
        if a[0] == 'mm':
            return ('mm', a[2], a[1], not a[4], not a[3])
        return ('T', F({((a, 1),): ratf.Fraction(1)}).key())

    def poly(p):
        out = {}
        for m, c in p.items():
            k = tuple(sorted(((at_(a), e) for a, e in m), key=repr))
            out[k] = out.get(k, 0) + c
        return out
    f = ratf.simp(f)
    return F(poly(f.n), poly(f.d))


class Mat(Meaning):
    def op(self, nm, ops):
        if nm == 'matmul':
            ta, tb = [x == ('lit', True) for x in ops[2:4]] + [False] * (4 - len(ops))
            return ratf.app('mm', self.of(ops[0]), self.of(ops[1]), ta, tb)
        if nm == 'transpose' and set(both(ops[1])) == {('lit', 0), ('lit', 1)}:
            return tr(self.of(ops[0]))
        return super().op(nm, ops)


def covers(vec, whose, ev):
    """the vector holds every variable among the leaves of `whose`"""
    for e in allloops(ev):
        for loc, x in e.d['V'].items():
            if x != vec:
                continue
            hi = e.hi
            if not (hi[0] == 'size' and hi[1][0] == 'mfn' and lname(hi[1][1]) == 'get_leaves' and hi[1][2] == whose):
                return False
            if size(e.W.get(loc)) != ZERO:
                return False
            for kind, s, sub in e.paths:
                w = s.env.get(loc)
                key = None
                for a, v in s.facts.items():
                    if a[0] == 'nz' and a[1][0] == 'dyn' and a[1][-1] == ('nkey', hi[1], ('idx', e.depth)):
                        key = (a[1], v)
                if kind != 'next' or key is None:
                    return False
                if key[1] and not (w[0] == 'push' and w[1][0] == 'phi' and w[2] in (key[0], key[0][-1])):
                    return False
            return True
    return False


def factors(ctx, o, pa, nd):
    calls = [e for e in pa.ev if e.k == 'call' and lname(e.q) in ('set_jacobian_front', 'set_jacobian_back') and strip(e.recv) == nd.e.res]
    P = [p['n'] for p in o.params]
    if any(a[0] == 'nz' and not v and a[1][0] == 'dyn' and a[1][-1] == nd.e.res for a, v in pa.facts.items()):
        return      # the node is a connector
    if o.name == 'matmul':
        ok = len(calls) == 1 and lname(calls[0].q) == 'set_jacobian_back'
        ctx.ob('product', o.where, ok, 'matmul adds %d factors' % len(calls), key='factor@matmul', detail=pa.where())
        for e in calls[:1]:
            ctx.ob('product', o.where, covers(e.args[1], nd.e.res, pa.ev), 'matmul adds its factor for %s' % show(e.args[1])[:140], key='factor-leaves@matmul')
            flags = [pa.facts.get(('nz', ('par', p))) for p in P[2:4]]
            root, args, grads = [('par', '?' + x) for x in ('root', 'args', 'grads')]
            S = {root: 'root', ('at', args, ('lit', 0)): 'A', ('at', args, ('lit', 1)): 'B',
                 ('at', grads, ('lit', 0)): 'dA', ('at', grads, ('lit', 1)): 'dB'}
            leaf = lambda t: ratf.sym(S[t]) if t in S else None
            s = ratf.sym
            # the flags the factor keeps are those of the call: on this path they may be decided or not
            for st, v, ev in apply(pa, e.args[0], [root, args, grads]):
                fl = [st.facts.get(('nz', ('par', p))) for p in P[2:4]]
                mA = ratf.app('mm', s('root'), s('B'), False, True) * s('dA')
                mB = ratf.app('mm', s('A'), s('root'), True, False) * s('dB')
                want = (tr(mA) if fl[0] else mA) + (tr(mB) if fl[1] else mB)
                sub = known(leaf, st.facts, {})
                got = Mat(leaf, pa).of(v)
                zz = all(sub.get(k) is not None and sub[k].const() == 0 for k in ('dA', 'dB'))
                ok = got.same(s('root')) if zz else \
                    None not in fl and ratf.subst(got, sub).same(ratf.subst(want, sub))
                ctx.ob('product', o.where, ok, 'for %s the factor of matmul is %s' %
                       ('operands that do not vary' if zz else 'transposed %s' % fl, show(v)[:260]), key='factor@matmul:%s' % (fl if not zz else 'zero'), detail=pa.where())
    elif '_axial_' in o.name:
        red = ('par', o.nodes_p[0 if o.name.endswith('_a') else 1])
        axis = ('par', [p for p, k in zip(P, o.kinds) if k == 'o'][0])
        ok = len(calls) == 1 and lname(calls[0].q) == 'set_jacobian_front'
        ctx.ob('axial-sum', o.where, ok, '%s adds %d factors' % (o.id, len(calls)), key='factor@' + o.id, detail=pa.where())
        for e in calls[:1]:
            ctx.ob('axial-sum', o.where, covers(e.args[1], red, pa.ev), '%s adds its factor for %s' % (o.id, show(e.args[1])[:160]), key='factor-leaves@' + o.id)
            root = ('par', '?root')
            for st, v, ev in apply(pa, e.args[0], [root, ('par', '?args'), ('par', '?grads')]):
                nm, ops = opcall(v) if v else (None, ())
                ok = nm == 'reduce_sum' and ops[0] == root and unopt(ops[1]) == axis
                ctx.ob('axial-sum', o.where, ok, 'the factor of %s is %s' % (o.id, show(v)[:120] if v else v), key='factor@' + o.id, detail=pa.where())
    else:
        ctx.ob('factors', o.where, not calls, '%s adds factors' % o.id, key='factor@' + o.id, detail=pa.where())


def unopt(t):
    while t[0] in ('oget', 'some', 'refof') or t[0] == 'cobj' and len(t[2]) == 1:
        t = t[2][0] if t[0] == 'cobj' else t[-1]
    return t


def strip(t):
    while t is not None and t[0] in ('dyn', 'cast'):
        t = t[-1]
    return t


# ---------------------------------------------------------------- putting gradients together
CH = keepset = set('get_gradient backward_pass derive take_gradient jacobian_call get_shared_one get_shared_zero get_arguments temporary_eval '
                   'is_same_graph get_leaves'.split())


def shared(v):
    if v is not None and v[0] == 'res' and isinstance(v[2], str) and v[2].startswith('nnet::constant::'):
        n = lname(v[2])
        if n in (ONE_, ZERO_):
            return n
        if n == 'get' and v[3][0] == 'lit':
            return {0: ZERO_, 1: ONE_}.get(v[3][1])
    return None


def leaves(ctx):
    p = ctx.prog()
    seen = 0
    for q in sorted(p.byq):
        if lname(q) not in ('derive', 'get_gradient') or q.count('::') != 2 or not q.startswith('nnet::'):
            continue
        cls = q.split('::')[1]
        if cls in ('base_immutable', 'inode', 'varptr', 'placeptr') or 'immutable' in cls:
            continue
        for f in ctx.fns(q, need=False):
            seen += 1
            for pa in ctx.run(f, lambda g: lname(g['q']) in CH, mods=False):
                if pa.out in ('abort', 'throw'):
                    continue
                arg = ('par', f['params'][0]['n'])
                same = None
                for a, v in pa.facts.items():
                    if a[0] == 'eq' and {strip(a[1]), strip(a[2])} == {arg, THIS}:
                        same = v
                s = shared(pa.val)
                if cls == 'constant' or cls == 'placeholder' and lname(q) == 'get_gradient' or cls == 'generator' and lname(q) == 'get_gradient':
                    ok = s == ZERO_
                else:
                    ok = same is not None and s == (ONE_ if same else ZERO_)
                ctx.ob('leaf', site(f), ok, '%s in %s is %s' % (q[6:], 'itself' if same else 'another node', show(pa.val)[:80] if pa.val else pa.val),
                       key='leaf@' + q, detail=pa.where())
    ctx.need(seen >= 5, 'gradients of leaves')
    for nm, k in ((ONE_, 1), (ZERO_, 0)):
        for f in ctx.fns('nnet::constant::' + nm):
            for pa in ctx.run(f, mods=False, depth=6):
                pass
            vals = constants_of(p, f)
            ctx.ob('leaf', site(f), vals == {k}, '%s is the constant %s' % (nm, vals), key='shared@' + nm)


def constants_of(p, f):
    """numbers the static constant of a function is made from"""
    import astq
    out = set()
    for n in astq.walk(f['body']):
        if n.get('k') == 'ctor' and n.get('rq') == 'nnet::constant' and len(n.get('a', ())) == 1:
            vs = [x['v'] for x in astq.walk(n['a'][0]) if x.get('k') == 'lit']
            out.add(float(vs[0]) if len(vs) == 1 and isinstance(vs[0], (int, float)) else None)
    return out


def chain(ctx):
    opq = lambda g: lname(g['q']) in CH
    G, J, DEP = ('fld', ('deref', THIS), 'gcache_'), ('fld', ('deref', THIS), 'jacobians_'), ('fld', ('deref', THIS), 'dependencies_')
    for f in ctx.fns('nnet::base_immutable::get_gradient'):
        leaf = ('par', f['params'][0]['n'])
        for pa in ctx.run(f, opq, mods=False):
            made = any(e.k == 'call' and lname(e.q) == 'backward_pass' and e.recv in (None, THIS) and e.args == (leaf,) for e in pa.ev)
            dep = [v for a, v in pa.facts.items() if a[0] == 'has']
            if dep == [False]:
                ok = shared(pa.val) == ZERO_
            else:
                ok = pa.val == ('mget', G, leaf) and (made or pa.facts.get(('nz', pa.val)) is True)
            ctx.ob('chain', site(f), ok, 'the gradient of an operation is %s' % show(pa.val)[:100], key='get_gradient', detail=pa.where())
    for f in ctx.fns('nnet::base_immutable::derive'):
        w = ('par', f['params'][0]['n'])
        for pa in ctx.run(f, opq, mods=False):
            isself = pa.facts.get(('eq', w, THIS), pa.facts.get(('eq', THIS, w)))
            var = [(a[1], v) for a, v in pa.facts.items() if a[0] == 'nz' and a[1][0] == 'dyn' and 'variable' in str(a[1][1]) and a[1][-1] == w]
            if isself:
                ok = shared(pa.val) == ONE_
            elif var and var[0][1]:
                x = pa.val
                ok = x[0] in ('mfn', 'res') and 'jacobian_call' in str(x[1:3]) and x[-1] == var[0][0]
                g = x[-2] if ok else None
                ok = ok and g[0] == 'res' and lname(g[2]) == 'get_gradient' and g[3:] == (THIS, var[0][0])
            elif any(e.k == 'call' and lname(e.q) == 'temporary_eval' for e in pa.ev):
                continue
            else:
                ok = shared(pa.val) == ZERO_
            ctx.ob('chain', site(f), ok, 'an operation derived by %s is %s' % ('itself' if isself else 'a variable' if var and var[0][1] else 'another node', show(pa.val)[:120]),
                   key='derive:%s' % ('self' if isself else 'var' if var and var[0][1] else 'other'), detail=pa.where())
    for f in ctx.fns('nnet::immutable::backward_pass'):
        leaf = ('par', f['params'][0]['n'])
        for pa in ctx.run(f, opq, mods=False):
            w = [e for e in pa.ev if e.k == 'write' and e.loc == ('m', ('f', ('d', THIS), 'gcache_'), leaf)]
            ok = len(w) == 1 and w[0].val[0] == 'res' and w[0].val[2] == 'icall' and w[0].val[3] == ('fld', ('deref', THIS), 'ginit_')
            ctx.ob('chain', site(f), ok, 'the gradient made is kept for the variable: %s' % (show(w[0].val)[:100] if w else 'nothing is kept'), key='backward-kept', detail=pa.where())
            if not ok:
                continue
            v = w[0].val[4]
            good = v[0] in ('gen', 'map') and v[3] == ('size', DEP)
            alts = set()
            if good:
                i = ('idx', v[2])
                d = ('at', DEP, i)
                for fa, x in split(v[4]):
                    term = {b for a, b in fa.items() if a[0] == 'nz' and a[1][0] == 'fld' and a[1][2] == 'terminal_'}
                    g = fld_of(x, 'second')
                    n = lname(str(g[2 if g[0] == 'res' else 1])) if g[0] in ('res', 'mfn') else None
                    good = good and fld_of(x, 'first') == d and n in ('take_gradient', 'get_gradient', 'derive') and d in g and leaf in g
                    alts.add((n, frozenset(term)))
            ctx.ob('chain', site(f), good, 'an operation hands its gradient function %s' % show(v)[:200], key='backward-pairs', detail=pa.where())
            raw = {n for n, t in alts if t == frozenset([False])}
            full = {n for n, t in alts if t == frozenset([True])}
            ctx.ob('factors', site(f), raw <= {'take_gradient', 'get_gradient'} and raw and 'derive' not in raw,
                   'operands whose factors are inherited hand over %s' % raw, key='backward-raw')
            ctx.ob('factors', site(f), full == {'derive'}, 'operands whose factors are not inherited hand over %s' % full, key='backward-derived')
            ctx.ob('factors', site(f), not full, 'operands whose factors differ hand over gradients shaped like the variable, which functions of the '
                   'operation\'s own shape then combine', key='different-factors-combined')
    for f in ctx.fns('nnet::inode::take_gradient'):
        s, l = [('par', p['n']) for p in f['params'][:2]]
        for pa in ctx.run(f, opq, mods=False):
            ok = pa.val[0] == 'res' and lname(pa.val[2]) == 'get_gradient' and pa.val[3:] == (s, l)
            ctx.ob('chain', site(f), ok, 'take_gradient gives %s' % show(pa.val)[:80], key='take_gradient')
    for f in ctx.fns('nnet::iconnector::jacobian_call'):
        out, leaf = [('par', p['n']) for p in f['params']]
        L = ('fld', ('mget', J, leaf), 'list_')
        for pa in ctx.run(f, opq, mods=False):
            h = pa.facts.get(('has', J, leaf))
            if h is False:
                ctx.ob('chain', site(f), pa.val == out, 'without factors the gradient is %s' % show(pa.val)[:80], key='no-factors')
                continue
            ok, why = replay(pa, out, leaf, L)
            ctx.ob('chain', site(f), ok, 'the factors of an operation are applied: %s' % why, key='apply-factors', detail=show(pa.val)[:400])
    for nm, k in (('set_jacobian_front', 'front'), ('set_jacobian_back', 'back')):
        for f in ctx.fns('nnet::iconnector::' + nm):
            jac, lv = [('par', p['n']) for p in f['params']]
            for pa in ctx.run(f, opq, mods=False):
                lo = [e for e in pa.ev if e.k == 'loop']
                ok = len(lo) == 1 and lo[0].hi == ('size', lv)
                renew = False
                if ok:
                    x = ('at', lv, ('idx', lo[0].depth))
                    loc = ('f', ('m', ('f', ('d', THIS), 'jacobians_'), x), 'list_')
                    for kind, s, sub in lo[0].paths:
                        ws = [e for e, cx in flat(sub) if e.k in ('write', 'cmut') and e.loc == loc and e.d.get('op') != 'init']
                        ok = ok and kind == 'next' and any(placed(e, k, jac) for e in ws)
                        renew = any(e.k == 'write' and e.loc == ('f', loc[1], 'uid_') for e, cx in flat(sub))
                ctx.ob('factors', site(f), ok, '%s puts the factor %s those there for each variable given' % (nm, 'before' if k == 'front' else 'after'), key=nm)
                ctx.ob('factors', site(f), renew, 'a list of factors that was extended still passes for the list it was inherited from', key='list-identity@' + nm)
    inherit(ctx)


def split(v):
    """[(facts, value)] of a value with choices"""
    if v[0] == 'ite':
        return [({**{cond_atom(v[1])[0]: cond_atom(v[1])[1]}, **f}, x) for f, x in split(v[2])] + \
            [({**{cond_atom(v[1])[0]: not cond_atom(v[1])[1]}, **f}, x) for f, x in split(v[3])]
    if v[0] == 'struct' and any(x[0] == 'ite' for _, x in v[2]):
        for n, (k, x) in enumerate(v[2]):
            if x[0] == 'ite':
                return [r for br in (2, 3) for f, y in split(x[br])
                        for r in [({cond_atom(x[1])[0]: cond_atom(x[1])[1] if br == 2 else not cond_atom(x[1])[1], **f},
                                   ('struct', v[1], v[2][:n] + ((k, y),) + v[2][n + 1:]))]]
    return [({}, v)]


def cond_atom(c):
    if c[0] == 'not':
        a, v = cond_atom(c[1])
        return a, not v
    return (c, True) if c[0] in ('nz', 'eq', 'lt', 'has') else (('nz', c), True)


def placed(e, k, jac):
    v = e.d.get('val')
    if v is None:
        v = e.args[0] if e.d.get('args') else None
        return e.d.get('op') in ('push_' + k, 'emplace_' + k) and v is not None and any(t == jac for t in subterms(v))
    if k == 'back':
        return v[0] == 'push' and any(t == jac for t in subterms(v[2])) and any(t == THIS for t in subterms(v[2]))
    return v[0] == 'cat' and v[1][0] == 'seq' and len(v[1][1]) == 1 and any(t == jac for t in subterms(v[1])) or \
        v[0] in ('pushf', 'ins') and any(t == jac for t in subterms(v))


def replay(pa, out, leaf, L):
    v = pa.val
    if v[0] == 'loopv' and v[2] == out and len(v[3]) == 1 and v[4] == ('size', L):
        b = v[3][0]
        i = ('idx', v[1])
    else:
        return False, 'one after the other'
    if not (b[0] == 'res' and b[2] == 'icall' and len(b) == 7):
        return False, 'each is called once'
    e = b[3]
    if not (e[0] == 'fld' and e[2] == 'first' and e[1][0] == 'at' and e[1][1] == L):
        return False, 'each factor is called'
    if e[1][2] != lin_rev(i, L):
        return False, 'from the last to the first'
    org = ('fld', e[1], 'second')
    if b[4] != ('prev',):
        return False, 'each on what the one before gave'
    a = b[5]
    if not (a[0] == 'mfn' and lname(a[1]) == 'get_arguments' and a[2] == org):
        return False, 'with the operands of the node it was made for'
    g = b[6]
    if not (g[0] in ('map', 'gen') and g[3] == ('size', a)):
        return False, 'with a gradient for each operand'
    x = g[4]
    want = ('at', a, ('idx', g[2]))
    if not (x[0] in ('mfn', 'res') and lname(str(x[2 if x[0] == 'res' else 1])) in ('take_gradient', 'get_gradient') and want in x and leaf in x):
        return False, 'with the gradients of the operands in the variable'
    return True, 'all, from the last'


def lin_rev(i, L):
    return isub(isub(('size', L), i), ('lit', 1))


def inherit(ctx):
    """what a new connector takes over from its operands"""
    opq = lambda g: lname(g['q']) in ('iobserver', 'inode', 'update_graph', 'get_depth', 'uuid', 'get_leaves')
    DEP = ('fld', ('deref', THIS), 'dependencies_')
    for f in ctx.fns('nnet::iconnector::iconnector', pred=lambda f: len(f['params']) == 2):
        bare = False
        n = 0
        for pa in ctx.run(f, opq, mods=False):
            for lo in pa.ev:
                if lo.k != 'loop' or lo.hi != ('size', DEP):
                    continue
                for inner in [e for kind, s, sub in lo.paths for e in sub if e.k == 'loop']:
                    h = inner.hi
                    if not (h[0] == 'size' and h[1][0] == 'fld' and h[1][2] == 'jacobians_'):
                        continue
                    src = h[1]
                    key = ('nkey', src, ('idx', inner.depth))
                    theirs = ('mget', src, key)
                    mine = ('m', ('f', ('d', THIS), 'jacobians_'), key)
                    for kind, s, sub in inner.paths:
                        n += 1
                        st = {'empty': None, 'has': None, 'same': None}
                        for a, v in s.facts.items():
                            if a[0] == 'nz' and a[1] == ('size', ('fld', theirs, 'list_')):
                                st['empty'] = not v
                            if a[0] == 'has' and a[2] == key and a[1] != src:
                                st['has'] = v
                            if a[0] == 'eq' and ('fld', theirs, 'uid_') in a[1:] and any(x[0] == 'fld' and x[2] == 'uid_' and x != ('fld', theirs, 'uid_') for x in a[1:]):
                                st['same'] = v
                        w = {e.loc[2]: e.val for e in sub if e.k == 'write' and e.loc[0] == 'f' and e.loc[1] == mine}
                        if st['empty']:
                            if w.get('terminal_') == ('lit', True):
                                bare = True
                            continue
                        if st['has'] is False:
                            ok = w.get('list_') == ('fld', theirs, 'list_') and w.get('uid_') == ('fld', theirs, 'uid_') and w.get('terminal_') == ('lit', False)
                            what = 'the first factors found for a variable are taken over'
                        elif st['has'] and st['same'] is False:
                            ok = w.get('terminal_') == ('lit', True) and w.get('list_') is not None and size(w['list_']) == ZERO
                            what = 'factors different from those taken over leave each operand its own'
                        elif st['has'] and st['same']:
                            ok = not w
                            what = 'the same factors met again change nothing'
                        else:
                            ok, what = False, 'taking over factors depends on whether they are there and the same'
                        ctx.ob('factors', site(f), ok and kind == 'next', what, key='inherit:%s' % what[:40], detail=str([showatom(a, b)[:100] for a, b in s.facts.items()][-4:]))
            bare = bare or any(e.k == 'call' and lname(e.q) == 'get_leaves' for e, cx in flat(pa.ev))
        ctx.need(n, 'what a connector takes over from its operands')
        ctx.ob('factors', site(f), bare, 'an operand that depends on a variable without factors is given the factors of the other operands', key='operand-without-factors')


def constants(ctx):
    """a node without gradient takes no factors over from its operand"""
    n = 0
    for f in ctx.fns('nnet::const_immutable::const_immutable', pred=lambda f: len(f['params']) == 1 and f['params'][0]['t'].get('rq') != 'nnet::const_immutable'):
        for pa in ctx.run(f, lambda g: False, mods=False):
            if pa.out != 'ret':
                continue
            n += 1
            v = pa.load(('f', ('d', THIS), 'jacobians_'))
            ctx.ob('factors', site(f), v == ('emptym',) or size(v) == ZERO, 'a node that counts as constant ends up with the factors of its operand', key='constant-factors', detail=pa.where())
    ctx.need(n, 'the constructor of a node without gradient')
