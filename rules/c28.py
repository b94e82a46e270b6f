"""C28: a restricted Boltzmann machine by its formulas: probabilities, free energy, sampling chain, costs; and the training of a stack of them."""
from c27 import *
import stdmodel

RBM = R + 'rbm'
DBN = R + 'db_net'


class Machine:
    """fields of a machine by meaning, and its formulas over normal forms"""
    def __init__(self, ctx):
        self.ok = False
        vs = [d['n'] for c in ctx.prog().classes.values() if c['q'] == RBM for d in c['fields'] if 'variable' in d['t'].get('s', '')]
        found = {}
        for nm, flip in (('prop_up', False), ('prop_down', True)):
            f, = ctx.fns(RBM + '::' + nm)
            for pa in ctx.run(f, others(), mods=False):
                if pa.out != 'ret':
                    continue
                x = ('par', f['params'][0]['n'])
                got = poly(pa.val, nodes())
                roles = [(w, b) for w in vs for b in vs if w != b and same(got, self.squashed(atom(nonum(x)), self.at(w), self.at(b), flip))]
                ctx.ob('propagate', site(f), len(roles) == 1, 'the probability is sigmoid(%s weights%s + bias): %s' % (x[1], ' transposed' if flip else '', show(pa.val)[:200]), 'C28:propagate:' + nm, pa.where())
                if roles:
                    found[nm] = roles[0]
        u, d = found.get('prop_up'), found.get('prop_down')
        if u and d:
            ctx.ob('propagate', RBM, u[0] == d[0] and u[1] != d[1], 'both directions use the same weights, and a bias of their own', 'C28:propagate:weights')
            self.w, self.h, self.v = u[0], u[1], d[1]
            self.ok = True
            self.weight, self.hbias, self.vbias = map(self.at, (self.w, self.h, self.v))

    def at(self, name):
        return atom(('fld', SELF, name))

    def squashed(self, x, w, b, flip):
        return sigmoid(arith('+', matmul(x, w, False, flip), along(b, ONE)))

    def up(self, x):
        return self.squashed(x, self.weight, self.hbias, False)

    def down(self, h):
        return self.squashed(h, self.weight, self.vbias, True)

    def sample(self, p):
        return fn('binomial_sample', const(1), p)

    def energy(self, x):
        inner = arith('+', matmul(x, self.weight), along(self.hbias, ONE))
        hidden = fn('reduce_sum', fn('log', arith('+', const(1), fn('exp', inner))), ('some', ZERO))
        return arith('*', const(-1), arith('+', hidden, matmul(x, self.vbias, False, True)))


def mean(p):
    return fn('reduce_mean', p, ('none',))


def flat01(x, unit):
    """normal forms in which products of zeros and ones are reduced; unit: terms that are zero or one"""
    def red(p):
        r = {}
        for m, c in p.items():
            if any(e < 0 or e != int(e) for y, e in m):
                return p
            k = tuple((y, 1 if any(y == list(u)[0][0][0] for u in unit) else e) for y, e in m)
            r = arith('+', r, {k: c})
        return r
    return red(x)


def flips(inp):
    """leaf for the flip of the first unit: |one - xi|"""
    xi = fn('round', atom(inp))

    def own(t):
        nm, ops = opname(t)
        if nm not in ('abs', 'pow', 'operator+', 'operator-', 'operator*') or not any_term(t, lambda y: opname(y)[0] == 'const_axis'):
            return None
        ones = []
        any_term(t, lambda y: opname(y)[0] == 'const_axis' and ones.append(y) and False)
        one = poly(ones[0], plain)
        unit = [one, xi]
        if nm == 'abs' and len(ops) == 1:
            p = poly(ops[0], plain)
            if same(p, arith('-', one, xi)) or same(p, arith('-', xi, one)):
                return both(one, xi)
            return None
        p = poly(t, plain)
        if all(len(m) == 0 or all(any(y == list(u)[0][0][0] for u in unit) for y, e in m) for m in p):
            return flat01(p, unit)
        return None
    plain = nodes()
    return own, xi


def both(a, b):
    return arith('-', arith('+', a, b), arith('*', const(2), arith('*', a, b)))


# ---------------------------------------------------------------- what a training function does when called

def steps(ctx, pa, w, tag, rules=('frozen', 'complete')):
    """the closure returned first: {variable: step} run once each between freezing and thawing the graph of one error -> (cost, [update])"""
    v = pa.val
    p = dict(v[2]) if v[0] == 'struct' else {}
    fnv = p.get('first')
    if fnv is None:
        ctx.fail(rules[1], w, 'no function and cost are returned: %s' % show(v)[:200], key=tag + ':result', detail=pa.where())
        return None
    before = len(pa.ev)
    s = pa.st.fork()
    res = []
    for s2, x in stdmodel.applyv(pa.ip, fnv, [('par', 'tell?')], s, {'L': None}):
        ev = Path(s2, 'ret', x, pa.ip).ev[before:]
        frz = [(i, strip(e.recv), e.args[0]) for i, e in enumerate(ev) if e.k == 'call' and lname(e.q) == 'freeze_status']
        inner = [e for i, o in enumerate(ev) if o.k == 'loop' for e, c in flat([o]) if e.k == 'call' and lname(e.q) == 'freeze_status']
        runs = [(i, e.callee, e.args) for i, e in enumerate(ev) if e.k == 'icall']
        many = [(i, e) for i, e in enumerate(ev) if e.k == 'loop' and any(x.k == 'icall' for x, c in flat([e]))]
        if many:
            ctx.fail(rules[1], w, 'the updates run are not known', key=tag + ':unknown', detail=pa.where())
            return None
        cost = frz[0][1] if frz else None
        first, last = (runs[0][0], runs[-1][0]) if runs else (0, 0)
        ctx.ob(rules[0], w, bool(runs) and bool(frz) and not inner and [(c, a) for i, c, a in frz] == [(cost, TRUE), (cost, FALSE)] and frz[0][0] < first and last < frz[1][0],
               'the graph of the error is frozen before the first update and thawed after the last', tag + ':frozen', pa.where())
        ctx.ob(rules[1], w, len(set(c for i, c, a in runs)) == len(runs) and all(a in ((TRUE,), (('par', 'tell?'),)) for i, c, a in runs), 'every update runs once', tag + ':once', pa.where())
        res.append((cost, [c for i, c, a in runs]))
    ctx.ob(rules[1], w, len(res) == 1, 'there is one way through the function', tag + ':paths', pa.where())
    return res[0] + (p.get('second'),) if len(res) == 1 else None


def update(c, leaf):
    """an update as (variable, what is subtracted) or ('set', variable, to)"""
    nm, ops = opname(c)
    if nm in ('assign_sub', 'assign_add', 'assign') and len(ops) == 2:
        return nm, ops[0], ops[1]
    return None


def gradient(t, rate, leaf):
    """(cost, variable) when t is rate * derive(cost, variable), and its sign"""
    found = []
    any_term(t, lambda y: opname(y)[0] == 'derive' and len(opname(y)[1]) == 2 and found.append(y) and False)
    if len(set(map(nonum, found))) != 1:
        return None
    d = found[0]
    p = poly(t, lambda y: 'dcost' if opname(y)[0] == 'derive' else None)
    for s in (1, -1):
        if same(p, arith('*', const(s), arith('*', atom('dcost'), rate))):
            return opname(d)[1][0], opname(d)[1][1], s
    return None


def descends(ctx, w, tag, ups, cost, rate, variables, pa, rule):
    seen = []
    rest = []
    for c in ups:
        u = update(c, None)
        g = gradient(u[2], rate, None) if u and u[0] != 'assign' else None
        if not g:
            rest.append(u or c)
            continue
        good = strip(g[0]) == cost and strip(g[1]) == strip(u[1]) and (g[2] > 0) == (u[0] == 'assign_sub')
        ctx.ob(rule, w, good, 'a variable moves against the gradient of the error in itself, times the learning rate: %s' % show(c)[:160], tag + ':descent', pa.where())
        seen.append(strip(u[1]))
    ctx.ob(rule, w, sorted(seen, key=repr) == sorted(variables, key=repr), 'every variable moves once: %s' % [show(x) for x in seen], tag + ':variables', pa.where())
    return rest


def machine(ctx):
    m = Machine(ctx)
    if not m.ok:
        return None
    for f in ctx.fns(RBM + '::rbm', pred=lambda f: len(f['params']) == 3):
        n_in, n_hid = [('par', p['n']) for p in f['params'][:2]]
        for pa in ctx.run(f, others(), mods=False):
            if pa.out != 'ret':
                continue
            sh = made(pa)
            got = {n: sh.get(pa.ip.load(pa.st, ('f', THIS, n))) for n in (m.w, m.h, m.v)}
            ctx.ob('propagate', site(f), got == {m.w: (n_hid, n_in), m.h: (n_hid,), m.v: (n_in,)}, 'weights and biases fit the numbers of units: %s' % got, 'C28:fit', pa.where())
    for nm, a, b in (('reconstruct_visible', m.up, m.down), ('reconstruct_hidden', m.down, m.up)):
        for f in ctx.fns(RBM + '::' + nm):
            for pa in ctx.run(f, others(), mods=False):
                if pa.out == 'ret':
                    x = atom(('par', f['params'][0]['n']))
                    ctx.ob('reconstruct', site(f), same(poly(pa.val, nodes()), b(m.sample(a(x)))), 'a reconstruction goes through a sample of the other side: %s' % show(pa.val)[:200], 'C28:' + nm, pa.where())
    for f in ctx.fns(RBM + '::free_energy'):
        for pa in ctx.run(f, others(), mods=False):
            if pa.out == 'ret':
                x = atom(('par', f['params'][0]['n']))
                ctx.ob('energy', site(f), same(poly(pa.val, nodes()), m.energy(x)), 'the free energy is -(sum log(1+e^(x W + h)) + x v): %s' % show(pa.val)[:200], 'C28:energy', pa.where())
    return m


def training(ctx, m, ks):
    for f in ctx.fns(RBM + '::train'):
        w = site(f)
        inp, per, rate, n_cd = [('par', p['n']) for p in f['params']]
        own, xi = flips(inp)
        leaf = nodes(own)
        for k in ks:
            for pers in (False, True):
                tag = 'C28:train:' + ('persistent' if pers else 'plain')
                n = 0
                for pa in ctx.run(f, others(), mods=False, args={1: per if pers else ('null',), 3: ('lit', k)}):
                    if pa.out != 'ret' or (pers and any(a == ('nz', per) and not v for a, v in pa.facts.items())):
                        continue
                    n += 1
                    r = steps(ctx, pa, w, tag)
                    if not r or r[0] is None:
                        continue
                    cost, ups, shown = r
                    x = atom(inp)
                    chain = atom(per) if pers else m.sample(m.up(x))
                    for i in range(k):
                        visible = m.down(chain)
                        chain = m.sample(m.up(m.sample(m.down(chain))))
                    end = fn('as_constant', m.sample(visible))
                    want = arith('-', mean(m.energy(x)), mean(m.energy(end)))
                    ctx.ob('divergence', w, same(poly(cost, leaf), want), 'with %d steps of sampling the error is the mean free energy of the input minus that of the end of the chain: %s' % (k, show(cost)[:300]), tag + ':cost', pa.where())
                    rest = descends(ctx, w, tag, ups, cost, atom(rate), [('fld', SELF, v) for v in (m.w, m.h, m.v)], pa, 'divergence')
                    if pers:
                        ok = len(rest) == 1 and rest[0][0] == 'assign' and strip(rest[0][1]) == per and same(poly(rest[0][2], leaf), chain)
                        ctx.ob('divergence', w, ok, 'the chain is kept where it ended: %s' % [show(y[2])[:200] if y[0] == 'assign' else y for y in rest], tag + ':kept', pa.where())
                        ctx.ob('cost', w, pseudo(m, shown, leaf, xi, x), 'the pseudo-likelihood is the mean of n log sigmoid(F(flipped) - F(x)): %s' % show(shown)[:300], tag + ':pseudo', pa.where())
                    else:
                        ctx.ob('divergence', w, not rest, 'nothing else is updated: %s' % rest, tag + ':rest', pa.where())
                        log = lambda p: fn('log', p)
                        want = mean(fn('reduce_sum', arith('+', arith('*', x, log(visible)), arith('*', arith('-', const(1), x), log(arith('-', const(1), visible)))), ('some', ZERO)))
                        ctx.ob('cost', w, same(poly(shown, leaf), want), 'the reconstruction cost is the mean cross entropy: %s' % show(shown)[:300], tag + ':reconstruction', pa.where())
                ctx.need(n, 'training with %d steps' % k)


def pseudo(m, t, leaf, xi, x):
    ones = []
    any_term(t, lambda y: opname(y)[0] == 'const_axis' and ones.append(y) and False)
    if not ones or len(set(map(nonum, ones))) != 1:
        return False
    ops = opname(ones[0])[1]
    if len(ops) != 4 or [num(o) for o in ops[:3]] != [0, 0, 1] or not any_term(ops[3], lambda y: opname(y)[0] == 'get_shape' or 'shape' in str(y[:2])):
        return False
    one = poly(ones[0], nodes())
    f0, f1 = m.energy(xi), m.energy(both(one, xi))
    want = mean(arith('*', atom(('fld', SELF, 'n_input_')), fn('log', sigmoid(arith('-', f1, f0)))))
    return same(poly(t, leaf), want)


def stack(ctx, ks):
    hold = pairs_of(None, DBN, ctx)[0]
    for f in ctx.fns(DBN + '::pretraining_functions'):
        w = site(f)
        inp, rate, n_cd = [('par', p['n']) for p in f['params']]
        for k in ks:
            items = [('par', 'layer%d' % i) for i in range(k)]
            for pa in ctx.run(f, others(RBM + '::train', RBM + '::prop_up'), mods=False, st=preset(hold, items)):
                if pa.out != 'ret':
                    continue
                got = list(pa.val[1]) if pa.val[0] == 'seq' else []
                x = None
                ctx.ob('greedy', w, len(got) == k, '%d functions for %d machines' % (len(got), k), 'C28:greedy:count', pa.where())
                for i, t in enumerate(got):
                    nm, ops = opname(t)
                    ok = nm == 'train' and len(ops) == 5 and strip(ops[0]) == items[i] and ops[2] == ('null',) and ops[3:] == (rate, n_cd)
                    at = strip(ops[1]) if ok else None
                    for j in reversed(range(i)):
                        n2, o2 = opname(at) if at else (None, ())
                        ok = ok and n2 == 'prop_up' and strip(o2[0]) == items[j]
                        at = strip(o2[1]) if ok else None
                    ctx.ob('greedy', w, ok and at in (inp, ('&', ('d', inp)), ('deref', inp)), 'machine %d learns what the ones before make of the input: %s' % (i, show(t)[:200]), 'C28:greedy:input', pa.where())


def finetune(ctx):
    for f in ctx.fns(DBN + '::build_finetune_functions'):
        w = site(f)
        a, b, rate = [('par', p['n']) for p in f['params']]

        def hook(ip, g, this, vs, st, n):
            return [(st, ('seq', (('par', 'var0'), ('par', 'var1'))))]
        for pa in ctx.run(f, others(DBN + '::prop_up'), mods=False, models={DBN + '::get_variables': hook}):
            if pa.out != 'ret':
                continue
            tag = 'C28:finetune'
            r = steps(ctx, pa, w, tag)
            if not r or r[0] is None:
                continue
            cost, ups, shown = r

            def own(t):
                nm, ops = opname(t)
                if t[0] == 'res' and t[2] == DBN + '::prop_up':
                    return 'out' if strip(ops[1]) in (a, ('deref', a), ('&', ('d', a))) else None
                return 'expected' if t in (b, ('deref', b), ('&', ('d', b))) else None
            leaf = nodes(own)
            out, exp = atom('out'), atom('expected')
            want = arith('*', const(-1), mean(fn('reduce_sum', arith('*', exp, fn('log', out)), ('some', ZERO))))
            ctx.ob('finetune', w, same(poly(cost, leaf), want), 'the error is the mean cross entropy of the expected output: %s' % show(cost)[:300], tag + ':cost', pa.where())
            rest = descends(ctx, w, tag, ups, cost, atom(rate), [('par', 'var0'), ('par', 'var1')], pa, 'finetune')
            ctx.ob('finetune', w, not rest, 'nothing else is updated', tag + ':rest', pa.where())
            ctx.ob('finetune', w, same(poly(shown, leaf), mean(power(arith('-', out, exp), 2))), 'the cost shown is the mean squared difference: %s' % show(shown)[:200], tag + ':shown', pa.where())


def check(ctx):
    ks = range(1, 5) if ctx.tier == 'thorough' else range(1, 3)
    ctx.explain = ('The expressions a machine builds, brought to a normal form over matrix products, axial sums and samples, with %d..%d steps of sampling, with and without a kept chain; '
                   'the functions training returns, called in place; the stack with as many machines.' % (ks[0], ks[-1]))
    ctx.rule('propagate', 'hidden and visible probabilities are the sigmoid of the product with the weights, turned for the way back, plus the bias of that side')
    ctx.rule('reconstruct', 'a reconstruction propagates a sample of the other side back')
    ctx.rule('energy', 'the free energy of a sample')
    ctx.rule('divergence', 'training lowers the mean free energy of the input against that of the end of the sampling chain, held constant; a persistent chain goes on from where it ended')
    ctx.rule('cost', 'the cost reported is the reconstruction cross entropy, or the pseudo-likelihood with a persistent chain')
    ctx.rule('greedy', 'each machine of a stack is trained on what the ones before it make of the input')
    ctx.rule('finetune', 'fine-tuning lowers the cross entropy between the expected output and that of the net')
    ctx.rule('frozen', 'the updates of one call run between freezing and thawing the graph of their error')
    ctx.rule('complete', 'one call runs each update once')
    m = machine(ctx)
    if m:
        training(ctx, m, ks)
    stack(ctx, ks)
    finetune(ctx)


def closures(ctx):
    """the freezing of the functions training returns (C19)"""
    for f in ctx.fns(RBM + '::train'):
        for per in (('null',), ('par', f['params'][1]['n'])):
            for pa in ctx.run(f, others(), mods=False, args={1: per, 3: ONE}):
                if pa.out == 'ret' and not any(a == ('nz', per) and not v for a, v in pa.facts.items()):
                    steps(ctx, pa, site(f), 'steps:' + RBM)
    for f in ctx.fns(DBN + '::build_finetune_functions'):
        for pa in ctx.run(f, others(DBN + '::prop_up'), mods=False, models={DBN + '::get_variables': lambda ip, g, this, vs, st, n: [(st, ('seq', (('par', 'var0'), ('par', 'var1'))))]}):
            if pa.out == 'ret':
                steps(ctx, pa, site(f), 'steps:' + DBN)
