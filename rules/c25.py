"""C25: the agent explores with a probability that falls linearly, and every action it takes is legal."""
from alg import *
from c22 import mine, THIS, CLS
from c24 import Net, strip, leafs, SELF


def random(t):
    """a fresh draw of the agent's uniform distribution"""
    return t[0] in ('res', 'rand') and 'uniform_real_distribution' in repr(t[:3]) or t[0] == 'rand' and 'explore_' in repr(t)


def find(t, pred):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and pred(x):
                out.append(x)
                return
            for y in x:
                go(y)
    go(t)
    return out


def check(ctx):
    ctx.explain = ('Every path of choosing an action: the fact that decides between exploring and exploiting, brought to a normal form, and the value returned; '
                   'the score network that is exploited is the one the constructors and assignments build.')
    ctx.rule('rate', 'an action is random with probability 1 - n*(1-r)/P for the n-th action of the first P, and r from then on')
    ctx.rule('legal', 'a random action is floor(u*number of outputs) for a draw u of its own from [0,1)')
    ctx.rule('greedy', 'otherwise the given observation is fed to the source network and the position of its best score returned')
    ctx.rule('count', 'each action taken is counted once')
    f, = ctx.fns(CLS + '::action')
    w = site(f)
    P_ = ('fld', ('fld', SELF, 'params_'), 'exploration_period_')
    R_ = ('fld', ('fld', SELF, 'params_'), 'rand_action_prob_')
    explore = greedy = 0
    best = None
    for pa in ctx.run(f, mine, mods=False):
        if pa.out != 'ret':
            continue
        st = pa.st
        wr = [e for e in pa.ev if e.k == 'write' and e.loc[0] == 'f' and e.loc[1] == THIS]
        n0 = ('fld', SELF, 'actions_executed_')
        ctx.ob('count', w, pa.ip.load(st, ('f', THIS, 'actions_executed_')) == iadd(n0, ONE), 'the action is counted', key='count', detail=pa.where())
        dec = [(a, v) for a, v in st.facts.items() if a[0] == 'lt' and (random(a[1]) or random(a[2]))]
        if len(dec) != 1:
            ctx.fail('rate', w, 'whether to explore is not decided by one draw against the rate', key='rate:draw', detail=pa.where())
            continue
        (a, v), = dec
        u, thr, exploring = (a[1], a[2], v) if random(a[1]) else (a[2], a[1], not v)
        p = poly(thr)
        late = None
        for b, bv in st.facts.items():
            if b[0] == 'lt':
                l, r = poly(b[1]), poly(b[2])
                for nm in (n0, iadd(n0, ONE)):
                    if same(l, poly(nm)) and same(r, poly(P_)):
                        late, n = not bv, nm
                    elif same(r, poly(nm)) and same(l, poly(P_)):
                        # P < n: the boundary gives the same rate either way
                        late, n = bv, nm
        if late is None:
            ctx.fail('rate', w, 'the rate does not distinguish the exploration period from the time after', key='rate:period', detail=pa.where())
        elif late:
            ctx.ob('rate', w, same(p, poly(R_)), 'after the exploration period the rate is the configured one: %s' % show(thr), key='rate:after', detail=pa.where())
        else:
            line = arith('-', const(1), arith('/', arith('*', poly(n), arith('-', const(1), poly(R_))), poly(P_)))
            ctx.ob('rate', w, same(p, line), 'within the exploration period the rate falls linearly: %s' % show(thr)[:200], key='rate:line', detail=pa.where())
        if exploring:
            explore += 1
            ds = find(pa.val, random)
            form = legal(pa.val)
            ctx.ob('legal', w, form and len(ds) == 1 and ds[0] != u, 'the random action is legal and independent of the decision to explore: %s' % show(pa.val)[:200], key='legal', detail=pa.where())
        else:
            greedy += 1
            x = pa.val
            ok = x[0] == 'at' and x[2] == ZERO and opname(x[1])[0] == 'expose' and opname(x[1])[1][0][0] == 'fld'
            ctx.ob('greedy', w, ok, 'the best action is read off the graph: %s' % show(x)[:120], key='greedy:value', detail=pa.where())
            if ok:
                best = opname(x[1])[1][0][2]
            fed = [e for e in pa.ev if e.k == 'call' and lname(e.q) == 'operator=' and e.args and e.args[0] == ('deref', ('par', f['params'][0]['n']))]
            exp = [i for i, e in enumerate(pa.ev) if e.k == 'call' and lname(e.q) == 'expose']
            ctx.ob('greedy', w, len(fed) == 1 and fed[0].recv[0] == 'fld' and exp and pa.ev.index(fed[0]) < exp[0], 'the observation is fed in first', key='greedy:fed', detail=pa.where())
            if len(fed) == 1 and fed[0].recv[0] == 'fld':
                inp = fed[0].recv[2]
    ctx.ob('rate', w, explore > 0 and greedy > 0, 'the agent both explores and exploits', key='rate:never')
    if not best or not greedy:
        return
    g, = ctx.fns(CLS + '::operator()')
    for pa in ctx.run(g, mine, mods=False):
        if pa.out != 'ret':
            continue
        nm, ops = opname(pa.val)
        fed = [e for e in pa.ev if e.k == 'call' and lname(e.q) == 'operator=']
        ctx.ob('greedy', site(g), nm == 'expose' and ops[0][0] == 'fld' and len(fed) == 1 and fed[0].recv == ('fld', SELF, inp), 'the scores are those of the observation given', key='scores')
        scores = ops[0][2] if nm == 'expose' and ops[0][0] == 'fld' else None
    for f in [f for f in ctx.fns(CLS + '::dq_net') if not f.get('implicit')] + ctx.fns(CLS + '::operator='):
        tag = lname(f['q']) + sig(f)
        for pa in ctx.run(f, mine, mods=False):
            if pa.out != 'ret':
                continue
            net = Net(ctx, f, pa)
            if net.bad:
                continue
            b = net.own.get(best)
            nm, ops = opname(b)
            up = leafs(strip(ops[0])) if nm == 'arg_max' else None
            ctx.ob('greedy', site(f), up == ('up', net.own['source_qnet_'], net.own[inp]) and list(ops[1:]) in ([('some', ZERO)], [('none',)], []),
                   'the best action is that of the source network for the observation', key='best:' + tag)
            sc = net.own.get(scores) if scores else None
            ctx.ob('greedy', site(f), sc is not None and leafs(strip(sc)) == up, 'the scores shown are those of the source network', key='score:' + tag)
            if any(e.k in ('write', 'cmut') and e.loc == ('f', THIS, 'explore_') for e, c in flat(pa.ev)):
                d = net.own['explore_']
                ok = d == ('fld', ('deref', ('par', f['params'][0]['n'])), 'explore_') or unit(d)
                ctx.ob('legal', site(f), ok, 'draws are from [0,1): %s' % show(d), key='unit:' + tag)


def unit(d):
    args = d[2] if d[0] == 'cobj' else d[2:] if d[0] == 'dist' else ()
    ns = [num(x) for x in args if isinstance(x, tuple)]
    return ns in ([], [0, 1], [0])


def legal(t):
    """floor(u*n), or the same through a conversion to an integer"""
    while t[0] in ('i2f', 'cast'):
        t = t[1]
    if t[0] in ('fn', 'mathfn', 'floor', 'app') and 'floor' in repr(t[:2]) or t[0] in ('f2i', 'trunc'):
        x = t[-1]
        p = poly(x, lambda y: ('u',) if random(y) else None)
        if len(p) == 1:
            (m, c), = p.items()
            return c == 1 and len(m) == 2 and all(e == 1 for _, e in m) and ('u',) in [a for a, _ in m] and \
                any(a[0] == 'get_noutput' for a, _ in m)
    return False
