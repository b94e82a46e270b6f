"""C24: one training step of the agent learns from distinct remembered experiences, kept aligned, towards reward plus discounted best target value."""
from alg import *
from c22 import Memory, mine, THIS, CLS

SELF = ('deref', ('this',))


def field(st, ip, name):
    return ip.load(st, ('f', THIS, name))


class Net:
    """the computation an agent is left with after construction, copy or move: fields by meaning"""
    def __init__(self, ctx, f, pa):
        self.bad = None
        ip, st = pa.ip, pa.st
        own = {}                  # field name -> value
        cls = ctx.prog().classes[f['cls']]
        for d in cls['fields']:
            own[d['n']] = ip.load(st, ('f', THIS, d['n']))
        self.own = own
        calc = [e for e, c in flat(pa.ev) if e.k == 'call' and lname(e.q) == 'calculate']
        if len(calc) != 1:
            self.bad = 'the gradient of the error is asked for %d times' % len(calc)
            return
        self.calc, = calc
        self.err = self.calc.args[0]
        # networks: whatever is propagated
        ups = []

        def seek(t):
            if isinstance(t, tuple):
                if t and leafs(t):
                    ups.append(leafs(t)[1:])
                for x in t:
                    seek(x)
        seek(self.err)
        self.ups = ups

    def name(self, v):
        ns = [n for n, x in self.own.items() if x == v]
        return ns[0] if len(ns) == 1 else None


def formula(ctx, f, pa, rule, where):
    """the error the updater is given, in roles -> {role: field} or None"""
    net = Net(ctx, f, pa)
    tag = lname(f['q']) + sig(f)
    if net.bad:
        ctx.fail(rule, where, net.bad, key='error:' + tag)
        return None
    own = net.own
    news = {n: v for n, v in own.items() if v[0] == 'new'}
    nets = {n: v for n, v in own.items() if any(v == s for s, x in net.ups)}
    ups = sorted(set(net.ups), key=repr)
    disc = [('fld', ('fld', SELF, 'params_'), 'discount_rate_')]
    # try the assignments of fields to roles under which the error would be the right one
    got = poly(net.err, lambda t: leafs(t))
    for s, x in ups:
        for t, y in ups:
            if s == t or x == y:
                continue
            for r in news.values():
                for m in news.values():
                    for k in news.values():
                        if len({x, y, r, m, k}) != 5:
                            continue
                        if same(got, want(s, x, t, y, r, m, k, own)):
                            ns = [net.name(v) for v in (s, t, x, y, r, m, k)]
                            if None in ns:
                                continue
                            return dict(zip(('source', 'target', 'state', 'next', 'reward', 'action', 'mask'), ns), net=net)
    ctx.fail(rule, where, 'the error is not mean((sum(score(state)*action) - (reward + discount*max(target score(next))*mask))^2): %s' % show(net.err)[:300], key='error:' + tag)
    return None


def leafs(t):
    nm, ops = opname(t)
    return ('up',) + tuple(ops) if nm == 'prop_up' and len(ops) == 2 else None


def want(s, x, t, y, r, m, k, own):
    disc = own.get('params_')
    d = poly(getf(disc, 'discount_rate_'), leafs)
    score = fn('reduce_sum', _mul2(A(('up', s, x)), poly(m)), ('some', ZERO))
    best = fn('reduce_max', A(('up', t, y)), ('some', ZERO))
    aim = arith('+', poly(r), arith('*', d, arith('*', best, poly(k))))
    return fn('reduce_mean', power(arith('-', score, aim), 2), ('none',))


def _mul2(a, b):
    return arith('*', a, b)


def chunks(pa, t):
    """t as the concatenation, over the iterations of one loop, of one piece per path -> (loop, location, [(state, kind, piece)])"""
    for e in pa.ev:
        if e.k != 'loop':
            continue
        for loc, init in e.d['W'].items():
            if init != ('seq', ()):
                continue
            ph = ('phi', e.depth, loc)
            out = []
            for kind, s, sub in e.paths:
                v = s.env.get(loc)
                out.append((s, kind, piece(v, ph) if v is not None else None))
            if e.d['V'].get(loc) == t:
                return e, loc, out
    return None


def piece(v, ph):
    if v[0] == 'push' and v[1] == ph:
        return ('seq', (v[2],))
    if v[0] == 'cat' and v[1][0] == ph:
        return v[1][1] if len(v[1]) == 2 else ('cat', v[1][1:])
    if v[0] == 'gen' and v[1] == ph:
        return ('gen', ('seq', ())) + v[2:]
    return None


def onehot(v):
    """(length, index, value) when v is all zeros but for one entry"""
    if v[0] == 'upd' and v[1][0] == 'filln' and v[1][2] in (ZERO, ('lit', 0.0)):
        return v[1][1], v[2], v[3]
    if v[0] == 'gen' and v[1] == ('seq', ()) and v[4][0] == 'ite' and num(v[4][3]) == 0:
        c = v[4][1]
        if c[0] == 'cmp' and c[1] == '==' and ('idx', v[2]) in c[2:]:
            return v[3], c[2] if c[3] == ('idx', v[2]) else c[3], v[4][2]
    return None


def check(ctx):
    ctx.explain = ('The error and the updates an agent is built with, in every constructor and assignment, brought to a normal form over the operators; '
                   'and every path of a training step: what the inputs of that error are fed with, one entry per remembered experience, and in what order the updates run.')
    ctx.rule('error', 'the error is the mean squared difference between the score of the action taken and reward plus discounted, masked best score of the target network')
    ctx.rule('target', 'each variable of the target network moves by target_update_rate of the way to its counterpart in the source network')
    ctx.rule('spare target', 'the gradient update leaves the target network alone')
    ctx.rule('batch', 'a training step feeds mini_batch_size distinct remembered experiences: observation, action, reward and next observation of one experience in one row')
    ctx.rule('ending', 'an experience without next observation counts with its reward alone, any other with mask one')
    ctx.rule('due', 'a step happens on each train_interval-th call if enough is remembered, once, with every update applied, and is counted')
    builders = [f for f in ctx.fns(CLS + '::dq_net') if not f.get('implicit')] + ctx.fns(CLS + '::operator=')
    roles = None
    n = 0
    for f in builders:
        w = site(f)
        tag = lname(f['q']) + sig(f)
        for pa in ctx.run(f, mine, mods=False):
            if pa.out != 'ret':
                continue
            if not any(e.k == 'call' and lname(e.q) == 'calculate' for e, c in flat(pa.ev)):
                ctx.ob('error', w, lname(f['q']) == 'operator=', 'an agent is built without updates', key='none:' + tag, detail=pa.where())
                continue
            n += 1
            r = formula(ctx, f, pa, 'error', w)
            if r is None:
                continue
            net = r.pop('net')
            ctx.ob('error', w, True, 'error of %s' % tag)
            if roles is not None and any(roles[k] != r[k] for k in r):
                ctx.fail('error', w, 'the inputs of the error are kept elsewhere than in the other constructors: %s' % r, key='roles:' + tag)
            roles = roles or dict(r)
            # the fields the step uses
            ups = [nm for nm, v in net.own.items() if v == net.calc.res]
            ctx.ob('error', w, len(ups) == 1, 'the updates that reduce the error are kept', key='kept:' + tag)
            errs = [nm for nm, v in net.own.items() if v == net.err]
            ctx.ob('error', w, len(errs) == 1, 'the error is kept', key='kepterr:' + tag)
            roles['updates'], roles['error'] = (ups or [None])[0], (errs or [None])[0]
            # ignoring the target
            ign = [i for i, (e, c) in enumerate(flat(pa.ev)) if e.k == 'call' and lname(e.q) == 'ignore_subtree' and any_term(e.args[0], lambda t: t == net.own[r['target']]) and
                   leafs(strip(e.args[0])) == ('up', net.own[r['target']], net.own[r['next']]) and e.recv == net.calc.recv]
            clr = [i for i, (e, c) in enumerate(flat(pa.ev)) if e.k == 'call' and lname(e.q) == 'clear_ignore']
            at_ = [i for i, (e, c) in enumerate(flat(pa.ev)) if e is net.calc][0]
            ctx.ob('spare target', w, any(i < at_ and not any(i < j < at_ for j in clr) for i in ign), 'the target network is left out of the gradient before it is asked for', key='ignore:' + tag)
            roles['moves'] = targets(ctx, w, tag, pa, net, r) or roles.get('moves')
    ctx.need(n >= 3, 'constructors of the agent')
    if roles is None or not roles.get('updates') or not roles.get('error'):
        return
    step(ctx, roles)


def strip(t):
    while opname(t)[0] in NEUTRAL:
        t = opname(t)[1][0]
    return t


def varsof(t):
    nm, ops = opname(t)
    return ops[0] if nm == 'get_variables' else None


def targets(ctx, w, tag, pa, net, r):
    T, S = net.own[r['target']], net.own[r['source']]
    moves = [(nm, v) for nm, v in net.own.items() if v[0] == 'gen' and opname(v[4])[0] in ('assign', 'assign_add', 'assign_sub')]
    if len(moves) != 1:
        ctx.fail('target', w, 'the updates of the target network: %s' % [nm for nm, v in moves], key='target:' + tag)
        return None
    nm, v = moves[0]
    idx = ('idx', v[2])
    how, (var, arg) = opname(v[4])
    vs = lambda t: varsof(t[1]) if t[0] == 'at' and t[2] == idx else None

    def leaf(t):
        o = vs(t)
        return ('target',) if o == T else ('source',) if o == S else None
    rate = poly(getf(net.own['params_'], 'target_update_rate_'), leaf)
    a = poly(arg, leaf)
    new = a if how == 'assign' else arith('+' if how == 'assign_add' else '-', A(('target',)), a)
    right = arith('+', arith('*', arith('-', const(1), rate), A(('target',))), arith('*', rate, A(('source',))))
    ctx.ob('target', w, vs(var) == T and same(new, right), 'target := (1-rate)*target + rate*source', key='target:' + tag)
    ctx.ob('target', w, v[1] == ('seq', ()) and v[3][0] == 'size' and varsof(v[3][1]) in (T, S), 'each variable of the target network has its update, and no other', key='each:' + tag)
    return nm


def step(ctx, roles):
    m = Memory(ctx)
    ctx.need(len(m.fields) == 4, 'the entries of the memory')
    f, = ctx.fns(CLS + '::train')
    w = site(f)
    trained = idle = 0
    for pa in ctx.run(f, lambda g: mine(g), mods=False):
        if pa.out != 'ret':
            continue
        ip, st = pa.ip, pa.st
        evs = pa.ev
        runs = [(i, e) for i, e in enumerate(evs) if e.k == 'loop' and any(x.k == 'icall' for k, s, sub in e.paths for x in sub)]
        stride = [(a, v) for a, v in st.facts.items() if a[0] == 'nz' and a[1][0] == 'op' and a[1][1] == '%' and 'train_interval' in repr(a[1][3])]
        feeds = {}
        order = {}
        for i, e in enumerate(evs):
            if e.k == 'call' and lname(e.q) == 'operator=' and e.recv is not None and e.recv[0] == 'fld' and e.recv[1] == SELF:
                feeds.setdefault(e.recv[2], []).append(e.args[0])
                order[e.recv[2]] = i
        b = bounds(st)
        msize = size(m.val)
        batch = ('fld', ('fld', SELF, 'params_'), 'mini_batch_size_')
        cntw = [e for e in evs if e.k == 'write' and e.loc == ('f', THIS, 'iteration_')]
        if not runs:
            idle += 1
            why = any(v for a, v in stride) or b.get((msize, batch), 1) <= -1
            ctx.ob('due', w, why and not cntw, 'nothing is learned only between two intervals or when too little is remembered', key='due:idle', detail=pa.where())
            continue
        trained += 1
        ctx.ob('due', w, len(stride) == 1 and not stride[0][1], 'a step is made on an interval', key='due:interval', detail=pa.where())
        ctx.ob('due', w, b.get((batch, msize), 1) <= 0, 'a step needs enough remembered experiences', key='due:enough', detail=pa.where())
        ctx.ob('due', w, len(cntw) == 1 and cntw[0].val == iadd(('fld', SELF, 'iteration_'), ONE), 'the step is counted', key='due:counted', detail=pa.where())
        # the updates, all of them, once, the target after the source
        seen = []
        for i, e in runs:
            over = e.spec.get('overval')
            nm = over[2] if over and over[0] == 'fld' and over[1] == SELF else None
            full = nm and len(e.paths) == 1 and e.paths[0][0] == 'next' and [x.callee for x in e.paths[0][2] if x.k == 'icall'] == [('at', over, ('idx', e.depth))]
            if not nm:
                # an indexed loop
                cs = [x.callee for k, s, sub in e.paths for x in sub if x.k == 'icall']
                if len(cs) == 1 and cs[0][0] == 'at' and cs[0][2] == ('idx', e.depth) and cs[0][1][0] == 'fld' and e.hi == size(cs[0][1]) and len(e.paths) == 1:
                    nm, full = cs[0][1][2], True
            args = [x.args for k, s, sub in e.paths for x in sub if x.k == 'icall']
            seen.append(nm)
            ctx.ob('due', w, full and all(a == (TRUE,) for a in args), 'every update of %s is applied, and told to the graph' % nm, key='due:all:%s' % nm, detail=pa.where())
        ctx.ob('due', w, seen == [roles['updates'], roles['moves']], 'the source network learns, then the target follows (%s)' % seen, key='due:order', detail=pa.where())
        first = runs[0][0]
        late = [n for n in feeds if order[n] > first]
        ctx.ob('batch', w, not late and all(len(v) == 1 for v in feeds.values()), 'the inputs are set once, before the updates', key='batch:late', detail=pa.where())
        rows = {}
        for role in ('state', 'next', 'reward', 'action', 'mask'):
            v = feeds.get(roles[role])
            if not v:
                ctx.fail('batch', w, 'the %s input (%s) is not set' % (role, roles[role]), key='batch:unset:' + role, detail=pa.where())
                continue
            ch = chunks(pa, v[0])
            if ch is None:
                ctx.fail('batch', w, 'the %s input is not built row by row: %s' % (role, show(v[0])[:200]), key='batch:form:' + role)
                continue
            rows[role] = ch
        if len(rows) < 5:
            continue
        for role, (e, loc, ps) in rows.items():
            ctx.ob('batch', w, e.hi == batch, 'the %s input has one row per experience of the batch (%s)' % (role, show(e.hi) if e.hi else 'unknown'), key='batch:rows:' + role)
            for s, kind, pc in ps:
                if kind == 'ret' or kind == 'abort':
                    continue
                ok = row(m, role, pc)
                ctx.ob('batch', w, ok and kind == 'next', 'the %s row is that of the experience: %s' % (role, show(pc)[:160] if pc else 'none'), key='batch:row:' + role)
        # the two inputs that depend on whether there is a next observation
        for role in ('next', 'mask'):
            e, loc, ps = rows[role]
            for s, kind, pc in ps:
                if kind in ('ret', 'abort') or pc is None:
                    continue
                gone = ended(m, s)
                if gone is None:
                    ctx.fail('ending', w, 'the %s row does not depend on whether there is a next observation' % role, key='ending:' + role)
                    continue
                if role == 'mask':
                    v = num(pc[1][0]) if pc[0] == 'seq' and len(pc[1]) == 1 else None
                    ctx.ob('ending', w, v == (0 if gone else 1), 'mask %s when the next observation is %s' % (v, 'missing' if gone else 'there'), key='ending:mask')
                else:
                    ctx.ob('ending', w, (pc[0] == 'filln' and 'get_ninput' in repr(pc[1])) if gone else pc[0] == 'fld', 'row of the next observation when it is %s: %s' % ('missing' if gone else 'there', show(pc)[:100]), key='ending:next')
    ctx.ob('due', w, trained > 0 and idle > 0, 'training steps happen, and only when due', key='due:never')


def chosen(m, x):
    """is x the experience of this row: the memory at a permutation of its positions"""
    if x[0] != 'at' or x[1] != m.val:
        return False
    i = x[2]
    if i[0] != 'at' or i[2][0] != 'idx':
        return False
    ps = i[1][1] if i[1][0] == 'resized' else i[1]
    if ps[0] != 'perm':
        return False
    src = ps[1]
    # positions 0..n-1, each once
    return src[0] == 'map' and src[1][0] == 'filln' and src[1][1] == size(m.val) and src[3] == size(m.val) and src[4] == ('idx', src[2])


def entryfield(m, t, k):
    return t[0] == 'fld' and t[2] == m.fields[k] and chosen(m, t[1])


def row(m, role, pc):
    """is the piece what this input gets for one experience"""
    if pc is None:
        return False
    if role == 'state':
        return entryfield(m, pc, 0)
    if role == 'reward':
        return pc[0] == 'seq' and len(pc[1]) == 1 and entryfield(m, pc[1][0], 2)
    if role == 'action':
        h = onehot(pc)
        return bool(h) and opname(h[0])[0] == 'get_noutput' and entryfield(m, h[1], 1) and num(h[2]) == 1
    if role == 'mask':
        return pc[0] == 'seq' and len(pc[1]) == 1 and num(pc[1][0]) is not None
    return entryfield(m, pc, 3) or pc[0] == 'filln' and num(pc[2]) == 0


def ended(m, s):
    """whether the path knows that the experience has no next observation"""
    for a, v in s.facts.items():
        t = None
        if a[0] == 'nz' and a[1][0] == 'size':
            t, gone = a[1][1], not v
        elif a[0] == 'eq' and ZERO in a[1:]:
            o = a[1] if a[2] == ZERO else a[2]
            if o[0] == 'size':
                t, gone = o[1], v
        elif a[0] == 'lt' and a[1] == ZERO and a[2][0] == 'size':
            t, gone = a[2][1], not v
        if t is not None and entryfield(m, t, 3):
            return gone
    return None
