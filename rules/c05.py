"""C05: out-of-date operations are scheduled, brought up to date before they are read, and leave the queue when they end."""
from edges import *
import stdmodel

Q, MAP, US, GM, FR = 'updates_', 'update_map_', 'users_', 'g_man_', 'freeze_'
GMQ = 'nnet::iconnector::graph_manager::'


def F(o, n):
    return ('fld', ('deref', o), n)


def frozen(st, ip, g=F(THIS, GM)):
    return ip.decide(st, ('nz', F(g, FR)))


def calls(evs, *names):
    return [(e, c) for e, c in flat(evs) if e.k == 'call' and lname(e.q) in names]


def applied(ip, st, fn, names):
    """what the stored callable does when it is run later: [(events per path)]"""
    s = st.fork()
    before = len(Path(s, 'ret', None, ip).ev)
    out = []
    for s2, v in stdmodel.applyv(ip, fn, [], s, {'L': None}):
        out.append(Path(s2, 'ret', v, ip).ev[before:])
    return out


def recomputes(ip, st, fn, node):
    """the callable recomputes `node` on every path"""
    try:
        runs = applied(ip, st, fn, ())
    except Exception:
        return False
    return bool(runs) and all(any(e.k == 'call' and lname(e.q) in ('forward_pass', 'update') and strip(e.recv) == node for e, c in flat(r)) for r in runs)


def strip(t):
    while t and t[0] == 'dyn':
        t = t[2]
    return t


def check_schedule(ctx):
    ctx.rule('schedule', 'told that a source changed, an operation whose sources all hold data is recomputed at once (a single source, not frozen) or put in the queue; otherwise nothing is computed, and a lost source ends it')
    opq = keep('good_status', 'notify', 'forward_pass', 'add_update')
    for f in ctx.fns('nnet::base_immutable::update', pred=lambda f: len(f['params']) == 1 and '<double>' in f['usr'] + '<double>'):
        for k in (1, 2, 3):
            st0 = empty_state()
            deps = tuple(('par', 'source%d' % i) for i in range(k))
            st0.env[('f', ('d', THIS), DEP)] = ('seq', deps)
            tag = 'C05:schedule:'
            for p in ctx.run(f, opq, st=st0, mods=False, branchy=True):
                if p.out == 'abort' or p.out == 'throw':
                    continue
                ip, st = p.ip, p.st
                alive, good = [], []
                for d in deps:
                    a = None
                    g = None
                    for at_, v in st.facts.items():
                        if at_[0] == 'nz' and strip(at_[1]) == d:
                            a = v if a is None else a and v
                        if at_[0] == 'nz' and at_[1][0] in ('mfn', 'res') and 'good_status' in repr(at_[1][:3]) and any_term(at_[1], lambda t: t == d):
                            g = v
                    alive.append(a)
                    good.append(g)
                sched = calls(p.ev, 'add_update')
                fwd = calls(p.ev, 'forward_pass')
                tell = [(e, c) for e, c in calls(p.ev, 'notify') if e.recv == THIS]
                up = [e for e, c in tell if e.args[0][1].endswith('UPDATE')]
                un = [e for e, c in tell if e.args[0][1].endswith('UNSUBSCRIBE')]
                allgood = all(a is True for a in alive) and all(g is True for g in good)
                someoff = any(g is False for g in good)
                lost = any(a is False for a in alive)
                if not allgood:
                    ctx.ob('schedule', site(f), lost or someoff, 'nothing is decided about some source', tag + 'skip', p.where())
                    ctx.ob('schedule', site(f), not sched and not fwd and not up, 'an operation is computed although a source is lost or holds no data', tag + 'early', p.where())
                    if lost and not someoff:
                        ctx.ob('schedule', site(f), len(un) == 1, 'an operation that lost a source must announce its end', tag + 'lost', p.where())
                    if not lost:
                        ctx.ob('schedule', site(f), not un, 'an operation ends although all its sources are there', tag + 'end', p.where())
                    continue
                ctx.ob('schedule', site(f), not un, 'an operation ends although all its sources are there', tag + 'end', p.where())
                fz = frozen(st, ip)
                if sched:
                    e, c = sched[0]
                    ctx.ob('schedule', site(f), len(sched) == 1 and not c and e.recv == F(THIS, GM) and e.args[0] == THIS, 'the operation itself must be put in the queue of its own graph', tag + 'who', p.where())
                    ctx.ob('schedule', site(f), recomputes(ip, st, e.args[1], THIS), 'what is queued must recompute the operation', tag + 'what', p.where())
                    ctx.ob('schedule', site(f), not fwd or fz is False, 'a frozen operation must not be computed at once', tag + 'frozen', p.where())
                else:
                    ctx.ob('schedule', site(f), len(fwd) == 1 and fwd[0][0].recv == THIS, 'an operation whose source changed is neither computed nor queued', tag + 'lostupdate', p.where())
                    ctx.ob('schedule', site(f), fz is False, 'a frozen operation must not be computed at once', tag + 'frozen', p.where())
                    ctx.ob('schedule', site(f), k == 1, 'an operation over several sources must wait in the queue until all of them are up to date', tag + 'nary', p.where())
                    ok = False
                    if fwd and up:
                        fl = [e for e, c in flat(p.ev)]
                        ok = fl.index(fwd[0][0]) < fl.index(up[0])
                    ctx.ob('schedule', site(f), ok, 'the observers must be told after the operation was recomputed', tag + 'tell', p.where())


def check_read(ctx):
    ctx.rule('read', 'the queue is drained before a value or shape is read, unless the graph is frozen')
    for q, what in (('nnet::iconnector::eval', 'value'), ('nnet::base_immutable::get_shape', 'shape')):
        for f in ctx.fns(q):
            for p in ctx.run(f, lambda g: lname(g['q']) in ('update', 'get_eval', 'get_shape') and g['usr'] != f['usr'], mods=False):
                if p.out != 'ret':
                    continue
                ip, st = p.ip, p.st
                evs = [e for e, c in flat(p.ev)]
                ups = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == GMQ + 'update' and e.recv == F(THIS, GM)]
                reads = [i for i, e in enumerate(evs) if (e.k == 'call' and lname(e.q) == 'get_eval') or (e.k == 'assume' and any_term(e.atom, lambda t: t == F(THIS, 'data_')))]
                none = ip.decide(st, ('nz', F(THIS, GM))) is False
                fz = frozen(st, ip)
                tag = 'C05:read:%s' % lname(q)
                if ups:
                    ctx.ob('read', site(f), fz is False, 'reading the %s of a frozen operation updates it' % what, tag + ':frozen', p.where())
                    ctx.ob('read', site(f), all(ups[0] < r for r in reads), 'the %s is read before the update' % what, tag + ':order', p.where())
                else:
                    ctx.ob('read', site(f), none or fz is True, 'the %s is read without bringing the graph up to date' % what, tag + ':stale', p.where())
                if what == 'value':
                    ev = [e for e in evs if e.k == 'call' and lname(e.q) == 'get_eval']
                    ctx.ob('read', site(f), len(ev) == 1 and p.val == ev[0].res, 'the value returned must be that of the operation', tag + ':value', p.where())
    for f in ctx.fns('nnet::iconnector::freeze_status'):
        par = ('par', f['params'][0]['n'])
        for p in ctx.run(f, keep('update'), mods=False):
            if p.out != 'ret':
                continue
            ip, st = p.ip, p.st
            g = F(THIS, GM)
            evs = [e for e, c in flat(p.ev)]
            w = [i for i, e in enumerate(evs) if e.k == 'write' and e.loc == ('f', ('d', g), FR)]
            u = [i for i, e in enumerate(evs) if e.k == 'call' and e.q == GMQ + 'update' and e.recv == g]
            want = ip.decide(st, ('nz', par))
            val = [evs[i].val for i in w]
            okv = len(w) == 1 and (val[0] == par or (want is not None and val[0] == ('lit', want)))
            ctx.ob('read', site(f), okv, 'the graph must take the freeze state asked for', 'C05:freeze:set', p.where())
            ctx.ob('read', site(f), want is False or (u and (not w or u[0] < w[0])), 'freezing must first bring the graph up to date', 'C05:freeze:update', p.where())


def check_queue(ctx):
    ctx.rule('queue', 'an operation is queued at most once, is taken out before it is recomputed, its observers are told afterwards, and draining ends only when nothing is left')
    for f in ctx.fns(GMQ + 'add_update'):
        dep, fn = [('par', x['n']) for x in f['params']]
        for p in ctx.run(f, keep(), mods=False):
            ip, st = p.ip, p.st
            M = F(THIS, MAP)
            had = ip.decide(st, ('has', M, dep))
            pushes = [e for e, c in flat(p.ev) if e.k == 'cmut' and e.loc == ('f', ('d', THIS), Q)]
            m1 = ip.load(st, ('f', ('d', THIS), MAP))
            sets = [e for e, c in flat(p.ev) if (e.k == 'write' and e.loc == ('m', ('f', ('d', THIS), MAP), dep)) or
                    (e.k == 'cmut' and e.loc == ('f', ('d', THIS), MAP) and e.op in ('insert', 'emplace', 'insert_or_assign'))]
            if had is True:
                ctx.ob('queue', site(f), not pushes, 'an operation that is queued already is queued twice', 'C05:add:twice', p.where())
            else:
                ctx.ob('queue', site(f), had is False, 'an operation is queued without asking whether it is queued already', 'C05:add:ask', p.where())
                ctx.ob('queue', site(f), len(pushes) == 1 and pushes[0].op in ('push_back', 'push', 'emplace') and pushes[0].args[0] == dep, 'the operation must be queued', 'C05:add:push', p.where())
                ok = len(sets) == 1 and (sets[0].val == fn if sets[0].k == 'write' else sets[0].args[0] == dep and sets[0].args[1] == fn)
                ctx.ob('queue', site(f), ok, 'what recomputes the operation must be kept with it', 'C05:add:fn', p.where())
    for f in ctx.fns(GMQ + 'update'):
        seen = False
        for p in ctx.run(f, keep('notify'), mods=False):
            if p.out != 'ret':
                ctx.fail('queue', site(f), 'draining may stop early', 'C05:drain:exit', p.where())
                continue
            loops = [e for e in p.ev if e.k == 'loop' and any(x.k == 'icall' for x, c in flat([y for _, _, ev in e.paths for y in ev]))]
            ctx.ob('queue', site(f), len(loops) == 1, 'the queue must be drained', 'C05:drain:loop', p.where())
            for L in loops:
                seen = True
                stop = L.d['stop']
                ctx.ob('queue', site(f), bool(stop) and all(any(not v and a[0] == 'nz' and a[1][0] == 'size' and isq(a[1][1]) for a, v in s.facts.items()) for s, ev in stop),
                       'draining ends while operations are still queued', 'C05:drain:stop', p.where())
                for k, s, ev in L.paths:
                    if k != 'next':
                        ctx.fail('queue', site(f), 'draining may stop early', 'C05:drain:exit')
                        continue
                    if any(a[0] == 'nz' and a[1][0] == 'mget' and not v for a, v in s.facts.items()):
                        continue        # what is queued was queued with a function to run
                    fl = [e for e, c in flat(ev)]
                    run = [i for i, e in enumerate(fl) if e.k == 'icall']
                    pop = [i for i, e in enumerate(fl) if e.k == 'cmut' and e.loc == ('f', ('d', THIS), Q) and e.op in ('pop', 'pop_back', 'pop_front', 'erase')]
                    drop = [i for i, e in enumerate(fl) if e.k == 'cmut' and e.loc == ('f', ('d', THIS), MAP) and e.op == 'erase']
                    tell = [i for i, e in enumerate(fl) if e.k == 'call' and lname(e.q) == 'notify' and e.args[0][1].endswith('UPDATE')]
                    x = None
                    if run:
                        c = fl[run[0]].callee
                        x = c[2] if c[0] == 'mget' else None
                    top = x is not None and is_elem(x) and isq(x[-1] if x[0] == 'fn' else x[1])
                    ctx.ob('queue', site(f), len(run) == 1 and top, 'the operation on top of the queue must be recomputed, once, by what was kept with it', 'C05:drain:run')
                    ctx.ob('queue', site(f), len(pop) == 1 and (not run or pop[0] < run[0]), 'the operation must be taken out of the queue before it is recomputed', 'C05:drain:pop')
                    ctx.ob('queue', site(f), len(drop) == 1 and fl[drop[0]].args[0] == x and (not run or drop[0] < run[0]), 'an operation whose update fails, or that changes again, can never be queued again', 'C05:drain:forget')
                    ctx.ob('queue', site(f), len(tell) == 1 and fl[tell[0]].recv == x and run and run[0] < tell[0], 'the observers must be told after the operation was recomputed', 'C05:drain:tell')
            wipes = [e for e in p.ev if e.k == 'cmut' and e.loc == ('f', ('d', THIS), MAP) and e.op in ('clear', 'assign')]
            ctx.ob('queue', site(f), not wipes or (loops and p.ev.index(wipes[0]) > p.ev.index(loops[0])), 'what recomputes the queued operations is thrown away', 'C05:drain:wipe', p.where())
        ctx.need(seen or True, 'no drain loop')


def is_elem(t):
    return bool(t) and (t[0] in ('at', 'nkey') or t[0] == 'fn' and t[1] == 'top')


def isq(t):
    while t[0] in ('pop', 'push', 'loopv', 'erased'):
        t = t[1] if t[0] != 'loopv' else t[2]
    if t[0] == 'fld':
        return t[2] == Q
    if t[0] == 'phi':
        return fld_loc(t[2], Q) is not None
    return False


def check_leave(ctx):
    ctx.rule('leave', 'an operation that ends or changes graph leaves its graph and its queue; the last one to leave takes the graph down')
    for f in ctx.fns(GMQ + 'suicide'):
        user = ('par', f['params'][0]['n'])
        for p in ctx.run(f, keep(), mods=False, branchy=True):
            if p.out != 'ret':
                continue
            ip, st = p.ip, p.st
            fl = list(flat(p.ev))
            dels = [i for i, (e, c) in enumerate(fl) if e.k == 'delete']
            out = [e for e, c in fl if e.k == 'cmut' and e.loc == ('f', ('d', THIS), US) and e.op == 'erase' and e.args[0] == user]
            ctx.ob('leave', site(f), len(out) >= 1, 'the operation must be taken off the graph', 'C05:leave:users', p.where())
            U = ('merase', F(THIS, US), user)
            last = ip.decide(st, ('nz', sz(U)))
            if dels:
                ctx.ob('leave', site(f), last is False and len(dels) == 1 and strip(fl[dels[0]][0].ptr) == THIS, 'the graph is taken down while operations still use it', 'C05:leave:early', p.where())
                after = [e for e, c in fl[dels[0] + 1:] if root_this(e)]
                ctx.ob('leave', site(f), not after, 'the graph is used after it was taken down', 'C05:leave:after', p.where())
                continue
            ctx.ob('leave', site(f), last is True, 'the graph is never taken down', 'C05:leave:leak', p.where())
            # neither the queue nor the map may still name the operation
            M1 = ip.load(st, ('f', ('d', THIS), MAP))
            had = ip.decide(st, ('has', F(THIS, MAP), user))
            nomap = had is False or M1 == ('merase', F(THIS, MAP), user) or any(e.k == 'cmut' and e.loc == ('f', ('d', THIS), MAP) and e.op == 'erase' and e.args[0] == user for e, c in fl)
            ctx.ob('leave', site(f), nomap, 'the graph still knows how to recompute an operation that is gone', 'C05:leave:map', p.where())
            ctx.ob('leave', site(f), had is False or filtered(p, user), 'an operation that is gone stays in the queue', 'C05:leave:queue', p.where())
    for f in ctx.fns('nnet::iconnector::~iconnector'):
        for p in ctx.run(f, keep('suicide'), mods=False):
            g = F(THIS, GM)
            s = [e for e, c in calls(p.ev, 'suicide')]
            if p.ip.decide(p.st, ('nz', g)) is False:
                ctx.ob('leave', site(f), not s, 'no graph to leave', 'C05:dtor:null', p.where())
            else:
                ctx.ob('leave', site(f), len(s) == 1 and s[0].recv == g and s[0].args == (THIS,), 'an operation that ends must leave its graph', 'C05:dtor', p.where())


def root_this(e):
    return e.k in ('write', 'cmut', 'touch') and root(e.loc) == ('d', THIS)


def filtered(p, user):
    """the queue was rebuilt from its own elements without `user`"""
    for L in [e for e in p.ev if e.k == 'loop']:
        keeps = drops = 0
        ok = bool(L.paths)
        for k, s, ev in L.paths:
            if k != 'next':
                ok = False
                continue
            # the element of this turn
            x = None
            for t in list(s.facts):
                for u in t[1:]:
                    if isinstance(u, tuple) and is_elem(u) and t[0] == 'eq' and user in t[1:]:
                        x = u
            neq = p.ip.decide(s, ('eq',) + tuple(sorted((x, user), key=repr))) if x else None
            pushed = [v for v in s.env.values() if isinstance(v, tuple) and v and v[0] == 'push' and x is not None and v[2] == x]
            pushed += [e for e, c in flat(ev) if e.k == 'cmut' and e.op in ('push_back', 'push') and x is not None and e.args[0] == x]
            if neq is None:
                ok = False
            elif neq:
                drops += 1
                ok = ok and not pushed
            else:
                keeps += 1
                ok = ok and bool(pushed)
        if ok and keeps and drops:
            i = p.ev.index(L)
            if any(e.k == 'cmut' and e.loc == ('f', ('d', THIS), Q) for e in p.ev[i + 1:]) or any(e.k == 'cmut' and e.op in ('push_back', 'push') and e.loc == ('f', ('d', THIS), Q) for e, c in flat(p.ev)):
                return True
    return False


def check_fresh(ctx):
    ctx.rule('fresh', 'a new graph is not frozen')
    n = 0
    for f in ctx.fns(GMQ + 'get'):
        for p in ctx.run(f, lambda g: False, mods=False):
            if p.out == 'ret' and p.val and p.val[0] == 'new':
                n += 1
                v = p.load(('f', ('h', p.val[1]), FR))
                ctx.ob('fresh', site(f), v in (('lit', False), ('lit', 0)), 'a new graph starts frozen: its operations are never computed', 'C05:fresh', p.where())
    ctx.need(n, 'the making of a graph')


def check_merge(ctx):
    ctx.rule('merge', 'joining graphs carries over everything queued and everyone who belongs, before the other graph is left')
    for f in ctx.fns(GMQ + 'consume'):
        o = ('par', f['params'][0]['n'])
        for p in ctx.run(f, keep('suicide'), mods=False):
            ip, st = p.ip, p.st
            same = ip.decide(st, ('eq',) + tuple(sorted((o, THIS), key=repr)))
            evs = p.ev
            muts = [e for e, c in flat(evs) if e.k in ('cmut', 'write') or (e.k == 'call' and lname(e.q) == 'suicide')]
            if same is True:
                ctx.ob('merge', site(f), not muts, 'a graph joined with itself must stay as it is', 'C05:merge:self', p.where())
                continue
            ctx.ob('merge', site(f), same is False, 'a graph joined with itself loses its content', 'C05:merge:self', p.where())
            qdone = mdone = udone = left = moved = None
            for i, e in enumerate(evs):
                if e.k == 'loop':
                    allp = [(k, s, ev) for k, s, ev in e.paths]
                    if any(k in ('break', 'ret') for k, _, _ in allp) or not allp:
                        continue
                    def every(pred):
                        return all(any(pred(x) for x, c in flat(ev)) for k, s, ev in allp if k == 'next')
                    if every(lambda x: x.k == 'cmut' and x.loc == ('f', ('d', THIS), Q) and x.op in ('push_back', 'push', 'emplace') and is_elem(x.args[0]) and of(x.args[0], o)):
                        stop = e.d['stop']
                        if not stop or all(any(not v and a[0] == 'nz' and a[1][0] == 'size' and isq(a[1][1]) for a, v in s.facts.items()) for s, ev in stop) or e.hi is not None:
                            qdone = i
                    if e.hi is not None and e.hi == sz(F(o, US)):
                        u = ('nkey', F(o, US), ('idx', e.depth))
                        if every(lambda x: x.k == 'write' and x.loc == ('f', ('d', u), GM) and x.val == THIS):
                            moved = i
                        if every(lambda x: x.k == 'call' and lname(x.q) == 'suicide' and x.recv == o and x.args == (u,)):
                            left = i
                            live = e.spec['over']
                            ctx.ob('merge', site(f), not (live and live == ('f', ('d', o), US)), 'the other graph changes while its members are walked', 'C05:merge:live', p.where())
                        if every(lambda x: x.k == 'cmut' and x.loc == ('f', ('d', THIS), US) and x.op in ('insert', 'emplace') and x.args[0] == u):
                            udone = i
                    if e.hi is not None and e.hi == sz(F(o, MAP)):
                        mdone = i
                if e.k == 'cmut' and e.loc == ('f', ('d', THIS), MAP) and e.op == 'insertall' and e.args[0] == F(o, MAP):
                    mdone = i
                if e.k == 'cmut' and e.loc == ('f', ('d', THIS), US) and e.op == 'insertall' and e.args[0] == F(o, US):
                    udone = i
            ctx.ob('merge', site(f), qdone is not None, 'operations queued in the other graph are lost', 'C05:merge:queue', p.where())
            ctx.ob('merge', site(f), mdone is not None, 'what recomputes the operations queued in the other graph is lost', 'C05:merge:map', p.where())
            ctx.ob('merge', site(f), moved is not None, 'operations of the other graph are not moved over', 'C05:merge:move', p.where())
            ctx.ob('merge', site(f), udone is not None, 'operations moved over are not recorded: the graph may be taken down under them', 'C05:merge:users', p.where())
            ctx.ob('merge', site(f), left is not None, 'the other graph is never given up', 'C05:merge:leave', p.where())
            if left is not None:
                ctx.ob('merge', site(f), all(x is None or x < left for x in (qdone, mdone)), 'the other graph is taken down before its queue was taken over', 'C05:merge:order', p.where())
                for e in evs[left + 1:]:
                    rd = [t for t in ([e.args[0]] if e.k == 'cmut' and e.args else [])]
                    # values read before (copies) are fine; a live read of the other graph afterwards is not
                    if e.k in ('cmut', 'write') and root(e.loc) == ('d', o):
                        ctx.fail('merge', site(f), 'the other graph is used after it was given up', 'C05:merge:after', p.where())
    for f in ctx.fns(GMQ + 'get'):
        src, user = [('par', x['n']) for x in f['params']]
        for p in ctx.run(f, keep(), mods=False):
            if p.out != 'ret':
                continue
            ip, st = p.ip, p.st
            g = ip.load(st, ('f', ('d', src), GM))
            ctx.ob('merge', site(f), p.val == g and (ip.decide(st, ('nz', g)) is True or g[0] == 'new'), 'the graph of the given operation must be returned', 'C05:get:val', p.where())
            who = user if ip.decide(st, ('nz', user)) is not False else src
            ins = [e for e, c in flat(p.ev) if e.k == 'cmut' and e.loc[0] == 'f' and e.loc[2] == US and e.op in ('insert', 'emplace')]
            ctx.ob('merge', site(f), any(e.args[0] == who for e in ins) and all(e.args[0] in (who, src) for e in ins), 'the user must be recorded with the graph', 'C05:get:user', p.where())
            new = [e for e, c in flat(p.ev) if e.k == 'new']
            ctx.ob('merge', site(f), not new or ip.decide(st, ('nz', F(src, GM))) is False, 'an operation that has a graph gets a second one', 'C05:get:new', p.where())
    for f in ctx.fns('nnet::iconnector::update_graph'):
        a = ('par', f['params'][0]['n'])
        for k in (0, 1, 2, 3):
            args = tuple(('par', 'arg%d' % i) for i in range(k))
            for p in ctx.run(f, lambda g: g['q'] in (GMQ + 'get', GMQ + 'consume'), mods=False, args={0: ('seq', args)}, branchy=True):
                if p.out != 'ret':
                    continue
                ip, st = p.ip, p.st
                g = ip.load(st, ('f', ('d', THIS), GM))
                gets = [e for e, c in flat(p.ev) if e.k == 'call' and e.q == GMQ + 'get']
                cons = [e for e, c in flat(p.ev) if e.k == 'call' and e.q == GMQ + 'consume']
                if k == 0:
                    own = ip.decide(st, ('nz', F(THIS, GM)))
                    ctx.ob('merge', site(f), own is True or any(e.args and e.args[0] == THIS for e in gets), 'an operation over leaves only must get a graph', 'C05:join:own', p.where())
                    continue
                mine = [e for e in gets if len(e.args) == 2 and e.args[1] == THIS and e.args[0] in args]
                ctx.ob('merge', site(f), len(mine) >= 1 and any(g == e.res for e in mine), 'an operation must join the graph of the operations it depends on', 'C05:join:first', p.where())
                for x in args:
                    ok = any(e.args[0] == x for e in mine) or any(e.recv == g and e.args[0] == F(x, GM) for e in cons)
                    ctx.ob('merge', site(f), ok, 'the graphs of all operations it depends on must be joined', 'C05:join:all', p.where())


def of(t, o):
    return any_term(t, lambda x: x == F(o, Q) or (x[0] == 'phi' and fld_loc(x[2], Q) == ('d', o)))


def check_copy(ctx):
    ctx.rule('copy', 'a copy or a move of an operation joins the graph of its source, leaves its own, and is queued when the source is')
    for kind, q in (('copy', 'nnet::iconnector::copy_helper'), ('move', 'nnet::iconnector::move_helper')):
        pass
    fs = [(k, f) for k, f in (('copy', g) for g in ctx.fns('nnet::iconnector::iconnector', pred=lambda f: one(f, 'l')) + ctx.fns('nnet::iconnector::operator=', pred=lambda f: one(f, 'l')))]
    fs += [(k, f) for k, f in (('move', g) for g in ctx.fns('nnet::iconnector::iconnector', pred=lambda f: one(f, 'r')) + ctx.fns('nnet::iconnector::operator=', pred=lambda f: one(f, 'r')))]
    for kind, f in fs:
        o = ('par', f['params'][0]['n'])
        opq = lambda g: g['q'] in (GMQ + 'get', GMQ + 'suicide', 'nnet::iconnector::jacobian_correction') or g['q'].startswith(('nnet::iobserver::', 'nnet::inode::', 'nnet::subject::'))
        assign = lname(f['q']) == 'operator='
        tag = 'C05:%s%s:' % (kind, '=' if assign else '')
        for p in ctx.run(f, opq, mods=False):
            if p.out != 'ret':
                continue
            ip, st = p.ip, p.st
            if assign and ip.decide(st, ('eq',) + tuple(sorted((o, THIS), key=repr))):
                continue
            fl = [e for e, c in flat(p.ev)]
            gets = [e for e in fl if e.k == 'call' and e.q == GMQ + 'get' and len(e.args) == 2 and strip(e.args[0]) == o and e.args[1] == THIS]
            g = ip.load(st, ('f', ('d', THIS), GM))
            ctx.ob('copy', site(f), len(gets) == 1 and g == gets[0].res, 'the new operation must join the graph of its source', tag + 'join', p.where())
            if not gets:
                continue
            G = gets[0].res
            leave = [e for e in fl if e.k == 'call' and e.q == GMQ + 'suicide']
            own = F(THIS, GM)
            if assign and ip.decide(st, ('nz', own)) is not False:
                ctx.ob('copy', site(f), any(e.recv == own and e.args == (THIS,) and fl.index(e) < fl.index(gets[0]) for e in leave), 'the operation must leave the graph it was in before it joins another', tag + 'leave', p.where())
            had = None
            for a, v in st.facts.items():
                if a[0] == 'has' and a[2] == o and a[1] in (F(G, MAP), F(F(o, GM), MAP)):
                    had = v
            queued = [e for e in fl if e.k == 'cmut' and e.loc == ('f', ('d', G), Q) and e.op in ('push_back', 'push', 'emplace') and e.args[0] == THIS]
            kept = [e.val if e.k == 'write' else e.args[1] for e in fl if e.k == 'write' and e.loc == ('m', ('f', ('d', G), MAP), THIS) or
                    e.k == 'cmut' and e.loc == ('f', ('d', G), MAP) and e.op == 'insert' and e.args[0] == THIS]
            already = ip.decide(st, ('has', F(G, MAP), THIS))
            if had is False:
                ctx.ob('copy', site(f), not queued, 'up to date, nothing to queue', tag + 'queue', p.where())
            else:
                ctx.ob('copy', site(f), had is True and (already is True or (len(queued) == 1 and len(kept) == 1 and recomputes(ip, st, kept[0], THIS))), 'a copy of an out-of-date operation stays out of date for ever', tag + 'pending', p.where())
            if kind == 'move':
                og = F(o, GM)
                if ip.decide(st, ('nz', og)) is not False:
                    out = [e for e in leave if strip(e.recv) == og and e.args == (o,)]
                    ctx.ob('copy', site(f), len(out) == 1 and ip.load(st, ('f', ('d', o), GM)) == NULL, 'the emptied operation must leave the graph', tag + 'source', p.where())
                    if out:
                        ctx.ob('copy', site(f), all(fl.index(e) < fl.index(out[0]) for e in gets + queued), 'the graph may be taken down before it is joined', tag + 'order', p.where())


def one(f, ref):
    t = f['params'][0]['t'] if len(f['params']) == 1 else {}
    return t.get('ref') == ref and t.get('rq') == 'nnet::iconnector' and not t.get('ptr')


def check_writers(ctx):
    ctx.rule('state', 'the queue, the members and the freeze state of a graph are changed by the graph itself only')
    p = ctx.prog('base')
    hm = {'nnet::iconnector::freeze_status'}
    n = 0
    for f in p.fns.values():
        if not f.get('body') or not f['q'].startswith(('nnet::', 'rocnnet::')):
            continue
        for x in walk_ast(f['body']):
            if x.get('k') == 'fld' or x.get('k') == 'mem':
                if x.get('n') in (Q, MAP, US) and 'graph_manager' in str(x.get('own', x.get('cls', ''))):
                    n += 1
                    ctx.ob('state', site(f), f['q'].startswith(GMQ), '%s reaches into the queue of a graph' % f['q'], 'C05:state:' + f['q'])
    ctx.notes.append('%d accesses' % n)


def walk_ast(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk_ast(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk_ast(v)


def check(ctx):
    ctx.explain = ('Every path of the update scheduling, the queue of a graph, the joining and leaving of graphs and the reading of values is walked; the '
                   'number of sources is 1 to 3 where paths depend on it, everything else is for any number of operations.')
    check_schedule(ctx)
    check_read(ctx)
    check_queue(ctx)
    check_fresh(ctx)
    check_leave(ctx)
    check_merge(ctx)
    check_copy(ctx)
