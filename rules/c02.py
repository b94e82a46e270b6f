"""C02: the end of a node reaches everything that depends on it, exactly once and only then."""
from edges import *

KILL, OND = 'killers_', 'ondeath_deps_'


def arg(f, n):
    return ('par', f['params'][n]['n'])


def live_iteration(e, names, owner=None):
    """does loop e walk the live container field itself (instead of a copy of it)?"""
    if e.k != 'loop':
        return None
    o = e.spec['over']
    if o is not None and o[0] == 'f' and o[2] in names:
        return o
    for l, init in e.W.items():
        if init and init[0] == 'it':
            c = init[1]
            if c[0] == 'f' and c[2] in names:
                return c
    return None


def check_subject_end(ctx):
    ctx.rule('subject-end', 'a subject that ends first leaves the registries of those who would destroy it, then tells every observer it has that it is gone')
    for f in ctx.fns('nnet::subject::~subject'):
        for p in ctx.run(f, keep('remove_ondeath_dependent', 'notify', *QUIET), mods=False):
            K = ('fld', ('deref', THIS), KILL)
            left = told = None
            for n, e in enumerate(p.ev):
                if e.k == 'loop' and e.hi is not None and e.hi[0] == 'size' and any_term(e.hi, lambda t: t == K):
                    if any(k in ('break', 'ret') for k, _, _ in e.paths):
                        continue
                    good = all(any(x.k == 'call' and lname(x.q) == 'remove_ondeath_dependent' and element_of(x.recv, K, e.hi[1], e.depth) and x.args == (THIS,)
                                   for x, _ in flat(ev)) for k, s, ev in e.paths if k == 'next')
                    if good and e.paths:
                        left = n if left is None else left
                        ctx.ob('subject-end', site(f), live_iteration(e, (KILL,)) is None, 'the registry changes while it is walked', 'C02:subject-end:live', p.where())
                if e.k == 'call' and lname(e.q) == 'notify' and e.recv == THIS:
                    ctx.ob('subject-end', site(f), e.args and e.args[0][0] == 'enum' and e.args[0][1].endswith('UNSUBSCRIBE'), 'the observers must be told that the subject is gone', 'C02:subject-end:msg', p.where())
                    told = n
            ctx.ob('subject-end', site(f), left is not None, 'every registered destroyer must forget the subject', 'C02:subject-end:killers', p.where())
            ctx.ob('subject-end', site(f), told is not None, 'the observers must be told on every path', 'C02:subject-end:notify', p.where())
            if left is not None and told is not None:
                ctx.ob('subject-end', site(f), left < told, 'the destroyers must forget the subject before any observer reacts', 'C02:subject-end:order', p.where())


def element_of(t, K, over, d):
    """t is the current element of the walked sequence (the container itself or a copy of it)"""
    return t in (('nkey', K, ('idx', d)), ('nkey', over, ('idx', d)), at(over, ('idx', d)))


def check_notify(ctx):
    ctx.rule('notify', 'a notification reaches every observer that is still registered, with its current slots and the message unchanged, and survives observers leaving meanwhile')
    A = ('fld', ('deref', THIS), AUD)
    for f in ctx.fns('nnet::subject::notify'):
        msg = arg(f, 0)
        for p in ctx.run(f, keep('update', *QUIET)):
            upd = [(e, c) for e, c in flat(p.ev) if e.k == 'call' and lname(e.q) == 'update' and len(e.args) == 2]
            if p.out != 'ret':
                ctx.fail('notify', site(f), 'notify may leave early', 'C02:notify:exit', p.where())
                continue
            if not upd:
                ctx.fail('notify', site(f), 'observers are not told on some path', 'C02:notify:none', p.where())
                continue
            for e, c in upd:
                ctx.ob('notify', site(f), bool(c), 'every observer must be told, not a single one', 'C02:notify:all', p.where())
                if not c:
                    continue
                for l in c:
                    ctx.ob('notify', site(f), live_iteration(l[0], (AUD,)) is None, 'observers may leave while the audience is walked', 'C02:notify:live', p.where())
                    ctx.ob('notify', site(f), not any(k in ('break', 'ret') for k, _, _ in l[0].paths), 'no observer may be skipped', 'C02:notify:break', p.where())
                ctx.ob('notify', site(f), l[0].hi is not None and whole_audience(p, l[0], A), 'the walk must cover the whole audience', 'C02:notify:cover', p.where())
                s = c[-1][2]
                v = e.recv
                present = any(a[0] == 'has' and val and a[2] == v and aud_of(a[1], THIS) for a, val in s.facts.items())
                ctx.ob('notify', site(f), present, 'an observer that left meanwhile must not be told', 'C02:notify:present', p.where())
                a0 = e.args[0]
                ctx.ob('notify', site(f), a0[0] == 'mget' and aud_of(a0[1], THIS) and a0[2] == v, 'the observer must get its own current slots, got %s' % show(a0), 'C02:notify:slots', p.where())
                ctx.ob('notify', site(f), e.args[1] == msg, 'the message must be passed on unchanged', 'C02:notify:msg', p.where())
            # an iteration that tells nobody is right only when the observer has left
            for e, c in upd:
                if not c:
                    continue
                for k, s, ev in c[-1][0].paths:
                    if k == 'next' and not any(x.k == 'call' and lname(x.q) == 'update' for x, _ in flat(ev)):
                        gone = any(a[0] == 'has' and val is False and aud_of(a[1], THIS) for a, val in s.facts.items())
                        ctx.ob('notify', site(f), gone, 'an observer that is still registered is skipped', 'C02:notify:skip', ' && '.join(showatom(a, v) for a, v in s.facts.items()))


def whole_audience(p, loop, A):
    if loop.hi == sz(A):
        return True
    h = loop.hi
    if h[0] != 'size':
        return False
    # a list built by an earlier walk over the whole audience
    return any_term(h, lambda t: t == A or t == sz(A))


def aud_of(t, x):
    if t[0] == 'fld':
        return t[2] == AUD
    if t[0] == 'phi':
        return fld_loc(t[2], AUD) is not None
    if t[0] in ('mupd', 'merase'):
        return aud_of(t[1], x)
    return False


def check_told(ctx):
    ctx.rule('told', 'an observer told that a subject is gone drops exactly the slots concerned and then runs its end-of-life handler once; an update message only updates')
    for f in ctx.fns('nnet::iobserver::update', pred=lambda f: len(f['params']) == 2):
        idxs, msg = arg(f, 0), arg(f, 1)
        opq = lambda g: lname(g['q']) in ('remove_dependency', 'death_on_broken') or (lname(g['q']) == 'update' and len(g['params']) == 1)
        for p in ctx.run(f, opq, mods=False):
            gone = upd = None
            for a, v in p.facts.items():
                if a[0] == 'eq' and msg in a[1:]:
                    o = a[2] if a[1] == msg else a[1]
                    if o[0] == 'enum' and v:
                        gone = o[1].endswith('UNSUBSCRIBE')
                        upd = o[1].endswith('UPDATE')
                    elif o[0] == 'enum' and v is False and o[1].endswith('UNSUBSCRIBE') and gone is None:
                        gone = False
                    elif o[0] == 'enum' and v is False and o[1].endswith('UPDATE') and upd is None:
                        upd = False
            if gone is None and upd is False:
                gone = True
            if upd is None and gone is False:
                upd = True
            deaths = [(n, e) for n, e in enumerate(p.ev) if e.k == 'call' and lname(e.q) == 'death_on_broken']
            inner = [e for e, c in flat(p.ev) if c and e.k == 'call' and lname(e.q) == 'death_on_broken']
            rems = [n for n, e in enumerate(p.ev) if e.k == 'loop' and removes_all(e, idxs)]
            anyrem = [e for e, c in flat(p.ev) if e.k == 'call' and lname(e.q) == 'remove_dependency']
            ups = [e for e, c in flat(p.ev) if e.k == 'call' and lname(e.q) == 'update']
            if gone:
                ctx.ob('told', site(f), len(rems) == 1 and not (len(anyrem) > sum(len([k for k in p.ev[r].paths if k[0] == 'next']) for r in rems)), 'every slot the subject held must be dropped', 'C02:told:slots', p.where())
                ctx.ob('told', site(f), len(deaths) == 1 and not inner, 'the end-of-life handler must run exactly once', 'C02:told:handler', p.where())
                if deaths and rems:
                    ctx.ob('told', site(f), deaths[0][0] > rems[-1], 'the slots must be dropped before the handler runs', 'C02:told:order', p.where())
                    after = [e for e in p.ev[deaths[0][0] + 1:] if touches_this(e)]
                    ctx.ob('told', site(f), not after, 'the observer may be gone after its handler ran', 'C02:told:after', p.where())
                ctx.ob('told', site(f), not ups, 'an ended subject must not trigger a value update', 'C02:told:update', p.where())
            elif upd:
                ctx.ob('told', site(f), not anyrem and not deaths and not inner, 'a value update must not drop slots or end the observer', 'C02:told:upd', p.where())
                ctx.ob('told', site(f), len(ups) == 1 and ups[0].args == (idxs,) and ups[0].recv == THIS, 'a value update must reach the observer with its slots', 'C02:told:upd2', p.where())
            else:
                ctx.ob('told', site(f), not deaths and not inner and not anyrem, 'an unknown message must not end the observer', 'C02:told:other', p.where())


def removes_all(e, idxs):
    if e.hi != sz(idxs) or any(k in ('break', 'ret') for k, _, _ in e.paths):
        return False
    want = ('nkey', idxs, ('idx', e.depth))
    return bool(e.paths) and all(any(x.k == 'call' and lname(x.q) == 'remove_dependency' and x.args == (want,) and x.recv == THIS for x, _ in flat(ev))
                                 for k, s, ev in e.paths if k == 'next')


def touches_this(e):
    if e.k in ('write', 'cmut') and root(e.loc) == ('d', THIS):
        return True
    if e.k == 'call' and e.recv == THIS and not e.q.endswith('~'):
        return True
    if e.k == 'assume' and any_term(e.atom, lambda t: t[0] == 'fld' and t[1] == ('deref', THIS)):
        return True
    return False


def check_registry(ctx):
    ctx.rule('registry', 'who destroys whom is recorded on both ends, and forgotten on both ends')
    pairs = [('nnet::subject::attach_killer', KILL, 'insert'), ('nnet::subject::detach_killer', KILL, 'erase'),
             ('nnet::iobserver::add_ondeath_dependent', OND, 'insert'), ('nnet::iobserver::remove_ondeath_dependent', OND, 'erase')]
    other = {KILL: OND, OND: KILL}
    for q, mine, op in pairs:
        for f in ctx.fns(q):
            o = arg(f, 0)
            M = ('fld', ('deref', THIS), mine)
            O = ('fld', ('deref', o), other[mine])
            for p in ctx.run(f, keep(*QUIET), mods=False):
                ip, st = p.ip, p.st
                if p.out != 'ret':
                    ctx.fail('registry', site(f), 'must not refuse', 'C02:%s:exit' % lname(q), p.where())
                    continue
                cm = [e for e, c in flat(p.ev) if e.k == 'cmut' and (fld_loc(e.loc, KILL) is not None or fld_loc(e.loc, OND) is not None)]
                if is_null(st, ip, o):
                    ctx.ob('registry', site(f), not cm, 'nothing to record for a null partner', 'C02:%s:null' % lname(q), p.where())
                    continue
                m = [e for e in cm if e.loc == ('f', ('d', THIS), mine)]
                t = [e for e in cm if e.loc == ('f', ('d', o), other[mine])]
                want = op == 'insert'
                hadm = st.facts.get(('has', M, o))
                hado = st.facts.get(('has', O, THIS))
                okm = (len(m) == 1 and m[0].op in (op, 'emplace' if want else op) and m[0].args[0] == o) or (not m and hadm is want)
                # the partner is done unless it was already in the wanted state, or both were (nothing to do)
                oko = (len(t) == 1 and t[0].op in (op, 'emplace' if want else op) and t[0].args[0] == THIS) or (not t and (hado is want or hadm is want))
                bad = [e for e in cm if e not in m and e not in t]
                ctx.ob('registry', site(f), okm and not bad, 'the partner must be %s' % ('recorded' if want else 'forgotten'), 'C02:%s:own' % lname(q), p.where())
                ctx.ob('registry', site(f), oko, 'the other end must be told too', 'C02:%s:other' % lname(q), p.where())
                # mutual recursion ends only because the own side is done first
                seen = False
                for e, c in flat(p.ev):
                    if e in m:
                        seen = True
                    if e.k == 'enter' and e.q in [x for x, _, _ in pairs] and e.q != q:
                        ctx.ob('registry', site(f), seen, 'the own side must be recorded before the partner calls back', 'C02:%s:loop' % lname(q), p.where())
    for f in ctx.fns('nnet::iobserver::~iobserver'):
        D = ('fld', ('deref', THIS), OND)
        for p in ctx.run(f, keep('remove_dependency', *QUIET)):
            if p.out != 'ret':
                continue
            ok = False
            for e in p.ev:
                if e.k != 'loop':
                    continue
                dels = [x for x, c in flat(e.paths[0][2] if e.paths else []) if x.k == 'delete']
                if not dels:
                    continue
                whole = e.hi is not None and e.hi[0] == 'size' and ond_of(e.hi[1])
                if whole:
                    ok = all(any(x.k == 'delete' and x.ptr[0] == 'nkey' and ond_of(x.ptr[1]) for x, c in flat(ev)) for k, s, ev in e.paths if k == 'next') and not any(k in ('break', 'ret') for k, _, _ in e.paths)
                    ctx.ob('registry', site(f), live_iteration(e, (OND,)) is None, 'the registry changes while it is walked', 'C02:observer-end:live', p.where())
                else:
                    # until nothing is left: the end of each dependent takes it off the registry
                    st_ = e.d['stop']
                    empt = all(any(a[0] == 'nz' and v is False and a[1][0] == 'size' and ond_of(a[1][1]) for a, v in s.facts.items()) for s, ev in st_) and st_
                    each = all(any(x.k == 'delete' for x, c in flat(ev)) for k, s, ev in e.paths if k == 'next')
                    ok = bool(empt) and each and not any(k in ('break', 'ret') for k, _, _ in e.paths)
            ctx.ob('registry', site(f), ok, 'everything registered to end with the observer must be destroyed', 'C02:observer-end', p.where())


def ond_of(t):
    if t[0] == 'fld':
        return t[2] == OND
    if t[0] == 'phi':
        return fld_loc(t[2], OND) is not None
    if t[0] in ('mupd', 'merase'):
        return ond_of(t[1])
    return False


def check(ctx):
    ctx.explain = ('The destructors, the notification fan-out, the reaction of an observer to it and the registry of who destroys whom are '
                   'walked over all paths; each path must tell everyone concerned, once, in an order that survives observers disappearing on the way.')
    check_subject_end(ctx)
    check_notify(ctx)
    check_told(ctx)
    check_registry(ctx)
