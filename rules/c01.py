"""C01: an edge is always recorded on both of its ends."""
from edges import *


def other_of(f):
    return ('par', f['params'][0]['n'])


def released(ip, x, skip_null=True):
    """iteration predicate: slot i of x is released on both ends (or was empty)"""
    def each(i, el, vec, s, ev):
        for e, c in flat(ev):
            o = edge_op(ip, e)
            if o and o[0] == 'del' and o[2] == x and lindiff(o[3], i) == 0 and (o[1] == el or slot_of(o[1], x, i)):
                return True
            if o and o[0] == 'rem' and o[1] == x and lindiff(o[2], i) == 0:
                return True
        for a, v in s.facts.items():
            if a[0] == 'nz' and v is False and slot_of(a[1], x, i):
                return True
            if a[0] == 'lt':
                for t in a[1:3]:
                    if t[0] == 'size' and is_dep_of(t[1], x) and ip.decide(s, ('lt', i, t)) is False:
                        return True         # the slot no longer exists
        return is_null(s, ip, el)
    return each


def slot_of(t, x, i):
    return t[0] == 'at' and is_dep_of(t[1], x) and lindiff(t[2], i) == 0


def check_half(ctx):
    """the audience side: attach/detach change exactly the entry they are asked for"""
    ctx.rule('audience', 'attach(viewer,i) records exactly (viewer,i); detach(viewer,i) forgets exactly it and leaves no empty entry; detach(viewer) forgets all of the viewer')
    for f in ctx.fns('nnet::subject::attach'):
        v, i = [('par', p['n']) for p in f['params']]
        for p in ctx.run(f, keep(*QUIET)):
            if p.out != 'ret':
                ctx.fail('audience', site(f), 'attach may leave without recording the edge', 'C01:attach:exit', p.where())
                continue
            o = [x for x, _, _ in ops(p)]
            known = p.ip.decide(p.st, ('has', mget(('fld', ('deref', THIS), AUD), v), i))
            ok = o == [('add', THIS, v, i)] or (not o and known)
            ctx.ob('audience', site(f), ok, 'attach(viewer, idx) must record exactly (viewer, idx); it does %s' % o, 'C01:attach', p.where())
    for f in ctx.fns('nnet::subject::detach'):
        ps = [('par', p['n']) for p in f['params']]
        v = ps[0]
        A = ('fld', ('deref', THIS), AUD)
        for p in ctx.run(f, keep(*QUIET)):
            if p.out != 'ret':
                ctx.fail('audience', site(f), 'detach may leave without forgetting the edge', 'C01:detach%d:exit' % len(ps), p.where())
                continue
            o = [x for x, _, _ in ops(p)]
            ip, st = p.ip, p.st
            inmap = p.facts.get(('has', A, v))
            if len(ps) == 1:
                ok = o == [('delall', THIS, v)] or (not o and inmap is False)
                ctx.ob('audience', site(f), ok, 'detach(viewer) must forget every slot of the viewer and nothing else; it does %s' % o, 'C01:detach1', p.where())
                continue
            i = ps[1]
            S = mget(A, v)
            left = ip.decide(st, ('nz', sz(('merase', S, i))))
            if inmap is False:
                ok = all(x in (('delall', THIS, v), ('del', THIS, v, i)) for x in o)
            else:
                ok = all(x in (('delall', THIS, v), ('del', THIS, v, i)) for x in o)
                dels = ('del', THIS, v, i) in o
                alls = ('delall', THIS, v) in o
                one = ip.decide(st, ('eq',) + tuple(sorted((sz(S), ONE), key=repr)))
                hasi = ip.decide(st, ('has', S, i))
                if not dels and not alls:
                    ok = hasi is False
                elif alls:
                    # dropping the whole entry is right only when nothing else is left in it
                    ok = ok and (left is False or (one and hasi))
                else:
                    ok = ok and left is True
            ctx.ob('audience', site(f), ok, 'detach(viewer, idx) must forget exactly (viewer, idx), and the entry only once it is empty; it does %s' % o,
                   'C01:detach2', p.where())


def check_slots(ctx):
    ctx.rule('slots', 'an observer changes a slot only together with the audience entry of the subjects involved')
    D = ('fld', ('deref', THIS), DEP)
    half = keep('attach', 'detach', *QUIET)
    # --- add
    for f in ctx.fns('nnet::iobserver::add_dependency'):
        d = other_of(f)
        for p in ctx.run(f, half, mods=False):
            o = [x for x, _, _ in ops(p)]
            adds = [x for x in o if x[0] == 'add']
            nul = is_null(p.st, p.ip, d)
            ok = p.out == 'ret' and ('dpush', THIS, d) in o or (nul and ('dpush', THIS, NULL) in o)
            ok = ok and (adds == ([] if nul else [('add', d, THIS, sz(D))])) and len(o) == len(adds) + 1
            ctx.ob('slots', site(f), ok, 'add_dependency must append the subject and register the new slot with it; it does %s' % o, 'C01:add', p.where())
    # --- remove
    for f in ctx.fns('nnet::iobserver::remove_dependency'):
        i = other_of(f)
        old = at(D, i)
        for p in ctx.run(f, half, mods=False):
            o = ops(p)
            prim = [x for x, c, _ in o if not c]
            inner = [(x, c) for x, c, _ in o if c]
            inb = p.ip.decide(p.st, ('lt', i, sz(D)))
            for x, c in inner:
                okx = x[0] == 'dpop' and x[1] == THIS and last_null(p.ip, c[-1][2])
                ctx.ob('slots', site(f), okx, 'only empty trailing slots may be dropped; it does %s' % (x,), 'C01:remove:tail', p.where())
            if p.out == 'throw':
                ctx.ob('slots', site(f), inb is False and not prim, 'remove_dependency may refuse only an index that is out of range', 'C01:remove:throw', p.where())
                continue
            if is_null(p.st, p.ip, old) or (inb is False):
                ctx.ob('slots', site(f), all(x[0] in ('dset',) and x[3] == NULL and x[2] == i for x in prim), 'an empty slot has nothing to release', 'C01:remove:null', p.where())
                continue
            ok = [x for x in prim if x[0] != 'dset'] == [('del', old, THIS, i)] and \
                 [x for x in prim if x[0] == 'dset'] == [('dset', THIS, i, NULL)]
            ctx.ob('slots', site(f), ok, 'remove_dependency must unregister the slot with its subject and empty it; it does %s' % prim, 'C01:remove', p.where())
    # --- replace
    for f in ctx.fns('nnet::iobserver::replace_dependency'):
        d, i = [('par', p['n']) for p in f['params']]
        old = at(D, i)
        for p in ctx.run(f, half, mods=False):
            o = [x for x, _, _ in ops(p)]
            ip, st = p.ip, p.st
            inb = ip.decide(st, ('lt', i, sz(D)))
            dn = is_null(st, ip, d)
            on = is_null(st, ip, old) or inb is False
            same = ip.decide(st, ('eq',) + tuple(sorted((d, old), key=repr)))
            adds = [x for x in o if x[0] == 'add']
            dels = [x for x in o if x[0] in ('del', 'delall')]
            sets = [x for x in o if x[0] in ('dset', 'dpush')]
            rest = [x for x in o if x[0] not in ('add', 'del', 'dset', 'dgrow', 'dpush')]
            if p.out != 'ret':
                ctx.fail('slots', site(f), 'replace_dependency must not refuse', 'C01:replace:exit', p.where())
                continue
            ok = not rest
            if same and not on and not dn:
                # the slot keeps its subject: still registered afterwards
                k = [x for x in o if x[0] in ('add', 'del')]
                ok = ok and (not k or k[-1] == ('add', d, THIS, i))
            else:
                ok = ok and (adds == ([] if dn else [('add', d, THIS, i)]))
                ok = ok and (dels == ([] if on else [('del', old, THIS, i)]))
                if dels and adds and same is not False and o.index(dels[0]) > o.index(adds[0]):
                    ok = False
            fin = p.load(('e', ('f', ('d', THIS), DEP), i))
            ok = ok and bool(sets or same) and (fin == d or (dn and fin == NULL) or (same and fin == old))
            ctx.ob('slots', site(f), ok, 'replace_dependency must unregister the old subject of the slot and register the new one; it does %s' % o, 'C01:replace', p.where())
            if inb is False:
                ctx.ob('slots', site(f), any(x[0] in ('dgrow', 'dpush') for x in o), 'a slot past the end needs the vector to grow first', 'C01:replace:grow', p.where())


def last_null(ip, s):
    for a, v in s.facts.items():
        if a[0] == 'nz' and v is False and a[1][0] == 'at' and lindiff(a[1][2], isub(sz(a[1][1]), ONE)) == 0:
            return True
    return False


def check_transfer(ctx):
    ctx.rule('transfer', 'copying registers every slot of the copy, releasing the old ones first; moving re-registers every slot and unregisters the source; destruction releases every slot')
    D = ('fld', ('deref', THIS), DEP)
    mine = lambda t: is_dep_of(t, THIS) and not mentions(t, ('par', 'other'))
    half = keep('attach', 'detach', *QUIET)
    for f in ctx.fns('nnet::iobserver::operator=') + ctx.fns('nnet::iobserver::iobserver', pred=lambda f: len(f['params']) == 1 and 'nnet::iobserver &' in f['sig']):
        ctor = f.get('kind') == 'ctor'
        move = '&&' in f['sig']
        src = other_of(f)
        OD = ('fld', ('deref', src), DEP)
        tag = 'C01:%s-%s' % ('move' if move else 'copy', 'ctor' if ctor else 'assign')
        for p in ctx.run(f, half, mods=False):
            ip = p.ip
            if p.ip.decide(p.st, ('eq',) + tuple(sorted((src, THIS), key=repr))):
                ctx.ob('transfer', site(f), not ops(p), 'self-assignment must leave the edges alone', tag + ':self', p.where())
                continue
            loops = [e for e in p.ev if e.k == 'loop']
            rel = [e for e in loops if covers(e, lambda t: t == D or (t[0] == 'phi' and mine(t)), released(ip, THIS))]
            if not ctor:
                ctx.ob('transfer', site(f), bool(rel), 'every old slot must be unregistered before the slots are overwritten', tag + ':release', p.where())

            def taken(i, el, vec, s, ev):
                o = [x for x, _, _ in ops(p, ev)]
                addx = [x for x in o if x[0] in ('add', 'addd')]
                if is_null(s, ip, el):
                    return not addx or all(x[0] == 'addd' for x in addx)
                if move:
                    return addx == [('add', el, THIS, i)] and ('del', el, src, i) in o
                if any(x == ('addd', THIS, el) for x in addx):
                    return True
                if ('dpush', THIS, el) in o:
                    k = [x for x in addx if x[0] == 'add' and x[1] == el and x[2] == THIS]
                    return len(k) == 1 and len(addx) == 1 and k[0][3][0] in ('size', 'idx', 'lin') and slot_is_end(s, k[0][3], i)
                if addx == [('add', el, THIS, i)]:
                    return any(x == ('dset', THIS, i, el) for x in o) or any(x[0][0] == 'dassign' for x in ops(p) if not x[1])
                return False
            if not ctor:
                before = [x for x, c, _ in ops(p) if not c]
                ctx.ob('transfer', site(f), any(x[0] in ('dclear', 'dassign') and x[1] == THIS for x in before), 'the old slots must be dropped', tag + ':drop', p.where())
            take = [e for e in loops if covers(e, lambda t: t == OD or (move and is_dep_of(t, THIS)), taken)]
            ctx.ob('transfer', site(f), bool(take), 'every subject of the source must learn about the new slot%s' % (' and forget the source' if move else ''), tag + ':take', p.where())
            fin = p.load(('f', ('d', THIS), DEP))
            if move:
                o = [x for x, c, _ in ops(p) if not c]
                ctx.ob('transfer', site(f), ('dassign', THIS, OD) in o or fin == OD, 'the slots themselves must be taken over', tag + ':slots', p.where())
                so = p.load(('f', ('d', src), DEP))
                ctx.ob('transfer', site(f), so != OD, 'the source must be left without slots, its registrations being gone', tag + ':src', p.where())
    for f in ctx.fns('nnet::iobserver::~iobserver'):
        for p in ctx.run(f, half, mods=False):
            if p.out != 'ret':
                ctx.fail('transfer', site(f), 'destruction may fail half-way, leaving slots registered', 'C01:dtor:throw', p.where())
                continue
            loops = [e for e in p.ev if e.k == 'loop']
            rel = [e for e in loops if covers(e, mine, released(p.ip, THIS))]
            ctx.ob('transfer', site(f), bool(rel), 'destruction must unregister every slot', 'C01:dtor', p.where())


def slot_is_end(s, t, i):
    """the registered slot is where the push puts the element: the current length of the vector"""
    if t[0] == 'size':
        return is_dep_of(t[1], THIS)
    return t == i


def check_repoint(ctx):
    ctx.rule('repoint', 'moving a subject or taking over its audience re-points every slot of every observer, walking a snapshot of the audience')
    fs = ctx.fns('nnet::subject::steal_observers') + ctx.fns('nnet::subject::operator=', pred=lambda f: '&&' in f['sig']) + \
        ctx.fns('nnet::subject::subject', pred=lambda f: '&&' in f['sig'])
    for f in fs:
        src = other_of(f)
        OA = ('fld', ('deref', src), AUD)
        tag = 'C01:repoint:' + f['sig']
        for p in ctx.run(f, keep('replace_dependency', *QUIET), mods=False):
            ip = p.ip
            if ip.decide(p.st, ('eq',) + tuple(sorted((src, THIS), key=repr))):
                ctx.ob('repoint', site(f), not ops(p), 'a subject moved onto itself keeps its audience', tag + ':self', p.where())
                continue
            done = None
            for n, e in enumerate(p.ev):
                if e.k != 'loop' or e.hi != sz(OA) or any(k in ('break', 'ret') for k, _, _ in e.paths):
                    continue
                ok = bool(e.paths)
                for k, s, ev in e.paths:
                    if k != 'next':
                        continue
                    x = ('nkey', OA, ('idx', e.depth))
                    good = False
                    for e2 in ev:
                        if e2.k == 'loop' and e2.hi == sz(mget(OA, x)) and not any(k2 in ('break', 'ret') for k2, _, _ in e2.paths):
                            sl = ('nkey', mget(OA, x), ('idx', e2.depth))
                            if all(('repl', x, THIS, sl) in [y for y, _, _ in ops(p, ev2)] for k2, s2, ev2 in e2.paths if k2 == 'next'):
                                good = True
                    ok = ok and good
                ov = e.spec['over']
                live = ov is not None and fld_loc(ov, AUD) is not None
                ctx.ob('repoint', site(f), not live, 'the audience is walked while the re-pointing takes observers out of it', tag + ':live', p.where())
                if ok:
                    done = n
            ctx.ob('repoint', site(f), done is not None, 'every slot of every observer of the source must be re-pointed', tag, p.where())
            for n, e in enumerate(p.ev):
                o = edge_op(ip, e)
                if o and o[0] in ('clear', 'aassign', 'delall') and o[1] == src:
                    ctx.ob('repoint', site(f), done is not None, 'the old audience may be forgotten only if every slot is re-pointed', tag + ':clear', p.where())
                if o and o[1] == THIS and o[0] in ('aassign', 'clear'):
                    ctx.fail('repoint', site(f), 'an audience taken over wholesale leaves the observers pointing elsewhere', tag + ':wholesale', p.where())


def check_writers(ctx):
    ctx.rule('writers', 'nothing else writes the slots of an observer or the audience of a subject')
    p = ctx.prog()
    known = {'nnet::subject::attach', 'nnet::subject::detach', 'nnet::subject::steal_observers', 'nnet::subject::operator=',
             'nnet::subject::subject', 'nnet::iobserver::add_dependency', 'nnet::iobserver::remove_dependency',
             'nnet::iobserver::replace_dependency', 'nnet::iobserver::operator=', 'nnet::iobserver::iobserver',
             'nnet::iobserver::~iobserver', 'nnet::iobserver::copy_helper', 'nnet::iobserver::move_helper',
             'nnet::subject::~subject', 'nnet::iobserver::update'}
    for f in p.fns.values():
        if f['q'].split('::')[0] not in ('nnet', 'rocnnet') or not f.get('body'):
            continue
        fl = direct_writes(f, (AUD, DEP))
        if not fl:
            continue
        inlined = f['q'] in ctx.functions
        ctx.ob('writers', site(f), f['q'] in known or inlined, '%s writes %s' % (f['q'], sorted(fl)), 'C01:writer:' + f['q'])


MUT = {'push_back', 'emplace_back', 'pop_back', 'clear', 'erase', 'insert', 'emplace', 'resize', 'assign', 'swap', 'pop_front', 'push_front'}


def direct_writes(f, names):
    out = set()

    def basefield(n):
        while isinstance(n, dict):
            if n.get('k') == 'mem':
                if n.get('f') in names or n.get('n') in names:
                    return n.get('n')
                n = n.get('b')
            elif n.get('k') in ('idx', 'un', 'cast', 'conv'):
                n = n.get('b') or n.get('a') or n.get('e')
                if isinstance(n, list):
                    n = n[0] if n else None
            elif n.get('k') in ('call', 'mcall') and n.get('op') and n.get('a'):
                n = n['a'][0]
            elif n.get('k') in ('mcall',) and n.get('o'):
                n = n['o']
            else:
                return None
        return None

    def w(n):
        if isinstance(n, dict):
            if n.get('k') == 'asg':
                b = basefield(n.get('l') or (n.get('a') or [None])[0])
                if b:
                    out.add(b)
            if n.get('k') in ('mcall', 'call'):
                nm = lname(n.get('q') or '')
                o = n.get('o') or ((n.get('a') or [None])[0] if nm == 'operator=' else None)
                if nm in MUT or nm == 'operator=':
                    b = basefield(o) if o else None
                    if b:
                        out.add(b)
            for v in n.values():
                w(v)
        elif isinstance(n, list):
            for v in n:
                w(v)
    w(f.get('body'))
    return out


def check(ctx):
    ctx.explain = ('Every function that changes an observer\'s slots or a subject\'s audience is walked over all of its paths '
                   '(loops summarised, helpers inlined) and the edge operations on each path are matched: a slot written means '
                   'the old subject unregistered and the new one registered for that slot; copying, moving, re-pointing and '
                   'destruction must do so for every slot.')
    check_half(ctx)
    check_slots(ctx)
    check_transfer(ctx)
    check_repoint(ctx)
    check_writers(ctx)
