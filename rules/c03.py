"""C03: nodes end themselves only for the right reason, and nothing touches them afterwards."""
from edges import *
from objects import classes, home, members

NOPAR, BROKEN = 'death_on_noparent', 'death_on_broken'
BASE = {NOPAR: 'nnet::subject', BROKEN: 'nnet::iobserver'}


def aud_version(t):
    """t is some version of the receiver's audience; -> True"""
    while t[0] in ('mupd', 'merase', 'munion'):
        t = t[1]
    return t[0] == 'emptym' or t == ('fld', ('deref', THIS), AUD) or (t[0] == 'phi' and fld_loc(t[2], AUD) is not None)


def touches(e, x=THIS):
    """does the event read or write the object x points to?"""
    if e.k in ('write', 'cmut', 'touch', 'index', 'mapat', 'atomic') and root(e.loc) == ('d', x):
        return True
    if e.k == 'call' and e.recv == x:
        return True
    if e.k in ('assume',) and any_term(e.atom, lambda t: t[0] == 'fld' and t[1] == ('deref', x)):
        return True
    return False


def check_detach(ctx):
    ctx.rule('last-leaves', 'a subject is asked to end itself exactly when a removal takes its last observer away, and is not touched afterwards')
    for f in ctx.fns('nnet::subject::detach'):
        viewer = ('par', f['params'][0]['n'])
        tag = 'C03:detach%d' % len(f['params'])
        for p in ctx.run(f, keep(*QUIET), mods=False):
            ip, st = p.ip, p.st
            if p.out != 'ret':
                continue
            die = [(n, e) for n, (e, c) in enumerate(flat(p.ev)) if e.k == 'call' and lname(e.q) == NOPAR]
            ctx.ob('last-leaves', site(f), len(die) <= 1, 'a subject may be asked to end only once', tag + ':twice', p.where())
            # was an observer taken out of the audience?
            gone = [e for e, c in flat(p.ev) if e.k == 'cmut' and e.loc == ('f', ('d', THIS), AUD) and e.op in ('erase', 'clear')]
            was = any(a[0] == 'has' and v and a[2] == viewer and aud_version(a[1]) for a, v in st.facts.items())
            wasnt = any(a[0] == 'has' and not v and a[2] == viewer and aud_version(a[1]) for a, v in st.facts.items())
            final = ip.load(st, ('f', ('d', THIS), AUD))
            empty = known_empty(ip, st, final)
            if die:
                ctx.ob('last-leaves', site(f), die[0][1].recv == THIS, 'another object is asked to end', tag + ':who', p.where())
                ctx.ob('last-leaves', site(f), bool(gone) and was, 'a subject is asked to end although no observer left', tag + ':noone', p.where())
                ctx.ob('last-leaves', site(f), empty is True, 'a subject is asked to end although observers remain', tag + ':remain', p.where())
                after = [e for e, c in list(flat(p.ev))[die[0][0] + 1:] if touches(e)]
                ctx.ob('last-leaves', site(f), not after, 'the subject is used after it was asked to end itself', tag + ':after', p.where())
            elif gone and not wasnt:
                ctx.ob('last-leaves', site(f), empty is False, 'the last observer leaves and the subject is not asked to end', tag + ':missed', p.where())
            else:
                ctx.ob('last-leaves', site(f), True, 'no observer leaves on this path', tag)


def known_empty(ip, st, v):
    if v == ('emptym',):
        return True
    if v[0] == 'mupd':
        return False
    d = ip.decide(st, ('nz', sz(v)))
    if d is not None:
        return not d
    for a, val in st.facts.items():
        if a[0] == 'eq' and sz(v) in a[1:] and ZERO in a[1:]:
            return val
        if a == ('lt', ZERO, sz(v)):
            return not val
    return None


def check_callers(ctx):
    ctx.rule('callers', 'only the loss of the last observer and the loss of a source lead to the end-of-life handlers')
    p = ctx.prog('base')
    # direct callers of either handler, by qualified name
    calls = {}
    for f in p.fns.values():
        for n in walk(f.get('body')) if f.get('body') else []:
            if n.get('k') in ('call', 'mcall'):
                calls.setdefault(lname(n.get('q') or ''), set()).add(f['usr'])
    allowed = {NOPAR: {'nnet::subject::detach'}, BROKEN: {'nnet::iobserver::update'}}
    for h, roots in allowed.items():
        direct = calls.get(h, set())
        ctx.need(direct, 'nothing calls the end-of-life handler ' + h)
        seen = set()
        todo = [(u, ()) for u in direct]
        while todo:
            u, via = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            f = p.fns[u]
            if f['q'] in roots:
                ctx.ob('callers', site(f), True, '%s asks for the end' % f['q'])
                continue
            if lname(f['q']) == h and f['q'] != BASE[h] + '::' + h:
                # an override handing over to its base
                ctx.ob('callers', site(f), True, 'an override defers to its base')
                continue
            # a helper: all of its callers must be allowed
            up = [g for g in calls.get(lname(f['q']), set()) if g != u]
            helper = f.get('kind') not in ('ctor', 'dtor') and up and not f.get('virt') and f.get('access', 'private') != 'public'
            ctx.ob('callers', site(f), bool(helper), '%s leads to %s' % (f['q'], h), 'C03:caller:%s:%s' % (h, f['q']))
            if helper:
                todo += [(g, via) for g in up]


def walk(n):
    if isinstance(n, dict):
        if 'k' in n:
            yield n
        for v in n.values():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


def final_overriders(p, base, name):
    """[(class, fn)] what each concrete class does on this handler"""
    b = next((u for u, c in p.classes.items() if c['q'] == base), None)
    if b is None:
        raise Broken('class %s not found' % base)
    t = next((m['usr'] for m in p.classes[b]['methods'] if m['n'] == name), None)
    if t is None:
        raise Broken('%s::%s not found' % (base, name))
    for u in [b] + p.derived(b):
        c = p.classes.get(u)
        if not c or c.get('abstract'):
            continue
        r = p.resolve(u, t)
        f = p.fns.get(r) if r else None
        if f is not None:
            yield u, c, f


SELF_GEN = ('nnet::generator',)
CONST = ('nnet::constant',)


def check_handlers(ctx):
    ctx.rule('handlers', 'what each kind of node does when its last observer left, or when one of its sources ended')
    p = ctx.prog('base')
    done = {}
    for u, c, f in final_overriders(p, 'nnet::subject', NOPAR):
        anc = kin(p, u)
        kind = 'gen' if anc & set(SELF_GEN) else 'const' if anc & set(CONST) else 'stay'
        done.setdefault((kind, f['usr']), (f, set()))[1].add(c['q'])
    kinds = {k for k, _ in done}
    ctx.need('gen' in kinds and 'const' in kinds, 'generator or constant not found')
    for (kind, _), (f, cs) in sorted(done.items(), key=lambda x: x[0][0]):
        tag = 'C03:%s:%s' % (NOPAR, kind)
        for pa in ctx.run(f, keep(), mods=False):
            ip, st = pa.ip, pa.st
            dels = [e for e, c in flat(pa.ev) if e.k == 'delete']
            own = [e for e in dels if strip(e.ptr) == THIS]
            tell = [e for e, c in flat(pa.ev) if e.k == 'call' and lname(e.q) == 'notify']
            ctx.ob('handlers', site(f), len(own) == len(dels) and len(own) <= 1, 'the handler destroys something else, or itself twice', tag + ':other', pa.where())
            noaud = known_noaud(ip, st)
            man = managed(ip, st)
            if kind == 'gen':
                ctx.ob('handlers', site(f), len(own) == 1 or noaud is False, '%s is not destroyed when its last observer left' % '/'.join(sorted(cs)), tag + ':kept', pa.where())
            elif kind == 'const':
                if own:
                    ctx.ob('handlers', site(f), man is False, 'a managed constant destroys itself', tag + ':managed', pa.where())
                    ctx.ob('handlers', site(f), noaud is not False, 'a constant that has observers destroys itself', tag + ':aud', pa.where())
                else:
                    ctx.ob('handlers', site(f), man is True or noaud is False, 'an unmanaged constant without observers is kept for ever', tag + ':kept', pa.where())
            else:
                ctx.ob('handlers', site(f), not own, '%s ends itself when its last observer left although its user owns it' % '/'.join(sorted(cs)), tag + ':gone', pa.where())
            if own:
                i = [e for e, c in flat(pa.ev)].index(own[0])
                after = [e for e, c in list(flat(pa.ev))[i + 1:] if touches(e)]
                ctx.ob('handlers', site(f), not after, 'the object is used after its end', tag + ':after', pa.where())
    done = {}
    for u, c, f in final_overriders(p, 'nnet::iobserver', BROKEN):
        anc = kin(p, u)
        kind = 'handle' if 'nnet::varptr' in anc else 'node' if anc & {'nnet::subject', 'nnet::inode'} else 'other'
        done.setdefault((kind, f['usr']), (f, set()))[1].add(c['q'])
    kinds = {k for k, _ in done}
    ctx.need('handle' in kinds and 'node' in kinds, 'no handle or no node class handles the loss of a source')
    for (kind, _), (f, cs) in sorted(done.items(), key=lambda x: x[0][0]):
        tag = 'C03:%s:%s' % (BROKEN, kind)
        for pa in ctx.run(f, keep('remove_dependency', 'replace_dependency'), mods=False, transparent=False):
            ip, st = pa.ip, pa.st
            dels = [e for e, c in flat(pa.ev) if e.k == 'delete']
            own = [e for e in dels if strip(e.ptr) == THIS]
            if kind == 'node':
                ctx.ob('handlers', site(f), len(own) == 1 and len(dels) == 1, '%s survives the loss of a source' % '/'.join(sorted(cs)), tag + ':kept', pa.where())
                if own:
                    i = [e for e, c in flat(pa.ev)].index(own[0])
                    after = [e for e, c in list(flat(pa.ev))[i + 1:] if touches(e)]
                    ctx.ob('handlers', site(f), not after, 'the object is used after its end', tag + ':after', pa.where())
            elif kind == 'handle':
                ctx.ob('handlers', site(f), not dels, 'a handle must not destroy itself or the node it watches', tag + ':gone', pa.where())
                # an emptied handle: the slot is dropped, or there is none
                D = ip.load(st, ('f', ('d', THIS), DEP))
                none = known_empty(ip, st, D) is True or known_empty(ip, st, ('fld', ('deref', THIS), DEP)) is True or ip.decide(st, ('nz', at(D, ZERO))) is False
                drop = [o for o, c, e in ops(pa) if o[0] in ('rem', 'dclear') or (o[0] in ('repl', 'dset') and NULL in o)]
                ctx.ob('handlers', site(f), none or bool(drop), 'a handle keeps pointing at a node that is gone', tag + ':dangling', pa.where())
                bad = [o for o, c, e in ops(pa) if o[0] == 'rem' and o[2] == ZERO and not (known_empty(ip, st, ('fld', ('deref', THIS), DEP)) is False or ip.decide(st, ('nz', at(('fld', ('deref', THIS), DEP), ZERO))))]
                ctx.ob('handlers', site(f), not bad, 'a handle that is already empty is emptied again', tag + ':again', pa.where())


def strip(t):
    while t[0] in ('dyn', 'cast'):
        t = t[2] if t[0] == 'dyn' else t[-1]
    return t


def kin(p, u):
    out = {p.classes[u]['q']}
    for b in p.bases(u):
        if b in p.classes:
            out.add(p.classes[b]['q'])
    todo = [u]
    while todo:
        x = todo.pop()
        for b in p.classes[x]['bases']:
            k = b.get('usr') if isinstance(b, dict) else b
            if k in p.classes and p.classes[k]['q'] not in out:
                out.add(p.classes[k]['q'])
                todo.append(k)
    return out


def known_noaud(ip, st):
    A = ('fld', ('deref', THIS), AUD)
    return known_empty(ip, st, A)


def managed(ip, st):
    for a, v in st.facts.items():
        if a[0] == 'nz' and a[1][0] == 'fld' and a[1][2] == 'is_managed_' and a[1][1] == ('deref', THIS):
            return v
    return None


def check_self_delete(ctx):
    ctx.rule('self-delete', 'an object destroys itself only from its end-of-life handlers (and the queue of an operation graph when its last node leaves)')
    p = ctx.prog('base')
    n = 0
    for f in p.fns.values():
        if not f.get('body') or not f['q'].startswith(('nnet::', 'rocnnet::')):
            continue
        for x in walk(f['body']):
            if x.get('k') == 'del' and is_this(x):
                n += 1
                ok = lname(f['q']) in (NOPAR, BROKEN) or f['q'].startswith('nnet::iconnector::graph_manager::')
                if not ok:
                    # a private helper reached only from the handlers
                    ups = {g['q'] for g in p.fns.values() if g.get('body') and g['usr'] != f['usr'] and any(y.get('q') == f['q'] for y in walk(g['body']) if y.get('k') in ('call', 'mcall'))}
                    ok = bool(ups) and all(lname(q) in (NOPAR, BROKEN) or q.startswith('nnet::iconnector::graph_manager::') for q in ups)
                ctx.ob('self-delete', site(f), ok, '%s destroys its own object' % f['q'], 'C03:self-delete:' + f['q'])
    ctx.need(n >= 4, 'fewer self-destructions than expected were found')


def is_this(x):
    for v in x.values():
        if isinstance(v, dict):
            if v.get('k') == 'this':
                return True
            if v.get('k') in ('cast', 'paren', 'icast', 'dyncast') and is_this(v):
                return True
    return False


def check_moves(ctx):
    ctx.rule('moves', 'moving a node or an observer, or replacing a source, never leaves a surviving source without observer half way')
    # a subject that gives its observers away is not asked to end: it has no audience left by the time they leave
    for f in ctx.fns('nnet::subject::operator=', pred=lambda f: '&&' in f['sig']) + ctx.fns('nnet::subject::subject', pred=lambda f: '&&' in f['sig']):
        src = ('&', ('d', ('par', f['params'][0]['n'])))
        tag = 'C03:subject-move:' + f['sig']
        for p in ctx.run(f, keep('replace_dependency', *QUIET), mods=False):
            n = 0
            taken = False
            for e, c in flat(p.ev):
                if e.k == 'cmut' and e.loc[0] == 'f' and e.loc[2] == AUD and e.op in ('clear', 'assign') and p.ip.addrof(e.loc[1]) != THIS:
                    taken = e.op == 'clear' or e.args[0] == ('emptym',)
                if e.k == 'call' and lname(e.q) == 'replace_dependency':
                    n += 1
                    ctx.ob('moves', site(f), taken, 'the source still lists its observers while they leave one by one: it would end itself half way', tag, p.where())
                if e.k == 'call' and lname(e.q) == NOPAR:
                    ctx.fail('moves', site(f), 'moving a subject ends it', tag + ':end', p.where())
    # an observer that takes over the slots of another registers before the other one leaves
    fs = ctx.fns('nnet::iobserver::operator=', pred=lambda f: '&&' in f['sig']) + ctx.fns('nnet::iobserver::iobserver', pred=lambda f: '&&' in f['sig'])
    for f in fs:
        par = f['params'][0]['n']
        tag = 'C03:observer-move:' + f['sig']
        some = 0
        for p in ctx.run(f, keep('attach', 'detach', *QUIET), mods=False):
            adds = []
            for e, c in flat(p.ev):
                o = edge_op(p.ip, e)
                if not o:
                    continue
                if o[0] == 'add' and o[2] == THIS:
                    adds.append((o[1], c))
                if o[0] in ('del', 'delall') and o[2] != THIS:
                    some += 1
                    # the same source got the new observer before, on this very iteration or in an earlier complete pass
                    ok = any(x == o[1] or (not c2 or c2[0][0] is not (c[0][0] if c else None)) for x, c2 in adds)
                    ctx.ob('moves', site(f), ok, 'the old observer leaves before the new one is registered: the source may end itself', tag, p.where())
        ctx.need(some or True, '')
    for f in ctx.fns('nnet::iobserver::replace_dependency'):
        dep = ('par', f['params'][0]['n'])
        for p in ctx.run(f, keep('attach', 'detach', *QUIET), mods=False):
            for o, c, e in ops(p):
                if o[0] in ('del', 'delall'):
                    same = p.ip.decide(p.st, ('eq',) + tuple(sorted((o[1], dep), key=repr)))
                    ctx.ob('moves', site(f), same is False, 'replacing a source by itself takes the only observer away', 'C03:replace', p.where())


def lives(g):
    """of an object that is told about or can end itself, or nobody's"""
    return g.get('cls') is None or not g['q'].startswith(('nnet::tensor::', 'nnet::tensorshape::', 'nnet::initializer::', 'nnet::itensor_handler::', 'nnet::rand_', 'nnet::const_init::'))


def check_after(ctx):
    ctx.rule('after', 'a node that announced its own end does nothing more')
    p = ctx.prog('base')
    n = 0
    for q in ('nnet::generator::update', 'nnet::base_immutable::update'):
        for f in ctx.fns(q, pred=lambda f: len(f['params']) == 1):
            for pa in ctx.run(f, lambda g: lname(g['q']) in ('notify', 'forward_pass', 'add_update', 'good_status', 'get_shape') or not lives(g), mods=False):
                evs = list(flat(pa.ev))
                for i, (e, c) in enumerate(evs):
                    if e.k == 'call' and lname(e.q) == 'notify' and e.args and e.args[0][0] == 'enum' and e.args[0][1].endswith('UNSUBSCRIBE'):
                        n += 1
                        after = [x for x, _ in evs[i + 1:] if touches(x) or x.k in ('call', 'write', 'new')]
                        ctx.ob('after', site(f), not after, 'the node goes on after it announced its end', 'C03:after:' + q, pa.where())
    ctx.need(n, 'no node announces its end when a source is missing')


def check(ctx):
    ctx.explain = ('Every path of the functions that take observers away, of every override of the two end-of-life handlers, and of the moves of nodes and '
                   'observers is walked; the call sites of the handlers and every self-destruction in the program are enumerated.')
    check_detach(ctx)
    check_callers(ctx)
    check_handlers(ctx)
    check_self_delete(ctx)
    check_moves(ctx)
    check_after(ctx)
