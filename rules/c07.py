"""C07: copying and moving carry the whole object over, and self-assignment changes nothing."""
from objects import *

# members bound to the identity of an object (who observes it, its id), re-registered or rebuilt rather than copied
IDENTITY = {('nnet::subject', 'audience_'), ('nnet::subject', 'killers_'), ('nnet::iobserver', 'ondeath_deps_'),
            ('nnet::iobserver', 'dependencies_'),        # C01
            ('nnet::identifiable', 'id_'),
            ('nnet::iconnector', 'g_man_')}              # C05
# members derived from the others: they must be rebuilt
REBUILT = {('rocnnet::gd_net', x) for x in ('test_out_', 'error_', 'updates_')} | \
          {('rocnnet::dq_net', x) for x in ('input_', 'output_', 'best_output_', 'train_input_', 'train_output_', 'next_input_', 'next_output_mask_',
                                            'next_output_', 'reward_', 'output_mask_', 'future_reward_', 'score_', 'prediction_error_',
                                            'source_updates_', 'target_updates_')}
UNUSED = {('rocnnet::dq_net', 'score_'), ('nnet::rmspropupdater', 'momentums_')}
# a copy gets a name of its own, derived from the source's
NAMES = {('rocnnet::ilayer', 'scope_')}
# raw storage is judged by C08
STORAGE = {('nnet::tensor', 'raw_data_')}
SKIP = ('nnet::mutable_connector',)


def carried(p, path, t, loc, o0, mv):
    """the member at loc ends up with what the source held"""
    v = path.load(loc)
    if v == o0:
        return True
    if v[0] == 'with' and v[1] != o0 and t.get('rec') in p.classes:
        return all(carried(p, path, ft, ('f', loc, n), ('fld', o0, n), mv) for n, ft in fields(p, t['rec']))
    if v[0] == 'struct' and t.get('rec') in p.classes:
        return all(carried(p, path, ft, ('f', loc, n), ('fld', o0, n), mv) for n, ft in fields(p, t['rec']))
    if path.ip.decide(path.st, ('eq',) + tuple(sorted((v, o0), key=repr))) is True:
        return True
    if path.ip.known_nz(path.st, o0) is False and (v == NULL or path.ip.known_nz(path.st, v) is False):
        return True
    return made_from(v, o0)


def made_from(v, o0):
    """a duplicate of o0: its clone, or element by element duplicates of a sequence"""
    if v[0] == 'mfn' or v[0] == 'res':
        q, recv = (v[1], v[2]) if v[0] == 'mfn' else (v[2], v[3])
        return isinstance(q, str) and lname(q) in CLONERS and recv == o0
    if v[0] == 'gen':
        el = at(o0, ('idx', v[2]))
        return v[1] in (('seq', ()), ('emptyv',)) and v[3] == ('size', o0) and elem_from(v[4], el)
    return False


def elem_from(v, el):
    if v == el or made_from(v, el):
        return True
    if v[0] == 'struct':
        return all(elem_from(x, fldof(el, n)) for n, x in v[2])
    return False


def fldof(t, n):
    return ('fld', t, n)


def check_members(ctx, p, k, kind, f):
    c = p.classes[k]
    o = ('par', f['params'][0]['n'])
    mv = kind.startswith('move')
    name = c['q']
    unguarded = False
    runs = ctx.run(f, local_only(p, k), mods=False, merge=True)
    fl = [(n, t) for n, t in fields(p, k) if (name, n) not in IDENTITY and (name, n) not in STORAGE]
    fl = [(n, t) for n, t in fl if t.get('ptr') or t.get('k') == 'p' or not (t.get('rec') in p.classes and not has_state(p, t['rec']))]
    fl = [(n, t) for n, t in fl if not (t.get('const') and n in defaults(c))]
    others = [('par', x['n']) for x in f['params'][1:]]
    key = 'C07:%s:%s' % (name, kind)
    bs = [b for b in bases(p, k) if has_state(p, b) and p.classes[b]['q'] != 'nnet::identifiable']
    for path in runs:
        if path.out == 'abort':
            continue
        if path.out != 'ret':
            ctx.fail('members', site(f), '%s may leave half done' % kind, key + ':exit', path.where())
            continue
        same = selfcmp(path, o) if kind.endswith('=') else False
        if same:
            bad = [e for e in path.ev if e.k in ('write', 'cmut', 'delete', 'rawwrite') or e.k == 'call' and not e.cm]
            ctx.ob('self', site(f), not bad, 'assigning %s to itself must change nothing' % name, key + ':self', path.where())
            continue
        if same is None and kind.endswith('='):
            unguarded = True
        for n, t in fl:
            o0 = ('fld', ('deref', o), n)
            if (name, n) in REBUILT or (name, n) in UNUSED:
                if (name, n) in UNUSED:
                    continue
                v = path.load(('f', TLOC, n))
                ok = v != ('fld', ('deref', THIS), n) and v != NULL
                ctx.ob('members', site(f), ok, '%s must be rebuilt for the new object' % n, key + ':' + n, path.where())
                continue
            if name == 'nnet::iconnector' and n == 'jacobians_':
                ok = any(e.k == 'write' and e.loc == ('f', TLOC, n) and e.val == o0 for e, _ in flat(path.ev))
            else:
                ok = carried(p, path, t, ('f', TLOC, n), o0, mv) or path.load(('f', TLOC, n)) in others or \
                    (name, n) in NAMES and kind == 'copy-ctor' and mentions(path.load(('f', TLOC, n)), o0)
            ctx.ob('members', site(f), ok, 'member %s of %s is not carried over: it becomes %s' % (n, name, show(path.load(('f', TLOC, n)))[:120]),
                   key + ':' + n, path.where())
        for b in bs:
            bq = p.classes[b]['q']
            calls = [e for e, _ in flat(path.ev) if e.k == 'call' and base_part(p, e, b) and e.args and targets(e, o)]
            okb = bool(calls) or implicit_part(p, path, b, o, mv)
            if not okb and not inherits_copy(p, b, kind):
                continue
            ctx.ob('bases', site(f), okb, 'the %s part of %s is not carried over' % (bq, name), key + ':base:' + lname(bq), path.where())
            if calls and kind == 'move-ctor':
                g = p.fns.get(calls[0].fn)
                ctx.ob('bases', site(f), g is None or is_move(g), 'the %s part is copied where it must be moved' % bq, key + ':basemove:' + lname(bq), path.where())
    if unguarded:
        check_alias(ctx, p, k, f, key)


def check_alias(ctx, p, k, f, key):
    """no test for self-assignment: walk it with both names bound to one object, nothing may change"""
    name = p.classes[k]['q']
    for path in ctx.run(f, local_only(p, k), mods=False, merge=True, args={0: ('&', TLOC)}):
        if path.out == 'abort':
            continue
        bad = [e for e, _ in flat(path.ev) if e.k in ('delete', 'rawwrite') or
               e.k == 'call' and not e.cm and not (lname(e.q) == 'operator=' and e.args and e.args[0] == ('deref', THIS))]
        changed = [n for n, t in fields(p, k) if path.load(('f', TLOC, n)) != ('fld', ('deref', THIS), n)]
        ctx.ob('self', site(f), not bad and not changed, 'assigning %s to itself must change nothing' % name, key + ':self', path.where())


def defaults(c):
    return {x['n'] for x in c.get('fields', []) if x.get('init') is not None or x.get('hasinit')}



def implicit_part(p, path, b, o, mv):
    """the base has no special members of its own: its members are carried one by one"""
    if any(True for _ in special(p, b)) or not fields(p, b):
        return False
    return all(carried(p, path, t, ('f', TLOC, n), ('fld', ('deref', o), n), mv) for n, t in fields(p, b)) and \
        all(implicit_part(p, path, x, o, mv) for x in bases(p, b) if has_state(p, x))


def inherits_copy(p, b, kind):
    """does the base provide this kind of special member at all (or take part implicitly)"""
    if any(True for _ in special(p, b)):
        return True
    return any(inherits_copy(p, x, kind) for x in bases(p, b)) or bool(fields(p, b))


def base_part(p, e, b):
    """the call copies/moves base b (or an ancestor of the class that carries all state of b)"""
    g = p.fns.get(e.fn)
    if g is None:
        return False
    cls = g.get('cls')
    if cls != b and not (cls in ancestors(p, b) and not fields(p, b)):
        return False
    return lname(g['q']) == 'operator=' or g.get('kind') == 'ctor'


def targets(e, o):
    a = e.rawargs[0]
    return a in (('&', ('d', o)), ('deref', o)) or e.args[0] == ('deref', o)


def check_cloners(ctx, p):
    ctx.rule('cloner', 'a clone is a new object of the same class made from *this by its copy constructor; move likewise by its move constructor')
    for k, c in classes(p):
        if c['q'].startswith(SKIP):
            continue
        for f in members(p, k):
            n = lname(f['q'])
            if n not in ('clone_impl', 'move_impl') or f.get('body') is None:
                continue
            if c['q'] == 'nnet::constant':
                continue
            mv = n == 'move_impl'
            specials = {g['usr'] for g in members(p, k) if g.get('kind') == 'ctor'}
            key = 'C07:%s:%s' % (c['q'], n)
            for path in ctx.run(f, lambda g: g['usr'] in specials or local_only(p, k)(g), mods=False):
                if path.out == 'abort':
                    continue
                news = [e for e in path.ev if e.k == 'new']
                ok = path.out == 'ret' and len(news) == 1 and news[0].rec == k and strip_dyn(path.val) == news[0].ptr
                ctx.ob('cloner', site(f), ok, '%s::%s must return one new object of its own class' % (c['q'], n), key, path.where())
                if not ok:
                    continue
                ct = [e for e in path.ev if e.k == 'call' and e.fn in specials]
                if ct and not has_state(p, k):
                    continue
                if ct:
                    g = p.fns[ct[0].fn]
                    frm = ct[0].args and ct[0].rawargs[0] in (('&', TLOC), ('deref', THIS))
                    ctx.ob('cloner', site(f), bool(frm) and g['params'][0]['t'].get('rec') == k, '%s::%s must be made from this object' % (c['q'], n), key + ':from', path.where())
                    if frm:
                        ctx.ob('cloner', site(f), is_move(g) == mv or g.get('defaulted'), '%s::%s uses the wrong constructor' % (c['q'], n), key + ':kind', path.where())
                else:
                    h = ('h', news[0].ptr[1])
                    for fn_, t in fields(p, k):
                        if not t.get('ptr') and not has_state(p, t.get('rec')) and t.get('rec') in p.classes:
                            continue
                        okf = carried(p, path, t, ('f', h, fn_), ('fld', ('deref', THIS), fn_), mv)
                        ctx.ob('cloner', site(f), okf, 'member %s is not carried over' % fn_, key + ':' + fn_, path.where())


def check(ctx):
    ctx.explain = ('Every user-written copy/move constructor and assignment of the library classes is walked over all paths; at each exit the value of every '
                   'data member is compared with what the source object held at entry, the base parts must be handed the same source, and the path on which both '
                   'objects are the same one must not write at all.')
    ctx.rule('members', 'each data member ends up with the value (or a duplicate of the owned object) the source held')
    ctx.rule('bases', 'each base part with state is assigned or constructed from the same source')
    ctx.rule('self', 'the self-assignment path writes nothing')
    p = ctx.prog('base')
    n = 0
    for k, c in classes(p):
        if c['q'].startswith(SKIP):
            continue
        for kind, f in special(p, k):
            if c['q'] == 'nnet::subject':
                continue            # identity only: C01
            check_members(ctx, p, k, kind, f)
            n += 1
    ctx.need(n >= 40, 'only %d special members found' % n)
    check_cloners(ctx, p)
