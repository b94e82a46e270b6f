"""C26: a model lists each of its variables exactly once, in an order copies keep, and initialises, saves and loads all of them."""
from alg import *

THIS = ('d', ('this',))
SELF = ('deref', ('this',))


def places(own):
    """where freshly made objects are kept: place -> pointer value"""
    out = {}

    def put(pl, v):
        if v[0] == 'new':
            out[pl] = v
        elif v[0] == 'struct':
            for n, x in v[2]:
                put(pl + (n,), x)
        elif v[0] == 'gen' and v[1] == ('seq', ()):
            put(pl + ('[]',), v[4])
        elif v[0] == 'seq':
            for i, x in enumerate(v[1]):
                put(pl + (i,), x)
        elif v[0] == 'push':
            put(pl, v[1])
            put(pl + ('[]',), v[2])
    for n, v in own.items():
        put((n,), v)
    return out


def place(t, idx=None, root=SELF):
    """the place a term reads, relative to root"""
    if t[0] == 'fld':
        if t[1] == root:
            return (t[2],)
        p = place(t[1], idx, root)
        return p and p + (t[2],)
    if t[0] == 'at':
        p = place(t[1], idx, root)
        return p and p + ('[]' if idx is not None and t[2] == ('idx', idx) else t[2][1] if t[2][0] == 'lit' else '?',)
    return None


def listing(t, idx=None):
    """the list as [('var'|'all', place)], or None"""
    if t[0] == 'seq':
        return [one(x, idx) for x in t[1]] if all(one(x, idx) for x in t[1]) else None
    if t[0] == 'push':
        a, b = listing(t[1], idx), one(t[2], idx)
        return a + [b] if a is not None and b else None
    if t[0] == 'cat':
        out = []
        for x in t[1]:
            r = listing(x, idx)
            if r is None:
                return None
            out += r
        return out
    if t == ('prev',):
        return []
    if t[0] == 'loopv' and len(t[3]) == 1:
        a, b = listing(t[2], idx), listing(t[3][0], t[1])
        if a is None or b is None or not over(t[4], b):
            return None
        return a + b
    if t[0] == 'gen':
        a, b = listing(t[1], idx), one(t[4], t[2])
        c = listing(t[4][1], idx) if t[4][0] == 'at' and t[4][2] == ('idx', t[2]) else None
        if a is not None and c and t[3] == size(t[4][1]):
            return a + c
        if a is None or not b or not over(t[3], [b]):
            return None
        return a + [b]
    nm, ops = opname(t)
    if nm == 'get_variables' and len(ops) == 1:
        p = place(ops[0], idx)
        return [('all', p)] if p else None
    return None


def over(n, items):
    """does the loop run over all elements of the container its items come from?"""
    if n[0] != 'size':
        return False
    p = place(n[1])
    return bool(p) and all(x[1][:len(p) + 1] == p + ('[]',) for x in items)


def one(t, idx):
    p = place(t, idx)
    return ('var', p) if p else None


def check(ctx):
    ctx.explain = ('For every layer and network: the places constructors keep fresh variables and layers in, against the list of variables; the same places after '
                   'copies and moves; and every path of initialising, saving and loading.')
    ctx.rule('listed', 'the list names each variable and each layer a constructor makes, once')
    ctx.rule('copied', 'a copy keeps in each place a copy of what the original keeps there, a move the thing itself, so that lists correspond position by position')
    ctx.rule('initialised', 'after initialising, every variable was read from the file, or every variable was initialised')
    ctx.rule('saved', 'saving writes the whole list under the scope and reports whether it was written')
    ctx.rule('scopes', 'networks of one agent are saved and loaded under scopes of their own, the same for both')
    p = ctx.prog()
    kinds = sorted(q[:-len('::get_variables')] for q in p.byq if q.endswith('::get_variables') and any(f.get('body') for f in p.byq[q]))
    ctx.need(len(kinds) >= 4, 'layers and networks that list variables')
    layered = set(kinds) | {'rocnnet::ilayer', 'rocnnet::icompound'}
    for k in kinds:
        cls = None
        f, = ctx.fns(k + '::get_variables')
        cls = p.classes[f['cls']]
        w = site(f)
        lists = []
        for pa in ctx.run(f, inner(k), mods=False):
            if pa.out != 'ret':
                ctx.fail('listed', w, 'listing the variables can fail', key='list:' + k)
                continue
            l = listing(pa.val)
            if l is None:
                ctx.fail('listed', w, 'the list is not made of the variables kept: %s' % show(pa.val)[:200], key='list:' + k, detail=pa.where())
                continue
            lists.append((pa, l))
        if not lists:
            continue
        made = {}
        ctors = [g for g in ctx.fns('%s::%s' % (k, lname(k))) if not g.get('implicit')]
        fields = [d['n'] for d in cls['fields'] if not d.get('static')]
        for g in ctors:
            par = other(g, cls)
            for pa in ctx.run(g, inner(k), mods=False):
                if pa.out != 'ret':
                    continue
                own = {n: pa.ip.load(pa.st, ('f', THIS, n)) for n in fields}
                if not par:
                    cl = {e.ptr: e.cls for e, c in flat(pa.ev) if e.k == 'new'}
                    for pl, v in places(own).items():
                        c = p.classes.get(cl.get(v), {}).get('q') or str(cl.get(v))
                        kind = 'var' if 'variable' in c else 'all' if c in layered else None
                        if kind:
                            made.setdefault(pl, set()).add(kind)
                else:
                    copied(ctx, k, g, pa, own, par, lists[0][1])
        for g in ctx.fns(k + '::operator='):
            par = other(g, cls)
            for pa in ctx.run(g, inner(k), mods=False):
                if pa.out == 'ret' and any(e.k in ('write', 'cmut') for e, c in flat(pa.ev)):
                    own = {n: pa.ip.load(pa.st, ('f', THIS, n)) for n in fields}
                    if not selfassign(pa, par):
                        copied(ctx, k, g, pa, own, par, lists[0][1])
        ctx.need(made, 'variables made by the constructors of ' + k)
        for pa, l in lists:
            for pl, ks in sorted(made.items(), key=repr):
                n = [x for x in l if x[1] == pl and x[0] in ks]
                if not n and not live(pa, pl):
                    continue
                ctx.ob('listed', w, len(n) == 1, '%s kept in %s is listed %d times' % ('the variable' if 'var' in ks else 'the layer', name(pl), len(n)), key='listed:%s:%s' % (k, name(pl)), detail=pa.where())
            extra = [x for x in l if x[1] not in made]
            ctx.ob('listed', w, not extra, 'nothing else is listed: %s' % extra, key='extra:' + k, detail=pa.where())
    compound(ctx)
    agents(ctx)


def live(pa, pl):
    """on this path the place may hold something"""
    v = ('fld', SELF, pl[0])
    return pa.st.facts.get(('nz', v)) is not False and pa.st.facts.get(('nz', ('size', v))) is not False


def name(pl):
    return '.'.join(str(x) for x in pl)


def other(g, cls):
    for q in g['params']:
        if q['t'].get('rq') == cls['q'] or q['t'].get('s', '').replace('const ', '').strip() == cls['q']:
            return q['n']
    return None


def selfassign(pa, par):
    for a, v in pa.st.facts.items():
        if a[0] == 'eq' and v and ('this',) in a[1:]:
            return True
    return False


def copied(ctx, k, g, pa, own, par, items):
    tag = '%s:%s' % (k, lname(g['q']) + sig(g))
    root = ('deref', ('par', par))
    moving = any(q['t'].get('ref') == 'r' and q['n'] == par for q in g['params'])
    for kind, pl in items:
        v = own.get(pl[0])
        src = ('fld', root, pl[0])
        if v is None or pa.st.facts.get(('nz', src)) is False:
            continue
        if moving and v == src:
            ctx.ob('copied', site(g), True, 'taken over whole')
            continue
        if '[]' in pl:
            if v == ('seq', ()) and pa.st.facts.get(('nz', ('size', src))) is False:
                continue
            ok = v[0] == 'gen' and v[1] == ('seq', ()) and v[3] == size(src)
            el = v[4] if ok else None
            i = pl.index('[]')
            for x in pl[i + 1:]:
                el = getf(el, x) if el is not None else None
            ok = ok and el is not None and twin(el, pl, v[2], root, moving)
        else:
            ok = twin(v, pl, None, root, moving)
        ctx.ob('copied', site(g), ok, '%s corresponds to that of the source: %s' % (name(pl), show(v)[:160]), key='copied:%s:%s' % (tag, name(pl)), detail=pa.where())


def twin(v, pl, idx, root, moving):
    nm, ops = opname(v)
    if nm in ('clone', 'move') and ops:
        return place(ops[0], idx, root) == pl and (nm == 'clone' or moving)
    return moving and place(v, idx, root) == pl


def compound(ctx):
    B = 'rocnnet::icompound'
    f, = ctx.fns(B + '::initialize')
    w = site(f)
    for pa in ctx.run(f, inner(B), mods=False):
        if pa.out != 'ret':
            continue
        vs = [e for e in pa.ev if e.k == 'call' and lname(e.q) == 'get_variables']
        rd = [e for e in pa.ev if e.k == 'call' and lname(e.q) == 'read_inorder']
        ctx.need(vs and rd, 'initialising reads the file into the listed variables')
        lst = vs[0].res
        ctx.ob('initialised', w, rd[0].args[0] == lst, 'the file is read into the whole list', key='init:list', detail=pa.where())
        ctx.ob('initialised', w, scoped(pa, rd[0].args[1], f['params'][1]['n']), 'the scope is the one asked for, else that of the model: %s' % show(rd[0].args[1]), key='init:scope', detail=pa.where())
        ctx.ob('initialised', w, rd[0].args[2] == ('par', f['params'][0]['n']), 'the file is the one asked for', key='init:file')
        loops = [e for e in pa.ev if e.k == 'loop' and any(x.k == 'call' and lname(x.q) == 'initialize' for kd, s, sub in e.paths for x in sub)]
        allinit = [e for e in loops if len(e.paths) == 1 and e.paths[0][0] == 'next' and e.hi == size(lst) and
                   any(x.k == 'call' and lname(x.q) == 'initialize' and x.recv == ('at', lst, ('idx', e.depth)) for x in e.paths[0][2])]
        okread = pa.st.facts.get(('nz', rd[0].res)) is True
        left = ('out', 0, rd[0].res)
        full = any(a == ('nz', ('size', left)) and not v for a, v in pa.st.facts.items())
        if not loops:
            ctx.ob('initialised', w, okread and full, 'variables stay as read only when the file had a value for each', key='init:read', detail=pa.where())
        else:
            ctx.ob('initialised', w, len(allinit) == 1 and len(loops) == 1, 'each variable is initialised', key='init:all', detail=pa.where())
            ctx.ob('initialised', w, not (okread and full), 'variables read from the file are not overwritten', key='init:over', detail=pa.where())
    f, = ctx.fns(B + '::save')
    w = site(f)
    for pa in ctx.run(f, inner(B), mods=False):
        if pa.out != 'ret':
            continue
        nm, ops = opname(pa.val)
        ok = nm == 'write_inorder' and len(ops) >= 3
        ctx.ob('saved', w, ok, 'the result is that of writing: %s' % show(pa.val)[:120], key='save:result', detail=pa.where())
        if ok:
            ctx.ob('saved', w, opname(ops[0])[0] == 'get_variables' and opname(ops[0])[1][0] == ('this',), 'the whole list is written', key='save:list', detail=pa.where())
            ctx.ob('saved', w, scoped(pa, ops[1], f['params'][1]['n']), 'the scope is the one asked for, else that of the model', key='save:scope', detail=pa.where())
            ctx.ob('saved', w, ops[2] == ('par', f['params'][0]['n']), 'the file is the one asked for', key='save:file')


def scoped(pa, t, par, strict=True):
    P_ = ('par', par)
    empty = [v for a, v in pa.st.facts.items() if a in (('nz', ('size', P_)), ('has', P_)) or a[0] == 'nz' and a[1][-1] == P_]
    if t == P_:
        return not strict if not empty else empty[0] is True
    return place(t) == ('scope_',) and empty and empty[0] is False


def prefix(t, base):
    """constant text put around the scope"""
    if t == base:
        return ('',)
    if t[0] in ('scat', 'cat') and base in t[1]:
        return tuple(x[1] if x[0] == 'str' else x for x in t[1] if x != base)
    return None


def agents(ctx):
    p = ctx.prog()
    for cls in ('rocnnet::gd_net', 'rocnnet::dq_net'):
        use = {}
        for what in ('initialize', 'save'):
            f, = ctx.fns('%s::%s' % (cls, what))
            w = site(f)
            pn = [('par', q['n']) for q in f['params']]
            for pa in ctx.run(f, inner(cls), mods=False):
                if pa.out != 'ret':
                    continue
                calls = [e for e in pa.ev if e.k == 'call' and lname(e.q) == what]
                m = {}
                for e in calls:
                    base = pn[1]
                    pre = prefix(e.args[1], base)
                    if pre is None:
                        base = ('fld', SELF, 'scope_')
                        pre = prefix(e.args[1], base)
                    ctx.ob('scopes', w, pre is not None and e.args[0] == pn[0] and scoped(pa, base, f['params'][1]['n'], False),
                           'the network is handed the file, and the scope asked for or that of the agent', key='scope:%s:%s' % (cls, what), detail=pa.where())
                    pl = place(e.recv)
                    ctx.ob('scopes', w, pl is not None and pl not in m, 'each network once', key='once:%s:%s' % (cls, what), detail=pa.where())
                    m[pl] = pre
                ctx.ob('scopes', w, len(set(m.values())) == len(m), 'networks have scopes of their own: %s' % m, key='own:%s:%s' % (cls, what), detail=pa.where())
                if what == 'save':
                    rs = [e.res for e in calls]
                    v = pa.val
                    good = all(pa.st.facts.get(('nz', r)) is True for r in rs)
                    some = any(pa.st.facts.get(('nz', r)) is False for r in rs)
                    ok = (v in (TRUE,) and good) or (v in (FALSE,) and some) or (v in rs and all(r == v or pa.st.facts.get(('nz', r)) is True for r in rs)) or \
                        v[0] == 'and' and set(v[1:]) == set(rs)
                    ctx.ob('saved', w, ok, 'saving an agent succeeds when all of it was written', key='result:' + cls, detail=pa.where())
                use.setdefault(what, []).append(m)
        nets = nets_of(ctx, cls)
        for what, ms in use.items():
            for m in ms:
                ctx.ob('scopes', cls, set(m) == nets, 'all networks of the agent take part: %s' % sorted(m), key='all:%s:%s' % (cls, what))
        allm = [m for ms in use.values() for m in ms]
        ctx.ob('scopes', cls, all(m == allm[0] for m in allm), 'networks are loaded under the scopes they were saved under', key='match:' + cls)


def nets_of(ctx, cls):
    """fields that hold networks with variables of their own"""
    f, = ctx.fns(cls + '::initialize')
    c = ctx.prog().classes[f['cls']]
    out = set()
    for d in c['fields']:
        s = d['t'].get('s', '')
        if s.replace('*', '').strip().split('::')[-1] in ('mlp', 'icompound', 'rbm', 'db_net', 'ilayer'):
            out.add((d['n'],))
    return out
