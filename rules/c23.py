"""C23: the update order respects dependency: rank above every source, lowest rank first."""
from edges import *


def dep(x):
    return lambda t: t[0] in ('mfn', 'res') and 'get_depth' in repr(t[1:3]) and any_term(t, lambda y: y == x)


def parts(t):
    """t = max(set) + offset -> (set of terms, offset) or None"""
    if t[0] == 'lin' and len(t[2]) == 1 and t[2][0][1] == 1:
        s = parts(t[2][0][0])
        return (s[0], s[1] + t[1]) if s else None
    if t[0] == 'at' and t[2][0] == 'arg' and t[2][1] == 'max_element' and t[2][2] == t[1]:
        e = elems(t[1])
        return (e, 0) if e else None
    if t[0] in ('max', 'fn') and 'max' in t:
        out = set()
        off = None
        for x in t[1:]:
            if not isinstance(x, tuple):
                continue
            s = parts(x)
            if not s:
                return None
            out |= s[0]
            off = s[1] if off is None else min(off, s[1])
        return out, off
    if t[0] == 'lit':
        return (set(), t[1])
    return ({t}, 0)


def elems(v):
    """all elements of a vector built element by element"""
    out = {}
    while v[0] in ('upd', 'set'):
        out.setdefault(v[2], v[3])
        v = v[1]
    if v[0] == 'seq':
        for i, x in enumerate(v[1]):
            out.setdefault(('lit', i), x)
        return set(out.values())
    if v[0] == 'filln' and v[1][0] == 'lit':
        if all(('lit', i) in out for i in range(v[1][1])):
            return set(out.values())
        return set(out.values()) if v[2] == ZERO else None
    if v[0] == 'push':
        e = elems(v[1])
        return e | {v[2]} | set(out.values()) if e is not None else None
    if v[0] == 'map':
        return {v}
    return None


def above(ip, st, d, deps):
    """is term d greater than the depth of each dep on this path?"""
    s = parts(d)
    if not s:
        return [False] * len(deps)
    got, off = s
    res = []
    for x in deps:
        mine = dep(x)
        ok = any(mine(t) for t in got) and off >= 1
        if not ok:
            for t in got:
                ok = ok or any(mine(i) and j == t and c <= off - 1 for (i, j), c in bounds(st).items())
        if not ok and not got:
            # a constant: the depth must be known not to be positive
            for a, v in st.facts.items():
                if a[0] == 'nz' and mine(a[1]) and not v and off >= 1:
                    ok = True
        res.append(ok)
    return res


def check(ctx):
    ctx.explain = ('The rank an operation gets on construction is derived as a term over the ranks of its sources (1 to 3 sources, and any number when '
                   'the term keeps its form); copies, moves, leaves and the order of the queue are read off their paths.')
    ctx.rule('rank', 'the rank of an operation is above the rank of every source it is built on')
    DL = ('f', ('d', THIS), 'depth_')
    opq = lambda g: lname(g['q']) in ('get_depth', 'update_graph') or g['q'].startswith(('nnet::iobserver', 'nnet::inode', 'nnet::subject'))
    for f in ctx.fns('nnet::iconnector::iconnector', pred=lambda f: len(f['params']) == 2 and f['params'][0]['t'].get('rq') == 'std::vector'):
        for k in (1, 2, 3):
            deps = tuple(('par', 'source%d' % i) for i in range(k))
            for p in ctx.run(f, opq, mods=False, args={0: ('seq', deps)}):
                if p.out != 'ret':
                    continue
                d = p.ip.load(p.st, DL)
                for i, ok in enumerate(above(p.ip, p.st, d, deps)):
                    ctx.ob('rank', site(f), ok, 'an operation over %d sources does not rank above source %d (rank %s)' % (k, i, show(d)), 'C23:rank', p.where())
    ctx.rule('keep', 'a copy or a move has the rank of the operation whose sources it takes')
    hit = 0
    for f in ctx.fns('nnet::iconnector::iconnector', pred=lambda f: same(f)) + ctx.fns('nnet::iconnector::operator=', pred=lambda f: same(f)):
        o = ('par', f['params'][0]['n'])
        opq2 = lambda g: g['q'].startswith(('nnet::iobserver', 'nnet::inode', 'nnet::subject')) or lname(g['q']) in ('suicide', 'get', 'share_update', 'jacobian_correction')
        for p in ctx.run(f, opq2, mods=False):
            if p.out != 'ret' or p.ip.decide(p.st, ('eq',) + tuple(sorted((o, THIS), key=repr))):
                continue
            hit += 1
            d = p.ip.load(p.st, DL)
            ctx.ob('keep', site(f), d == ('fld', ('deref', o), 'depth_'), 'the rank is not carried over', 'C23:keep:' + f['sig'], p.where())
    ctx.rule('query', 'the rank reported is the one recorded; leaves rank lowest')
    for f in ctx.fns('nnet::iconnector::get_depth'):
        for p in ctx.run(f, keep(), mods=False):
            ctx.ob('query', site(f), p.val == ('fld', ('deref', THIS), 'depth_'), 'the rank reported is not the one recorded', 'C23:query', p.where())
    for f in ctx.fns('nnet::ileaf::get_depth'):
        for p in ctx.run(f, keep(), mods=False):
            ctx.ob('query', site(f), p.val == ZERO, 'a leaf must have the lowest rank', 'C23:leaf', p.where())
    ctx.rule('order', 'of two queued operations the one with the lower rank is recomputed first')
    p0 = ctx.prog('base')
    # whatever compares elements of the queue
    gm = [c for c in p0.classes.values() if c['q'] == 'nnet::iconnector::graph_manager']
    ctx.need(gm, 'the graph of an operation was not found')
    cmpq = set()
    for c in gm:
        for fl in c.get('fields', []):
            if 'priority_queue' in fl['t'].get('s', ''):
                cmpq.add(fl['t']['s'])
    ctx.need(cmpq, 'the queue is no longer a priority queue')
    fs = ctx.fns('nnet::small_leafset::operator()')
    ctx.ob('order', 'app/tenncor/src/graph/connector/iconnector.ipp', all('small_leafset' in s for s in cmpq), 'the queue uses another order', 'C23:order:type')
    for f in fs:
        a, b = [('par', x['n']) for x in f['params']]
        for p in ctx.run(f, keep('get_depth'), mods=False):
            ip, st = p.ip, p.st
            A = [e.res for e, c in flat(p.ev) if e.k == 'call' and lname(e.q) == 'get_depth' and e.recv == a]
            B = [e.res for e, c in flat(p.ev) if e.k == 'call' and lname(e.q) == 'get_depth' and e.recv == b]
            ok = False
            if A and B:
                v = p.val
                atom = ip.cmpatom('<', B[0], A[0])
                if v[0] == 'cmp' and v[1] == '>' and v[2:] == (A[0], B[0]) or v[0] == 'cmp' and v[1] == '<' and v[2:] == (B[0], A[0]):
                    ok = True
                elif v[0] == 'lit':
                    known = ip.decide(st, ('lt', B[0], A[0]))
                    ok = known is not None and known == bool(v[1])
            ctx.ob('order', site(f), ok, 'the queue does not yield the operation with the lower rank first', 'C23:order', p.where())


def same(f):
    return len(f['params']) == 1 and f['params'][0]['t'].get('rq') == 'nnet::iconnector' and f['params'][0]['t'].get('ref') and not f['params'][0]['t'].get('ptr')
