"""C08: a tensor's buffer matches its allocated shape, is owned by one tensor, and is released once, to the allocator it came from."""
from common import *
import astq

THIS = ('this',)
SH = 'nnet::tensorshape::'


def shape_models():
    """tensorshape as a value: queries are functions of the shape they are asked of"""
    m = {}

    def query(name):
        def h(ip, f, this, vs, st, n):
            v = shapeval(ip.load(st, this))
            if name == 'is_fully_defined':
                k = literal(v)
                if k is not None:
                    return [(st, TRUE if k else FALSE)]
            av = tuple(shapeval(ip.load(st, x[1]) if x[0] == '&' else x) for x in vs)
            if name == 'is_compatible_with' and len(av) == 1:
                v, av = sorted((v, av[0]), key=repr)      # compatibility goes both ways
                av = (av,)
            return [(st, ('vfn', name, v) + av)]
        return h
    for q in ('n_elems', 'n_known', 'rank', 'is_compatible_with', 'is_part_defined', 'is_fully_defined', 'as_list', 'merge_with', 'trim', 'concatenate',
              'with_rank', 'with_rank_at_least', 'with_rank_at_most', 'flat_idx', 'coordinate_from_idx'):
        m[SH + q] = query(q)

    def undefine(ip, f, this, vs, st, n):
        ip.store(st, this, ('undefinedshape',), n)
        return [(st, ('void',))]
    m[SH + 'undefine'] = undefine

    def ctor(ip, f, this, vs, st, n):
        if len(vs) != 1:
            return None
        v = ip.load(st, vs[0][1]) if vs[0][0] == '&' else vs[0]
        ip.store(st, this, aslist(v), n)
        return [(st, ('void',))]
    m[SH + 'tensorshape'] = ctor

    def assign(ip, f, this, vs, st, n):
        v = ip.load(st, vs[0][1]) if vs[0][0] == '&' else vs[0]
        if f['params'][0]['t'].get('rq') == 'nnet::tensorshape':
            ip.store(st, this, shapeval(v), n)
        else:
            ip.store(st, this, aslist(v), n)
        return [(st, ('&', this))]
    m[SH + 'operator='] = assign
    return m


def aslist(v):
    return v[2] if v[0] == 'vfn' and v[1] == 'as_list' and len(v) == 3 else ('shapeof', v)


def shapeval(v):
    """a memberwise copied shape is the shape it was copied from"""
    while True:
        if v[0] in ('with', 'struct') and len(v) >= 3:
            flds = v[2] if isinstance(v[2], tuple) else ()
            d = [x for x in flds if isinstance(x, tuple) and len(x) == 2 and x[0] == 'dimensions_']
            if len(d) == 1 and len(flds) == 1 and d[0][1][0] == 'fld' and d[0][1][2] == 'dimensions_':
                b = d[0][1][1]
                v = b[1] if b[0] == 'valof' else b
                continue
            if len(d) == 1 and len(flds) == 1:
                return ('shapeof', d[0][1])
        if v[0] == 'fld' and v[2] == 'dimensions_':
            v = v[1]
            continue
        return v


def opaque(g):
    return g['q'].startswith(('nnet::iallocator', 'nnet::alloc_builder', 'nnet::fit_toshape', 'nnutils'))


class T:
    """a tensor object at entry"""

    def __init__(self, p, base=None):
        self.p = p
        self.base = base or ('d', p)
        self.raw = ('fld', ('deref', p), 'raw_data_')
        self.shape = ('fld', ('deref', p), 'alloc_shape_')
        self.alloc = ('fld', ('deref', p), 'alloc_')

    def loc(self, n):
        return ('f', self.base, n)


def literal(s):
    """is a shape written out in the code fully defined?"""
    if s == ('undefinedshape',):
        return False
    if s[0] == 'shapeof' and s[1][0] == 'seq':
        v = s[1]
        if not v[1]:
            return False
        if all(x[0] == 'lit' and isinstance(x[1], int) and x[1] > 0 for x in v[1]):
            return True
        if any(x == ZERO for x in v[1]):
            return False
    return None


def fully(pa, s):
    """is the shape known to be fully defined / not to be / unknown"""
    if literal(s) is not None:
        return literal(s)
    return pa.ip.decide(pa.st, ('nz', ('vfn', 'is_fully_defined', s)))


def elems_of(s):
    if s[0] == 'shapeof' and s[1][0] == 'seq' and all(x[0] == 'lit' for x in s[1][1]) and s[1][1]:
        r = 1
        for x in s[1][1]:
            r *= x[1]
        return ('lit', r)
    return ('vfn', 'n_elems', s)


def same_count(pa, a, b):
    """two element counts that are certainly equal"""
    if a == b:
        return True

    def low(t):
        if t[0] == 'vfn' and t[1] == 'n_elems':
            return elems_of(t[2])
        return t
    return low(a) == low(b) or pa.ip.decide(pa.st, ('eq',) + tuple(sorted((a, b), key=repr))) is True


def null(pa, ts, t):
    if t == NULL or t == ZERO:
        return True
    if pa.ip.decide(pa.st, ('nz', t)) is False:
        return True
    for o in ts:
        # without a fully defined shape a tensor has no buffer
        if t == o.raw and pa.ip.decide(pa.st, ('nz', ('vfn', 'is_fully_defined', o.shape))) is False:
            return True
    return False


def same(pa, a, b):
    return a == b or pa.ip.decide(pa.st, ('eq',) + tuple(sorted((a, b), key=repr))) is True


def judge(ctx, f, pa, objs, dead=None, fresh=()):
    """objs: T objects; dead: the one whose life ends here; fresh: the one under construction"""
    q = lname(f['q']) + sig(f)
    where = site(f)
    key = lambda k: 'C08:%s:%s' % (k, q)
    bufs = {}
    for o in objs:
        if o not in fresh:
            bufs[o.raw] = (elems_of(o.shape), o.alloc, o.shape)
    freed = {}
    order = []
    for i, (e, cx) in enumerate(flat(pa.ev)):
        if cx and e.k in ('call',) and lname(e.q) in ('allocate', 'dealloc') and e.q.startswith('nnet::iallocator'):
            ctx.fail('once', where, 'a buffer is allocated or released inside a loop', key('loop'), pa.where())
        if e.k != 'call' or not e.q.startswith('nnet::iallocator'):
            if e.k == 'call' and lname(e.q) == 'fit_toshape':
                d, ds, s, ss = e.args
                for b, bs, what in ((d, shapeval(ds), 'target'), (s, shapeval(ss), 'source')):
                    tag = bufs.get(b)
                    ok = tag is not None and b not in freed and same_count(pa, tag[0], elems_of(bs)) and (what == 'target' or tag[2] is None or tag[2] == bs or same_count(pa, tag[0], elems_of(bs)))
                    ctx.ob('fit', where, ok, 'data is refitted with a %s buffer that does not have the shape given' % what, key('fit-' + what), pa.where())
            if e.k in ('rawwrite', 'rawcopy') or e.k == 'call' and lname(e.q) == 'memcpy':
                for t in [x for x in list(e.d.values()) if isinstance(x, tuple)]:
                    for b in freed:
                        ctx.ob('once', where, not any_term(t, lambda y: y == b), 'a released buffer is used', key('use'), pa.where())
            continue
        n = lname(e.q)
        if n == 'allocate':
            bufs[e.res] = (e.args[0], e.recv, None)
            sh = e.args[0][2] if e.args[0][0] == 'vfn' and e.args[0][1] == 'n_elems' else None
            ok = sh is not None and (fully(pa, sh) is True or owned_shape(pa, objs, sh)) or e.args[0][0] == 'lit'
            ctx.ob('defined', where, ok, 'memory is allocated for a shape that is not fully defined (%s)' % show(e.args[0])[:80], key('defined'), pa.where())
        elif n == 'dealloc':
            b = e.args[0]
            if null(pa, objs, b):
                continue
            tag = bufs.get(b)
            if not ctx.ob('once', where, tag is not None and b not in freed, 'a buffer is released twice, or was never allocated (%s)' % show(b)[:60], key('twice'), pa.where()):
                continue
            freed[b] = 1
            ctx.ob('same', where, same(pa, e.recv, tag[1]), 'a buffer is returned to another allocator than it came from', key('allocator'), pa.where())
            ctx.ob('same', where, same_count(pa, e.args[1], tag[0]), 'a buffer is released with another size than it was allocated with (%s)' % show(e.args[1])[:80], key('size'), pa.where())
    holders = {}
    for o in objs:
        if o is dead:
            continue
        r = pa.ip.load(pa.st, o.loc('raw_data_'))
        s = shapeval(pa.ip.load(pa.st, o.loc('alloc_shape_')))
        a = pa.ip.load(pa.st, o.loc('alloc_'))
        if null(pa, objs, r):
            # no buffer: the shape must not claim there is one
            moved = o is not objs[0] or any(x in fresh and pa.ip.load(pa.st, x.loc('raw_data_')) == o.raw for x in objs)
            ok = moved or fully(pa, s) is False or any(s == x.shape and null(pa, objs, x.raw) for x in objs) or s == o.shape and null(pa, objs, o.raw) \
                or s[0] in ('undef', 'struct') or o in fresh and s == o.shape
            ctx.ob('match', where, ok, 'a tensor without data still claims an allocated shape (%s)' % show(s)[:60], key('claim'), pa.where())
            continue
        tag = bufs.get(r)
        if not ctx.ob('match', where, tag is not None, 'a tensor refers to memory that was not allocated for it (%s)' % show(r)[:60], key('foreign'), pa.where()):
            continue
        holders.setdefault(r, []).append(o)
        ctx.ob('once', where, r not in freed, 'a tensor keeps a released buffer', key('dangling'), pa.where())
        ctx.ob('match', where, same_count(pa, tag[0], elems_of(s)), 'the buffer was allocated for %s, the allocated shape is %s' % (show(tag[0])[:60], show(s)[:60]), key('shape'), pa.where())
        ctx.ob('same', where, same(pa, tag[1], a), 'the allocator recorded is not the one the buffer came from', key('recorded'), pa.where())
    for b in bufs:
        if null(pa, objs, b):
            continue
        h = holders.get(b, [])
        ctx.ob('once', where, len(h) <= 1, 'two tensors own the same buffer', key('shared'), pa.where())
        ctx.ob('once', where, bool(h) or b in freed, 'a buffer is dropped without being released (%s)' % show(b)[:60], key('leak'), pa.where())
    return bufs


def owned_shape(pa, objs, s):
    """a shape some tensor holds a buffer for is fully defined"""
    return any(s == o.shape and pa.ip.decide(pa.st, ('nz', o.raw)) is True for o in objs)


def is_tensor(t):
    return t.get('rq') == 'nnet::tensor'


def check(ctx):
    ctx.explain = ('Every constructor, the destructor and every public or virtual method of the tensor is run on all paths with shapes as values; each allocation '
                   'and release is matched with the buffer, shape and allocator the tensor records when the method is done.')
    ctx.rule('match', 'a tensor has a buffer only with a fully defined allocated shape, of exactly as many elements, and claims no allocated shape without one')
    ctx.rule('same', 'a buffer is released with the size it was allocated with, to the allocator it came from, and that allocator stays recorded')
    ctx.rule('once', 'a buffer belongs to one tensor and is released exactly once, before it is dropped, and not used afterwards')
    ctx.rule('defined', 'memory is only allocated for fully defined shapes')
    ctx.rule('fit', 'refitted data is read and written with the shapes of the buffers it is read from and written to')
    ctx.rule('copied', 'a copy holds the elements of the tensor it was copied from; reshaping keeps the data')
    ctx.rule('allowed', 'memory is only allocated on request for a shape compatible with the one the tensor allows')
    ctx.rule('who', 'only the tensor itself manages its buffer, allocated shape and allocator')
    p = ctx.prog('base')
    cls = [c for c in p.classes.values() if c['q'] == 'nnet::tensor']
    ctx.need(cls, 'the tensor class was not found')
    for c in cls:
        bases = set()
    fields = ('raw_data_', 'alloc_shape_', 'alloc_')
    seen = 0
    for f in p.fns.values():
        if f['q'].startswith('nnet::tensor::'):
            continue
        for n in astq.walk(astq.body(f)):
            tgt = None
            if n.get('k') == 'asg':
                tgt = astq.strip(n['l'])
            elif n.get('k') == 'un' and n.get('op') in ('++', '--'):
                tgt = astq.strip(n['e'])
            elif n.get('k') == 'mcall' and lname(n.get('q') or '') in ('operator=', 'undefine'):
                tgt = astq.strip(n['o'])
            elif n.get('k') == 'del':
                tgt = astq.strip(n['e'])
            if tgt and tgt.get('k') == 'mem' and tgt['n'] in fields and 'S@tensor>' in (tgt.get('fc') or ''):
                ctx.fail('who', astq.where(f, n), '%s changes the %s of a tensor' % (f['q'], tgt['n']), 'C08:who:' + f['q'])
    for f in p.fns.values():
        if f.get('cls') not in [c['usr'] for c in cls] or f.get('static'):
            continue
        kind = f.get('kind')
        if f.get('access') == 'private' and kind not in ('ctor', 'dtor') and not f.get('virt'):
            continue
        if f.get('body') is None and kind != 'ctor':
            continue
        name = lname(f['q'])
        ts = [T(THIS)]
        for x in f['params']:
            if is_tensor(x['t']) and (x['t'].get('ref') or x['t'].get('k') == 'p'):
                ts.append(T(('par', x['n'])))
        seen += 1
        isd = kind == 'dtor' or '~' in name
        ctor = kind == 'ctor'
        for pa in ctx.run(f, opaque, mods=False, models=shape_models()):
            if pa.out != 'ret':
                continue
            if any(pa.ip.decide(pa.st, ('nz', o.raw)) is True and pa.ip.decide(pa.st, ('nz', ('vfn', 'is_fully_defined', o.shape))) is False for o in ts):
                continue      # no such tensor
            if len(ts) > 1 and pa.ip.decide(pa.st, ('eq',) + tuple(sorted((THIS, ts[1].p), key=repr))):
                # self-assignment: one object
                judge(ctx, f, pa, ts[:1])
                continue
            made = [T(e.ptr, pa.ip.deref(pa.st, e.ptr)) for e, _ in flat(pa.ev) if e.k == 'new' and e.cls == 'nnet::tensor']
            judge(ctx, f, pa, ts + made, dead=ts[0] if isd else None, fresh=([ts[0]] if ctor else []) + made)
            extras(ctx, f, pa, ts, name, kind)
    ctx.need(seen >= 20, 'the methods of the tensor were not found')


def extras(ctx, f, pa, ts, name, kind):
    raw = pa.ip.load(pa.st, ts[0].loc('raw_data_'))
    q = name + sig(f)
    evs = [e for e, _ in flat(pa.ev)]
    if len(ts) == 2 and (kind == 'ctor' or name == 'operator='):
        o = ts[1]
        rv = any(x['t'].get('ref') == 'r' for x in f['params'])
        n0 = null(pa, ts, o.raw)
        if n0:
            ctx.ob('copied', site(f), null(pa, ts, raw) , 'a copy of a tensor without data has some', 'C08:copied:' + q, pa.where())
        elif not rv:
            so = [x for x in f['params'] if 'bool' in x['t'].get('s', '')]
            if so and pa.ip.decide(pa.st, ('nz', ('par', so[0]['n']))) is not False:
                return
            if pa.ip.decide(pa.st, ('nz', o.raw)) is not True and raw == ts[0].raw:
                return
            ctx.ob('copied', site(f), has_data(pa, raw, o), 'a copy does not hold the elements of the original', 'C08:copied:' + q, pa.where())
        else:
            ctx.ob('copied', site(f), raw == o.raw, 'a moved tensor does not hold the data of the original', 'C08:moved:' + q, pa.where())
    if name == 'allocate' and len(f['params']) == 1:
        for e in evs:
            if e.k == 'call' and lname(e.q) == 'allocate' and e.q.startswith('nnet::iallocator'):
                s = ('par', f['params'][0]['n'])
                al = ('fld', ('deref', THIS), 'allowed_shape_')
                ok = any(pa.ip.decide(pa.st, ('nz', ('vfn', 'is_compatible_with', x, y))) is True for x, y in ((s, al), (al, s)))
                ctx.ob('allowed', site(f), ok, 'memory is allocated for a shape the tensor does not allow', 'C08:allowed', pa.where())
    if name == 'allocate' or name == 'copy_from' or name == 'deallocate' or name == 'from_proto':
        v = pa.val
        ch = raw != ts[0].raw
        if v in (TRUE, FALSE) and not (name == 'from_proto' and len(f['params']) > 1):
                ctx.ob('allowed', site(f), (v == TRUE) == ch or name == 'deallocate' and null(pa, ts, raw) and null(pa, ts, ts[0].raw) and v == FALSE,
                       'the result (%s) does not tell whether the data was replaced' % show(v), 'C08:result:' + q, pa.where())
    # refitting keeps the old data: the new buffer is filled from the old one
    if name == 'allocate' and not null(pa, ts, ts[0].raw) and raw != ts[0].raw and pa.ip.decide(pa.st, ('nz', ts[0].raw)) is True:
        ok = any(e.k == 'call' and lname(e.q) == 'fit_toshape' and e.args[0] == raw and e.args[2] == ts[0].raw for e in evs)
        ctx.ob('copied', site(f), ok, 'reallocating drops the data', 'C08:kept:' + q, pa.where())
    if name == 'copy_from' and raw != ts[0].raw:
        ok = any(e.k == 'call' and lname(e.q) == 'fit_toshape' and e.args[0] == raw and e.args[2] == ts[1].raw for e in evs)
        ctx.ob('copied', site(f), ok, 'copying from another tensor does not take its data', 'C08:copied:' + q, pa.where())


def has_data(pa, raw, o):
    m = pa.ip.load(pa.st, ('mem', raw))
    return any_term(m, lambda t: t == ('memof', o.raw) or t == o.raw) if m else False
