"""C15: data written out is read back the same; data that does not fit is refused and changes nothing."""
from common import *
from objects import members
import astq
from c08 import shape_models, shapeval, T, THIS, opaque, same_count, elems_of, null, is_tensor

MSG = ('par', 'message')
TGT = ('target',)


def message(f):
    """the message parameter of a function"""
    for i, x in enumerate(f['params']):
        if (x['t'].get('rq') or '').startswith('tenncor::'):
            return i, x
    return None, None


def tensors(ctx, name):
    out = []
    for f in ctx.fns('nnet::tensor::' + name):
        if message(f)[1] is not None:
            out.append(f)
    ctx.need(out, 'tensor::%s was not found' % name)
    return out


def content(pa, o):
    return pa.ip.load(pa.st, ('mem', pa.ip.load(pa.st, o.loc('raw_data_'))))


def taken(m):
    """what a buffer holds after its bytes were copied from elsewhere: (source, source offset, bytes)"""
    if m[0] == 'blit' and m[2] == ZERO:
        return m[3], m[4], m[5]
    return None, None, None


def check(ctx):
    ctx.explain = ('Writing a tensor out and reading it back is analysed as one run: the message produced by the writer, as a symbolic value, is what the reader is '
                   'given; every reader is also run on an arbitrary message, and every node kind\'s reader with an arbitrary result.')
    ctx.rule('roundtrip', 'reading the message of a tensor that has data succeeds and gives the same allocated shape, allowed shape and elements')
    ctx.rule('nothing', 'a tensor without data writes nothing')
    ctx.rule('refuse', 'a message is only accepted if its data is exactly as long as its shape needs; one that is refused changes nothing, and nothing else happens to the program')
    ctx.rule('leaf', 'a leaf whose data was read is initialised and tells its audience, after the data is in place; otherwise it changes nothing')
    ctx.rule('derived', 'nodes that compute their value refuse to read one')
    p = ctx.prog('base')
    models = shape_models()
    ws, rs = tensors(ctx, 'serialize'), tensors(ctx, 'from_proto')
    src, tgt = T(THIS), T(TGT)
    n = 0
    for w in ws:
        wi, wp = message(w)
        arg = MSG if wp['t'].get('k') == 'p' else ('&', ('d', MSG))
        st0 = empty_state()
        for fl, v in (('data', ('str', '')), ('allow_shape', ('seq', ())), ('alloc_shape', ('seq', ()))):
            st0.env[('f', ('d', MSG), fl)] = v
        for pa in ctx.run(w, opaque, mods=False, models=models, args={wi: arg}, st=st0):
            if pa.out != 'ret':
                ctx.fail('roundtrip', site(w), 'writing a tensor out can %s' % pa.out, 'C15:write:' + pa.out, pa.where())
                continue
            raw, full = ('nz', src.raw), ('nz', ('vfn', 'is_fully_defined', src.shape))
            if null(pa, [src], src.raw):
                wr = [e for e, _ in flat(pa.ev) if e.k in ('write', 'cmut') and root_of(e.loc) == ('d', MSG)]
                ctx.ob('nothing', site(w), not wr, 'a tensor without data writes something', 'C15:nothing', pa.where())
                continue
            if pa.ip.decide(pa.st, full) is False:
                continue
            allow = ('fld', ('deref', THIS), 'allowed_shape_')
            for r in rs:
                if r.get('cls') != w.get('cls'):
                    continue
                ri, rp = message(r)
                st = pa.st.fork()
                st.tr = None
                st.facts = dict(st.facts)
                st.facts[raw] = True
                st.facts[full] = True
                a, b = sorted((src.shape, allow), key=repr)
                st.facts[('nz', ('vfn', 'is_compatible_with', a, b))] = True
                for pb in readable(r, ctx.run(r, opaque, mods=False, models=models, this=('d', TGT), args={ri: MSG if rp['t'].get('k') == 'p' else ('&', ('d', MSG))}, st=st)):
                    n += 1
                    q = sig(r)
                    if pb.out != 'ret':
                        ctx.fail('roundtrip', site(r), 'reading back what was written can %s' % pb.out, 'C15:roundtrip:%s%s' % (pb.out, q), pb.where())
                        continue
                    if not ctx.ob('roundtrip', site(r), pb.val == TRUE, 'what was written is refused on reading back', 'C15:roundtrip:refused' + q, pb.where()):
                        continue
                    s = shapeval(pb.ip.load(pb.st, tgt.loc('alloc_shape_')))
                    l = shapeval(pb.ip.load(pb.st, tgt.loc('allowed_shape_')))
                    ctx.ob('roundtrip', site(r), s == src.shape, 'the allocated shape read back is not the one written (%s)' % show(s)[:80], 'C15:roundtrip:shape' + q, pb.where())
                    ctx.ob('roundtrip', site(r), l == allow, 'the allowed shape read back is not the one written (%s)' % show(l)[:80], 'C15:roundtrip:allowed' + q, pb.where())
                    m, off, nb = taken(content(pb, tgt))
                    want = ('bytes', ('memof', src.raw), ZERO, nb)
                    ok = m is not None and off == ZERO and m in (('memof', want), want) and whole_size(nb, src.shape)
                    ctx.ob('roundtrip', site(r), ok, 'the elements read back are not the ones written (%s)' % show(content(pb, tgt))[:160], 'C15:roundtrip:data' + q, pb.where())
    ctx.need(n, 'writing and reading a tensor was not analysed')
    for r in rs:
        ri, rp = message(r)
        q = sig(r)
        o = T(THIS)
        M = ('d', MSG)
        data = ('fld', ('deref', MSG), 'data')
        for pa in readable(r, ctx.run(r, opaque, mods=False, models=models, args={ri: MSG if rp['t'].get('k') == 'p' else ('&', M)})):
            if pa.out != 'ret':
                ctx.fail('refuse', site(r), 'a message can make the program %s' % pa.out, 'C15:refuse:%s%s' % (pa.out, q), pa.where())
                continue
            setalloc = len(r['params']) > 1
            if pa.val == TRUE:
                s = shapeval(pa.ip.load(pa.st, o.loc('alloc_shape_')))
                m, off, nb = taken(content(pa, o))
                ctx.ob('refuse', site(r), m in (('memof', data), data) and off == ZERO, 'an accepted message is not what the tensor holds', 'C15:refuse:held' + q, pa.where())
                ln = ('size', data)
                ok = nb is not None and any(x == ln or pa.ip.decide(pa.st, ('eq',) + tuple(sorted((x, ln), key=repr))) is True
                                            for x in (nb,)) and (whole_size(nb, s) or fits(pa, ln, s))
                ctx.ob('refuse', site(r), ok, 'a message is accepted though its data may be shorter or longer than its shape needs', 'C15:refuse:length' + q, pa.where())
                continue
            bad = [fl for fl in ('raw_data_', 'alloc_shape_', 'allowed_shape_') + (() if setalloc else ('alloc_',))
                   if shapeval(pa.ip.load(pa.st, o.loc(fl))) != ('fld', ('deref', THIS), fl)]
            if setalloc:
                bad = [x for x in bad if x != 'raw_data_' and x != 'alloc_shape_']
            ctx.ob('refuse', site(r), not bad, 'a refused message changes %s' % ', '.join(bad), 'C15:refuse:changed' + q, pa.where())
            if not setalloc:
                ev = [e for e, _ in flat(pa.ev) if e.k == 'rawwrite' or e.k == 'call' and e.q.startswith('nnet::iallocator')]
                ctx.ob('refuse', site(r), not ev, 'a refused message changes or releases the data', 'C15:refuse:data' + q, pa.where())
    nodes(ctx, p)


def readable(r, paths):
    """a reader that is also given an allocator may reject that one"""
    return [pa for pa in paths if not (len(r['params']) > 1 and pa.out == 'throw')]


def root_of(l):
    while l[0] in ('f', 'e', 'm'):
        l = l[1]
    return l


def whole_size(nb, s):
    """is nb = sizeof(element) * the element count of s"""
    if nb is None:
        return False
    return nb[0] in ('op', 'lin', 'mul') and any_term(nb, lambda t: t == elems_of(s)) and any_term(nb, lambda t: t[0] == 'sizeof') or False


def fits(pa, ln, s):
    for a, v in pa.st.facts.items():
        if v is True and a[0] == 'eq' and ln in a[1:]:
            o = a[1] if a[2] == ln else a[2]
            if whole_size(o, s):
                return True
    return False


def nodes(ctx, p):
    leaf = der = 0
    for f in sorted(p.fns.values(), key=lambda f: f['usr']):
        if lname(f['q']) != 'read_proto' or f.get('body') is None or not f['q'].startswith('nnet::'):
            continue
        mi, mp = message(f)
        if mi is None:
            continue
        opq = lambda g: is_reader(g) or lname(g['q']) in ('notify',) or g['q'].startswith('nnet::tensor::')
        paths = ctx.run(f, opq, mods=False, args={mi: MSG if mp['t'].get('k') == 'p' else ('&', ('d', MSG))})
        where, key = site(f), f['q'].split('::')[-2]
        reads = any(e.k == 'call' and is_readq(e.q) for pa in paths for e, _ in flat(pa.ev))
        if not reads:
            der += 1
            for pa in paths:
                ctx.ob('derived', where, pa.out == 'ret' and pa.val == FALSE, 'a node that cannot read a value claims it did, or fails', 'C15:derived:' + key, pa.where())
                ch = [e for e, _ in flat(pa.ev) if e.k in ('write', 'cmut', 'call', 'delete', 'rawwrite')]
                ctx.ob('derived', where, not ch, 'a node that cannot read a value changes something', 'C15:derived:change:' + key, pa.where())
            continue
        leaf += 1
        for pa in paths:
            if pa.out != 'ret':
                ctx.fail('leaf', where, 'reading a value can %s' % pa.out, 'C15:leaf:%s:%s' % (pa.out, key), pa.where())
                continue
            ev = [e for e, _ in flat(pa.ev)]
            rd = [e for e in ev if e.k == 'call' and is_readq(e.q)]
            data = ('fld', ('deref', THIS), 'data_')
            if not rd:
                ctx.ob('leaf', where, pa.val == FALSE, 'reading a value is reported without reading it', 'C15:leaf:unread:' + key, pa.where())
                ctx.ob('leaf', where, pa.ip.decide(pa.st, ('nz', data)) is False, 'a value is refused without looking at it', 'C15:leaf:ignored:' + key, pa.where())
                continue
            ok = len(rd) == 1 and rd[0].recv == data and any(x == MSG or x == ('deref', MSG) for x in rd[0].args)
            if not ctx.ob('leaf', where, ok, 'the value is not read into this leaf\'s own data', 'C15:leaf:read:' + key, pa.where()):
                continue
            i = ev.index(rd[0])
            res = pa.ip.decide(pa.st, ('nz', rd[0].res))
            told = [j for j, e in enumerate(ev) if e.k == 'call' and lname(e.q) == 'notify']
            init = pa.ip.load(pa.st, ('f', ('d', THIS), 'is_init_'))
            if res is True:
                ctx.ob('leaf', where, pa.val in (TRUE, rd[0].res), 'an accepted value is reported as refused', 'C15:leaf:result:' + key, pa.where())
                ctx.ob('leaf', where, init == TRUE, 'a leaf whose data was read is not marked initialised', 'C15:leaf:init:' + key, pa.where())
                upd = [j for j in told if any('UPDATE' in show(x) for x in ev[j].args)]
                wr = [j for j, e in enumerate(ev) if e.k == 'write' and fwrites(e, 'is_init_')]
                ctx.ob('leaf', where, len(upd) == 1 and len(told) == 1 and upd[0] > i and all(j < upd[0] for j in wr),
                       'the audience is not told, once, after the data was read', 'C15:leaf:told:' + key, pa.where())
            elif res is False:
                ctx.ob('leaf', where, pa.val in (FALSE, rd[0].res), 'a refused value is reported as accepted', 'C15:leaf:result:' + key, pa.where())
                ch = [e for e in ev if e.k in ('write', 'cmut', 'delete') or e.k == 'call' and e is not rd[0]]
                ctx.ob('leaf', where, not ch, 'a refused value changes the leaf', 'C15:leaf:refused:' + key, pa.where())
            else:
                ctx.fail('leaf', where, 'the result of reading is not looked at', 'C15:leaf:result:' + key, pa.where())
    ctx.need(leaf, 'no leaf reads a value')
    ctx.need(der >= 2, 'the computing nodes\' readers were not found')


def is_readq(q):
    return q in ('nnet::tensor::from_proto',)


def is_reader(g):
    return is_readq(g['q'])
