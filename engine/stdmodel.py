"""Models of the standard-library (and protobuf) operations the repository uses."""
from terms import *
from interp import SEQ, MAPS, SETS, SMART, OPT, LOCKS, VARPTR, FMT, STREAMS, PURE_MATH, Ev

STR = {'std::basic_string'}


def vals(ip, s, vs):
    return [ip.load(s, v[1]) if v[0] == '&' else v for v in vs]


def cmut(ip, s, n, loc, op, args):
    if ip.visible(loc):
        ip.emit(s, 'cmut', n, loc=loc, op=op, args=tuple(args))


def catstr(*parts):
    out = []
    for p in parts:
        if p[0] == 'scat':
            out += list(p[1])
        elif p == ('str', ''):
            continue
        else:
            out.append(p)
    # merge adjacent literals
    m = []
    for p in out:
        if m and p[0] == 'str' and m[-1][0] == 'str':
            m[-1] = ('str', m[-1][1] + p[1])
        else:
            m.append(p)
    if not m:
        return ('str', '')
    if len(m) == 1 and m[0][0] == 'str':
        return m[0]
    return ('scat', tuple(m))


def tostr(v, t):
    """value v of static type t formatted into text"""
    if v[0] in ('str', 'scat'):
        return v
    rq = (t or {}).get('rq')
    k = (t or {}).get('k')
    if rq in STR:
        return v
    if v[0] == 'lit' and isinstance(v[1], int) and not isinstance(v[1], bool) and k != 'f':
        return ('str', str(v[1]))
    return ('txt', k if k in ('u', 'i', 'f', 'b', 'p', 'e') else 'r', v)


def short(t):
    """text of a floating point value that keeps six digits only"""
    return ('txt', 'f6', t[2]) if t[0] == 'txt' and t[1] == 'f' else t


def exprtype(n):
    if n['k'] in ('ref', 'mem', 'call', 'mcall', 'icall', 'un', 'bin', 'asg', 'cast', 'idx', 'ctor', 'init', 'new'):
        return n.get('t', {})
    if n['k'] == 'str':
        return {'rq': 'std::basic_string'}
    if n['k'] == 'lit':
        return {'k': 'f' if n.get('f') else 'i'}
    if n['k'] == 'conv':
        return {'k': 'f' if n['ck'] == 'IntegralToFloating' else 'i'}
    if n['k'] == 'cond':
        return exprtype(n['a'])
    return {}


def model(ip, n, st, want):
    q = n.get('q', '')
    if n['k'] == 'mcall':
        return mmodel(ip, n, st, q)
    return fmodel(ip, n, st, q)


# ====================================================================== free functions
def fmodel(ip, n, st, q):
    a = n['a']
    op = n.get('op')
    if q in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const', 'std::addressof') and len(a) == 1:
        out = []
        if not ip.isglv(a[0]):
            return ip.eval(a[0], st)
        for s, l in ip.lval(a[0], st):
            l = ip.canon(s, l)
            if q in ('std::ref', 'std::cref'):
                out.append((s, ('ref', l)))
            elif q == 'std::addressof':
                out.append((s, ip.addrof(l)))
            else:
                out.append((s, ('&', l)))
        return out
    if op in ('==', '!=', '<', '>', '<=', '>=') and n.get('fn') not in ip.p.fns:
        out = []
        for s, vs in ip.evals(a, st):
            r = ('cmp', op, vs[0], vs[1])
            x = ip.atom(r)
            out.append((s, ('lit', x) if isinstance(x, bool) else r))
        return out
    if op == '<<' and q.startswith('std::'):
        return stream(ip, n, st, a[0], a[1])
    if op == '-' and len(a) == 2 and n.get('fn') not in ip.p.fns and 'terator' in (exprtype(a[0]).get('rq') or ''):
        out = []
        for s, vs in ip.evals(a, st):
            if vs[1][0] == 'it' or vs[0][0] == 'it' and vs[1][0] == 'it':
                c = count(ip, s, vs[1], vs[0])
                out.append((s, c if c is not None else ('fn', 'distance', vs[1], vs[0])))
            else:
                out.append((s, itadd(ip, s, vs[0], isub(ZERO, vs[1]))))
        return out
    if op == '+' and q == 'std::operator+':
        t = n.get('t', {}).get('rq')
        if t in STR or t == 'std::basic_string':
            return [(s, catstr(tostr(vs[0], exprtype(a[0])), tostr(vs[1], exprtype(a[1])))) for s, vs in ip.evals(a, st)]
    if op == '|' and q.startswith('std::'):
        return [(s, ('op', '|') + tuple(sorted(vs, key=repr))) for s, vs in ip.evals(a, st)]
    if q.startswith('nnutils::operator<<'):
        return None
    if not q.startswith('std::') and q not in ('memcpy', 'memset', 'memmove', 'malloc', 'free', 'time'):
        return None
    last = q.split('::')[-1]
    if q.startswith('std::numeric_limits'):
        return [(st, ('fn', q))]
    if q.count('::') > 1 and not q.startswith('std::experimental'):
        return None
    if last in PURE_MATH and q in (last, 'std::' + last):
        return None
    h = FREE.get(last)
    if h:
        return h(ip, n, st)
    return None


def stream(ip, n, st, lhs, rhs):
    """std stream insertion: appends to in-memory streams, otherwise output"""
    out = []
    for s, l in (ip.lval(lhs, st) if ip.isglv(lhs) else [(x, ip.temp(x, v)) for x, v in ip.eval(lhs, st)]):
        l = ip.canon(s, l)
        for s2, v in ip.eval(rhs, s):
            cur = ip.load(s2, l)
            if root(l)[0] in ('g',):
                ip.emit(s2, 'ext', n, q='std::ostream<<', args=(v,), rawargs=(), res=('void',), recv=None)
            elif cur[0] in ('str', 'scat', 'txt', 'phi', 'loopv', 'fold'):
                ip._store(s2, l, catstr(cur, short(tostr(v, exprtype(rhs)))))
            elif l[0] == 'd':
                ip.store(s2, l, catstr(cur, short(tostr(v, exprtype(rhs)))), None)
            else:
                ip.emit(s2, 'put', n, loc=l, val=tostr(v, exprtype(rhs)))
            out.append((s2, ('&', l)))
    return out


def iterval(ip, s, it):
    """(container loc, start index, kind) of an iterator value"""
    if it[0] == 'it':
        kind = it[3] if len(it) > 3 else 'seq'
        p = it[2]
        if p[0] == 'i':
            return it[1], p[1], kind
        if p[0] == 'end':
            return it[1], size(ip.load(s, it[1])), kind
    if it[0] == 'dataof':
        return it[1], ZERO, 'seq'
    if it[0] == 'padd':
        if it[1][0] == 'dataof':
            return it[1][1], it[2], 'seq'
        return ('mem', it[1]), it[2], 'seq'
    if it[0] in ('fld', 'par', 'res', 'mfn', 'new', 'deref', 'at', 'fn', 'phi', 'memof', 'glob', 'app', 'addr', 'undef', 'dyn', 'mget', 'out', 'bytes'):
        return ('mem', it), ZERO, 'seq'
    return None


def count(ip, s, b, e):
    B, E = iterval(ip, s, b), iterval(ip, s, e)
    if B and E and B[0] == E[0]:
        return isub(E[1], B[1])
    return None


def whole(ip, s, b, e):
    """container value of the range [b,e) when it is a whole container or a slice"""
    B, E = iterval(ip, s, b), iterval(ip, s, e)
    if not B or not E or B[0] != E[0]:
        return None
    v = ip.load(s, B[0])
    if B[1] == ZERO and E[1] == size(v) and B[2] != 'rseq':
        return v
    if B[2] == 'rseq':
        return ('rev', v)
    if v[0] == 'seq' and islit(B[1]) and islit(E[1]):
        return ('seq', v[1][B[1][1]:E[1][1]])
    return ('slice', v, B[1], E[1])


class Body:
    """synthetic loop body: a python function run as a statement"""


def pyloop(ip, n, st, cnt, f, L=None, kind='seq'):
    """abstract (or unrolled) loop of `cnt` iterations; f(st, idx) -> [(st, outcome)]"""
    body = {'k': 'py', 'f': f, 'L': n.get('L')}
    cell = {}

    def bind(s, idx):
        cell['i'] = idx
    def run(nn, s):
        return f(s, cell['i'])
    body['run'] = run
    if cnt[0] == 'lit' and cnt[1] <= 8:
        return ip.unroll_range(st, cnt[1], bind, body)
    loc = L or ('t', st.new('t'))
    if L is None:
        st.env[loc] = ('filln', cnt, ('unk', 'n'))
    return ip.absloop(n, st, None, None, body, None, rng=(loc, kind, bind))


def _py(ip):
    def s_py(nn, s):
        return nn['run'](nn, s)
    return s_py


def out_sink(ip, s, it, n):
    """returns store(st, k, v) for output iterator it"""
    if it[0] == 'inserter':
        L, kind = it[1], it[2]

        def put(s2, k, v):
            cur = ip.load(s2, L)
            if kind == 'set':
                ip.store(s2, L, ('mupd', cur, v, TRUE), None)
            else:
                ip.store(s2, L, ('push', cur, v) if cur[0] != 'seq' else ('seq', cur[1] + (v,)), None)
            cmut(ip, s2, n, L, 'insert' if kind == 'set' else 'push_back', [v])
        return put
    I = iterval(ip, s, it)
    if I:
        def put(s2, k, v):
            loc = ('e', I[0], iadd(I[1], k))
            ip.store(s2, loc, v, n)
        return put
    return None


def f_transform(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        binary = len(vs) == 5
        B = iterval(ip, s, vs[0])
        cnt = count(ip, s, vs[0], vs[1])
        put = out_sink(ip, s, vs[3] if binary else vs[2], n)
        fn = vs[-1]
        B2 = iterval(ip, s, vs[2]) if binary else None
        if not B or cnt is None or put is None or (binary and not B2):
            ip.unknown.append(('transform', ip.pos(s, n)))
            out.append((s, ('unk', 'transform')))
            continue

        def f(s2, i, B=B, B2=B2, put=put, fn=fn):
            res = []
            args = [('&', ip.iter_deref(s2, ('it', B[0], ('i', iadd(B[1], i)), B[2])))]
            if B2:
                args.append(('&', ip.iter_deref(s2, ('it', B2[0], ('i', iadd(B2[1], i)), B2[2]))))
            for s3, v in applyv(ip, fn, args, s2, n):
                put(s3, i, v)
                res.append((s3, None))
            return res
        for s2, o in pyloop(ip, n, s, cnt, f):
            out.append((s2, endit(vs[3] if binary else vs[2], cnt, ip, s2)))
    return out


def endit(it, cnt, ip, s):
    if it[0] == 'it' and it[2][0] == 'i':
        return ('it', it[1], ('i', iadd(it[2][1], cnt))) + it[3:]
    if it[0] == 'inserter':
        return it
    if it[0] == 'padd':
        return ('padd', it[1], iadd(it[2], cnt))
    return ('padd', it, cnt)


def applyv(ip, fn, args, s, n):
    """apply callable to values/refs; results are values"""
    fn = std_functor(fn)
    if callable(fn):
        v = fn([ip.load(s, a[1]) if a[0] == '&' else a for a in args])
        return [(s, v)]
    nn = {'L': n.get('L'), 'k': 'icall', 't': {}}
    res = []
    for s2, v in ip.apply(fn, None, s, nn, list(args)):
        res.append((s2, ip.load(s2, v[1]) if v[0] == '&' else v))
    return res


def std_functor(fn):
    if fn[0] == 'cobj' or fn[0] == 'functor':
        q = fn[1]
        for nm, o in (('multiplies', '*'), ('plus', '+'), ('minus', '-'), ('divides', '/')):
            if q.startswith('std::' + nm):
                return lambda a, o=o: iop(o, a[0], a[1])
        for nm, o in (('equal_to', '=='), ('less', '<'), ('greater', '>'), ('not_equal_to', '!=')):
            if q.startswith('std::' + nm):
                return lambda a, o=o: ('cmp', o, a[0], a[1])
        if q.startswith('std::negate'):
            return lambda a: ('op', 'neg', a[0])
    return fn


def f_for_each(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        cnt = count(ip, s, vs[0], vs[1])
        if not B or cnt is None:
            ip.unknown.append(('for_each', ip.pos(s, n)))
            out.append((s, ('unk', 'for_each')))
            continue

        def f(s2, i, B=B, fn=vs[2]):
            return [(s3, None) for s3, v in applyv(ip, fn, [('&', ip.iter_deref(s2, ('it', B[0], ('i', iadd(B[1], i)), B[2])))], s2, n)]
        L = B[0] if B[1] == ZERO else None
        for s2, o in pyloop(ip, n, s, cnt, f, L=L, kind=B[2] if B[2] != 'rseq' else 'seq'):
            out.append((s2, vs[2]))
    return out


def f_fill(ip, n, st, ncount=False):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        cnt = vs[1] if ncount else count(ip, s, vs[0], vs[1])
        v = vs[2]
        if B and cnt is not None:
            cont = ip.load(s, B[0])
            if B[1] == ZERO and (cont[0] in ('memof', 'newarr') or size(cont) == cnt):
                ip.store(s, B[0], ('filln', cnt, v), n)
            else:
                ip.store(s, B[0], ('scatter', cont, 0, cnt, iadd(B[1], ('idx', 0)), v), n)
            if B[0][0] == 'mem':
                ip.emit(s, 'rawwrite', n, ptr=B[0][1], off=B[1], count=cnt, what=v, src=None)
        out.append((s, endit(vs[0], cnt or ('unk', 'n'), ip, s)))
    return out


def f_copy(ip, n, st, ncount=False, mem=False):
    out = []
    for s, vs in ip.evals(n['a'], st):
        if mem:
            D, S, cnt = vs[0], vs[1], vs[2]
        elif ncount:
            S, cnt, D = vs
        else:
            S, D = vs[0], vs[2]
            cnt = count(ip, s, vs[0], vs[1])
        ret = vs[0] if mem else None
        if mem:
            rawcopy(ip, s, n, D, S, cnt)
            out.append((s, ret))
            continue
        src = None if ncount else whole(ip, s, vs[0], vs[1])
        if D[0] == 'inserter' and src is not None:
            L = D[1]
            cur = ip.load(s, L)
            ip.store(s, L, catv(cur, src), None)
            cmut(ip, s, n, L, 'append', [src])
            out.append((s, D))
            continue
        I = iterval(ip, s, D)
        J = iterval(ip, s, S)
        if I and src is None and J and cnt is not None:
            src = ('slice', ip.load(s, J[0]), J[1], iadd(J[1], cnt))
        if I and src is not None:
            cur = ip.load(s, I[0])
            if I[0][0] == 'mem':
                ip.emit(s, 'rawwrite', n, ptr=I[0][1], off=I[1], count=cnt, what=src, src=S)
            if I[1] == ZERO and (size(cur) == size(src) or cur[0] in ('memof', 'newarr')):
                ip.store(s, I[0], src, n)
            else:
                ip.store(s, I[0], ('splice', cur, I[1], src), n)
        else:
            ip.unknown.append(('copy', ip.pos(s, n)))
        out.append((s, endit(D, cnt if cnt is not None else ('unk', 'n'), ip, s)))
    return out


def rawcopy(ip, s, n, D, S, nbytes):
    I, J = iterval(ip, s, D), iterval(ip, s, S)
    if I and J:
        src = ip.load(s, J[0])
        ip.emit(s, 'rawwrite', n, ptr=I[0][1] if I[0][0] == 'mem' else ('dataof', I[0]), off=I[1], bytes=nbytes, what=src,
                srcptr=J[0][1] if J[0][0] == 'mem' else ('dataof', J[0]), srcoff=J[1], q='memcpy', count=None)
        ip.store(s, I[0], ('blit', ip.load(s, I[0]), I[1], src, J[1], nbytes), None)
    else:
        ip.unknown.append(('memcpy', ip.pos(s, n)))


def f_memset(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        I = iterval(ip, s, vs[0])
        if I:
            ip.emit(s, 'rawwrite', n, ptr=I[0][1] if I[0][0] == 'mem' else ('dataof', I[0]), off=I[1], bytes=vs[2], what=('zeros',),
                    srcptr=None, srcoff=None, q='memset', count=None)
            ip.store(s, I[0], ('blitset', vs[1], vs[2]) if I[1] == ('lit', 0) else ('setn', ip.load(s, I[0]), I[1], vs[1], vs[2]), None)
        out.append((s, vs[0]))
    return out


def catv(a, b):
    if a == ('seq', ()):
        return b
    if b == ('seq', ()):
        return a
    if a[0] == 'seq' and b[0] == 'seq':
        return ('seq', a[1] + b[1])
    la = a[1] if a[0] == 'cat' else (a,)
    lb = b[1] if b[0] == 'cat' else (b,)
    return ('cat', la + lb)


def f_accumulate(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        cnt = count(ip, s, vs[0], vs[1])
        fn = vs[3] if len(vs) > 3 else ('functor', 'std::plus')
        if not B or cnt is None:
            out.append((s, ('unk', 'accumulate')))
            continue
        acc = ('t', s.new('t'))
        s.env[acc] = vs[2]

        def f(s2, i, B=B, fn=fn, acc=acc):
            el = ip.load(s2, ip.iter_deref(s2, ('it', B[0], ('i', iadd(B[1], i)), B[2])))
            r = []
            for s3, v in applyv(ip, fn, [ip.load(s2, acc), el], s2, n):
                s3.env[acc] = v
                r.append((s3, None))
            return r
        for s2, o in pyloop(ip, n, s, cnt, f):
            out.append((s2, ip.load(s2, acc)))
    return out


def f_find(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        if B:
            c = whole(ip, s, vs[0], vs[1])
            if c is not None and c[0] == 'seq' and len(c[1]) <= 8 and B[2] == 'seq':
                live = [s]          # few elements known by name: one path each
                for i, el in enumerate(c[1]):
                    nxt = []
                    for x in live:
                        for s3, b in ip.truth(x, ('cmp', '==', el, vs[2]), n):
                            if b:
                                out.append((s3, ('it', B[0], ('i', iadd(B[1], ('lit', i))), B[2])))
                            else:
                                nxt.append(s3)
                    live = nxt
                out += [(x, vs[1]) for x in live]
                continue
            if c is not None:
                out.append((s, ('it', B[0], ('sfind', c, vs[2]), B[2])))
                continue
        out.append((s, ('fn', 'find') + tuple(vs)))
    return out


def f_anyof(kind):
    def f(ip, n, st):
        out = []
        for s, vs in ip.evals(n['a'], st):
            c = whole(ip, s, vs[0], vs[1])
            B = iterval(ip, s, vs[0])
            cnt = count(ip, s, vs[0], vs[1])
            if c is None or cnt is None:
                out.append((s, ('unk', kind)))
                continue
            if cnt[0] == 'lit' and cnt[1] <= 4:
                live = [s]
                for i in range(cnt[1]):
                    nxt = []
                    for x in live:
                        for s2, v in applyv(ip, vs[2], [at(c, ('lit', i))], x, n):
                            for s3, b in ip.truth(s2, v, n):
                                if kind == 'any_of' and b:
                                    out.append((s3, TRUE))
                                elif kind == 'all_of' and not b:
                                    out.append((s3, FALSE))
                                elif kind == 'none_of' and b:
                                    out.append((s3, FALSE))
                                else:
                                    nxt.append(s3)
                    live = nxt
                out += [(x, FALSE if kind == 'any_of' else TRUE) for x in live]
                continue
            probe = s.fork()
            saved = ip.exits
            ip.exits = []
            d = s.ldepth + 1
            probe.ldepth = d
            rs = applyv(ip, vs[2], [at(c, ('idx', d))], probe, n)
            ip.exits = saved
            v = rs[0][1] if len(rs) == 1 else ('alts',) + tuple(sorted((x[1] for x in rs), key=repr))
            if kind == 'any_of':
                out.append((s, ('exists', d, cnt, v)))
            elif kind == 'none_of':
                out.append((s, ('not', ('exists', d, cnt, v))))
            else:
                out.append((s, ('not', ('exists', d, cnt, ('not', v)))))
        return out
    return f


def f_swap(ip, n, st):
    out = []
    for s, l in ip.lval(n['a'][0], st):
        for s2, m in ip.lval(n['a'][1], s):
            l2, m2 = ip.canon(s2, l), ip.canon(s2, m)
            a, b = ip.load(s2, l2), ip.load(s2, m2)
            ip.store(s2, l2, b, n)
            ip.store(s2, m2, a, n)
            out.append((s2, ('void',)))
    return out


def f_exchange(ip, n, st):
    out = []
    for s, l in ip.lval(n['a'][0], st):
        for s2, v in ip.eval(n['a'][1], s):
            l2 = ip.canon(s2, l)
            a = ip.load(s2, l2)
            ip.store(s2, l2, v, n)
            out.append((s2, a))
    return out


def f_minmax(nm):
    def f(ip, n, st):
        out = []
        for s, vs in ip.evals(n['a'], st):
            vs = vals(ip, s, vs)
            if len(vs) == 1 and vs[0][0] == 'seq':
                vs = list(vs[0][1])
            vs = vs[:2] if len(vs) == 3 else vs
            if all(islit(v) for v in vs):
                r = ('lit', (min if nm == 'min' else max)(v[1] for v in vs))
            else:
                r = ('fn', nm) + tuple(sorted(vs, key=repr))
            out.append((s, r))
        return out
    return f


def f_distance(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        c = count(ip, s, vs[0], vs[1])
        if c is None and vs[1][0] == 'it' and vs[1][2][0] in ('argmax',):
            c = vs[1][2]
        out.append((s, c if c is not None else ('fn', 'distance') + tuple(vs)))
    return out


def resized(v, vs):
    n, pad = vs[0][1], vs[1] if len(vs) > 1 else ZERO
    return ('seq', v[1][:n] + (pad,) * (n - len(v[1])))


def f_argext(nm):
    def f(ip, n, st):
        out = []
        for s, vs in ip.evals(n['a'], st):
            B = iterval(ip, s, vs[0])
            c = whole(ip, s, vs[0], vs[1])
            if B and c is not None and c[0] == 'seq' and 0 < len(c[1]) <= 4:
                live = [(s, 0)]          # few elements known by name: one path per outcome of the comparisons
                for j in range(1, len(c[1])):
                    nxt = []
                    for x, b in live:
                        pr = (c[1][b], c[1][j]) if nm == 'max_element' else (c[1][j], c[1][b])
                        for s2, v in applyv(ip, vs[2], list(pr), x, n) if len(vs) > 2 else [(x, ('cmp', '<') + pr)]:
                            nxt += [(s3, j if t else b) for s3, t in ip.truth(s2, v, n)]
                    live = nxt
                out += [(x, ('it', B[0], ('i', iadd(B[1], ('lit', b))), 'seq')) for x, b in live]
                continue
            if B and c is not None and len(vs) == 2:
                out.append((s, ('it', B[0], ('i', ('arg', nm, c)), 'seq')))
            else:
                out.append((s, ('fn', nm) + tuple(vs)))
        return out
    return f


def f_backins(kind):
    def f(ip, n, st):
        out = []
        for s, l in ip.lval(n['a'][0], st):
            t = exprtype(n['a'][0]).get('rq')
            out.append((s, ('inserter', ip.canon(s, l), 'set' if t in SETS else 'seq')))
        return out
    return f


def f_bind(ip, n, st):
    return [(s, ('bind', vs[0], tuple(vs[1:]))) for s, vs in ip.evals(n['a'], st)]


def f_make(kind):
    def f(ip, n, st):
        out = []
        if kind == 'pair':
            return [(s, pair(vs[0], vs[1])) for s, vs in ip.evals(n['a'], st)]
        return None
    return f


def f_iota(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        cnt = count(ip, s, vs[0], vs[1])
        if B and cnt is not None:
            ip.store(s, B[0], ('map', ip.load(s, B[0]), 0, cnt, iadd(vs[2], ('idx', 0))), n)
        out.append((s, ('void',)))
    return out


def f_generate(ip, n, st, ncount=False):
    out = []
    for s, vs in ip.evals(n['a'], st):
        B = iterval(ip, s, vs[0])
        cnt = vs[1] if ncount else count(ip, s, vs[0], vs[1])
        if B and cnt is not None:
            ip.emit(s, 'generate', n, callee=vs[2], count=cnt, dest=B[0], off=B[1])
            cont = ip.load(s, B[0])
            v = ('genval', vs[2])
            if B[1] == ZERO and (cont[0] in ('memof', 'newarr') or size(cont) == cnt):
                ip.store(s, B[0], ('filln', cnt, v), n)
            else:
                ip.store(s, B[0], ('scatter', cont, 0, cnt, iadd(B[1], ('idx', 0)), v), n)
        out.append((s, ('void',)))
    return out


def f_shuffle(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        ip.emit(s, 'ext', n, q=n['q'], args=tuple(vs), rawargs=(), res=('void',), recv=None)
        B = iterval(ip, s, vs[0])
        if B:
            ip.store(s, B[0], ('perm', ip.load(s, B[0]), s.new('perm')), n)
        out.append((s, ('void',)))
    return out


def f_tostring(ip, n, st):
    return [(s, short(tostr(vs[0], exprtype(n['a'][0])))) for s, vs in ip.evals(n['a'], st)]


def f_begin(which):
    def f(ip, n, st):
        out = []
        for s, l in ip.lval(n['a'][0], st):
            t = exprtype(n['a'][0]).get('rq')
            out.append((s, mkit(ip.canon(s, l), ('i', ZERO) if which == 'begin' else ('end',), t)))
        return out
    return f


def f_next(d):
    def f(ip, n, st):
        out = []
        for s, vs in ip.evals(n['a'], st):
            k = vs[1] if len(vs) > 1 else ONE
            out.append((s, itadd(ip, s, vs[0], k if d > 0 else isub(ZERO, k))))
        return out
    return f


def f_limits(ip, n, st):
    return [(st, ('const', n['q'], n.get('cls', '')[-3:]))]


def f_none(ip, n, st):
    return None


def f_equal(ip, n, st):
    out = []
    for s, vs in ip.evals(n['a'], st):
        a = whole(ip, s, vs[0], vs[1])
        B = iterval(ip, s, vs[2])
        if a is not None and B and B[2] != 'rseq' and len(vs) == 3:
            b = ip.load(s, B[0])
            n_ = size(a)
            if islit(n_) and n_[1] <= 8:
                v = ('lit', True)
                for i in reversed(range(n_[1])):
                    c = ('cmp', '==', at(a, ('lit', i)), at(b, iadd(B[1], ('lit', i))))
                    v = c if v == ('lit', True) else ('and', c, v)
                out.append((s, v))
                continue
            if B[1] != ZERO or size(b) != n_:
                b = ('slice', b, B[1], iadd(B[1], n_))
            out.append((s, ('eqrange',) + tuple(sorted((a, b), key=repr))))
        else:
            out.append((s, ('fn', 'equal') + tuple(vs)))
    return out


FREE = {
    'transform': f_transform, 'for_each': f_for_each, 'fill': f_fill, 'copy': f_copy, 'accumulate': f_accumulate,
    'fill_n': lambda ip, n, st: f_fill(ip, n, st, True), 'copy_n': lambda ip, n, st: f_copy(ip, n, st, True),
    'memcpy': lambda ip, n, st: f_copy(ip, n, st, mem=True), 'memmove': lambda ip, n, st: f_copy(ip, n, st, mem=True),
    'memset': f_memset, 'find': f_find, 'any_of': f_anyof('any_of'), 'all_of': f_anyof('all_of'), 'none_of': f_anyof('none_of'),
    'swap': f_swap, 'exchange': f_exchange, 'min': f_minmax('min'), 'max': f_minmax('max'), 'distance': f_distance,
    'max_element': f_argext('max_element'), 'min_element': f_argext('min_element'),
    'back_inserter': f_backins('seq'), 'inserter': f_backins('seq'), 'bind': f_bind, 'make_pair': f_make('pair'), 'iota': f_iota,
    'generate': f_generate, 'generate_n': lambda ip, n, st: f_generate(ip, n, st, True), 'random_shuffle': f_shuffle, 'shuffle': f_shuffle, 'to_string': f_tostring,
    'begin': f_begin('begin'), 'end': f_begin('end'), 'cbegin': f_begin('begin'), 'cend': f_begin('end'),
    'next': f_next(1), 'prev': f_next(-1), 'equal': f_equal,
}


# ====================================================================== member functions
def mkit(loc, pos, rq):
    kind = 'map' if rq in MAPS else 'set' if rq in SETS else 'seq'
    return ('it', loc, pos, kind)


def itadd(ip, s, it, k):
    if it[0] == 'it':
        if it[2][0] == 'i':
            return ('it', it[1], ('i', iadd(it[2][1], k))) + it[3:]
        if it[2][0] == 'end':
            return ('it', it[1], ('i', iadd(size(ip.load(s, it[1])), k))) + it[3:]
        return ('it', it[1], ('next', it[2], k)) + it[3:]
    if it[0] == 'padd':
        r = iadd(it[2], k)
        return ('padd', it[1], r) if r != ZERO else it[1]
    return ('padd', it, k)


def clsof(n, q):
    i = q.rfind('::')
    return q[:i], q[i + 2:]


def recvs(ip, n, st):
    return [(s, ip.canon(s, l)) for s, l in ip.recv(n, st)]


def mmodel(ip, n, st, q):
    c, m = clsof(n, q)
    ot = n.get('ot', {})
    rq = ot.get('rq')
    if n.get('fn') in ip.p.fns and not (c in VARPTR and ip.transparent) and c not in FMT:
        return None
    if c in VARPTR and ip.transparent:
        return m_varptr(ip, n, st, c, m)
    if c in FMT:
        return m_fmt(ip, n, st, c, m)
    if (c.startswith('tenncor::') or c in ('google::protobuf::MessageLite', 'google::protobuf::Message')) and n.get('fn') not in ip.p.fns:
        return m_proto(ip, n, st, c, m)
    if n.get('virt') and n.get('cls') in ip.p.classes:
        return None             # a pure virtual of the repository: resolved like any other virtual call
    if c.startswith('std::') or c.startswith('__gnu_cxx') or c.startswith('google::'):
        if 'terator' in c:
            return m_iter(ip, n, st, c, m)
        if c in SEQ or c == 'std::_Vector_base' or c in REPEATED:
            return m_seq(ip, n, st, c, m)
        if c in MAPS:
            return m_map(ip, n, st, c, m)
        if c in SETS:
            return m_set(ip, n, st, c, m)
        if c in STR:
            return m_str(ip, n, st, c, m)
        if c in OPT or c.startswith('std::experimental') or 'optional' in c:
            return m_opt(ip, n, st, c, m)
        if c in SMART or c == 'std::__uniq_ptr_impl' or c.startswith('std::__shared_ptr'):
            return m_smart(ip, n, st, c, m)
        if c == 'std::function' or c == 'std::_Bind':
            return m_function(ip, n, st, c, m)
        if c in ('std::atomic', 'std::__atomic_base'):
            return m_atomic(ip, n, st, c, m)
        if c in LOCKS or c in ('std::mutex', 'std::recursive_mutex', 'std::timed_mutex'):
            return m_lock(ip, n, st, c, m)
        if c in STREAMS or c.startswith('std::basic_'):
            return m_stream(ip, n, st, c, m)
        if c == 'std::numeric_limits':
            return [(st, ('fn', q))]
    return m_ext(ip, n, st, q)


def m_ext(ip, n, st, q):
    """unmodelled external member call"""
    out = []
    byref = [x in (1, 2, 3) for x in n.get('pf', [])]
    for s, l in recvs(ip, n, st):
        rv = ip.load(s, l)
        if q.startswith('std::') and q.endswith('::operator=') and len(n['a']) == 1 and exprtype(n['a'][0]).get('rq') == q[:-len('::operator=')]:
            # assignment of a library object: a plain value
            for s2, v in ip.eval(n['a'][0], s):
                ip.store(s2, l, v, n)
                out.append((s2, ('&', l)))
            continue
        for s2, vs in ip.evals(n['a'], s, byref):
            vv = tuple(vals(ip, s2, vs))
            if n.get('cm') and not q.endswith('operator()'):
                res = ('fn', q, rv) + vv
            else:
                key = (q, ip.addrof(l)) + vv
                res = ('res', s2.new(('res', key))) + key
            ip.emit(s2, 'ext', n, q=q, recv=ip.addrof(l), recvval=rv, recvloc=l, args=vv, rawargs=tuple(vs), res=res, cm=bool(n.get('cm')), arrow=n.get('arrow'))
            if not n.get('cm'):
                if n.get('rref'):
                    if q.startswith('std::basic_') and root(l)[0] in ('v', 't'):
                        ip._store(s2, l, ('mut', q.split('::')[-1], rv) + vv)
                    out.append((s2, ('&', ('d', ('refof', res)))))
                    continue
                if ip.visible(l) or root(l)[0] in ('v', 't'):
                    if not n.get('ot', {}).get('ptr'):
                        ip._store(s2, l, ('mut', q.split('::')[-1], rv) + vv)
            for i, v in enumerate(vs):
                if v[0] == '&' and i < len(n['pf']) and n['pf'][i] == 1:
                    ip._store(s2, v[1], ('out', i, res))
            out.append((s2, res))
    return out


REPEATED = ('google::protobuf::RepeatedField', 'google::protobuf::RepeatedPtrField')


def bytesof(ip, s, p, cnt):
    """the bytes a pointer and a count denote"""
    J = iterval(ip, s, p)
    return ('bytes', ip.load(s, J[0]) if J else ('memof', p), J[1] if J else ZERO, cnt)


def m_proto(ip, n, st, c, m):
    """generated protobuf messages: accessors of named fields"""
    out = []
    a = n['a']
    for s, l in recvs(ip, n, st):
        if m.startswith('mutable_') and not a:
            out.append((s, ip.addrof(('f', l, m[8:]))))
            continue
        if m.startswith('set_') and len(a) in (1, 2) or m.startswith('add_') and len(a) == 1:
            for s2, vs in ip.evals(a, s):
                fl = ('f', l, m[4:])
                if m.startswith('add_'):
                    v = ip.load(s2, fl)
                    v = ('seq', v[1] + (vs[0],)) if v[0] == 'seq' else ('push', v, vs[0])
                else:
                    v = vs[0] if len(vs) == 1 else bytesof(ip, s2, vs[0], vs[1])
                ip.store(s2, fl, v, n)
                out.append((s2, ('void',)))
            continue
        if m.endswith('_size') and not a:
            out.append((s, size(ip.load(s, ('f', l, m[:-5])))))
            continue
        if m.startswith('clear_') and not a:
            ip.store(s, ('f', l, m[6:]), ('protodefault',), n)
            out.append((s, ('void',)))
            continue
        if m == 'operator=' or m == 'CopyFrom':
            for s2, v in ip.eval(a[0], s):
                ip.store(s2, l, v, n)
                out.append((s2, ('&', l)))
            continue
        if m == 'Swap' and len(a) == 1:
            for s2, vs in ip.evals(a, s):
                ol = ip.deref(s2, vs[0])
                x, y = ip.load(s2, l), ip.load(s2, ol)
                ip.store(s2, l, y, n)
                ip.store(s2, ol, x, n)
                out.append((s2, ('void',)))
            continue
        if m.startswith('ParseFrom') or m.startswith('ParsePartialFrom') or m.startswith('MergeFrom'):
            for s2, vs in ip.evals(a, s):
                was = ip.load(s2, l)
                src = vs[0] if vs else ('void',)
                src = ('deref', src) if src[0] != '&' else ip.load(s2, src[1])
                J = ip.deref(s2, vs[0]) if vs and vs[0][0] != '&' else None
                if J is not None:
                    src = ip.load(s2, J)
                i = s2.new(('parse', src))
                res = ('res', i, n['q'], src)
                ip.emit(s2, 'ext', n, q=n['q'], recv=ip.addrof(l), recvval=was, recvloc=l, args=tuple(vs), rawargs=tuple(vs), res=res, cm=False)
                ip._store(s2, l, ('parsed', src, i))
                out.append((s2, res))
            continue
        if n.get('cm') and len(a) == 0 and not m.startswith(('Serialize', 'ByteSize', 'Is', 'Debug', 'Short', 'Get')):
            out.append((s, ('&', ('f', l, m))))
            continue
        return m_ext(ip, n, st, n['q'])
    return out


def m_varptr(ip, n, st, c, m):
    out = []
    if m in ('get', 'operator->', 'operator_conv'):
        for s, l in recvs(ip, n, st):
            out.append((s, ip.load(s, l)))
        return out
    if m == 'operator*':
        for s, l in recvs(ip, n, st):
            p = ip.load(s, l)
            out.append((s, ('&', ip.deref(s, p))))
        return out
    if m == 'operator=':
        for s, l in recvs(ip, n, st):
            at_ = exprtype(n['a'][0])
            if at_.get('rq') in ('std::vector', 'nnet::tensor') or at_.get('rq', '').startswith('nnet::tensor'):
                f = ip.p.fns.get(n['fn'])
                for s2, vs in ip.evals(n['a'], s, [True]):
                    p = ip.load(s2, l)
                    ip.emit(s2, 'call', n, q='nnet::placeholder::operator=', fn=None, recv=p, args=tuple(vals(ip, s2, vs)), rawargs=tuple(vs), res=('void',), virt=False, cm=False)
                    out.append((s2, ('&', l)))
                continue
            for s2, v in ip.eval(n['a'][0], s):
                ip.store(s2, l, v, n)
                out.append((s2, ('&', l)))
        return out
    if m == 'clear':
        for s, l in recvs(ip, n, st):
            ip.store(s, l, NULL, n)
            out.append((s, ('void',)))
        return out
    return None


def m_fmt(ip, n, st, c, m):
    out = []
    if m == 'operator<<':
        for s, l in recvs(ip, n, st):
            for s2, v in ip.eval(n['a'][0], s):
                ip._store(s2, l, catstr(ip.load(s2, l), tostr(v, exprtype(n['a'][0]))))
                out.append((s2, ('&', l)))
        return out
    if m in ('operator_conv', 'str', 'operator>>'):
        for s, l in recvs(ip, n, st):
            out.append((s, ip.load(s, l)))
        return out
    return None


def m_iter(ip, n, st, c, m):
    out = []
    if m in ('operator*', 'operator->', 'operator++', 'operator--', 'operator+', 'operator-', 'operator+=', 'operator-=', 'operator[]', 'base', 'operator='):
        for s, l in recvs(ip, n, st):
            it = ip.load(s, l)
            if m == 'operator*':
                out.append((s, ('&', ip.iter_deref(s, it) if it[0] == 'it' else ip.deref(s, it))))
            elif m == 'operator->':
                if it[0] == 'it':
                    loc = ip.iter_deref(s, it)
                    out.append((s, ('&', loc) if False else ('addr', loc)))
                else:
                    out.append((s, it))
            elif m in ('operator++', 'operator--'):
                nv = ip.step(s, it, 1 if m == 'operator++' else -1, n)
                ip.store(s, l, nv, None)
                out.append((s, it if n['a'] else nv))
            elif m == 'operator=':
                for s2, v in ip.eval(n['a'][0], s):
                    ip.store(s2, l, v, None)
                    out.append((s2, ('&', l)))
            elif m == 'operator[]':
                for s2, v in ip.eval(n['a'][0], s):
                    x = itadd(ip, s2, it, v)
                    out.append((s2, ('&', ip.iter_deref(s2, x))))
            elif m in ('operator+', 'operator-', 'operator+=', 'operator-='):
                for s2, v in ip.eval(n['a'][0], s):
                    if v[0] == 'it':
                        r = isub(iterval(ip, s2, it)[1], iterval(ip, s2, v)[1]) if iterval(ip, s2, it) and iterval(ip, s2, v) else ('unk', 'itdiff')
                        out.append((s2, r))
                        continue
                    r = itadd(ip, s2, it, v if '+' in m else isub(ZERO, v))
                    if m.endswith('='):
                        ip.store(s2, l, r, None)
                    out.append((s2, r))
            else:
                out.append((s, it))
        return out
    return m_ext(ip, n, st, n['q'])


def m_seq(ip, n, st, c, m):
    out = []
    a = n['a']
    proto = c.startswith('google')
    for s, l in recvs(ip, n, st):
        if m in ('size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'front', 'back', 'data', 'capacity', 'top'):
            v = ip.load(s, l)
            if m == 'size':
                out.append((s, size(v)))
            elif m == 'empty':
                sz = size(v)
                out.append((s, ('lit', sz[1] == 0) if sz[0] == 'lit' else ('not', sz)))
            elif m in ('begin', 'cbegin'):
                out.append((s, ('it', l, ('i', ZERO), 'seq')))
            elif m in ('end', 'cend'):
                out.append((s, ('it', l, ('end',), 'seq')))
            elif m == 'rbegin':
                out.append((s, ('it', l, ('i', ZERO), 'rseq')))
            elif m == 'rend':
                out.append((s, ('it', l, ('end',), 'rseq')))
            elif m == 'front':
                out.append((s, ('&', ('e', l, ZERO))))
            elif m == 'back':
                out.append((s, ('&', ('e', l, isub(size(v), ONE)))))
            elif m == 'data':
                out.append((s, ('dataof', l)))
            elif m == 'top':
                out.append((s, ('fn', 'top', v)))
            else:
                out.append((s, ('fn', m, v)))
            continue
        if m in ('operator[]', 'at'):
            for s2, i in ip.eval(a[0], s):
                out.append((s2, ('&', ('e', l, i))))
                ip.emit(s2, 'index', n, loc=l, i=i, checked=m == 'at')
            continue
        byref = [x in (1, 2, 3) for x in n.get('pf', [])] if m == 'swap' else None
        for s2, vs in ip.evals(a, s, byref):
            v = ip.load(s2, l)
            ret = ('void',)
            if m in ('push_back', 'emplace_back', 'push'):
                x = vs[0] if len(vs) == 1 else pair(vs[0], vs[1]) if len(vs) == 2 else ('cobj', 'emplace', tuple(vs))
                nv = ('seq', v[1] + (x,)) if v[0] == 'seq' else ('push', v, x)
                op, ar = 'push_back', [x]
                if len(a) == 1:
                    ip.moveout(n, s2, a[0], l)
            elif m == 'push_front':
                nv = catv(('seq', (vs[0],)), v)
                op, ar = 'push_front', vs
            elif m in ('pop_back', 'pop'):
                nv = ('seq', v[1][:-1]) if v[0] == 'seq' and v[1] else v[1] if v[0] == 'push' else ('pop', v)
                op, ar = m, []
            elif m == 'clear':
                nv = ('seq', ())
                op, ar = 'clear', []
            elif m == 'operator=' or m == 'assign':
                if m == 'assign' and len(vs) == 2:
                    w = whole(ip, s2, vs[0], vs[1]) if vs[0][0] in ('it', 'padd', 'dataof') else None
                    nv = w if w is not None else ('filln', vs[0], vs[1]) if vs[0][0] not in ('it', 'padd') else ('unk', 'assign')
                else:
                    nv = vs[0]
                op, ar = 'assign', [nv]
                ret = ('&', l)
            elif m == 'resize':
                if vs[0] == ZERO:
                    nv = ('seq', ())
                else:
                    nv = resized(v, vs) if v[0] == 'seq' and v[1] and vs[0][0] == 'lit' and vs[0][1] <= 16 else \
                        ('resized', v, vs[0]) + tuple(vs[1:2]) if v != ('seq', ()) else ('filln', vs[0], vs[1] if len(vs) > 1 else ZERO)
                op, ar = 'resize', vs
            elif m == 'reserve' or m == 'shrink_to_fit':
                out.append((s2, ret))
                continue
            elif m == 'insert':
                nv, op, ar = seq_insert(ip, s2, l, v, vs)
            elif m in ('erase',):
                nv = ('erased', v) + tuple(x[2] if x[0] == 'it' else x for x in vs)
                if v[0] == 'seq' and all(x[0] == 'i' and x[1][0] == 'lit' for x in nv[2:]):
                    i = nv[2][1][1]
                    j = nv[3][1][1] if len(nv) > 3 else i + 1
                    if 0 <= i <= j <= len(v[1]):
                        nv = ('seq', v[1][:i] + v[1][j:])
                op, ar = 'erase', vs
            elif m == 'swap' or m == 'Swap':
                ol = vs[0][1] if vs[0][0] == '&' else ip.deref(s2, vs[0])
                ov = ip.load(s2, ol)
                ip.store(s2, ol, v, n)
                nv = ov
                op, ar = 'assign', [nv]
            elif m == 'emplace':
                nv, op, ar = seq_insert(ip, s2, l, v, vs)
            else:
                return m_ext(ip, n, st, n['q'])
            ip.store(s2, l, nv, None)
            if ip.visible(l):
                ip.emit(s2, 'cmut', n, loc=l, op=op, args=tuple(ar))
                ip.emit(s2, 'write', n, loc=l, val=nv, op=op)
            if m == 'operator=':
                move_args(ip, s2, n, a, l, True)
            out.append((s2, ret))
    return out


def seq_insert(ip, s, l, v, vs):
    pos = vs[0]
    atend = pos[0] == 'it' and (pos[2][0] == 'end' or pos[2][0] == 'i' and pos[2][1] == size(v))
    atbeg = pos[0] == 'it' and pos[2] == ('i', ZERO)
    if len(vs) == 2:
        x = vs[1]
        if x[0] == 'seq' and False:
            add = x
        else:
            add = ('seq', (x,))
    elif len(vs) == 3:
        w = whole(ip, s, vs[1], vs[2]) if vs[1][0] in ('it', 'padd', 'dataof') else None
        add = w if w is not None else ('filln', vs[1], vs[2]) if vs[1][0] != 'it' else ('unk', 'range')
    else:
        add = ('unk', 'insert')
    if v == ('seq', ()) or size(v) == ZERO:
        return add, 'append', [add]
    if atend:
        return catv(v, add), 'append', [add]
    if atbeg:
        return catv(add, v), 'prepend', [add]
    return ('ins', v, pos[2] if pos[0] == 'it' else pos, add), 'insert', [add]


def m_map(ip, n, st, c, m):
    out = []
    a = n['a']
    for s, l in recvs(ip, n, st):
        if m in ('begin', 'cbegin', 'end', 'cend'):
            out.append((s, mkit(l, ('i', ZERO) if 'begin' in m else ('end',), 'std::unordered_map')))
            continue
        if m in ('size', 'empty'):
            sz = size(ip.load(s, l))
            out.append((s, sz if m == 'size' else ('lit', sz[1] == 0) if sz[0] == 'lit' else ('not', sz)))
            continue
        if m == 'swap':
            out += swap_with(ip, n, s, l, a)
            continue
        for s2, vs in ip.evals(a, s):
            v = ip.load(s2, l)
            if m == 'find':
                k = vs[0]
                while k[0] == 'dyn':
                    k = k[2]
                out.append((s2, ('it', l, ('find', v, k), 'map')))
            elif m in ('count', 'contains'):
                h = vhas(v, vs[0])
                out.append((s2, ('lit', h) if h is not None else ('has', v, vs[0])))
            elif m == 'operator[]':
                ip.emit(s2, 'touch', n, loc=l, key=vs[0])
                out.append((s2, ('&', ('m', l, vs[0]))))
            elif m == 'at':
                ip.emit(s2, 'mapat', n, loc=l, key=vs[0], val=v)
                out.append((s2, ('&', ('m', l, vs[0]))))
            elif m in ('insert', 'emplace', 'insert_or_assign', 'try_emplace'):
                if len(vs) == 1:
                    k, x = getf(vs[0], 'first'), getf(vs[0], 'second')
                else:
                    k, x = vs[0], vs[1]
                if len(vs) == 2 and vs[0][0] == 'it':
                    w = whole(ip, s2, vs[0], vs[1])
                    ip.store(s2, l, ('munion', v, w), None)
                    muts(ip, s2, n, l, 'insertall', [w])
                    out.append((s2, ('void',)))
                    continue
                h = vhas(v, k)
                if m != 'insert_or_assign' and (h is True or h is None and ip.decide(s2, ('has', v, k)) is True):
                    out.append((s2, pair(('it', l, ('find', v, k), 'map'), ('lit', False))))     # an entry that is there stays
                    continue
                ip.store(s2, l, ('mupd', v, k, x), None)
                muts(ip, s2, n, l, 'insert', [k, x])
                out.append((s2, pair(('it', l, ('find', ('mupd', v, k, x), k), 'map'), ('lit', not h) if h is not None else ('not', ('has', v, k)))))
            elif m == 'erase':
                k = vs[0]
                if k[0] == 'it':
                    k = k[2][2] if k[2][0] == 'find' else ('nkey', v, k[2][1]) if k[2][0] == 'i' else ('unk', 'k')
                ip.store(s2, l, ('merase', v, k), None)
                muts(ip, s2, n, l, 'erase', [k])
                out.append((s2, ('void',) if vs[0][0] == 'it' else ('has', v, k)))
            elif m == 'clear':
                ip.store(s2, l, ('emptym',), None)
                muts(ip, s2, n, l, 'clear', [])
                out.append((s2, ('void',)))
            elif m == 'operator=':
                ip.store(s2, l, vs[0], None)
                muts(ip, s2, n, l, 'assign', [vs[0]])
                move_args(ip, s2, n, a, l, False)
                out.append((s2, ('&', l)))
            elif m == 'reserve':
                out.append((s2, ('void',)))
            else:
                return m_ext(ip, n, st, n['q'])
    return out


def muts(ip, s, n, l, op, args):
    if ip.visible(l):
        ip.emit(s, 'cmut', n, loc=l, op=op, args=tuple(args))
        ip.emit(s, 'write', n, loc=l, val=ip.load(s, l), op=op)


def swap_with(ip, n, s, l, a):
    out = []
    for s2, m in ip.lval(a[0], s):
        m = ip.canon(s2, m)
        x, y = ip.load(s2, l), ip.load(s2, m)
        ip.store(s2, l, y, None)
        ip.store(s2, m, x, None)
        for k, v in ((l, y), (m, x)):
            muts(ip, s2, n, k, *(('clear', []) if v == ('emptym',) else ('assign', [v])))
        out.append((s2, ('void',)))
    return out


def m_set(ip, n, st, c, m):
    out = []
    a = n['a']
    for s, l in recvs(ip, n, st):
        if m in ('begin', 'cbegin', 'end', 'cend'):
            out.append((s, mkit(l, ('i', ZERO) if 'begin' in m else ('end',), 'std::unordered_set')))
            continue
        if m in ('size', 'empty'):
            sz = size(ip.load(s, l))
            out.append((s, sz if m == 'size' else ('lit', sz[1] == 0) if sz[0] == 'lit' else ('not', sz)))
            continue
        if m == 'swap':
            out += swap_with(ip, n, s, l, a)
            continue
        for s2, vs in ip.evals(a, s):
            v = ip.load(s2, l)
            if m == 'find':
                k = vs[0]
                while k[0] == 'dyn':
                    k = k[2]
                out.append((s2, ('it', l, ('find', v, k), 'set')))
            elif m in ('count', 'contains'):
                h = vhas(v, vs[0])
                out.append((s2, ('lit', h) if h is not None else ('has', v, vs[0])))
            elif m in ('insert', 'emplace'):
                if len(vs) == 2 and vs[0][0] in ('it', 'padd'):
                    w = whole(ip, s2, vs[0], vs[1])
                    w = w if w is not None else ('unk', 'range')
                    ip.store(s2, l, ('munion', v, w) if v != ('emptym',) else w, None)
                    muts(ip, s2, n, l, 'insertall', [w])
                    out.append((s2, ('void',)))
                    continue
                k = vs[0]
                while k[0] == 'dyn':
                    k = k[2]
                ip.store(s2, l, ('mupd', v, k, TRUE), None)
                muts(ip, s2, n, l, 'insert', [k])
                h = vhas(v, k)
                out.append((s2, pair(('it', l, ('find', ('mupd', v, k, TRUE), k), 'set'), ('lit', not h) if h is not None else ('not', ('has', v, k)))))
            elif m == 'erase':
                k = vs[0]
                if k[0] == 'it':
                    k = k[2][2] if k[2][0] == 'find' else ('nkey', v, k[2][1]) if k[2][0] == 'i' else ('unk', 'k')
                while k[0] == 'dyn':
                    k = k[2]
                ip.store(s2, l, ('merase', v, k), None)
                muts(ip, s2, n, l, 'erase', [k])
                out.append((s2, ('void',) if vs[0][0] == 'it' else ('has', v, k)))
            elif m == 'clear':
                ip.store(s2, l, ('emptym',), None)
                muts(ip, s2, n, l, 'clear', [])
                out.append((s2, ('void',)))
            elif m == 'operator=':
                ip.store(s2, l, vs[0], None)
                muts(ip, s2, n, l, 'assign', [vs[0]])
                move_args(ip, s2, n, a, l, False)
                out.append((s2, ('&', l)))
            else:
                return m_ext(ip, n, st, n['q'])
    return out


def m_str(ip, n, st, c, m):
    out = []
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        if m in ('c_str', 'data', 'str'):
            out.append((s, v))
        elif m == 'empty':
            sz = size(v) if v[0] != 'str' else ('lit', len(v[1]))
            out.append((s, ('lit', sz[1] == 0) if sz[0] == 'lit' else ('not', sz)))
        elif m in ('size', 'length'):
            out.append((s, size(v) if v[0] != 'str' else ('lit', len(v[1]))))
        elif m in ('operator=', 'assign'):
            for s2, x in ip.eval(n['a'][0], s):
                ip.store(s2, l, x, n)
                out.append((s2, ('&', l)))
        elif m in ('operator+=', 'append', 'push_back'):
            for s2, x in ip.eval(n['a'][0], s):
                ip.store(s2, l, catstr(ip.load(s2, l), tostr(x, exprtype(n['a'][0]))), n)
                out.append((s2, ('&', l)))
        elif m == 'compare' and len(n['a']) == 1:
            for s2, x in ip.eval(n['a'][0], s):
                # zero iff equal
                out.append((s2, ('not', ('cmp', '==', v, x))))
        elif m == 'clear':
            ip.store(s, l, ('str', ''), n)
            out.append((s, ('void',)))
        else:
            return m_ext(ip, n, st, n['q'])
    return out


def m_opt(ip, n, st, c, m):
    out = []
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        if m in ('operator_conv', 'has_value'):
            out.append((s, TRUE if v[0] == 'some' else FALSE if v[0] == 'none' else v))
        elif m in ('operator*', 'value', 'operator->'):
            inner = ('f', l, '*')
            if v[0] == 'some':
                tl = ip.temp(s, v[1])
                out.append((s, ('&', tl) if m != 'operator->' else ip.addrof(tl)))
            else:
                tl = ip.temp(s, ('oget', v))
                ip.emit(s, 'optget', n, val=v)
                out.append((s, ('&', tl) if m != 'operator->' else ip.addrof(tl)))
        elif m == 'operator=':
            for s2, x in ip.eval(n['a'][0], s):
                at_ = exprtype(n['a'][0]).get('rq')
                nv = x if at_ in OPT or x[0] in ('none', 'some') else ('some', x)
                ip.store(s2, l, nv, n)
                out.append((s2, ('&', l)))
        elif m == 'value_or':
            for s2, x in ip.eval(n['a'][0], s):
                out.append((s2, v[1] if v[0] == 'some' else x if v[0] == 'none' else ('ite', v, ('oget', v), x)))
        elif m == 'reset':
            ip.store(s, l, ('none',), n)
            out.append((s, ('void',)))
        else:
            return m_ext(ip, n, st, n['q'])
    return out


def m_smart(ip, n, st, c, m):
    out = []
    uniq = 'uniq' in c
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        if m in ('get', 'operator->'):
            out.append((s, v))
        elif m == 'operator*':
            out.append((s, ('&', ip.deref(s, v))))
        elif m == 'operator_conv':
            out.append((s, v))
        elif m == 'release':
            ip.store(s, l, NULL, n)
            out.append((s, v))
        elif m in ('reset', 'operator='):
            src = n['a'][0] if n['a'] else None
            if src is not None and src['k'] in ('call',) and src.get('q') == 'std::move' and ip.isglv(src):
                for s2, sl in ip.lval(src, s):
                    sl = ip.canon(s2, sl)
                    x = ip.load(s2, sl)
                    if v != NULL and v[0] != 'undef' and uniq:
                        ip.emit(s2, 'delete', n, ptr=v, array=False, t=None)
                    ip.store(s2, l, x, n)
                    ip.store(s2, sl, NULL, n)
                    out.append((s2, ('&', l) if m == 'operator=' else ('void',)))
                continue
            for s2, x in (ip.eval(src, s) if src is not None else [(s, NULL)]):
                if uniq and v != NULL and v[0] != 'undef' and s2.facts.get(('nz', v)) is not False:
                    ip.emit(s2, 'delete', n, ptr=v, array=False, t=None)
                ip.store(s2, l, x, n)
                out.append((s2, ('&', l) if m == 'operator=' else ('void',)))
        else:
            return m_ext(ip, n, st, n['q'])
    return out


def m_function(ip, n, st, c, m):
    out = []
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        if m == 'operator()':
            vv = v
            if vv[0] == 'lam':
                node, files = ip.lams[vv[1]]
                byref = [bool(p['t'].get('ref')) for p in node['fn']['params']]
            else:
                byref = [x in (1,) for x in n.get('pf', [])]
            for s2, vs in ip.evals(n['a'], s, byref):
                out += ip.apply(vv, None, s2, n, vs)
        elif m == 'operator=':
            for s2, x in ip.eval(n['a'][0], s):
                ip.store(s2, l, x, n)
                out.append((s2, ('&', l)))
        elif m == 'operator_conv':
            out.append((s, v))
        else:
            return m_ext(ip, n, st, n['q'])
    return out


def m_atomic(ip, n, st, c, m):
    out = []
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        if m in ('load', 'operator_conv'):
            ip.emit(s, 'atomic', n, op='load', loc=l)
            out.append((s, v))
        elif m in ('store', 'operator='):
            for s2, x in ip.eval(n['a'][0], s):
                ip.emit(s2, 'atomic', n, op='store', loc=l, val=x)
                ip.store(s2, l, x, n)
                out.append((s2, x))
        elif m == 'exchange':
            for s2, x in ip.eval(n['a'][0], s):
                ip.store(s2, l, x, n)
                out.append((s2, v))
        else:
            return m_ext(ip, n, st, n['q'])
    return out


def declare_lock(ip, d, loc, st):
    out = []
    init = d['init']
    if init['k'] != 'ctor' or not init['a']:
        return [st]
    for s, ml in ip.lval(init['a'][0], st):
        ml = ip.canon(s, ml)
        deferred = any('defer_lock' in str(x) for x in init['a'][1:])
        if not deferred:
            ip.emit(s, 'lock', init, mutex=ml)
        s.env[('lk', loc)] = FALSE if deferred else TRUE
        s.env[loc] = ('lockof', ml)
        s.scopes = (s.scopes, ('lock', loc, ml))
        out.append(s)
    return out


def m_lock(ip, n, st, c, m):
    out = []
    for s, l in recvs(ip, n, st):
        v = ip.load(s, l)
        ml = v[1] if v[0] == 'lockof' else l
        if m == 'lock':
            ip.emit(s, 'lock', n, mutex=ml)
            if v[0] == 'lockof':
                s.env[('lk', l)] = TRUE
        elif m == 'unlock':
            ip.emit(s, 'unlock', n, mutex=ml, scope=False)
            if v[0] == 'lockof':
                s.env[('lk', l)] = FALSE
        else:
            return m_ext(ip, n, st, n['q'])
        out.append((s, ('void',)))
    return out


def m_stream(ip, n, st, c, m):
    out = []
    if m == 'operator<<' and len(n['a']) == 1:
        return stream(ip, n, st, n['o'], n['a'][0])
    if m == 'str' and not n['a']:
        for s, l in recvs(ip, n, st):
            out.append((s, ip.load(s, l)))
        return out
    return m_ext(ip, n, st, n['q'])


# ====================================================================== constructors
def ctor(ip, n, st):
    rq = n.get('rq')
    a = n['a']
    if ip.trans(rq):
        if not a:
            return [(st, NULL)]
        return ip.eval(a[0], st)
    if rq in FMT:
        return [(st, ('str', ''))]
    if rq in LOCKS:
        return [(s, ('lockof',) + tuple(vs)) for s, vs in ip.evals(a, st)]
    if rq in ('std::bad_function_call', 'std::allocator'):
        return [(st, ('cobj', rq, ()))]
    if not a:
        if rq and rq.startswith('std::') and rq.split('::')[1] in ('multiplies', 'plus', 'minus', 'divides', 'equal_to', 'less', 'greater', 'negate', 'not_equal_to'):
            return [(st, ('functor', rq))]
        return [(st, ip.defval(n.get('t', {})))]
    # constructors taking ranges, fills, other containers
    if rq in SEQ or rq in MAPS or rq in SETS or rq in REPEATED:
        return c_container(ip, n, st, rq, a)
    if rq in ('__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_const_iterator') and len(a) == 1:
        return ip.eval(a[0], st)
    if rq == 'std::basic_string':
        a = [x for x in a if not (x['k'] == 'ctor' and x.get('rq') == 'std::allocator')]
        if len(a) >= 2 and exprtype(a[0]).get('ptr') and exprtype(a[1]).get('k') in ('u', 'i'):
            return [(s, bytesof(ip, s, vs[0], vs[1])) for s, vs in ip.evals(a[:2], st)]
        if len(a) >= 2 and exprtype(a[0]).get('s') == exprtype(a[1]).get('s'):
            return [(s, ('substr', vs[0], vs[1])) for s, vs in ip.evals(a[:2], st)]
        if len(a) == 1 and exprtype(a[0]).get('ptr') and a[0]['k'] in ('mcall', 'call', 'cast'):
            # up to the first zero byte
            return [(s, vs[0] if vs[0][0] in ('str', 'scat', 'txt', 'par') else ('cstr', vs[0])) for s, vs in ip.evals(a[:1], st)]
        return [(s, vs[0]) for s, vs in ip.evals(a[:1], st)]
    if rq == 'std::pair':
        if len(a) == 1:
            return ip.eval(a[0], st)
        if len(a) == 2:
            return [(s, pair(vs[0], vs[1])) for s, vs in ip.evals(a, st)]
    if rq in OPT:
        out = []
        if len(a) > 1:
            return [(s, ('some', ('cobj', 'opt') + tuple(vs))) for s, vs in ip.evals(a, st)]
        for s, v in ip.eval(a[0], st):
            t = exprtype(a[0]).get('rq')
            if t in OPT or v[0] in ('none', 'some'):
                out.append((s, v))
            elif t and t.endswith('nullopt_t') or v == ('nullopt',):
                out.append((s, ('none',)))
            else:
                out.append((s, ('some', v)))
        return out
    if rq in SMART:
        if a[0]['k'] == 'call' and a[0].get('q') == 'std::move' and ip.isglv(a[0]):
            out = []
            for s, l in ip.lval(a[0], st):
                l = ip.canon(s, l)
                v = ip.load(s, l)
                ip.store(s, l, NULL, None)
                out.append((s, v))
            return out
        return ip.eval(a[0], st)
    if rq == 'std::function':
        return ip.eval(a[0], st)
    if rq in ('std::atomic',):
        return ip.eval(a[0], st)
    if n.get('cc') in ('copy', 'move'):
        return ip.eval(a[0], st)
    out = []
    byref = [x in (1, 2, 3) for x in n.get('pf', [])]
    for s, vs in ip.evals(a, st, byref):
        vv = tuple(vals(ip, s, vs))
        res = ('cobj', n['q'], vv)
        ip.emit(s, 'ext', n, q=n['q'], args=vv, rawargs=tuple(vs), res=res, recv=None, ctor=True)
        out.append((s, res))
    return out


def moved_from(ip, s, n, l, seq):
    """a container that was moved from is left empty"""
    e = ('seq', ()) if seq else ('emptym',)
    ip.store(s, l, e, None)
    if ip.visible(l):
        ip.emit(s, 'write', n, loc=l, val=e, op='moved')


def is_moved(ip, a):
    while a['k'] in ('cast', 'conv') and a.get('a'):
        a = a['a'][0] if isinstance(a['a'], list) else a['a']
    return a if a['k'] == 'call' and a.get('q') == 'std::move' and a['a'] and ip.isglv(a['a'][0]) else None


def move_args(ip, s, n, a, dst, seq):
    """after `dst = std::move(src)`: empty src"""
    x = is_moved(ip, a[0]) if a else None
    if x is None:
        return
    r = ip.lval(x, s)
    if len(r) == 1:
        l = ip.canon(s, r[0][1])
        if l != dst:
            moved_from(ip, s, n, l, seq)


def c_container(ip, n, st, rq, a):
    out = []
    # drop allocator/default arguments
    a = [x for x in a if not (x['k'] == 'ctor' and x.get('rq') in ('std::allocator',))]
    seq = rq in SEQ or rq in REPEATED
    if len(a) == 1 and n.get('cc') in ('copy', 'move'):
        # moved-from containers are emptied
        if n.get('cc') == 'move' and a[0]['k'] == 'call' and a[0].get('q') == 'std::move' and ip.isglv(a[0]):
            for s, l in ip.lval(a[0], st):
                l = ip.canon(s, l)
                v = ip.load(s, l)
                moved_from(ip, s, n, l, seq)
                out.append((s, v))
            return out
        return ip.eval(a[0], st)
    if not a:
        return [(st, ('seq', ()) if seq else ('emptym',))]
    for s, vs in ip.evals(a, st):
        if len(vs) == 1:
            v = vs[0]
            t = exprtype(a[0])
            if v[0] == 'seq' and not seq:
                m = ('emptym',)
                for x in v[1]:
                    if rq in MAPS:
                        m = ('mupd', m, getf(x, 'first'), getf(x, 'second'))
                    else:
                        m = ('mupd', m, x, TRUE)
                out.append((s, m))
            elif t.get('k') in ('u', 'i') or v[0] in ('lit', 'lin', 'size'):
                # count constructor
                out.append((s, ('filln', v, ZERO) if v != ZERO else ('seq', ())))
            else:
                out.append((s, v))
        elif len(vs) >= 2:
            if vs[0][0] in ('it', 'padd', 'dataof') or exprtype(a[0]).get('ptr') and exprtype(a[1]).get('ptr') and exprtype(a[0]).get('s') == exprtype(a[1]).get('s'):
                w = whole(ip, s, vs[0], vs[1])
                if w is None:
                    w = ('range', vs[0], vs[1])
                out.append((s, w))
            elif not seq and vs[0][0] == 'seq':
                m = ('emptym',)
                for x in vs[0][1]:
                    m = ('mupd', m, getf(x, 'first'), getf(x, 'second')) if rq in MAPS else ('mupd', m, x, TRUE)
                out.append((s, m))
            elif not seq:
                out.append((s, vs[0]) if vs[0][0] not in ('lit',) else (s, ('emptym',)))
            elif vs[0][0] == 'seq' and a[0]['k'] == 'init':
                out.append((s, vs[0]))
            else:
                out.append((s, ('filln', vs[0], vs[1]) if vs[0] != ZERO else ('seq', ())))
    return out
