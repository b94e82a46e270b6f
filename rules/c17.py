"""C17: every random draw comes from the one shared, seedable generator and advances it."""
from common import *
import astq, stdmodel

ENGINES = ('std::linear_congruential_engine', 'std::mersenne_twister_engine', 'std::subtract_with_carry_engine', 'std::discard_block_engine',
           'std::independent_bits_engine', 'std::shuffle_order_engine', 'std::philox_engine')
FOREIGN = {'rand', 'srand', 'random', 'srandom', 'rand_r', 'drand48', 'lrand48', 'mrand48', 'erand48', 'srand48', 'arc4random', 'arc4random_uniform',
           'getrandom', 'getentropy', 'std::rand', 'std::srand', 'std::random_shuffle', 'RAND_bytes'}


def is_engine(t):
    return bool(t) and t.get('k') == 'r' and t.get('rq') in ENGINES


def holds_engine(t):
    """does a value of this type contain an engine of its own?"""
    s = t.get('s', '')
    if t.get('k') == 'p':
        return False
    for e in ENGINES:
        i = s.find(e)
        while i >= 0:
            # skip what is behind a reference wrapper, a reference or a pointer
            j, d = i + len(e), 0
            while j < len(s):
                if s[j] == '<':
                    d += 1
                elif s[j] == '>':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            after = s[j + 1:].lstrip()
            if after.startswith('const'):
                after = after[5:].lstrip()
            before = s[:i]
            if not before.rstrip('const ').endswith('reference_wrapper<') and not after[:1] in ('&', '*'):
                return True
            i = s.find(e, j)
    return False


class Origin:
    """which object an expression of engine type denotes"""

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def fn(self, usr):
        """the objects a function returning an engine by reference may return"""
        if usr in self.memo:
            return self.memo[usr]
        self.memo[usr] = set()
        f = self.p.fns.get(usr)
        if not f or f.get('body') is None:
            self.memo[usr] = {('unknown', usr)}
            return self.memo[usr]
        if not f['ret'].get('ref'):
            self.memo[usr] = {('copy', f['q'])}
            return self.memo[usr]
        ds = astq.decls(f)
        out = set()
        for n in own(f['body']):
            if n.get('k') == 'ret' and n.get('e'):
                out |= self.of(n['e'], f, ds)
        self.memo[usr] = out or {('unknown', usr)}
        return self.memo[usr]

    def of(self, e, f, ds, seen=()):
        e = astq.strip(e)
        k = e.get('k')
        if k == 'ref':
            if e.get('dk') == 'slocal' or e.get('dk') == 'global' or (e.get('q') and e.get('dk') not in ('local', 'param')):
                d = ds.get(e.get('id')) or {}
                if (d.get('t') or e.get('t') or {}).get('ref') and d.get('init') and e.get('id') not in seen:
                    return self.of(d['init'], f, ds, seen + (e.get('id'),))
                return {('tls' if d.get('tls') else 'obj', e.get('q') or e.get('n'))}
            d = ds.get(e.get('id'))
            if not d:
                return {('unknown', e.get('n'))}
            t = d.get('t') or {}
            if d.get('param'):
                return {('ref', e.get('n'))} if t.get('ref') else {('copy', e.get('n'))}
            if t.get('ref') and d.get('init') and e['id'] not in seen:
                return self.of(d['init'], f, ds, seen + (e['id'],))
            return {('local', e.get('n'))}
        if k in ('call', 'mcall'):
            if e.get('q') in ('std::ref', 'std::move', 'std::forward') and e.get('a'):
                return self.of(e['a'][0], f, ds, seen)
            if e.get('q') == 'std::reference_wrapper::get' or lname(e.get('q') or '').startswith('operator') and 'reference_wrapper' in (e.get('q') or ''):
                return self.of(e['o'], f, ds, seen)
            return self.fn(e.get('fn'))
        if k == 'mem':
            return {('member', e.get('n'))}
        if k == 'cond':
            return self.of(e['a'], f, ds, seen) | self.of(e['b'], f, ds, seen)
        if k == 'un' and e.get('op') == '*':
            x = astq.strip(e['e'])
            if x.get('k') == 'un' and x.get('op') == '&':
                return self.of(x['e'], f, ds, seen)
            if x.get('k') == 'ref':
                d = ds.get(x.get('id'))
                if d and d.get('init') and x['id'] not in seen:
                    i = astq.strip(d['init'])
                    if i.get('k') == 'un' and i.get('op') == '&':
                        return self.of(i['e'], f, ds, seen + (x['id'],))
        if k == 'ctor' or k == 'init':
            return {('fresh', e.get('rq') or 'object')}
        return {('unknown', k)}


def own(n):
    """nodes of a function body, without nested lambda bodies"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            if x.get('k') == 'lambda':
                continue
        stack.extend(astq.kids(x))


def check(ctx):
    ctx.explain = ('Every expression of a random-engine type in the library is traced to the object it denotes; every call that is handed one, or that reads the C '
                   'library\'s generators, and every type that stores one by value, is checked.')
    p = ctx.prog('base')
    org = Origin(p)
    ctx.rule('shared', 'there is one generator object: every call that is handed an engine is handed that object itself')
    ctx.rule('nocopy', 'a draw never works on a copy of the generator: nothing that is called or stored keeps an engine by value')
    ctx.rule('foreign', 'no randomness from outside the shared generator (C library generators, random_device)')
    ctx.rule('seed', 'the generator is only re-seeded by the seeding function, on the shared object, with the value it was given')
    gens = ctx.fns('nnutils::get_generator')
    objs = set()
    for f in gens:
        o = org.fn(f['usr'])
        ok = len(o) == 1 and all(x[0] == 'obj' for x in o)
        ctx.ob('shared', site(f), ok, 'the shared generator is not one object of static lifetime (%s)' % sorted(o), 'C17:object')
        objs |= o
        # the static object itself is made once and not assigned
        ctx.functions.add(f['q'])
    shared = objs
    ndraw = 0
    for f in p.fns.values():
        if f.get('body') is None and not f.get('inits'):
            continue
        ds = None
        caps = {}
        ctx.functions.add(f['q'])
        for n in astq.walk(astq.body(f)):
            k = n.get('k')
            if k in ('call', 'mcall', 'fnref', 'ctor'):
                q = n.get('q') or ''
                if q in FOREIGN or 'random_device' in q:
                    ctx.fail('foreign', astq.where(f, n), 'draws from %s' % q, 'C17:foreign:%s:%s' % (f['q'], q))
                    continue
            if k not in ('call', 'mcall', 'ctor', 'lambda', 'decl'):
                continue
            if ds is None:
                ds = astq.decls(f)
            if k == 'lambda':
                for c in n.get('caps') or ():
                    i = c.get('init') or {}
                    if not c.get('byref') and any(is_engine(t) or holds_engine(t) for t in astq.types(i) if not (t.get('k') == 'p')):
                        ctx.fail('nocopy', astq.where(f, n), 'a function object copies the generator it draws from', 'C17:capture:' + f['q'])
                for pa in n['fn'].get('params') or ():
                    if holds_engine(pa['t']) and not pa['t'].get('ref'):
                        ctx.fail('nocopy', astq.where(f, n), 'an engine is taken by value', 'C17:byvalue:' + f['q'])
                continue
            if k == 'decl':
                continue
            q = n.get('q') or ''
            args = list(n.get('a') or ())
            pf = n.get('pf') or []
            eng = [(i, a) for i, a in enumerate(args) if any(is_engine(t) for t in [astq.strip(a).get('t') or {}])]
            selfeng = k == 'mcall' and is_engine(n.get('ot') or {})
            if k == 'mcall' and q.endswith('::operator=') and selfeng:
                # copying a member generator that nobody draws from is no draw, but it must not overwrite the shared one
                o = org.of(n['o'], f, ds)
                ctx.ob('seed', astq.where(f, n), not (o & shared), 'the shared generator is overwritten', 'C17:assign:' + f['q'])
                continue
            if k == 'ctor':
                # constructing an engine: only draws from it matter, and those are traced to it
                if n.get('rq') in ENGINES:
                    continue
            if selfeng:
                o = org.of(n['o'], f, ds)
                if lname(q) == 'seed':
                    par = [x for x in f.get('params') or ()]
                    a = astq.strip(args[0]) if args else {}
                    ok = lname(f['q']) == 'seed_generator' and o <= shared and a.get('k') == 'ref' and par and a.get('id') == par[0]['id']
                    ctx.ob('seed', astq.where(f, n), ok, 'a generator is re-seeded other than by seeding the shared one with the given value', 'C17:seed:' + f['q'])
                elif lname(q) in ('operator()', 'discard', 'operator >>'):
                    ndraw += 1
                    ctx.ob('shared', astq.where(f, n), o <= shared or all(x[0] == 'ref' for x in o), 'draws from %s' % sorted(o), 'C17:draw:' + f['q'])
            if q in ('std::move', 'std::forward', 'std::ref', 'std::addressof'):
                continue
            for i, a in eng:
                o = org.of(a, f, ds)
                ndraw += 1
                ctx.ob('shared', astq.where(f, n), o <= shared or all(x[0] == 'ref' for x in o), '%s is handed %s instead of the shared generator' % (
                    lname(q), sorted(o)), 'C17:draw:%s:%s' % (f['q'], lname(q)))
                g = p.fns.get(n.get('fn'))
                if g and i < len(g['params']):
                    t = g['params'][i]['t']
                    ctx.ob('nocopy', astq.where(f, n), bool(t.get('ref')) or t.get('k') == 'p', '%s takes the generator by value' % lname(q), 'C17:value:' + g['q'])
            t = n.get('t') or {}
            if not is_engine(t) and holds_engine(t):
                ctx.fail('nocopy', astq.where(f, n), '%s keeps a copy of the generator (%s)' % (lname(q), t.get('s', '')[:60]), 'C17:copy:%s:%s' % (f['q'], lname(q)))
            elif eng and k == 'call':
                ctx.ob('nocopy', astq.where(f, n), True, 'no copy kept')
        # an engine (or something that holds one) passed on as a function argument by value, kept in a variable, or made anew
        for d in (ds or {}).values():
            t = d.get('t') or {}
            if d.get('tls') and is_engine(t):
                ctx.fail('shared', site(f), 'a generator per thread', 'C17:tls:' + f['q'])
    ctx.need(ndraw >= 4, 'the random draws of the library were not found')
    ctx.ob('foreign', 'library', True, 'no foreign source of randomness in %d functions' % len(p.fns))
    for f in ctx.fns('nnutils::seed_generator'):
        n = [x for x in astq.walk(f['body']) if x.get('k') == 'mcall' and lname(x.get('q') or '') == 'seed'
             or x.get('k') in ('call', 'mcall') and x.get('fn') in p.fns and any(y.get('k') == 'mcall' and lname(y.get('q') or '') == 'seed' for y in astq.walk(p.fns[x['fn']]['body'] or {}))]
        ctx.ob('seed', site(f), len(n) == 1, 'seeding must re-seed the shared generator once', 'C17:noseed')
    distributions(ctx, p)


def distributions(ctx, p):
    """random initialisers: distribution parameters as given, and every element drawn"""
    ctx.rule('given', 'a random initialiser draws from the distribution over the bounds, or the mean and deviation, it was made with')
    ctx.rule('every', 'a random initialiser draws a value for each element of the tensor, and writes no other')
    for cls in ('rand_uniform', 'rand_normal'):
        for f in ctx.fns('nnet::%s::%s' % (cls, cls), pred=lambda f: len(f['params']) == 2):
            for pa in ctx.run(f, mods=False):
                if pa.out != 'ret':
                    continue
                v = pa.ip.load(pa.st, ('f', ('d', ('this',)), 'distribution_'))
                want = [('par', x['n']) for x in f['params']]
                got = drawn(v)
                ctx.ob('given', site(f), got == want, 'the distribution is made with %s' % show(v)[:80], 'C17:given:' + cls, pa.where())
        for f in ctx.fns('nnet::%s::calc_data' % cls):
            dest, shape = [('par', x['n']) for x in f['params']]
            for pa in ctx.run(f, lambda g: g['q'].startswith('nnet::tensorshape') or g['q'].startswith('nnutils'), mods=False):
                if pa.out != 'ret':
                    continue
                ok = fills(pa, dest, shape)
                ctx.ob('every', site(f), ok, 'not every element, or something else, is drawn', 'C17:every:' + cls, pa.where())


def drawn(v):
    return list(v[2]) if v and v[0] == 'cobj' and len(v) > 2 else v


def draw(pa, v):
    """is v one draw from the distribution with the shared generator?"""
    if v[0] == 'genval':
        v = v[1]
        if v[0] == 'bind':
            return v[1] == DIST and any(any_term(a, isgen) for a in v[2])
        try:
            rs = stdmodel.applyv(pa.ip, v, [], pa.st.copy() if hasattr(pa.st, 'copy') else pa.st, {'L': None})
        except Exception:
            return False
        return bool(rs) and all(draw(pa, r) for _, r in rs)
    return v[0] == 'res' and v[2].startswith('std::') and v[2].endswith('::operator()') and any_term(v, lambda t: t in (DIST, DISTL)) and any_term(v, isgen)


DIST = ('fld', ('deref', ('this',)), 'distribution_')
DISTL = ('f', ('d', ('this',)), 'distribution_')


def isgen(t):
    return t[0] == 'res' and len(t) > 2 and t[2] == 'nnutils::get_generator'


def fills(pa, dest, shape):
    v = pa.ip.load(pa.st, ('mem', dest))
    if v[0] == 'filln':
        n, x = v[1], v[2]
    elif v[0] == 'map' and v[1] == ('memof', dest):
        n, x = v[3], v[4]
    else:
        return False
    if not (n[0] == 'mfn' and n[1] == 'nnet::tensorshape::n_elems' and not any_term(n, lambda t: t == dest)):
        return False
    return draw(pa, x)
