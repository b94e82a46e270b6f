"""C04: what an object owns is freed exactly once: by its destructor, or when it is replaced; never shared, never touched after."""
from objects import *

# class, member: freed by the owner's destructor
EXPECTED = {('nnet::alloc_builder', 'registry_'), ('nnet::base_immutable', 'data_'), ('nnet::ileaf', 'data_'), ('nnet::immutable', 'Nf_'),
            ('nnet::ivariable', 'init_'), ('nnet::generator', 'init_'), ('nnet::generator', 'data_'), ('nnet::shape_dep', 'shape_info'),
            ('nnet::rmspropupdater', 'momentums_'),
            ('rocnnet::conv_layer', 'weight_'), ('rocnnet::conv_layer', 'bias_'), ('rocnnet::fc_layer', 'weights_n_bias_'), ('rocnnet::mlp', 'layers_'),
            ('rocnnet::rbm', 'weight_'), ('rocnnet::rbm', 'hbias_'), ('rocnnet::rbm', 'vbias_'), ('rocnnet::db_net', 'layers_'), ('rocnnet::db_net', 'log_layer_'),
            ('rocnnet::dq_net', 'source_qnet_'), ('rocnnet::dq_net', 'target_qnet_'), ('rocnnet::dq_net', 'updater_'), ('rocnnet::dq_net', 'input_'),
            ('rocnnet::dq_net', 'train_input_'), ('rocnnet::dq_net', 'next_input_'), ('rocnnet::dq_net', 'next_output_mask_'), ('rocnnet::dq_net', 'reward_'),
            ('rocnnet::dq_net', 'output_mask_'),
            ('rocnnet::gd_net', 'brain_'), ('rocnnet::gd_net', 'updater_'), ('rocnnet::gd_net', 'test_in_'), ('rocnnet::gd_net', 'train_in_'),
            ('rocnnet::gd_net', 'expected_out_')}
# observers die with their subject through the graph, not through this table
NOTOWN = {('nnet::iobserver', 'ondeath_deps_')}
# one part of each element is owned
PART = {('rocnnet::fc_layer', 'weights_n_bias_'): (('first',), ('second',)), ('rocnnet::mlp', 'layers_'): (('first',),)}
SKIP = ('nnet::mutable_connector',)


def field_of(t):
    """(object pointer, field, shape, rest) of a term reached through one member; shape in ptr/elem"""
    rest = []
    x = t
    while x[0] in ('fld', 'at', 'mget', 'nkey', 'dyn'):
        if x[0] == 'dyn':
            x = x[2]
            continue
        if x[0] == 'fld' and x[1][0] == 'deref':
            return x[1][1], x[2], tuple(reversed(rest))
        if x[0] == 'fld':
            rest.append(x[2])
            x = x[1]
        else:
            rest.append('[]' if x[0] != 'nkey' else '[k]')
            x = x[1]
    return None


def dtor_of(p, k):
    for f in members(p, k):
        if lname(f['q']).startswith('~') and f.get('body') is not None:
            return f


def null(path, t):
    return t == NULL or path.ip.known_nz(path.st, t) is False


def null_in(path, st, t):
    return t == NULL or path.ip.known_nz(st, t) is False


class Own:
    def __init__(self, ctx, p):
        self.ctx, self.p = ctx, p
        self.own = {}          # (cls usr, field) -> list of element parts; [] for a plain pointer

    def infer(self):
        ctx, p = self.ctx, self.p
        for k, c in classes(p):
            if c['q'].startswith(SKIP):
                continue
            f = dtor_of(p, k)
            exp = [n for q, n in EXPECTED if q == c['q']]
            if f is None:
                for n in exp:
                    if any(n == x for x, _ in fields(p, k)) and k in p.classes:
                        ctx.fail('dtor', c['q'], '%s owns %s but has no destructor' % (c['q'], n), 'C04:%s:dtor:%s' % (c['q'], n))
                continue
            runs = [x for x in ctx.run(f, local_only(p, k), mods=False) if x.out != 'abort']
            found = {}
            for path in runs:
                for e, cx in flat(path.ev):
                    if e.k != 'delete':
                        continue
                    fo = field_of(e.ptr)
                    if fo and fo[0] == THIS and (c['q'], fo[1]) not in NOTOWN:
                        found.setdefault(fo[1], set()).add(fo[2])
            for n in set(found) | set(exp):
                t = dict(fields(p, k)).get(n)
                if t is None:
                    if n in exp:
                        raise Broken('member %s::%s is gone' % (c['q'], n))
                    continue       # base member
                parts = found.get(n, set())
                self.own[(k, n)] = sorted(parts) if parts else [()] if t.get('ptr') else [('[]',)]
                for path in runs:
                    if path.out != 'ret':
                        ctx.fail('dtor', site(f), 'the destructor of %s may not finish' % c['q'], 'C04:%s:dtor:exit' % c['q'], path.where())
                        continue
                    for part in set(self.own[(k, n)] if not parts else parts) | set(self.want(c['q'], n, parts)):
                        ok = self.frees_all(path, n, part)
                        ctx.ob('dtor', site(f), ok, 'the destructor of %s does not free %s exactly once' % (c['q'], n + ('' if not part else '[]' + '.'.join(part[1:]))),
                               'C04:%s:dtor:%s' % (c['q'], n), path.where())

    def want(self, q, n, parts):
        w = PART.get((q, n))
        if not w:
            return ()
        return [('[]',) + x for x in w]

    def frees_all(self, path, n, part):
        base = ('fld', ('deref', THIS), n)
        if part == ():
            ds = [e for e, cx in flat(path.ev) if e.k == 'delete' and strip_dyn(e.ptr) == base and not cx]
            return len(ds) == 1 or not ds and null(path, base)
        return self.loops_free(path, base, part) == 1

    def loops_free(self, path, base, part):
        """how many loops free `part` of every element of the container"""
        n = 0
        for e in path.ev:
            if e.k == 'loop' and (e.spec.get('overval') == base or e.spec.get('hi') == ('size', base)):
                good = bool(e.paths)
                for kind, st, evs in e.paths:
                    if kind != 'next':
                        good = False
                        break
                    ds = [x for x, _ in flat(evs) if x.k == 'delete' and field_of(x.ptr) and field_of(x.ptr)[1] == base[2] and field_of(x.ptr)[2] == part]
                    if len(ds) != 1:
                        el = elem(base, e.depth, part)
                        if not (not ds and el is not None and any(null_in(path, st, x) for x in el)):
                            good = False
                n += good
            elif e.k == 'loop' and drains(path, e, base, part):
                n += 1
        if not n and path.ip.decide(path.st, ('nz', ('size', base))) is False:
            return 1
        return n


def drains(path, e, base, part):
    """the loop pops the container empty, freeing each popped element"""
    for loc, init in (e.get('W') or {}).items():
        if init != base:
            continue
        phi = ('phi', e.depth, loc)
        good = bool(e.paths) and bool(e.get('stop'))
        for kind, st, evs in e.paths:
            ws = [x for x, _ in flat(evs) if x.k == 'write' and x.loc == loc]
            if kind != 'next' or not ws or ws[-1].val[0] != 'pop' or ws[-1].val[1] != phi:
                return False
            ds = [x for x, _ in flat(evs) if x.k == 'delete' and last_of(x.ptr, phi, part)]
            good = good and len(ds) == 1
        for st, _ in e.stop:
            good = good and path.ip.decide(st, ('nz', ('size', phi))) is False
        if good:
            return True
    return False


def last_of(t, phi, part):
    t = strip_dyn(t)
    for q in reversed(part[1:]):
        if t[0] != 'fld' or t[2] != q:
            return False
        t = t[1]
    return t[0] == 'at' and t[1] == phi and mentions(t[2], ('size', phi))


def elem(base, depth, part):
    i = ('idx', depth)
    if part[0] == '[k]':
        xs = [('nkey', base, i)]
    else:
        xs = [('at', base, i), ('mget', base, ('nkey', base, i))]
    for q in part[1:]:
        xs = [('fld', x, q) for x in xs]
    return xs


def entries(p, k):
    """functions from outside the class reach: not the private or protected helpers that only the class itself calls"""
    ms = [f for f in members(p, k) if is_def(f) and not f.get('defaulted')]
    called = set()
    for f in ms:
        called |= callees(f)
    out = []
    for f in ms:
        if f.get('access') in ('private', 'protected') and f['usr'] in called and f.get('kind') != 'ctor':
            continue
        out.append(f)
    return out


def callees(f):
    out = set()

    def walk(n):
        if isinstance(n, dict):
            if n.get('fn') and isinstance(n['fn'], str):
                out.add(n['fn'])
            for v in n.values():
                walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    walk(f.get('body'))
    walk(f.get('inits'))
    return out


def fresh(path, v, news):
    v = strip_dyn(v)
    if v in news:
        return True
    if v[0] in ('mfn', 'res'):
        return True
    return False


def check_entry(ctx, p, own, k, f):
    c = p.classes[k]
    lin = [k] + sorted(ancestors(p, k))
    of = {n: (kk, parts) for (kk, n), parts in own.items() if kk in lin}
    isctor = f.get('kind') == 'ctor'
    isdtor = lname(f['q']).startswith('~')
    key = 'C04:%s%s' % (f['q'], sig(f))
    for path in ctx.run(f, local_only(p, k), mods=False):
        if path.out == 'abort':
            continue
        news = {strip_dyn(e.ptr) for e, _ in flat(path.ev) if e.k == 'new'}
        where = path.where()
        deleted = walk_deletes(ctx, path, path.ev, {}, f, key, where)
        suicide = THIS in deleted
        owners = {TLOC} if not isdtor and not suicide else set()
        for i, pr in enumerate(f['params']):
            if pr['t'].get('rec') in lin and pr['t'].get('ref'):
                owners.add(('d', ('par', pr['n'])))
        final = {}
        for o in owners:
            for n, (kk, parts) in of.items():
                if isctor and o == TLOC and kk != k and not any(fwrites(e, n) == o for e, _ in flat(path.ev)):
                    continue
                loc = ('f', o, n)
                o0 = ('fld', ('deref', o[1]), n)
                v = path.load(loc)
                newobj = isctor and o == TLOC
                if not newobj and v != o0 and not any(fwrites(e, n) is not None for e, _ in flat(path.ev)):
                    continue
                if parts == [()]:
                    check_ptr(ctx, p, path, f, key, where, deleted, news, loc, o0, strip_dyn(v), n, newobj, isctor, final)
                else:
                    check_cont(ctx, p, own, path, f, key, where, deleted, news, loc, o0, v, n, parts, newobj)


def holds(v, t):
    """v is t, or a value with t stored in it (results of calls on t do not count)"""
    if v == t:
        return True
    if v[0] in ('mfn', 'res', 'fld', 'deref', 'at', 'mget', 'size'):
        return v[0] in ('mfn', 'res') and t in [strip_dyn(x) for x in v[3 if v[0] == 'mfn' else 4:] if isinstance(x, tuple)]
    return any(holds(x, t) for x in sub(v))


def sub(v):
    for x in v[1:]:
        if isinstance(x, tuple) and x and isinstance(x[0], str):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, tuple):
                    if y and isinstance(y[0], str) and len(y) == 2 and isinstance(y[1], tuple):
                        yield y[1]
                    yield y


def moved_on(path, t, loc):
    """the value is handed out or stored somewhere else"""
    if path.val is not None and holds(path.val, t):
        return True
    for e, _ in flat(path.ev):
        if e.k in ('write', 'cmut') and e.loc != loc:
            if e.k == 'write' and e.val is not None and holds(e.val, t) and (path.load(e.loc) is None or holds(path.load(e.loc), t)) and e.loc[0] != 'v':
                return True
        if e.k in ('call', 'ext', 'icall'):
            for a in (e.get('args') or ()):
                if isinstance(a, tuple) and strip_dyn(a) == t:
                    return True
    return False


def check_ptr(ctx, p, path, f, key, where, deleted, news, loc, o0, v, n, newobj, isctor, final):
    kk = key + ':' + n
    if v == o0 and not newobj:
        ctx.ob('dangling', site(f), o0 not in deleted or null(path, o0), '%s still refers to the object freed here' % n, kk, where)
        return
    if not newobj:
        okold = o0 in deleted or null(path, o0) or moved_on(path, o0, loc)
        ctx.ob('replace', site(f), okold, 'the object %s referred to is lost without being freed' % n, kk + ':lost', where)
    # every intermediate value must be accounted for as well
    for e, cx in flat(path.ev):
        if e.k == 'write' and e.loc == loc and e.val is not None:
            w = strip_dyn(e.val)
            if w in (v, o0, NULL) or not fresh(path, w, news):
                continue
            ctx.ob('replace', site(f), w in deleted or null(path, w) or moved_on(path, w, loc), 'an object put into %s is lost without being freed' % n, kk + ':lost', where)
    if v == NULL or null(path, v):
        ctx.ob('take', site(f), True, '%s cleared' % n)
        return
    ctx.ob('dangling', site(f), v not in deleted, '%s refers to an object freed here' % n, kk, where)
    fo = field_of(v)
    if fo and fo[2] == ():
        src = ('f', ('d', fo[0]), fo[1])
        if v[0] == 'fld' and src != loc:
            ctx.ob('take', site(f), path.load(src) != v, '%s is shared with another owner' % n, kk + ':shared', where)
    elif fo:
        ctx.fail('take', site(f), '%s is shared with another owner' % n, kk + ':shared', where)
    elif v[0] == 'par' or fresh(path, v, news) or v[0] in ('phi',):
        ctx.ob('take', site(f), True, '%s takes a fresh object' % n)
        if v[0] == 'res' or v[0] == 'mfn':
            nm = lname(v[1] if v[0] == 'mfn' else v[2])
            ctx.ob('take', site(f), maker(p, v), '%s takes the result of %s, which does not make a new object' % (n, nm), kk + ':maker', where)
    elif v[0] == 'undef':
        ctx.fail('take', site(f), '%s is left uninitialised' % n, kk + ':uninit', where)
    if v in final and final[v] != loc:
        ctx.fail('take', site(f), '%s and %s own the same object' % (n, final[v][2]), kk + ':twice', where)
    final[v] = loc


def maker(p, v):
    """a call that makes objects: clone/move/get, or anything that is not a const getter of a member"""
    q = v[1] if v[0] == 'mfn' else v[2]
    if not isinstance(q, str):
        return True
    if lname(q) in CLONERS:
        return True
    for g in p.byq.get(q, []):
        if g.get('body') is None:
            continue
        if returns_member(g):
            return False
    return True


def returns_member(g):
    hit = []

    def walk(n):
        if isinstance(n, dict):
            if n.get('k') == 'return':
                e = n.get('e') or n.get('a')
                while isinstance(e, dict) and e.get('k') in ('cast', 'paren', 'load'):
                    e = e.get('e') or e.get('a')
                if isinstance(e, dict) and e.get('k') == 'member':
                    hit.append(e)
            for x in n.values():
                walk(x)
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(g.get('body'))
    return bool(hit)


def check_cont(ctx, p, own, path, f, key, where, deleted, news, loc, o0, v, n, parts, newobj):
    kk = key + ':' + n
    freed = [own_loops(path, o0, part) for part in parts]
    if v == o0 and not newobj:
        ctx.ob('dangling', site(f), not any(freed) and not any(field_of(d) and field_of(d)[1] == n and ('f', ('d', field_of(d)[0]), n) == loc for d in deleted),
               '%s still holds objects freed here' % n, kk, where)
        return
    base, steps = unbuild(v)
    if not newobj:
        if base == o0:
            ctx.ob('replace', site(f), not any(freed), '%s keeps objects freed here' % n, kk, where)
        else:
            empty = path.ip.decide(path.st, ('nz', ('size', o0))) is False
            ok = all(freed) or empty or moved_on(path, o0, loc)
            ctx.ob('replace', site(f), ok, 'the objects held in %s are lost without being freed' % n, kk + ':lost', where)
    if base != o0 and base[0] == 'fld':
        fo = field_of(base)
        src = ('f', ('d', fo[0]), fo[1])
        ctx.ob('take', site(f), path.load(src) != base, 'the objects in %s are shared with another owner' % n, kk + ':shared', where)
    for kind, x in steps:
        if kind == 'mupd':
            m, key_, val = x
            absent = newobj and unbuild(m)[0] in (('emptym',), ('emptyv',)) and key_ not in [y[1] for kk_, y in steps if kk_ == 'mupd' and y is not x] or \
                path.ip.decide(path.st, ('has', m, key_)) is False
            gone = strip_dyn(('mget', m, key_)) in deleted
            ctx.ob('replace', site(f), absent or gone, 'the object stored under the same key in %s is lost' % n, kk + ':lost', where)
            continue
        for part in parts:
            el = x
            for q in part[1:]:
                el = part_of(el, q)
            fo = field_of(el)
            if el[0] in ('mfn', 'res'):
                ctx.ob('take', site(f), maker(p, el), 'an element of %s is not a new object' % n, kk + ':maker', where)
            else:
                ctx.ob('take', site(f), not fo, 'an element of %s is shared with another owner' % n, kk + ':shared', where)


def own_loops(path, base, part):
    return Own.loops_free(None, path, base, part)


def part_of(t, q):
    if t[0] == 'struct':
        for n, x in t[2]:
            if n == q:
                return x
    return ('fld', t, q)


def unbuild(v):
    steps = []
    while True:
        if v[0] == 'push':
            steps.append(('el', v[2]))
            v = v[1]
        elif v[0] == 'seq':
            steps += [('el', x) for x in v[1]]
            return ('emptyv',), steps
        elif v[0] == 'gen':
            steps.append(('el', v[4]))
            v = v[1]
        elif v[0] == 'mupd':
            steps.append(('mupd', (v[1], v[2], v[3])))
            v = v[1]
        else:
            return v, steps


def walk_deletes(ctx, path, evs, deleted, f, key, where):
    """no object is freed twice, none is used once freed"""
    for e in evs:
        if e.k == 'delete':
            t = strip_dyn(e.ptr)
            if t == NULL or path.ip.known_nz(path.st, t) is False:
                continue
            ctx.ob('once', site(f), t not in deleted, '%s is freed twice' % show(t)[:80], key + ':twice', where)
            deleted[t] = e.pos
        elif e.k == 'loop':
            allp = {}
            for kind, st, sub in e.paths:
                allp.update(walk_deletes(ctx, path, sub, dict(deleted), f, key, where))
            deleted.update(allp)
        elif deleted:
            bad = None
            if e.k == 'call':
                r = e.get('recv')
                for a in [r] + list(e.get('rawargs') or e.get('args') or ()):
                    if isinstance(a, tuple) and (strip_dyn(a) in deleted or a[0] == 'deref' and strip_dyn(a[1]) in deleted or
                                                 a[0] == '&' and a[1][0] == 'd' and strip_dyn(a[1][1]) in deleted):
                        bad = a
            elif e.k in ('write', 'cmut', 'rawwrite'):
                b = e.loc
                while b and b[0] in ('f', 'e', 'm', 'nth', 'nk', 'mit'):
                    b = b[1]
                if b and b[0] == 'd' and strip_dyn(b[1]) in deleted:
                    bad = b[1]
            if bad is not None:
                ctx.fail('after', site(f), '%s is used after it was freed' % show(strip_dyn(bad))[:80], key + ':after', where)
    return deleted


def check(ctx):
    ctx.explain = ('For every class with raw pointers it frees, the destructor is walked over all paths to establish what it frees; then every function that outside code can call '
                   'on such an object (helpers of the class inlined) is walked over all paths, following each owned pointer and container: replaced objects are freed or handed on, '
                   'stored objects are new, cloned, moved or taken from a source that lets go of them, nothing is freed twice or used after being freed.')
    ctx.rule('dtor', 'the destructor frees every owned object exactly once on every path on which it may exist')
    ctx.rule('replace', 'an owned object that is replaced has been freed, or handed on')
    ctx.rule('take', 'what is stored in an owning member is new, cloned, moved, or taken from a source that no longer refers to it')
    ctx.rule('dangling', 'no owning member refers to a freed object when the function returns')
    ctx.rule('once', 'no object is freed twice on a path')
    ctx.rule('after', 'no object is used on a path after it was freed')
    p = ctx.prog('base')
    o = Own(ctx, p)
    o.infer()
    ctx.need(len(o.own) >= 25, 'only %d owning members found' % len(o.own))
    ks = {k for k, _ in o.own}
    n = 0
    for k, c in classes(p):
        if c['q'].startswith(SKIP) or not (({k} | ancestors(p, k)) & ks):
            continue
        for f in entries(p, k):
            check_entry(ctx, p, o.own, k, f)
            n += 1
    ctx.need(n > 60, 'only %d functions of owning classes found' % n)
