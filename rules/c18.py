"""C18: what one update does: each variable of the error moves by its rule, each element with the value of the operand at that time."""
from alg import *
import stdmodel
from c05 import strip

THIS = ('d', ('this',))
SELF = ('deref', ('this',))
TENSORS = ('nnet::tensor::', 'nnet::tensorshape', 'nnet::itensor_handler')
UPDATES = {'assign': lambda a, b: b, 'assign_add': lambda a, b: arith('+', a, b), 'assign_sub': lambda a, b: arith('-', a, b)}


def dbl(fs):
    return [f for f in fs if (f.get('cls') or '').endswith('>#d')]


# ---------------------------------------------------------------- elements

def elements(ctx):
    """assign_func: out[i] = f(out[i], in[i]) for every element of out; anything shorter is refused"""
    n = 0
    for f in dbl(ctx.fns('nnet::assign_func::operator()')):
        out, arg, fn = [('par', p['n']) for p in f['params']]
        w = site(f)
        key = 'C18:element:%s' % ('vector' if 'vector' in f['params'][1]['t'].get('s', '') else 'tensor')
        for pa in ctx.run(f, lambda g: g['q'].startswith(('nnet::tensor::', 'nnet::tensorshape')) and lname(g['q']) != 'n_elems', mods=False, models=COUNT):
            if pa.out != 'ret':
                continue
            n += 1
            ok, why = element(pa, out, arg, fn)
            ctx.ob('element', w, ok, why or 'every element is written from the elements at its place', key, pa.where())
        ctx.ob('element', w, f['params'][2].get('def') is not False, 'with a default function')
    ctx.need(n >= 2, 'assigning a tensor and a vector')
    for f in dbl(ctx.fns('nnet::const_init::calc_data')):
        dest, shape = [('par', p['n']) for p in f['params']]
        for pa in ctx.run(f, lambda g: g['q'].startswith('nnet::tensorshape'), mods=False):
            if pa.out != 'ret':
                continue
            v = pa.ip.load(pa.st, ('mem', dest))
            ln, x = (v[1], v[2]) if v[0] == 'filln' else (v[3], v[4]) if v[0] == 'map' and v[1] == ('memof', dest) else (None, None)
            ctx.ob('element', site(f), ln is not None and count(pa, ln) and kept(ctx, x), 'a constant initialiser sets every element to its value: %s' % show(v)[:120], 'C18:element:const', pa.where())


def kept(ctx, x):
    """x is what the constructor of const_init was given"""
    for f in dbl(ctx.fns('nnet::const_init::const_init', pred=lambda f: len(f['params']) == 1 and not f['params'][0]['t'].get('ref'))):
        for pa in ctx.run(f, mods=False):
            if x[0] == 'fld' and x[1] == SELF and pa.ip.load(pa.st, ('f', THIS, x[2])) == ('par', f['params'][0]['n']):
                return True
    return False


def counted(ip, f, this, vs, st, n):
    v = ip.load(st, this)
    if f['q'].startswith('nnet::tensor::'):
        v = ('mfn', 'nnet::tensor::get_shape', ip.addrof(this))
    return [(st, ('mfn', 'nnet::tensorshape::n_elems', v))]


COUNT = {'nnet::tensorshape::n_elems': counted, 'nnet::tensor::n_elems': counted}


def count(pa, n):
    return n[0] == 'mfn' and lname(n[1]) == 'n_elems' or n[0] == 'size'


def element(pa, out, arg, fn):
    ip, st = pa.ip, pa.st
    mems = [(l, v) for l, v in st.env.items() if l[0] == 'mem' and any_term(l[1], lambda t: t == out)]
    if len(mems) != 1:
        return False, 'the elements of the target are not written' if not mems else 'more than the elements of the target are written'
    l, v = mems[0]
    if v[0] != 'map' or v[1] != ('memof', l[1]):
        return False, 'not every element is written from its own place: %s' % show(v)[:160]
    d, n, x = v[2], v[3], v[4]
    if not count(pa, n):
        return False, 'the elements written are not all of them: %s' % show(n)
    # as many as the target has: its own count, or one that is known to be equal
    own = any_term(n, lambda t: t == out)
    if not own:
        eq = [a for a, b in st.facts.items() if b and a[0] == 'eq' and n in a[1:3]]
        own = any(y != n and any_term(y, lambda t: t == out) for a in eq for y in a[1:3])
    if not own:
        return False, 'the number of elements written is not that of the target: %s' % show(n)
    i = ('idx', d)
    if x[0] != 'res' or x[2] != 'icall' or x[3] != fn or len(x) != 6:
        return False, 'an element is not what the function makes of old and new value: %s' % show(x)[:160]
    a, b = x[4], x[5]
    if a != ('at', ('memof', l[1]), i):
        return False, 'the first operand is not the old value: %s' % show(a)[:120]
    if b[0] != 'at' or b[2] != i or not any_term(b[1], lambda t: t == arg):
        return False, 'the second operand is not the new value at that place: %s' % show(b)[:120]
    # what is read must reach as far
    src = b[1]
    if src[0] == 'memof':
        m = [a for a, r in st.facts.items() if r and a[0] == 'eq' and any(any_term(z, lambda t: t == arg) for z in a[1:3])]
        if not m and not any_term(n, lambda t: t == arg):
            return False, 'the number of elements of the operand is not looked at'
    else:
        if ip.decide(st, ('lt', size(src), n)) is not False:
            return False, 'the operand may be shorter than the target'
    return True, None


# ---------------------------------------------------------------- updates of one variable

def closures(ctx):
    n = 0
    for nm, want in UPDATES.items():
        for f in dbl(ctx.fns('nnet::variable::' + nm)):
            w = site(f)
            src = ('par', f['params'][0]['n'])
            key = 'C18:assigned:' + nm
            opq = lambda g: g['q'].startswith(TENSORS + ('nnet::assign_func', 'nnet::subject')) or lname(g['q']) in ('eval', 'get_eval', 'operator==', 'expose')
            for pa in ctx.run(f, opq, mods=False):
                if pa.out != 'ret':
                    continue
                con = None
                for a, v in pa.facts.items():
                    if a[0] == 'nz' and a[1][0] == 'dyn' and 'constant' in a[1][1]:
                        con = v
                flag = ('par', 'tell?')
                s = pa.st.fork()
                before = len(pa.ev)
                for s2, v in stdmodel.applyv(pa.ip, pa.val, [flag], s, {'L': None}):
                    q = Path(s2, 'ret', v, pa.ip)
                    ev = q.ev[before:]
                    acts = [e for e, c in flat(ev) if e.k == 'call' and e.q == 'nnet::assign_func::operator()']
                    other = [e for e, c in flat(ev) if e.k == 'write' and e.loc[0] in ('f', 'mem') and e.loc[-1] != 'is_init_']
                    if not acts:
                        zero = any(a[0] == 'nz' and v and 'operator==' in repr(a[1]) and any_term(a[1], lambda t: t == ('lit', 0)) for a, v in pa.facts.items())
                        ctx.ob('assigned', w, nm != 'assign' and con and zero and not other, 'an update that does nothing adds nothing', key + ':nothing', q.where())
                        continue
                    n += 1
                    ctx.ob('assigned', w, len(acts) == 1 and not other and not any(e.k == 'loop' for e in ev), 'the update is applied once', key + ':once', q.where())
                    e = acts[0]
                    to = e.args[0]
                    ctx.ob('assigned', w, to == ('deref', ('fld', SELF, 'data_')) or strip(to) == ('deref', ('fld', SELF, 'data_')), 'what is written is the data of the variable: %s' % show(to)[:100], key + ':target', q.where())
                    x = e.args[1]
                    if con:
                        ok = any_term(x, lambda t: t[0] in ('res', 'mfn') and 'expose' in repr(t[1:3]) and any_term(t, lambda y: y == src))
                        ctx.ob('assigned', w, ok, 'the content of the constant given: %s' % show(x)[:100], key + ':constant', q.where())
                    else:
                        evs = [y for y, c in flat(ev) if y.k == 'call' and lname(y.q) in ('eval', 'get_eval') and strip(y.recv) == src]
                        ok = any(any_term(x, lambda t: t == y.res) for y in evs)
                        ctx.ob('assigned', w, ok, 'the value of the operand at the time the update runs: %s' % show(x)[:100], key + ':operand', q.where())
                    fn = e.args[2] if len(e.args) > 2 else None
                    got = function(q, fn)
                    A, B = atom('old'), atom('new')
                    ctx.ob('assigned', w, got is not None and all(same(g, want(A, B)) for g in got), 'each element becomes %s' % {'assign': 'the new value', 'assign_add': 'old + new', 'assign_sub': 'old - new'}[nm], key + ':function', q.where())
    ctx.need(n >= 6, 'the updates of a variable')
    for f in dbl(ctx.fns('nnet::placeholder::operator=')):
        t = f['params'][0]['t']
        if 'vector' not in t.get('s', ''):
            continue
        d = ('par', f['params'][0]['n'])
        for pa in ctx.run(f, lambda g: g['q'].startswith(TENSORS + ('nnet::assign_func', 'nnet::subject')), mods=False):
            if pa.out != 'ret':
                continue
            acts = [e for e, c in flat(pa.ev) if e.k == 'call' and e.q == 'nnet::assign_func::operator()']
            ok = len(acts) == 1 and strip(acts[0].args[0]) == ('deref', ('fld', SELF, 'data_')) and acts[0].args[1] == d
            got = function(pa, acts[0].args[2] if ok and len(acts[0].args) > 2 else None) if ok else None
            ctx.ob('assigned', site(f), ok and got is not None and all(same(g, atom('new')) for g in got), 'feeding data sets the placeholder to it', 'C18:assigned:feed', pa.where())


def function(pa, fn):
    """normal forms of fn(old, new) on each of its paths"""
    if fn is None:
        return [atom('new')]      # the default is checked where it is declared
    out = []
    try:
        for s, v in stdmodel.applyv(pa.ip, fn, [('par', 'old'), ('par', 'new')], pa.st.fork(), {'L': None}):
            v = pa.ip.load(s, v[1]) if v[0] == '&' else v
            out.append(poly(v, lambda t: t[1] if t[0] == 'par' and t[1] in ('old', 'new') else None))
    except Exception:
        return None
    return out


# ---------------------------------------------------------------- all updates of an error

def leafhook(k):
    def hook(ip, f, this, vs, st, n):
        return [(st, ('seq', tuple(('par', 'leaf%d' % i) for i in range(k))))]
    return {'nnet::inode::get_leaves': hook}


def status(pa, l):
    """(is it a variable?, is it ignored?)"""
    var = ign = None
    for a, v in pa.facts.items():
        if a[0] == 'nz' and a[1][0] == 'dyn' and strip(a[1]) == l:
            var = v
        if a[0] == 'has' and strip(a[2]) == l:
            ign = v
    return var, ign


def cover(ctx):
    mine = lambda g: inner('nnet::gd_updater')(g) and lname(g['q']) != 'get_leaves' or lname(g['q']) == 'process_update'
    for f in ctx.fns('nnet::gd_updater::calculate'):
        w = site(f)
        root, inter = [('par', p['n']) for p in f['params']]
        for k in range(4 if ctx.tier == 'thorough' else 3):
            for pa in ctx.run(f, mine, mods=False, models=leafhook(k), branchy=True):
                if pa.out != 'ret':
                    continue
                v = pa.val
                if v[0] != 'seq':
                    ctx.fail('each', w, 'the updates are not a list of one per variable: %s' % show(v)[:200], key='C18:each:list', detail=pa.where())
                    continue
                got = []
                for x in v[1]:
                    if x[0] != 'res' or lname(x[2]) != 'process_update' or x[3] != ('this',):
                        got.append(None)
                        continue
                    g, l, it = x[4:7]
                    while g[0] == 'fld' or g[0] == 'get':
                        g = g[1]
                    d = g[0] in ('res', 'mfn') and lname(g[2 if g[0] == 'res' else 1]) == 'derive' and g[3 if g[0] == 'res' else 2] == root and strip(g[-1]) == strip(l)
                    ctx.ob('each', w, d, 'an update is made of the gradient of the error in its own variable: %s' % show(x)[:160], 'C18:each:gradient', pa.where())
                    ctx.ob('each', w, it == inter, 'gradients are processed the way asked for', 'C18:each:process', pa.where())
                    got.append(strip(l))
                for i in range(k):
                    l = ('par', 'leaf%d' % i)
                    var, ign = status(pa, l)
                    if var is False or ign is True:
                        ctx.ob('each', w, l not in got, 'a leaf that is no variable, or is ignored, is updated', 'C18:each:spare', pa.where())
                    elif var and ign is False:
                        ctx.ob('each', w, got.count(l) == 1, 'a variable that is not ignored is updated %d times' % got.count(l), 'C18:each:once', pa.where())
                    else:
                        ctx.fail('each', w, 'whether a leaf is a variable, and ignored, is not looked at', key='C18:each:asked', detail=pa.where())
                ctx.ob('each', w, None not in got and all(g in [('par', 'leaf%d' % i) for i in range(k)] for g in got), 'only leaves of the error are updated', 'C18:each:others', pa.where())
    names = set()
    for f in ctx.fns('nnet::gd_updater::ignore_subtree'):
        w = site(f)
        for k in range(3):
            for pa in ctx.run(f, mine, mods=False, models=leafhook(k), branchy=True):
                if pa.out != 'ret':
                    continue
                for d in fields(ctx, 'nnet::gd_updater'):
                    v = pa.ip.load(pa.st, ('f', THIS, d))
                    got = []
                    while v[0] == 'mupd':
                        got.append(strip(v[2]))
                        v = v[1]
                    if got:
                        names.add(d)
                        ctx.ob('ignored', w, v == ('fld', SELF, d), 'what was ignored before stays so', 'C18:ignored:kept', pa.where())
                        break
                else:
                    got = []
                for i in range(k):
                    l = ('par', 'leaf%d' % i)
                    ctx.ob('ignored', w, (l in got) == bool(status(pa, l)[0]), 'exactly the variables below are ignored from now on', 'C18:ignored:each', pa.where())
    ctx.ob('ignored', 'nnet::gd_updater', len(names) == 1, 'variables to ignore are kept in one place', 'C18:ignored:place')
    for f in ctx.fns('nnet::gd_updater::clear_ignore'):
        for pa in ctx.run(f, mods=False):
            for d in names:
                ctx.ob('ignored', site(f), pa.ip.load(pa.st, ('f', THIS, d)) == ('emptym',), 'nothing is ignored any more', 'C18:ignored:clear', pa.where())


def fields(ctx, cls):
    return [d['n'] for c in ctx.prog().classes.values() if c['q'] == cls for d in c['fields']]


# ---------------------------------------------------------------- leaves

def leaves(ctx):
    """the leaves of a node: itself, or all leaves of all its sources"""
    for f in dbl(ctx.fns('nnet::ileaf::get_leaves')):
        for pa in ctx.run(f, mods=False):
            if pa.out == 'ret':
                ctx.ob('leaves', site(f), keys(pa.val) == {('one', ('this',))}, 'a leaf is its own only leaf: %s' % show(pa.val)[:120], 'C18:leaves:leaf', pa.where())
    held = set()
    for f in dbl(ctx.fns('nnet::base_immutable::get_leaves')):
        for pa in ctx.run(f, mods=False):
            if pa.out != 'ret':
                continue
            k = keys(pa.val)
            one = k is not None and len(k) == 1 and list(k)[0][0] == 'all' and list(k)[0][1][0] == 'fld' and list(k)[0][1][1] == SELF
            ctx.ob('leaves', site(f), one, 'the leaves an operation recorded: %s' % show(pa.val)[:120], 'C18:leaves:query', pa.where())
            if one:
                held.add(list(k)[0][1][2])
    ctx.need(len(held) == 1, 'where an operation records its leaves')
    fld, = held
    for f in dbl(ctx.fns('nnet::base_immutable::base_immutable', pred=lambda f: len(f['params']) == 2 and f['params'][0]['t'].get('rq') == 'std::vector')):
        for pa in ctx.run(f, lambda g: g['q'].startswith(('nnet::iobserver', 'nnet::subject', 'nnet::iconnector', 'nnet::inode')), mods=False):
            if pa.out != 'ret':
                continue
            v = pa.ip.load(pa.st, ('f', THIS, fld))
            k = keys(v)
            D = ('fld', SELF, 'dependencies_')
            ARG = ('par', f['params'][0]['n'])
            ok = k is not None and len(k) == 1
            if ok:
                (h, e, x), = k if len(list(k)[0]) == 3 else [('?',) * 3]
                ok = h == 'each' and x in (size(D), size(ARG)) and e[0] == 'all' and e[1][0] in ('mfn', 'res') and 'get_leaves' in repr(e[1][:3]) and any(
                    strip(e[1][2 if e[1][0] == 'mfn' else 3]) == ('at', c, ('idx', '*')) for c in (D, ARG))
            ctx.ob('leaves', site(f), ok, 'an operation records all leaves of each of its sources: %s' % show(v)[:160], 'C18:leaves:record', pa.where())


def keys(t):
    """set of keys as {('one', k), ('all', set), ('each', keys under index *, count)}; None if not understood"""
    if t[0] == 'emptym':
        return set()
    if t[0] == 'mupd':
        k = keys(t[1])
        return None if k is None else k | {('one', strip(t[2]))}
    if t[0] == 'munion':
        a, b = keys(t[1]), keys(t[2])
        return None if a is None or b is None else a | b
    if t[0] == 'genm':
        a = keys(t[1])
        e = t[4]
        if a is None:
            return None
        e = strip(e)
        if e[0] == 'nkey' and e[2] == ('idx', t[2]) and t[3] == size(e[1]):
            b = keys(e[1])
            return None if b is None else a | b
        return None
    if t[0] == 'loopv':
        d, init, alts, trip = t[1:5]
        a = keys(init)
        if a is None or len(alts) != 1:
            return None
        b = keys(subst(alts[0], lambda y: ('emptym',) if y == ('prev',) else None))
        if b is None or len(b) != 1:
            return None
        star = lambda z: subst(z, lambda y: ('idx', '*') if y == ('idx', d) else None)
        return a | {('each', star(list(b)[0]), trip)}
    if t[0] in ('prev', 'phi'):
        return set()
    return {('all', t)}


# ---------------------------------------------------------------- the rules

def roles(ctx, cls):
    """{field: role} from the constructor's parameters: learning rate first, then the discount"""
    out = {}
    for f in ctx.fns(cls + '::' + lname(cls)):
        if not f['params'] or f['params'][0]['t'].get('rq'):
            continue
        for pa in ctx.run(f, mods=False):
            for c in (cls, 'nnet::gd_updater'):
                for d in fields(ctx, c):
                    v = pa.ip.load(pa.st, ('f', THIS, d))
                    for i, p in enumerate(f['params']):
                        if v == ('par', p['n']):
                            out[d] = ('rate', 'discount')[i]
    return out


def upd(t):
    """(operation, variable, operand) of an update made by a variable"""
    if t[0] == 'res':
        t = t[:1] + t[2:]
    if t[0] in ('res', 'mfn') and len(t) == 4 and lname(t[1]) in UPDATES:
        return lname(t[1]), t[2], t[3]
    return None


def actions(ctx, pa, val, flag):
    """what running the update does: per path [(op, variable, node, told?)] with ('tell', node) in between"""
    if upd(val):
        return [[upd(val) + (flag,), ('asked', None)]]
    out = []
    before = len(pa.ev)
    for s, v in stdmodel.applyv(pa.ip, val, [flag], pa.st.fork(), {'L': None}):
        q = Path(s, 'ret', v, pa.ip)
        act = []
        for e in q.ev[before:]:
            if e.k == 'icall' and upd(e.callee):
                t = e.args[0]
                d = pa.ip.decide(s, ('nz', t)) if t[0] != 'lit' else bool(t[1])
                act.append(upd(e.callee) + (t if d is None else (TRUE if d else FALSE),))
            elif e.k == 'call' and lname(e.q) == 'notify':
                act.append(('tell', e.recv))
            elif e.k in ('icall', 'loop') or e.k == 'write' and e.loc[0] == 'f' or e.k == 'call' and lname(e.q) not in ('get',):
                return None
        d = pa.ip.decide(s, ('nz', flag))
        act = [tuple((TRUE if d else FALSE) if x == flag and d is not None else x for x in a) for a in act]
        out.append(act + [('asked', d)])
    return out


def rules(ctx):
    p = ctx.prog()
    done = 0
    for q in sorted(q for q in p.byq if q.endswith('::process_update')):
        for f in ctx.fns(q):
            cls = q.rsplit('::', 1)[0]
            if not f.get('body') or cls == 'nnet::gd_updater':
                continue
            w = site(f)
            ro = roles(ctx, cls)
            gres, leaf, inter = [('par', x['n']) for x in f['params']]
            paths = ctx.run(f, inner(cls), mods=False)
            if all(pa.out in ('throw', 'abort') for pa in paths):
                ctx.ob('rule', w, True, 'an updater without a rule refuses')
                continue
            done += 1
            for pa in paths:
                if pa.out == 'ret':
                    one(ctx, f, cls, ro, pa, gres, leaf, inter)
    ctx.need(done >= 2, 'the rules of gradient descent and RMSprop')
    for f in ctx.fns('nnet::gd_updater::set_learning_rate') + ctx.fns('nnet::rmspropupdater::set_discount_factor'):
        cls = f['q'].rsplit('::', 1)[0]
        ro = roles(ctx, 'nnet::rmspropupdater')
        for pa in ctx.run(f, mods=False):
            want = 'rate' if 'rate' in f['q'] else 'discount'
            got = [ro.get(d) for d in fields(ctx, cls) if pa.ip.load(pa.st, ('f', THIS, d)) == ('par', f['params'][0]['n'])]
            ctx.ob('rule', site(f), got == [want], 'the %s is what updates use' % want, 'C18:rule:set' + want, pa.where())


def one(ctx, f, cls, ro, pa, gres, leaf, inter):
    w = site(f)
    key = 'C18:rule:' + lname(cls)
    flag = ('par', 'tell?')
    acts = actions(ctx, pa, pa.val, flag)
    if acts is None:
        ctx.fail('rule', w, 'the update does something else than updating variables', key=key + ':else', detail=pa.where())
        return
    for act in acts:
        moves = [a for a in act[:-1] if a[0] != 'tell' and a[1] == leaf]
        own = sorted({a[1] for a in act[:-1] if a[0] != 'tell' and a[1] != leaf}, key=repr)
        asked = act[-1][1]
        act = act[:-1]
        told = [a[3] for a in moves] + [TRUE for a in act if a[0] == 'tell' and strip(a[1]) == leaf]
        ok = flag in told if asked is None else (TRUE in told) == asked
        ctx.ob('rule', w, len(moves) == 1 and ok, 'the variable is moved once, and its users are told when that is asked for', key + ':once', pa.where())
        ctx.ob('rule', w, all(v[0] == 'new' for v in own) and len(own) <= 1, 'only the variable and the average are changed: %s' % [show(v) for v in own], key + ':own', pa.where())
        if len(moves) != 1 or any(v[0] != 'new' for v in own) or len(own) > 1:
            continue
        m = own[0] if own else None
        told = {m: atom('m0')}
        data = {m: atom('m0')}
        fresh = {'g': 'g0'}

        def leafs(t):
            if t == m:
                return told[m]
            if t[0] == 'res' and t[2] == 'icall' and t[3] == inter:
                a = [x for x in t[4:]]
                if len(a) == 2 and strip(a[1]) == leaf and strip(a[0]) in (('deref', gres), gres):
                    return fresh['g']
                return ('wrong',)
            if t[0] == 'fld' and t[1] == SELF:
                return ro.get(t[2], 'field ' + t[2])
            if t in (gres, ('deref', gres)):
                return 'unprocessed'
            return None
        g0, lr, d, m0 = atom('g0'), atom('rate'), atom('discount'), atom('m0')
        step = None
        for a in act:
            if a[0] == 'tell':
                if a[1] == m:
                    told[m] = data[m]
                elif strip(a[1]) == leaf:
                    fresh['g'] = 'g1'
                continue
            op, v, node, tell = a
            x = data[m] if node == m else poly(node, leafs)
            if v == leaf:
                step = x if op == 'assign_sub' else None if op == 'assign' else {k: -c for k, c in x.items()}
                if tell != FALSE:
                    fresh['g'] = 'g1'
            else:
                data[m] = UPDATES[op](data[m], x)
                if tell != FALSE:
                    told[m] = data[m]
        if m is None:
            ctx.ob('rule', w, step is not None and same(step, arith('*', g0, lr)), 'the variable moves by the learning rate times its gradient: %s' % (step and sorted(step.items(), key=repr)), key + ':step', pa.where())
            ctx.ob('rule', w, 'discount' not in ro.values(), 'an updater with a discount keeps an average', key + ':noaverage', pa.where())
            continue
        M = arith('+', arith('*', d, m0), arith('*', arith('-', const(1), d), power(g0, 2)))
        ctx.ob('average', w, same(data[m], M), 'the average becomes discount * average + (1 - discount) * gradient^2: %s' % sorted(data[m].items(), key=repr), key + ':average', pa.where())
        ctx.ob('average', w, same(told[m], data[m]), 'the users of the average are told of its new value, or the next update takes the old one', key + ':told', pa.where())
        ok = False
        if step is not None:
            for e in [n for n in fields(ctx, cls)] + ['']:
                den = power(M, Fraction(1, 2))
                if e:
                    den = arith('+', den, atom('field ' + e))
                ok = ok or same(step, arith('/', arith('*', g0, lr), den))
        ctx.ob('rule', w, ok, 'the variable moves by the learning rate times its gradient over the root of the new average: %s' % (step and sorted(step.items(), key=repr)), key + ':step', pa.where())
        made = [e for e, c in flat(pa.ev) if e.k == 'call' and e.d.get('ctor') and e.recv == m]
        shp = made and any_term(made[0].args, lambda t: t[0] in ('mfn', 'res') and 'get_shape' in repr(t[:3]) and any_term(t, lambda y: y == leaf)) if made else False
        init = [e for e, c in flat(pa.ev) if e.k == 'call' and lname(e.q) == 'initialize' and strip(e.recv) == m]
        ctx.ob('average', w, bool(shp) and len(init) == 1, 'the average has the shape of the variable and starts with a value', key + ':start', pa.where())


def check(ctx):
    ctx.explain = ('Every path of what computes and runs updates: which leaves get one, the expression it takes from its variable as a normal form, the state it keeps between runs, '
                   'and the element functions of assigning; an update is run symbolically, with what its users were told kept apart from what its data is.')
    ctx.rule('element', 'assigning writes every element of the target, from the old value and the operand at the same place; an operand that does not reach as far is refused')
    ctx.rule('assigned', 'an update of a variable sets, adds or subtracts the value the operand has when it runs')
    ctx.rule('each', 'the updates of an error are one for each of its variables that is not ignored, made of the gradient in that variable')
    ctx.rule('ignored', 'ignoring a node adds its variables to those ignored; clearing forgets them all')
    ctx.rule('leaves', 'the leaves of a node are all leaves of all its sources')
    ctx.rule('rule', 'an update takes from its variable the learning rate times the gradient, for RMSprop over the root of the average')
    ctx.rule('average', 'the average advances by the squared gradient with each update, and the next update takes it from there')
    elements(ctx)
    closures(ctx)
    cover(ctx)
    leaves(ctx)
    rules(ctx)
