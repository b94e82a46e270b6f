"""C27: layers weigh and add, stacks apply each layer to the result of the one before, and the squashing functions are what they are called."""
from alg import *
from c05 import strip
from c22 import THIS
from c24 import SELF

R = 'rocnnet::'


# ---------------------------------------------------------------- normal forms of node expressions

def turned(t):
    """(t without transposition, was it transposed?)"""
    nm, ops = opname(t)
    if nm == 'transpose' and (len(ops) == 1 or ops[1][0] == 'none'):
        x, f = turned(ops[0])
        return x, not f
    return t, False


def truth(t):
    return {TRUE: True, FALSE: False}.get(t, t)


def nodes(own=lambda t: None):
    """leaf function for poly: the operators layers are made of"""
    def leaf(t):
        x = own(t)
        if x is not None:
            return x
        nm, ops = opname(t)
        if nm == 'matmul' and len(ops) == 4:
            a, fa = turned(ops[0])
            b, fb = turned(ops[1])
            if truth(ops[2]) in (True, False) and truth(ops[3]) in (True, False):
                return fn('matmul', poly(a, leaf), poly(b, leaf), truth(ops[2]) != fa, truth(ops[3]) != fb)
        for o, s in (('add', 1), ('sub', -1)):
            if nm == o + '_axial_b' and len(ops) == 3:
                return arith('+-'[s < 0], poly(ops[0], leaf), along(poly(ops[1], leaf), ops[2]))
            if nm == o + '_axial_a' and len(ops) == 3:
                return arith('+-'[s < 0], along(poly(ops[0], leaf), ops[2]), poly(ops[1], leaf))
        if nm == 'sigmoid' and len(ops) == 1:
            return sigmoid(poly(ops[0], leaf))
        if nm == 'transpose' and len(ops) and (len(ops) == 1 or ops[1][0] == 'none'):
            a, fa = turned(t)
            return fn('transpose', poly(a, leaf)) if fa else poly(a, leaf)
        if nm in ('reduce_mean', 'reduce_sum', 'reduce_max') and len(ops) == 1:
            return fn(nm, poly(ops[0], leaf), ('none',))
        return None
    return leaf


def along(p, d):
    """p repeated along the other dimensions; linear in p"""
    r = {}
    for m, c in p.items():
        r = arith('+', r, {((('along', canon({m: 1}), d), 1),): c})
    return r


def sigmoid(p):
    return inverse(arith('+', const(1), fn('exp', arith('*', const(-1), p))))


def matmul(a, b, ta=False, tb=False):
    return fn('matmul', a, b, ta, tb)


# ---------------------------------------------------------------- squashing functions

def fraction(t, leaf):
    """(numerator, denominator) over powers of exp(x)"""
    n = num(t)
    if n is not None:
        return const(n), const(1)
    if t == leaf:
        return None
    nm, ops = opname(t)
    if t[0] in ('i2f', 'cast', 'widen'):
        return fraction(t[1], leaf)
    if nm == 'exp':
        p = poly(ops[0], lambda y: 'x' if y == leaf else None)
        if set(p) == {(('x', 1),)}:
            c = p[(('x', 1),)]
            return (power(atom('E'), c), const(1)) if c > 0 and c == int(c) else (const(1), power(atom('E'), -c)) if c == int(c) else None
        return None
    if nm and nm.startswith('operator') and nm[8:] in ('+', '-', '*', '/') and len(ops) == 2:
        a, b = fraction(ops[0], leaf), fraction(ops[1], leaf)
        if not a or not b:
            return None
        o = nm[8:]
        if o in '+-':
            return arith(o, arith('*', a[0], b[1]), arith('*', b[0], a[1])), arith('*', a[1], b[1])
        return (arith('*', a[0], b[0]), arith('*', a[1], b[1])) if o == '*' else (arith('*', a[0], b[1]), arith('*', a[1], b[0]))
    if nm == 'operator-' and len(ops) == 1:
        a = fraction(ops[0], leaf)
        return a and (arith('*', const(-1), a[0]), a[1])
    if nm == 'softmax' and len(ops) == 1:
        return SQUASH['softmax'] if ops[0] == leaf else None
    if nm == 'div_axial_b' and len(ops) == 3 and ops[2] == ONE:
        # one quotient for each example
        a, (n2, o2) = fraction(ops[0], leaf), opname(ops[1])
        if a and n2 == 'reduce_sum' and len(o2) == 2 and o2[1] == ('some', ZERO):
            b = fraction(o2[0], leaf)
            return b and (a[0], arith('*', a[1], atom(('per', canon(b[0]), canon(b[1])))))
        return None
    if nm in ('reduce_sum',) and (len(ops) == 1 or ops[1] == ('none',)):
        a = fraction(ops[0], leaf)
        return a and (atom(('total', canon(a[0]), canon(a[1]))), const(1))
    return None


E = atom('E')
SQUASH = {
    'sigmoid': (E, arith('+', E, const(1))),
    'tanh': (arith('-', power(E, 2), const(1)), arith('+', power(E, 2), const(1))),
    'softmax': (E, atom(('total', canon(E), canon(const(1))))),
}


def squash(ctx):
    for nm, want in SQUASH.items():
        fs = [f for f in ctx.fns('nnet::' + nm) if len(f['params']) == 1 and '#d' in f['usr']] or ctx.fns('nnet::' + nm)
        for f in fs:
            x = ('par', f['params'][0]['n'])
            for pa in ctx.run(f, lambda g: g['q'].startswith('nnet::') and lname(g['q']) not in SQUASH, mods=False):
                if pa.out != 'ret':
                    continue
                v = fraction(pa.val, x)
                ctx.ob('squash', site(f), v is not None and same(arith('*', v[0], want[1]), arith('*', v[1], want[0])),
                       '%s is %s' % (nm, {'sigmoid': '1/(1+e^-x)', 'tanh': '(e^2x-1)/(e^2x+1)', 'softmax': 'e^x over the sum of all e^x'}[nm]) + ': %s' % show(pa.val)[:200], 'C27:squash:' + nm, pa.where())


# ---------------------------------------------------------------- one layer

def others(*keep):
    """calls that stay calls: everything of the library, and the layers named"""
    return lambda g: g['q'].startswith('nnet::') or g['q'] in keep


def preset(name, items):
    from c05 import empty_state
    st = empty_state()
    st.env[('f', THIS, name)] = ('seq', tuple(items))
    return st


def pairs_of(f, cls, ctx):
    return [d['n'] for c in ctx.prog().classes.values() if c['q'] == cls for d in c['fields'] if 'vector' in d['t'].get('s', '')]


def dense(ctx, k):
    """a fully connected layer with k inputs"""
    for f in ctx.fns(R + 'fc_layer::operator()'):
        w = site(f)
        hold, = pairs_of(f, R + 'fc_layer', ctx)
        items = [('struct', 'std::pair', (('first', ('par', 'weights%d' % i)), ('second', ('par', 'bias%d' % i)))) for i in range(k)]
        ins = [('par', 'input%d' % i) for i in range(k)]
        n = 0
        for pa in ctx.run(f, others(), mods=False, st=preset(hold, items), args={0: ('seq', tuple(ins))}):
            if pa.out != 'ret':
                continue
            n += 1
            want = const(0)
            for i in range(k):
                want = arith('+', want, arith('+', matmul(atom(('par', 'input%d' % i)), atom(('par', 'weights%d' % i))), along(atom(('par', 'bias%d' % i)), ONE)))
            got = poly(pa.val, nodes())
            ctx.ob('layer', w, same(got, want), 'with %d inputs: the sum of every input times its weights, and its bias for every example: %s' % (k, show(pa.val)[:300]), 'C27:layer', pa.where())
        ctx.need(n, 'a path of the layer with %d inputs' % k)
    for f in ctx.fns(R + 'fc_layer::fc_layer', pred=lambda f: len(f['params']) == 3):
        w = site(f)
        hold, = pairs_of(f, R + 'fc_layer', ctx)
        ns, out = [('par', 'size%d' % i) for i in range(k)], ('par', f['params'][1]['n'])
        for pa in ctx.run(f, others(), mods=False, args={0: ('seq', tuple(ns))}):
            if pa.out != 'ret':
                continue
            v = pa.ip.load(pa.st, ('f', THIS, hold))
            sh = made(pa)
            ok = v[0] == 'seq' and len(v[1]) == k
            ctx.ob('fit', w, ok, '%d pairs of weights and bias for %d inputs' % (len(v[1]) if v[0] == 'seq' else -1, k), 'C27:fit:layer', pa.where())
            if not ok:
                continue
            seen = []
            for i, x in enumerate(v[1]):
                p = dict(x[2]) if x[0] == 'struct' else {}
                a, b = p.get('first'), p.get('second')
                ctx.ob('fit', w, sh.get(a) == (out, ns[i]), 'weights of input %d have one column per output and one row per entry of the input: %s' % (i, sh.get(a)), 'C27:fit:weights', pa.where())
                ctx.ob('fit', w, sh.get(b) == (out,), 'bias %d has one entry per output' % i, 'C27:fit:bias', pa.where())
                seen += [a, b]
            ctx.ob('fit', w, len(set(seen)) == len(seen), 'no variable is used twice', 'C27:fit:own', pa.where())


def made(pa):
    """new variable -> its shape"""
    r = {}
    for e, c in flat(pa.ev):
        if e.k == 'call' and lname(e.q) == 'variable' and e.recv and e.args and e.args[0][0] == 'cobj' and lname(e.args[0][1]) == 'tensorshape' and e.args[0][2] and e.args[0][2][0][0] == 'seq':
            r[e.recv] = tuple(e.args[0][2][0][1])
    return r


# ---------------------------------------------------------------- stacks

def stack_mlp(ctx, k):
    for f in ctx.fns(R + 'mlp::prop_up'):
        w = site(f)
        hold, = pairs_of(f, R + 'mlp', ctx)
        items = [('struct', 'std::pair', (('first', ('par', 'layer%d' % i)), ('second', ('par', 'squash%d' % i)))) for i in range(k)]
        n = 0
        for pa in ctx.run(f, others(R + 'fc_layer::operator()'), mods=False, st=preset(hold, items), args={0: ('par', 'in')}):
            if pa.out != 'ret':
                continue
            n += 1
            v = pa.val
            ok, at = True, k
            for i in reversed(range(k)):
                v = strip(v)
                if v[0] == 'res' and v[2] == 'icall' and strip(v[3]) == ('par', 'squash%d' % i) and len(v) == 5:
                    v = strip(v[4])
                    if v[0] == 'res' and v[2] == R + 'fc_layer::operator()' and strip(v[3]) == ('par', 'layer%d' % i) and v[4][0] == 'seq' and len(v[4][1]) == 1:
                        v = v[4][1][0]
                        continue
                ok = False
                break
            ctx.ob('stack', w, ok and strip(v) == ('par', 'in'), '%d layers, each followed by its own function, applied in turn: %s' % (k, show(pa.val)[:300]), 'C27:stack:mlp', pa.where())
        ctx.need(n, 'a path of a stack of %d layers' % k)
    for f in ctx.fns(R + 'mlp::mlp', pred=lambda f: len(f['params']) == 3):
        w = site(f)
        hold, = pairs_of(f, R + 'mlp', ctx)
        items = [('struct', 'std::pair', (('first', ('par', 'size%d' % i)), ('second', ('par', 'squash%d' % i)))) for i in range(k)]
        for pa in ctx.run(f, others(R + 'fc_layer::fc_layer'), mods=False, args={0: ('par', 'size'), 1: ('seq', tuple(items))}):
            if pa.out != 'ret':
                continue
            v = pa.ip.load(pa.st, ('f', THIS, hold))
            got = []
            ctors = {e.recv: e.args for e, c in flat(pa.ev) if e.k == 'call' and e.q == R + 'fc_layer::fc_layer'}
            for x in v[1] if v[0] == 'seq' else ():
                p = dict(x[2]) if x[0] == 'struct' else {}
                a = ctors.get(p.get('first'), ())
                got.append((a[0], a[1], p.get('second')) if len(a) >= 2 else None)
            want = [(('seq', (('par', 'size%d' % (i - 1) if i else 'size'),)), ('par', 'size%d' % i), ('par', 'squash%d' % i)) for i in range(k)]
            ctx.ob('fit', w, got == want, 'layer i takes what layer i-1 gives, and is followed by the function given for it: %s' % (got,), 'C27:fit:mlp', pa.where())
            ctx.ob('fit', w, pa.ip.load(pa.st, ('f', THIS, 'n_output_')) == ('par', 'size%d' % (k - 1)) and pa.ip.load(pa.st, ('f', THIS, 'n_input_')) == ('par', 'size'), 'the sizes reported are those of the first input and the last output', 'C27:fit:sizes', pa.where())


def stack_dbn(ctx, k):
    """k layers in all, the last of which is the fully connected one"""
    for f in ctx.fns(R + 'db_net::prop_up'):
        w = site(f)
        hold, = pairs_of(f, R + 'db_net', ctx)
        items = [('par', 'layer%d' % i) for i in range(k - 1)]
        n = 0
        for pa in ctx.run(f, others(R + 'fc_layer::operator()', R + 'rbm::prop_up'), mods=False, st=preset(hold, items), args={0: ('par', 'in')}):
            if pa.out != 'ret':
                continue
            n += 1
            tops = []
            any_term(pa.val, lambda t: t[0] == 'res' and len(t) > 2 and t[2] == R + 'fc_layer::operator()' and t not in tops and tops.append(t))
            v = tops[0] if len(tops) == 1 else ('none',)
            q = fraction(pa.val, v) if tops else None
            whole = SQUASH['softmax']
            each = (E, atom(('per', canon(E), canon(const(1)))))
            is_ = lambda w: q is not None and same(arith('*', q[0], w[1]), arith('*', q[1], w[0]))
            ctx.ob('stack', w, is_(whole) or is_(each), 'the output is e^x over the sum of e^x, x the last layer: %s' % show(pa.val)[:200], 'C27:stack:normal', pa.where())
            if is_(whole):
                ctx.ob('distribution', w, False, 'the output layer normalises over the whole batch, not over each example', 'C27:distribution:whole-batch@rocnnet::db_net::prop_up')
            top = v[0] == 'res' and v[2] == R + 'fc_layer::operator()' and strip(v[3])[0] == 'fld' and strip(v[3])[1] == SELF and v[4][0] == 'seq' and len(v[4][1]) == 1
            if top:
                v = strip(v[4][1][0])
                for i in reversed(range(k - 1)):
                    if not (v[0] == 'res' and v[2] == R + 'rbm::prop_up' and strip(v[3]) == ('par', 'layer%d' % i)):
                        top = False
                        break
                    v = strip(v[4])
            ctx.ob('stack', w, top and v == ('par', 'in'), '%d machines in turn, then the fully connected layer: %s' % (k - 1, show(pa.val)[:300]), 'C27:stack:dbn', pa.where())
        ctx.need(n, 'a path of a net of %d layers' % k)
    for f in ctx.fns(R + 'db_net::db_net', pred=lambda f: len(f['params']) == 3):
        w = site(f)
        hold, = pairs_of(f, R + 'db_net', ctx)
        sizes = [('par', 'size%d' % i) for i in range(k)]
        n = 0
        for pa in ctx.run(f, others(R + 'fc_layer::fc_layer', R + 'rbm::rbm'), mods=False, args={0: ('par', 'size'), 1: ('seq', tuple(sizes))}):
            if pa.out != 'ret':
                continue
            n += 1
            ctors = {e.recv: (lname(e.q),) + e.args for e, c in flat(pa.ev) if e.k == 'call' and e.q in (R + 'fc_layer::fc_layer', R + 'rbm::rbm')}
            v = pa.ip.load(pa.st, ('f', THIS, hold))
            chain = [('par', 'size')] + sizes
            got = [ctors.get(x, ())[:3] for x in v[1]] if v[0] == 'seq' else None
            want = [('rbm', chain[i], chain[i + 1]) for i in range(k - 1)]
            ctx.ob('fit', w, got == want, 'machine i takes what machine i-1 gives: %s' % (got,), 'C27:fit:dbn', pa.where())
            last = [a for a in ctors.values() if a[0] == 'fc_layer']
            ctx.ob('fit', w, len(last) == 1 and last[0][1] == ('seq', (chain[k - 1],)) and last[0][2] == chain[k], 'the last layer takes what the last machine gives: %s' % (last,), 'C27:fit:top', pa.where())
            ctx.ob('fit', w, pa.ip.load(pa.st, ('f', THIS, 'n_output_')) == sizes[-1] and pa.ip.load(pa.st, ('f', THIS, 'n_input_')) == ('par', 'size'), 'the sizes reported are those of the first input and the last output', 'C27:fit:sizes', pa.where())
        ctx.need(n, 'a net of %d layers' % k)


# ---------------------------------------------------------------- what can be trained

def listed(ctx, k):
    """get_variables: every variable of the layers, once"""
    def names(pa):
        v = pa.val
        return list(map(strip, v[1])) if v[0] == 'seq' else None
    for f in ctx.fns(R + 'fc_layer::get_variables'):
        hold, = pairs_of(f, R + 'fc_layer', ctx)
        items = [('struct', 'std::pair', (('first', ('par', 'weights%d' % i)), ('second', ('par', 'bias%d' % i)))) for i in range(k)]
        for pa in ctx.run(f, others(), mods=False, st=preset(hold, items)):
            if pa.out == 'ret':
                got = names(pa)
                want = [('par', n + str(i)) for i in range(k) for n in ('weights', 'bias')]
                ctx.ob('listed', site(f), got is not None and sorted(got) == sorted(want), 'each of its variables once: %s' % show(pa.val)[:200], 'C27:listed:layer', pa.where())

    def hook(ip, f, this, vs, st, n):
        x = strip(ip.addrof(this))
        return [(st, ('seq', tuple(('v', x, i) for i in range(2))))]
    own = {R + 'fc_layer::get_variables': hook, R + 'rbm::get_variables': hook}
    for cls in ('mlp', 'db_net'):
        for f in ctx.fns(R + cls + '::get_variables'):
            hold, = pairs_of(f, R + cls, ctx)
            ls = [('par', 'layer%d' % i) for i in range(k)]
            items = [('struct', 'std::pair', (('first', l), ('second', ('par', 'squash')))) for l in ls] if cls == 'mlp' else ls
            for pa in ctx.run(f, others(), mods=False, st=preset(hold, items), models={q: h for q, h in own.items()}):
                if pa.out != 'ret':
                    continue
                got = names(pa)
                want = [('v', l, i) for l in ls for i in range(2)]
                rest = [x for x in got or () if x not in want]
                ok = got is not None and all(got.count(x) == 1 for x in want)
                if cls == 'db_net':
                    ok = ok and len(rest) == 2 and len(set(rest)) == 2 and all(x[0] == 'v' and x[1][0] == 'fld' and x[1][1] == SELF for x in rest)
                else:
                    ok = ok and not rest
                ctx.ob('listed', site(f), ok, 'the variables of every layer, once each: %s' % show(pa.val)[:200], 'C27:listed:' + cls, pa.where())
    for f in ctx.fns(R + 'rbm::get_variables'):
        for pa in ctx.run(f, others(), mods=False):
            if pa.out == 'ret':
                got = names(pa)
                vs = [d['n'] for c in ctx.prog().classes.values() if c['q'] == R + 'rbm' for d in c['fields'] if 'variable' in d['t'].get('s', '')]
                ctx.ob('listed', site(f), got is not None and sorted(got) == sorted(('fld', SELF, v) for v in vs), 'each of its variables once: %s' % show(pa.val)[:200], 'C27:listed:rbm', pa.where())


def check(ctx):
    ctx.explain = ('The expressions layers and stacks build, with 1..%d inputs or layers, brought to a normal form over matrix products and axial sums; the sizes of the variables they are built with; '
                   'and the squashing functions as quotients of powers of e^x.' % (5 if ctx.tier == 'thorough' else 3))
    ctx.rule('layer', 'a fully connected layer is the sum over its inputs of input times weights, plus bias for every example')
    ctx.rule('stack', 'a stack applies its layers in order, each to the result of the one before, followed by its own function')
    ctx.rule('fit', 'variables are as large as the layer needs, and every layer takes as much as the one before gives')
    ctx.rule('listed', 'the variables offered for training are those of every layer, each once')
    ctx.rule('squash', 'sigmoid, tanh and softmax are the quotients of exponentials they are named after')
    ctx.rule('distribution', 'the output of a deep belief net sums to one for every example')
    squash(ctx)
    for k in range(1, 6 if ctx.tier == 'thorough' else 4):
        dense(ctx, k)
        stack_mlp(ctx, k)
        stack_dbn(ctx, k)
        listed(ctx, k)
