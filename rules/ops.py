"""Operators of the graph: what each public operator returns, path by path, and what the kernels and gradients of the nodes it makes
compute.  Used by C09 to C14."""
import stdmodel
from common import *
import ratf
from ratf import F

PUBLIC = set('''identity as_constant operator+ operator- operator* operator/ sin cos tan csc sec cot exp sqrt round log pow clip_val
l2norm clip_norm conditional eq neq binomial_sample add_axial_a add_axial_b sub_axial_a sub_axial_b mul_axial_a mul_axial_b
div_axial_a div_axial_b transpose fit extend compress reduce_max reduce_sum reduce_mean arg_compress arg_max flip cross_corr2d conv2d
matmul sigmoid tanh softmax'''.split())
SEARCH = {'unary_parent_search': 1, 'ordered_binary_parent_search': 2, 'unordered_binary_parent_search': 2}
NODES = ('immutable', 'shape_dep', 'const_immutable', 'base_immutable')


def isop(g):
    return 'graph/operations' in site(g) or 'utils/futils' in site(g)


def opq(g):
    """operators are atoms for each other; their helpers are not"""
    if isop(g) and g.get('body') is not None:
        return lname(g['q']) in PUBLIC or lname(g['q']) in SEARCH
    return True


def isnode(p):
    s = p['t'].get('s', '')
    return 'varptr<' in s or 'inode<' in s


class Node:
    """a node made on a path: operands, label, kernel, gradient"""

    def __init__(self, op, path, e):
        self.op, self.path, self.e = op, path, e
        self.cls = e.q.split('::')[-2]
        a = e.args
        self.kernel = self.back = None
        if self.cls == 'const_immutable':
            self.operands = (a[0],)
            self.label = ('str', 'constant_immutable')
            self.shaper = None
            return
        self.operands = a[0][1] if a[0][0] == 'seq' else None
        self.shaper = a[1]
        if self.cls == 'shape_dep':
            self.label = a[3]
            return
        self.label = a[4]
        self.back = a[3]
        for x in path.ev:
            if x.k == 'call' and x.recv == a[2] and x.d.get('ctor') and x.args:
                self.kernel = x.args[0]
        if self.kernel and self.kernel[0] == 'cobj' and self.kernel[2]:
            self.kernel = self.kernel[2][0]


class Op:
    def __init__(self, ctx, f):
        self.f = f
        self.name = lname(f['q'])
        self.params = f['params']
        self.nodes_p = [p['n'] for p in f['params'] if isnode(p)]
        self.scalars = [p['n'] for p in f['params'] if p['t'].get('k') == 'f']
        self.kinds = ''.join('n' if isnode(p) else 's' if p['t'].get('k') == 'f' else 'o' for p in f['params'])
        self.paths = ctx.run(f, opq, mods=False)
        self.where = site(f)
        self.id = '%s(%s)' % (self.name, self.kinds)
        for pa in self.paths:
            pa.nodes = [Node(self, pa, e) for e in pa.ev if e.k == 'call' and lname(e.q) == 'get' and e.q.split('::')[-2] in NODES and e.args]
            pa.searches = [e for e in pa.ev if e.k == 'call' and lname(e.q) in SEARCH]


def operators(ctx):
    p = ctx.prog()
    out = []
    for f in p.fns.values():
        if isop(f) and f.get('body') is not None and lname(f['q']) in PUBLIC and f['q'].startswith('nnet::') and '(lambda' not in f['q'] \
                and not f['q'].split('::')[-1].startswith('operator()'):
            out.append(Op(ctx, f))
    ctx.need(len(out) >= 30, 'the operators of the graph')
    out.sort(key=lambda o: (o.f['files'][o.f['L'][0]], o.f['L'][1]))
    return out


def apply(pa, fn, args):
    """[(state, value, events)] of calling a function value made on a path"""
    pa.ip.opaque = opq
    n = len(pa.st.events())
    return [(s, v, s.events()[n:]) for s, v in stdmodel.applyv(pa.ip, fn, list(args), pa.st.fork(), {'L': None})]


# ---------------------------------------------------------------- meaning of expressions
ARITH = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b}
ELEM = {'sin': ratf.sin, 'cos': ratf.cos, 'exp': ratf.exp, 'log': ratf.log, 'sqrt': ratf.sqrt, 'pow': ratf.power,
        'tan': lambda x: ratf.sin(x) / ratf.cos(x), 'csc': lambda x: ratf.num(1) / ratf.sin(x),
        'sec': lambda x: ratf.num(1) / ratf.cos(x), 'cot': lambda x: ratf.cos(x) / ratf.sin(x),
        'abs': lambda x: ratf.app('abs', x), 'fabs': lambda x: ratf.app('abs', x), 'round': lambda x: ratf.app('round', x),
        'sigmoid': lambda x: ratf.num(1) / (ratf.num(1) + ratf.exp(-x)),
        'tanh': lambda x: (ratf.exp(ratf.num(2) * x) - ratf.num(1)) / (ratf.exp(ratf.num(2) * x) + ratf.num(1))}
IDENT = ('identity', 'as_constant')


def nonum(t):
    if isinstance(t, tuple):
        if t and t[0] == 'res' and len(t) > 2:
            return ('res', 0) + tuple(nonum(x) for x in t[2:])
        return tuple(nonum(x) for x in t)
    return t


def less(a, b):
    return ratf.app('less', a, b)


class Meaning:
    """terms -> functions of symbols.  leaf(t) -> F or None"""

    def __init__(self, leaf=lambda t: None, path=None):
        self.leaf = leaf
        self.path = path

    def of(self, t):
        x = self.leaf(t)
        if x is not None:
            return x
        k = t[0]
        if k == 'lit' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
            return ratf.num(Fr(t[1]))
        if k == 'lit' and isinstance(t[1], bool):
            return ratf.num(int(t[1]))
        if k == 'lin':
            r = ratf.num(Fr(t[1]))
            for a, c in t[2]:
                r = r + ratf.num(Fr(c)) * self.of(a)
            return r
        if k in ('op', 'fop') and len(t) == 4 and t[1] in ARITH:
            return ARITH[t[1]](self.of(t[2]), self.of(t[3]))
        if k == 'op' and len(t) == 3 and t[1] == 'neg':
            return -self.of(t[2])
        if k in ('i2f', 'cast', 'widen') and len(t) == 2:
            return self.of(t[1])
        if k == 'fn' and t[1] in ELEM:
            return ELEM[t[1]](*[self.of(x) for x in t[2:]])
        if k == 'cmp' and len(t) == 4:
            a, b = self.of(t[2]), self.of(t[3])
            if t[1] in ('<', '>'):
                return less(a, b) if t[1] == '<' else less(b, a)
            if t[1] in ('==', '!='):
                a, b = sorted((a, b), key=lambda z: repr(z.key()))
                return ratf.app('eq', a, b) if t[1] == '==' else ratf.app('neq', a, b)
        if k == 'at' and len(t) == 3:
            # an element of a constant's content
            c = self.expose(t[1])
            if c is not None:
                return c
        nm, ops = opcall(t)
        if nm:
            return self.op(nm, ops)
        return ratf.F({((('x', repr(nonum(t))), 1),): ratf.Fraction(1)})

    def expose(self, v):
        """content of a constant: the elements of expose(dyn(x)) are those of x"""
        if v[0] in ('res', 'mfn') and lname(v[2 if v[0] == 'res' else 1]) == 'expose':
            x = v[-1]
            while x[0] in ('dyn', 'cast'):
                x = x[-1]
            return self.of(x)
        return None

    def op(self, nm, ops):
        if nm in IDENT:
            return self.of(ops[0])
        b = nm[8:] if nm.startswith('operator') else {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(nm.split('_axial_')[0] if '_axial_' in nm else '')
        if b in ARITH and len(ops) >= 2:
            return ARITH[b](self.of(ops[0]), self.of(ops[1]))
        if b == '-' and len(ops) == 1:
            return -self.of(ops[0])
        if b == '+' and len(ops) == 1:
            return ratf.app('abs', self.of(ops[0]))
        if nm in ELEM:
            return ELEM[nm](*[self.of(o) for o in ops])
        if nm == 'conditional' and self.path:
            r = apply(self.path, ops[2], [('par', '?l'), ('par', '?r')])
            if len(r) == 1 and r[0][1] is not None and r[0][1][0] == 'cmp':
                sub = {('par', '?l'): ops[0], ('par', '?r'): ops[1]}
                c = r[0][1]
                if c[2] in sub and c[3] in sub:
                    return self.of(('cmp', c[1], sub[c[2]], sub[c[3]]))
        return ratf.app(nm, *[self.of(o) if isinstance(o, tuple) and o and o[0] in ('res', 'mfn', 'par', 'at', 'fld', 'op', 'lin')
                              else repr(nonum(o)) for o in ops])


def Fr(x):
    return ratf.Fraction(x).limit_denominator(10 ** 12)


def opcall(t):
    """(name, operands) of a call of a public operator"""
    if t[0] in ('res', 'mfn'):
        q = t[2] if t[0] == 'res' else t[1]
        if isinstance(q, str) and q.startswith('nnet::') and q.count('::') == 1 and lname(q) in PUBLIC:
            return lname(q), t[3:] if t[0] == 'res' else t[2:]
    return None, ()


def spec(op):
    """the elementwise function an operator stands for, of its node and scalar parameters; None if it has no such formula"""
    a = [ratf.sym(p['n']) for p, k in zip(op.params, op.kinds) if k in 'ns']
    b = op.name[8:] if op.name.startswith('operator') else ''
    if '_axial_' in op.name:
        b = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}[op.name.split('_axial_')[0]]
    if b in ARITH and len(a) == 2:
        return ARITH[b](*a)
    if b == '-' and len(a) == 1:
        return -a[0]
    if b == '+' and len(a) == 1:
        return ratf.app('abs', a[0])
    if op.name in IDENT:
        return a[0]
    if op.name in ELEM:
        return ELEM[op.name](*a)
    if op.name in ('eq', 'neq'):
        a = sorted(a, key=lambda z: repr(z.key()))
        return ratf.app(op.name, *a)
    return None


def symleaf(op):
    names = {p['n'] for p in op.params}
    return lambda t: ratf.sym(t[1]) if t[0] == 'par' and t[1] in names else None


def facts_subst(op, pa):
    """what the decisions of a path say about operands: {name: F}"""
    m = {}
    names = set(op.nodes_p + op.scalars)
    for a, v in pa.facts.items():
        if a[0] == 'nz':
            x = a[1]
            if x[0] == 'par' and x[1] in op.scalars and not v:
                m[x[1]] = ratf.num(0)
            if x[0] in ('res', 'mfn') and v and lname(x[2 if x[0] == 'res' else 1]) == 'operator==':
                ops = x[3:] if x[0] == 'res' else x[2:]
                if len(ops) == 2:
                    y, c = ops
                    while y[0] in ('deref', 'dyn', 'cast', 'refof', 'out'):
                        if y[0] == 'out':
                            # what an earlier comparison was given
                            y = (y[2][3:] if y[2][0] == 'res' else y[2][2:])[y[1]]
                        else:
                            y = y[-1]
                    if y[0] == 'par' and y[1] in names and c[0] == 'lit':
                        m[y[1]] = ratf.num(Fr(c[1]))
        if a[0] == 'eq' and v:
            x, y = a[1], a[2]
            for p, q in ((x, y), (y, x)):
                if p[0] == 'par' and p[1] in names:
                    if q[0] == 'lit' and not isinstance(q[1], bool):
                        m[p[1]] = ratf.num(Fr(q[1]))
                        break
                    if q[0] == 'par' and q[1] in names:
                        m[p[1]] = ratf.sym(q[1])
                        break
    return m
