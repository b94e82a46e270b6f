"""C09: an operator gives back an existing node only where that node is the one the operation would make."""
import json
from ops import *

FLOATCH = frozenset('0123456789.+-einfa')     # digits, sign, exponent, inf, nan
DIGITS = frozenset('0123456789')
ANYNAME = '\1'


def check(ctx):
    ctx.explain = ('the text every operator labels its node with and looks for, as a template of fixed text, printed parameters and given names: '
                   'any two nodes whose labels can be the same text are compared (automata of the templates), and what the node keeps of the '
                   'parameters must be fixed by the label; the searches, and the printing of floating point parameters')
    ctx.rule('label-fixes-node', 'what the kernel, gradient, shaper and factors of a node keep of the operation\'s parameters is fixed by its label')
    ctx.rule('labels-distinct', 'nodes of different operations never have the same label, unless they have another number of operands than the one looked for')
    ctx.rule('search-is-node', 'an operator looks for the label and operands, in their order, of the node it makes when nothing is found')
    ctx.rule('order', 'only operations in which operands can be exchanged look for them in either order')
    ctx.rule('found', 'what was found is what is returned, and nothing is made then')
    ctx.rule('shared', 'every node of an operator is looked for before it is made')
    ctx.rule('search', 'a search gives back a node over exactly the operands given, in their order, with the label')
    ctx.rule('audience', 'the nodes with a label that use a node are exactly the users of it that have the label')
    ctx.rule('printed', 'floating point parameters are printed with all their digits')
    ctx.rule('names', 'the library gives the same name to the same function only')
    T = []
    S = []
    for o in operators(ctx):
        for pa in o.paths:
            for nd in pa.nodes:
                if nd.operands is None:
                    ctx.fail('search-is-node', o.where, 'the operands of a node of %s are not a list' % o.id, key='operands@' + o.id)
                    continue
                if any(a[0] == 'nz' and not v and a[1][0] == 'dyn' and a[1][-1] == nd.e.res for a, v in pa.facts.items()):
                    continue    # the node is a connector
                t = Template(ctx, o, pa, nd.label, nd)
                T.append(t)
                made(ctx, o, pa, nd, t)
            for e in pa.searches:
                S.append((o, pa, e))
    ctx.need(len(T) >= 50, 'labels of the operators')
    ctx.need(len(S) >= 50, 'searches of the operators')
    named = names(ctx)
    seen = {}
    uniq = []
    for t in T:
        sig = t.signature(ctx)
        k = (t.o.id, repr(t.toks), sig)
        if k not in seen:
            seen[k] = t
            uniq.append(t)
    for t in uniq:
        t.unique(ctx)
    n = pairs(ctx, uniq, named)
    ctx.need(n >= 1000, 'pairs of labels')
    sk = {}
    for o, pa, e in S:
        sk.setdefault((o.id, e.q, repr(e.args[-1])), (o, pa, e))
        follow(ctx, o, pa, e)
    for o, pa, e in sk.values():
        arity(ctx, o, pa, e, uniq, named)
    searches(ctx)
    audience(ctx)
    printed(ctx)


# ---------------------------------------------------------------- templates
class Template:
    def __init__(self, ctx, o, pa, label, nd=None):
        self.o, self.pa, self.nd = o, pa, nd
        self.slots = []
        self.bad = None
        self.text = label
        self.toks = self.tokens(label)

    def slot(self, x):
        if x not in self.slots:
            self.slots.append(x)
        return self.slots.index(x)

    def tokens(self, t, prev=None):
        if prev is not None and t == prev:
            return []
        k = t[0]
        if k == 'str':
            return [('L', c) for c in t[1]]
        if k == 'scat':
            return [x for p in t[1] for x in self.tokens(p, prev)]
        if k == 'txt':
            cls = {'f': FLOATCH, 'u': DIGITS, 'i': DIGITS | {'-'}, 'b': frozenset('01'), 'f6': FLOATCH}.get(t[1])
            if cls is None:
                self.bad = show(t)
                return []
            # six digits do not tell values apart: such text fixes nothing
            return [('C', cls, None if t[1] == 'f6' else self.slot(t[2]))]
        if k == 'par':
            return [('N', (self.o.name, t[1]), self.slot(t))]
        if k == 'loopv':
            _, d, init, alts, trip = t
            p = None
            out = self.tokens(init, prev)
            if len(alts) == 1:
                body = self.body(alts[0], d)
                idx = ('idx', d)
                if body is not None:
                    bt = self.tokens(body)
                    for x in bt:
                        if x[0] == 'C' and x[2] is not None:
                            v = self.slots[x[2]]
                            if v == ('at', v[1] if len(v) > 1 else None, idx) and trip == ('size', v[1]):
                                self.slots.append(v[1])       # every element of a list
                    if bt and bt[0][0] == 'L' and all(x[0] != 'N' for x in bt):
                        return out + [('*', tuple(bt))]
            self.bad = show(t)
            return out
        self.bad = show(t)
        return []

    def body(self, alt, d):
        """what a turn of a loop appends"""
        if alt[0] == 'scat' and alt[1] and alt[1][0][0] in ('prev', 'phi'):
            return ('scat', tuple(alt[1][1:]))
        return None

    # -- what the label fixes
    def fixed(self, t):
        """term with what the label fixes replaced by the place in the label; the facts of the path are used for flags and options"""
        return self.fx(t)

    def fx(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if t in self.slots:
            return ('slot', self.slots.index(t))
        if t[0] == 'par' and len(t) == 2:
            return self.par(t)
        if t[0] == 'oget' and t[1][0] == 'par':
            return ('free', t[1][1])
        if t[0] == 'fld' and t[1][0] in ('with', 'struct'):
            return self.fx(getf_(t))
        if t[0] == 'with':
            base = record(t[1])
            if base:
                d = dict(base)
                d.update(dict(t[2]))
                return ('record', tuple((k, self.fx(v)) for k, v in sorted(d.items())))
        if t[0] == 'struct':
            return ('record', tuple((k, self.fx(v)) for k, v in sorted(t[2])))
        if t[0] == 'lam':
            return ('lam', lamtext(self.pa.ip.lams[t[1]]), tuple(self.fx(v) for c, v in t[2]) if all(isinstance(c, (tuple, list)) and len(c) == 2 for c in t[2]) else self.fx(t[2]))
        if t[0] == 'some' and len(t) == 2 and t[1][0] == 'oget':
            return self.fx(t[1][1])
        return tuple(self.fx(x) if isinstance(x, tuple) else x for x in t)

    def par(self, t):
        o = self.o
        p = [q for q in o.params if q['n'] == t[1]]
        if not p:
            return t
        p = p[0]
        if isnode(p):
            return ('operand', o.nodes_p.index(t[1]))
        F = self.pa.facts
        if p['t'].get('rq', '').endswith('optional') or ('has', t) in F:
            has = F.get(('has', t), F.get(('nz', t)))
            if has is False:
                return ('none',)
            return self.fx(('oget', t)) if has and ('oget', t) in self.slots else ('free', t[1])
        if ('nz', t) in F and (p['t'].get('k') == 'b' or p['t'].get('s') == 'bool'):
            return ('lit', F[('nz', t)])
        r = record(t)
        if r and all(v in self.slots for k, v in r):
            return ('record', tuple((k, self.fx(v)) for k, v in sorted(r)))
        for a, v in F.items():
            if a[0] == 'eq' and v and t in a[1:] and any(x[0] == 'lit' for x in a[1:]):
                return [x for x in a[1:] if x[0] == 'lit'][0]
        if 'function' in p['t'].get('s', '') or p['t'].get('rq', '').endswith('function'):
            if any(x[0] == 'N' for x in self.toks):
                return ('named', t[1])
        return ('free', t[1])

    def closures(self):
        nd, pa = self.nd, self.pa
        out = [('kernel', nd.kernel), ('gradient', nd.back), ('shaper', nd.shaper)]
        for e in pa.ev:
            if e.k == 'call' and lname(e.q) in ('set_jacobian_front', 'set_jacobian_back') and strip(e.recv) == nd.e.res:
                out.append((lname(e.q), e.args[0]))
        return out

    def signature(self, ctx):
        if getattr(self, 'sig', None) is None:
            self.sig = tuple((k, self.fx(v)) for k, v in self.closures() if v is not None)
            o = self.o
            if self.bad:
                ctx.fail('label-fixes-node', o.where, 'the label of %s is %s' % (o.id, self.bad[:140]), key='label@' + o.id)
            for k, v in self.sig:
                f = free(v)
                ctx.ob('label-fixes-node', o.where, not f, 'the %s of %s keeps %s, which its label %s does not fix' %
                       (k, o.id, ', '.join(sorted(f)), show(self.text)[:100]), key='%s@%s' % (k, o.id), detail=self.pa.where())
        return self.sig

    def unique(self, ctx):
        """two different parameters never print to the same label: what follows a parameter cannot be part of it"""
        toks = self.toks
        for i, x in enumerate(toks):
            if x[0] == 'C':
                nxt = toks[i + 1] if i + 1 < len(toks) else None
                if nxt is not None and nxt[0] == '*':
                    nxt = nxt[1][0]
                ok = nxt is None or (nxt[0] == 'L' and nxt[1] not in x[1])
                ctx.ob('label-fixes-node', self.o.where, ok, 'in the label %s of %s a parameter runs into what follows' % (show(self.text)[:80], self.o.id),
                       key='runs@' + self.o.id)


def record(t):
    if t[0] == 'struct':
        return t[2]
    if t[0] == 'with':
        b = record(t[1])
        if b is None:
            return None
        d = dict(b)
        d.update(dict(t[2]))
        return tuple(d.items())
    if t[0] == 'par':
        return tuple((f, ('fld', t, f)) for f in ('first', 'second'))
    return None


def getf_(t):
    d = dict(record(t[1]) or ())
    return d.get(t[2], ('fldof', t[1], t[2]))


def strip(x):
    while x is not None and x[0] in ('deref', 'addr', 'dyn', 'cast', 'd', '&'):
        x = x[-1]
    return x


def free(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == 'free':
            return {t[1]}
        s = set()
        for x in t:
            s |= free(x)
        return s
    return set()


LAM = {}


def lamtext(nf):
    """the source of a function value, without positions"""
    n = nf[0]
    if id(n) not in LAM:
        ids = {}

        def cl(x):
            if isinstance(x, dict):
                r = {}
                for k, v in x.items():
                    if k in ('L', 'fn') and not isinstance(v, dict):
                        if k == 'L':
                            continue
                    if k == 'id' and isinstance(v, int):
                        v = ids.setdefault(v, len(ids))
                    r[k] = cl(v)
                return r
            if isinstance(x, list):
                return [cl(y) for y in x]
            return x
        body = {k: v for k, v in n.items() if k in ('fn', 'caps')}
        f = body.get('fn')
        LAM[id(n)] = (json.dumps(cl({'body': f.get('body'), 'params': [p['t'].get('s') for p in f['params']]}), sort_keys=True), n)
    import hashlib
    return hashlib.sha1(LAM[id(n)][0].encode()).hexdigest()[:10]


# ---------------------------------------------------------------- automata
def automaton(toks):
    """transitions state -> [(symbols or None, state)], accepting state; symbols: frozenset of letters, ('N', key) for a name"""
    tr = {}
    cur = 0
    n = 1
    def add(a, s, b):
        tr.setdefault(a, []).append((s, b))
    for x in toks:
        if x[0] == 'L':
            add(cur, frozenset(x[1]), n)
            cur = n
            n += 1
        elif x[0] == 'C':
            add(cur, x[1], n)
            add(n, x[1], n)
            cur = n
            n += 1
        elif x[0] == 'N':
            add(cur, ('N',) + x[1], n)
            cur = n
            n += 1
        elif x[0] == '*':
            start = cur
            st, acc = automaton(x[1])
            off = n
            m = 0
            for a, l in st.items():
                for s, b in l:
                    add(off + a, s, off + b)
                    m = max(m, a, b)
            n = off + m + 1
            add(start, None, off)
            add(off + acc, None, start)
    return tr, cur


def closure(tr, s):
    out, w = {s}, [s]
    while w:
        for sym, b in tr.get(w.pop(), ()):
            if sym is None and b not in out:
                out.add(b)
                w.append(b)
    return out


def unify(a, b):
    """whether two templates have a text in common"""
    ta, fa = automaton(a)
    tb, fb = automaton(b)
    w = [(0, 0)]
    seen = set(w)
    while w:
        x, y = w.pop()
        X, Y = closure(ta, x), closure(tb, y)
        if fa in X and fb in Y:
            return True
        for p in X:
            for s1, p2 in ta.get(p, ()):
                if s1 is None:
                    continue
                for q in Y:
                    for s2, q2 in tb.get(q, ()):
                        if s2 is None:
                            continue
                        ok = s1 == s2 if (isinstance(s1, tuple) or isinstance(s2, tuple)) else bool(s1 & s2)
                        if ok and (p2, q2) not in seen:
                            seen.add((p2, q2))
                            w.append((p2, q2))
    return False


def instances(t, named):
    """a template with the names the library itself gives put in"""
    out = [t.toks]
    for i, x in enumerate(t.toks):
        if x[0] == 'N':
            for nm in sorted(named.get(x[1], ())):
                out.append(t.toks[:i] + [('L', c) for c in nm] + t.toks[i + 1:])
    return out


def pairs(ctx, T, named):
    n = 0
    inst = [(t, instances(t, named)) for t in T]
    for i, (a, ia) in enumerate(inst):
        for b, ib in inst[i:]:
            n += 1
            if a is b:
                continue
            ra, rb = len(a.nd.operands), len(b.nd.operands)
            if not any(unify(x, y) for x in ia for y in ib):
                continue
            if ra != rb and ra > 0 and rb > 0:
                continue        # told apart by the number of operands: see arity
            if a.o.id == b.o.id:
                if apart(a, b):
                    continue
                # the operands are compared by the search
                if a.signature(ctx) == b.signature(ctx):
                    continue
                diff = [k for (k, v), (k2, w) in zip(a.sig, b.sig) if v != w] or ['factors']
                ctx.fail('label-fixes-node', a.o.where, 'two nodes of %s with the same label %s differ in their %s' % (a.o.id, show(a.text)[:80], ', '.join(diff)),
                         key='differ@%s' % a.o.id, detail='%s / %s' % (a.pa.where(), b.pa.where()))
            else:
                ctx.fail('labels-distinct', a.o.where, 'a node of %s labelled %s and one of %s labelled %s can have the same label' %
                         (a.o.id, show(a.text)[:80], b.o.id, show(b.text)[:80]), key='same@%s/%s' % (a.o.id, b.o.id))
    ctx.rules_count = n
    ctx.ob('labels-distinct', 'graph/operations', True, '%d pairs of labels' % n)
    return n


def apart(a, b):
    """parameters fixed by the label or by the operands decide between the two"""
    fa = {a.fx(k): v for k, v in a.pa.facts.items() if not calls(k)}
    fb = {b.fx(k): v for k, v in b.pa.facts.items() if not calls(k)}
    for k, v in fa.items():
        if k in fb and fb[k] != v and not free(k) and slotted(k):
            return True
    return False


def slotted(t):
    if isinstance(t, tuple):
        return t[:1] == ('slot',) or any(slotted(x) for x in t)
    return False


def calls(t):
    if isinstance(t, tuple):
        return t[:1] in (('res',), ('mfn',)) or any(calls(x) for x in t)
    return False


# ---------------------------------------------------------------- searches
def made(ctx, o, pa, nd, t):
    """a node is made after a search for it that found nothing"""
    if nd.cls == 'shape_dep':
        return
    if nd.cls == 'const_immutable':
        want = 'unary_parent_search'
    ok = None
    for e in pa.searches:
        if e.args[-1] == nd.label and pa.facts.get(('nz', e.res)) is False:
            a = tuple(e.args[:-1])
            ops = tuple(unwrap(x) for x in nd.operands)
            a = tuple(unwrap(x) for x in a)
            ok = a == ops or (lname(e.q).startswith('unordered') and sorted(map(repr, a)) == sorted(map(repr, ops)))
            if ok:
                break
            ctx.fail('search-is-node', o.where, '%s looks for %s over %s and makes it over %s' % (o.id, show(nd.label)[:80], [show(x)[:40] for x in a], [show(x)[:40] for x in ops]),
                     key='search@%s' % o.id, detail=pa.where())
            return
    ctx.ob('shared', o.where, ok is not None, '%s makes a node labelled %s without having looked for it' % (o.id, show(nd.label)[:80]), key='shared@%s' % o.id, detail=pa.where())


def unwrap(x):
    while x[0] in ('deref', 'dyn', 'cast', 'refof', 'addr') or (x[0] == 'fld' and x[2] in ('ptr_', 'obs_')):
        x = x[1] if x[0] == 'fld' else x[-1]
    return x


def follow(ctx, o, pa, e):
    v = pa.facts.get(('nz', e.res))
    q = lname(e.q)
    if v:
        if pa.out == 'ret' and unwrap(pa.val or ('void',)) == e.res:
            ctx.ob('found', o.where, not [nd for nd in pa.nodes if nd.kernel is not None], '%s makes a node although it returns the one found' % o.id, key='found@' + o.id, detail=pa.where())
        elif alias(o, pa, e):
            ctx.ob('found', o.where, True, '%s uses the transposed operand found' % o.id, key='found@' + o.id)
        else:
            ctx.ob('found', o.where, pa.out != 'ret', '%s finds %s and returns %s' % (o.id, show(e.args[-1])[:60], show(pa.val)[:80]), key='found@' + o.id, detail=pa.where())
    # in either order
    if q == 'unordered_binary_parent_search':
        sp = spec(o) if '_axial_' not in o.name else None
        n = o.nodes_p
        ok = sp is not None and len(n) == 2 and ratf.subst(sp, {n[0]: ratf.sym('?1'), n[1]: ratf.sym('?2')}).same(ratf.subst(sp, {n[0]: ratf.sym('?2'), n[1]: ratf.sym('?1')}))
        ctx.ob('order', o.where, ok, '%s looks for its operands in either order' % o.id, key='order@' + o.id)


def alias(o, pa, e):
    """matmul looks for the transposed operand before transposing it"""
    if o.name != 'matmul' or lname(e.q) != 'unary_parent_search':
        return False
    lab = e.args[-1]
    used = any(e.res in map(unwrap, x.args[:-1]) for x in pa.searches if x is not e)
    if lab != ('str', 'transpose_0_1') or not used:
        return False
    # where nothing is found, the same operand is transposed along the first two axes
    for p2 in o.paths:
        for s in p2.searches:
            if s.args == e.args and p2.facts.get(('nz', s.res)) is False:
                tr = [x for x in p2.ev if x.k == 'call' and lname(x.q) == 'transpose' and unwrap(x.args[0]) == unwrap(e.args[0])]
                for x in tr:
                    r = record(x.args[1]) if len(x.args) > 1 else ()
                    if sorted(v for k, v in r or ()) != [('lit', 0), ('lit', 1)]:
                        return False
                if not tr:
                    return False
    return True


def arity(ctx, o, pa, e, T, named):
    """nothing with another number of operands answers to a search for one"""
    want = SEARCH[lname(e.q)]
    s = Template(ctx, o, pa, e.args[-1])
    inst = instances(s, named)
    hit = False
    for t in T:
        if not any(unify(x, y) for x in inst for y in instances(t, named)):
            continue
        hit = True
        n = len(t.nd.operands)
        ok = n == want or want == 2        # a search over two operands compares their number
        ctx.ob('labels-distinct', o.where, ok, 'a search of %s for %s over one operand is answered by the node of %s labelled %s over %d' %
               (o.id, show(e.args[-1])[:80], t.o.id, show(t.text)[:80], n), key='arity@%s/%s' % (o.id, t.o.id))
    ctx.ob('search-is-node', o.where, hit, '%s looks for %s, which no operator makes' % (o.id, show(e.args[-1])[:80]), key='answered@' + o.id)


def names(ctx):
    """names the library gives to functions it passes to operators that take both: {(operator, parameter): names}"""
    p = ctx.prog()
    out, seen = {}, {}
    for o in operators(ctx):
        every = list(o.paths)
        calls_ = []
        for pa in every:
            for e in pa.ev:
                if e.k == 'call' and lname(e.q) in PUBLIC and e.q.startswith('nnet::'):
                    calls_.append((pa, e))
            for nd in pa.nodes:
                if nd.back is not None:
                    try:
                        for st, v, ev in apply(pa, nd.back, [('par', 'args')]):
                            calls_ += [(pa, e) for e in ev if e.k == 'call' and lname(e.q) in PUBLIC and e.q.startswith('nnet::')]
                    except Exception as ex:
                        ctx.need(False, 'the gradient of %s (%s)' % (o.id, ex))
        for pa, e in calls_:
            for g in [p.fns.get(e.fn)]:
                if not g:
                    continue
                for i, q in enumerate(g['params']):
                    if i < len(e.args) and q['t'].get('rq') == 'std::basic_string' and e.args[i][0] == 'str':
                        fn = [a for a in e.args if a[0] in ('lam', 'fnref', 'cobj')]
                        key = (lname(e.q), q['n'])
                        out.setdefault(key, set()).add(e.args[i][1])
                        for f in fn[:1]:
                            m = meaning(pa, f, len([x for x in g['params'] if not isnode(x)]))
                            k = (lname(e.q), e.args[i][1])
                            was = seen.setdefault(k, (m, o))
                            ctx.ob('names', o.where, was[0] == m, '%s and %s pass different functions named "%s" to %s' % (was[1].id, o.id, e.args[i][1], lname(e.q)), key='name@%s' % e.args[i][1])
    return out


def meaning(pa, f, n):
    while f[0] == 'cobj' and f[2]:
        f = f[2][0]
    if f[0] == 'lam':
        node, files = pa.ip.lams[f[1]]
        return ('lam', lamtext((node, files)), repr([v for c, v in f[2]]) if f[2] else '')
    return repr(f)


def searches(ctx):
    for q, n in SEARCH.items():
        for f in ctx.fns('nnet::' + q)[:1]:
            P = [('par', p['n']) for p in f['params']]
            found = 0
            for pa in ctx.run(f, lambda g: lname(g['q']) in ('find_audience', 'get_arguments'), mods=False):
                aud = [e for e, cx in flat(pa.ev) if e.k == 'call' and lname(e.q) == 'find_audience']
                ok = len(aud) == 1 and unwrap(aud[0].recv) in P[:n] and aud[0].args[0] == P[-1]
                ctx.ob('search', site(f), ok, '%s looks among the users of %s for %s' % (q, [show(unwrap(e.recv))[:40] for e in aud], [show(e.args[0])[:40] for e in aud]), key='label@' + q)
                if not ok or pa.out != 'ret':
                    continue
                v = pa.val
                if v is None or v in (('null',), ('lit', 0)) or show(v) == 'nullptr':
                    continue
                found += 1
                hit = pa.facts.get(('nz', aud[0].res))
                ctx.ob('search', site(f), hit is True and v[0] == 'nkey', '%s gives back %s' % (q, show(v)[:100]), key='gives@' + q, detail=pa.where())
                if n == 1:
                    continue
                good, conds = False, set()
                for a, val in pa.facts.items():
                    s = showatom(a, val)
                    if a[0] == 'eq' and val:
                        conds.add(frozenset(norm(x, v) for x in a[1:]))
                A, B = P[0], P[1]
                two = frozenset({('lit', 2), 'n'}) in conds
                same = frozenset({'0', A}) in conds and frozenset({'1', B}) in conds
                swap = frozenset({'1', A}) in conds and frozenset({'0', B}) in conds
                good = two and (same or (swap and q.startswith('unordered')))
                ctx.ob('search', site(f), good, '%s gives back a node without having compared its operands: %s' % (q, [showatom(a, x)[:90] for a, x in pa.facts.items()][:6]), key='operands@' + q, detail=pa.where())
            ctx.need(found >= 1, 'a result of ' + q)


def norm(x, v):
    """get_arguments() of the candidate: its size 'n', its elements '0', '1'"""
    if x[0] == 'size':
        return 'n'
    if x[0] == 'at' and x[2][0] == 'lit':
        y = x[1]
        return str(x[2][1]) if y[0] in ('res', 'mfn') and lname(y[2 if y[0] == 'res' else 1]) == 'get_arguments' else x
    return unwrap(x)


def audience(ctx):
    for f in ctx.fns('nnet::inode::find_audience')[:1]:
        lab, out = [p['n'] for p in f['params'][:2]]
        for pa in ctx.run(f, lambda g: lname(g['q']) in ('get_arguments',), mods=False):
            # paths of the loop over the users
            loops = [e for e, cx in flat(pa.ev) if e.k == 'loop']
            ctx.ob('audience', site(f), len(loops) == 1 and 'audience_' in show(loops[0].hi), 'find_audience looks through all users', key='all')
            for lp in loops[:1]:
                for kind, st, evs in lp.paths:
                    ins = [e for e, cx in flat(evs) if e.k == 'cmut' and ('par', out) == rootpar(e.loc)]
                    facts = {a: v for a, v in st.facts.items() if a not in pa.facts}
                    labeq = [v for a, v in facts.items() if a[0] == 'eq' and ('par', lab) in a[1:] and any('label_' in show(x) for x in a[1:])]
                    node = [v for a, v in facts.items() if a[0] == 'nz' and a[1][0] == 'dyn']
                    want = labeq == [True]
                    ctx.ob('audience', site(f), kind == 'next', 'find_audience stops after %s' % kind, key='stops')
                    ctx.ob('audience', site(f), bool(ins) == want or (not labeq and not ins and node == [False]),
                           'find_audience %s a user %s' % ('adds' if ins else 'leaves out', [showatom(a, v)[:80] for a, v in facts.items()][:5]), key='adds', detail=pa.where())
            if pa.out == 'ret':
                s = show(pa.val)
                ctx.ob('audience', site(f), 'size(' in s, 'find_audience returns %s' % s[:120], key='tells')


def rootpar(loc):
    while isinstance(loc, tuple) and loc and loc[0] in ('d', 'e', 'f', 'm', 'mem', 'deref', 'addr', '&', 'dyn'):
        loc = loc[1] if loc[0] in ('e', 'f', 'm') else loc[-1]
    return loc


def printed(ctx):
    need = {'float': 9, 'double': 17, 'long double': 21}
    n = 0
    for f in ctx.fns('nnutils::formatter::operator<<'):
        t = f['params'][0]['t']
        if t.get('k') != 'f':
            continue
        n += 1
        s = [k for k in need if t.get('s', '').replace('const ', '').replace('&', '').strip() == k]
        ctx.need(bool(s), 'the floating point type %s' % t.get('s'))
        for pa in ctx.run(f, mods=False):
            pr = [e for e, cx in flat(pa.ev) if e.k == 'ext' and lname(e.q) in ('precision', 'setprecision')]
            fl = [e for e, cx in flat(pa.ev) if e.k == 'ext' and lname(e.q) in ('setf', 'fixed', 'unsetf', 'flags')]
            v = pr[-1].args[0] if pr and pr[-1].args else None
            ok = bool(pr) and v[0] == 'lit' and v[1] >= need[s[0]] and not fl and precisionfirst(f)
            ctx.ob('printed', site(f), ok, 'a %s is printed with %s digits' % (s[0], show(v) if v else 'the default number of'), key='digits@' + s[0], detail=pa.where())
    ctx.need(n >= 1, 'printing of floating point parameters')


def precisionfirst(f):
    """the number of digits is set before the value is printed"""
    order = []

    def walk(n):
        if isinstance(n, dict):
            for k, v in n.items():
                walk(v)
            if n.get('k') in ('mcall', 'call'):
                order.append(lname(n.get('q', '')))
        elif isinstance(n, list):
            for x in n:
                walk(x)
    walk(f['body'])
    pr = [i for i, x in enumerate(order) if x in ('precision', 'setprecision')]
    pt = [i for i, x in enumerate(order) if x == 'operator<<']
    return bool(pr) and bool(pt) and pr[0] < max(pt)
