"""Path-sensitive interprocedural dataflow over the resolved program.

Every function is walked over all of its control-flow paths with value-numbered terms; loops are
summarised once (induction variables put in closed form, other modified locations generalised), so no
bound on iteration counts is involved.  Conditions are normalised to atoms and only looked up in the
set of facts of the path: no solver is called.  Repo functions are inlined at call sites unless a rule
keeps them opaque; virtual calls are resolved when the dynamic type is known."""
from terms import *

PURE_MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'pow', 'abs', 'fabs', 'floor', 'ceil', 'round', 'asin', 'acos',
             'atan', 'sinh', 'cosh', 'tanh', 'atan2', 'fmod', 'cbrt', 'log2', 'log10', 'trunc'}
SEQ = {'std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::array', 'std::queue', 'std::stack',
       'std::valarray', 'std::priority_queue'}
MAPS = {'std::unordered_map', 'std::map', 'google::protobuf::Map', 'std::multimap', 'std::unordered_multimap'}
SETS = {'std::unordered_set', 'std::set', 'std::multiset', 'std::unordered_multiset'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr'}
OPT = {'std::experimental::optional', 'std::optional', 'std::experimental::fundamentals_v1::optional'}
LOCKS = {'std::unique_lock', 'std::lock_guard', 'std::scoped_lock', 'std::shared_lock'}
VARPTR = {'nnet::varptr', 'nnet::placeptr'}
FMT = {'nnutils::formatter'}
STREAMS = {'std::basic_stringstream', 'std::basic_ostringstream', 'std::basic_ostream'}


class Ev:
    __slots__ = ('k', 'd', 'pos', 'infn')

    def __init__(self, k, d, pos, fn):
        self.k = k
        self.d = d
        self.pos = pos
        self.infn = fn

    def __repr__(self):
        if self.k == 'loop':
            return 'loop hi=%s %s @%s' % (self.d['hi'] and show(self.d['hi']), [(k, len(e)) for k, _, e in self.d['paths']], self.pos)
        return '%s %s @%s' % (self.k, {k: (show(v) if isinstance(v, tuple) and v and isinstance(v[0], str) else v)
                                      for k, v in self.d.items()}, self.pos)

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, dflt=None):
        return self.d.get(n, dflt)


class Frame:
    __slots__ = ('fid', 'fn', 'this', 'files', 'parent', 'depth', 'opstack')

    def __init__(self, fid, fn, this, files, parent):
        self.fid = fid
        self.fn = fn
        self.this = this
        self.files = files
        self.parent = parent
        self.depth = parent.depth + 1 if parent else 0


class St:
    __slots__ = ('env', 'facts', 'tr', 'cnt', 'epoch', 'dyn', 'frame', 'ldepth', 'scopes')

    def fork(self):
        s = St()
        s.env = dict(self.env)
        s.facts = dict(self.facts)
        s.tr = self.tr
        s.cnt = dict(self.cnt)
        s.epoch = dict(self.epoch)
        s.dyn = dict(self.dyn)
        s.frame = self.frame
        s.ldepth = self.ldepth
        s.scopes = self.scopes
        return s

    def new(self, k):
        n = self.cnt.get(k, 0)
        self.cnt[k] = n + 1
        return n

    def emit(self, k_, pos_, fn_, **d):
        self.tr = (self.tr, Ev(k_, d, pos_, fn_))

    def events(self, upto=None):
        out = []
        t = self.tr
        while t is not None and t is not upto:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out


class TooBig(Exception):
    pass


def empty_state():
    s = St()
    s.env = {}
    s.facts = {}
    s.tr = None
    s.cnt = {}
    s.epoch = {}
    s.dyn = {}
    s.frame = None
    s.ldepth = 0
    s.scopes = ()
    return s


class Path:
    """one path class through an analysed function"""

    def __init__(self, st, out, val, ip):
        self.st = st
        self.out = out
        self.val = val
        self.ip = ip
        self.ev = st.events()
        self.facts = st.facts

    def load(self, loc):
        return self.ip.load(self.st, loc)

    def where(self):
        """a short description of the decisions taken"""
        a = [showatom(e.atom, e.val) for e in self.ev if e.k == 'assume']
        return ' && '.join(a[-6:]) or 'always'


def outerfirst(l):
    """an object before its fields"""
    n = 0
    x = l
    while isinstance(x, tuple) and x and x[0] == 'f':
        n += 1
        x = x[1]
    return n, repr(l)


class Interp:
    def __init__(self, prog, opaque=None, maxpaths=4000, depth=14, mods=True, transparent=True, models=None,
                 resolve_cha=True, keep_dtors=False, merge=False, branchy=False, watch=None):
        self.branchy = branchy     # unroll bounded loops whose condition also depends on unknown flags
        self.merge = merge
        self.p = prog
        self.opaque = opaque or (lambda f: False)
        self.maxpaths = maxpaths
        self.maxdepth = depth
        self.exits = []
        self.lams = []
        self.lamidx = {}
        self.unknown = []
        self.models = models or {}
        self.transparent = transparent
        self.cha = resolve_cha
        self.visited = set()
        self.usemods = mods
        self.keep_dtors = keep_dtors
        self.noinline_dtor = False
        self.watch = watch         # names of the fields whose reads are recorded

    # ------------------------------------------------------------ helpers
    def pos(self, st, n):
        L = n.get('L') if isinstance(n, dict) else None
        if not L or not st.frame:
            return '?'
        fs = st.frame.files
        return '%s:%d' % (fs[L[0]] if L[0] < len(fs) else '?', L[1])

    def fnname(self, st):
        return st.frame.fn['q'] if st.frame else '?'

    def emit(self, st, k_, node, **d):
        st.emit(k_, self.pos(st, node), self.fnname(st), **d)

    def trans(self, rq):
        return self.transparent and rq in VARPTR

    # ------------------------------------------------------------ memory
    def default(self, st, loc):
        k = loc[0]
        if k == 'd':
            p = loc[1]
            return ('deref', p)
        if k == 'f':
            b = self.load(st, loc[1], shallow=True)
            return getf(b, loc[2], st.epoch.get(loc[2], 0))
        if k == 'e':
            return at(self.load(st, loc[1]), loc[2])
        if k == 'm':
            return mget(self.load(st, loc[1]), loc[2])
        if k == 'nth':
            m = self.load(st, loc[1])
            return pair(('nkey', m, loc[2]), mget(m, ('nkey', m, loc[2])))
        if k == 'nk':
            m = self.load(st, loc[1])
            if m[0] == 'seq' and loc[2][0] == 'lit' and 0 <= loc[2][1] < len(m[1]):
                return m[1][loc[2][1]]
            return ('nkey', m, loc[2])
        if k == 'const':
            return loc[1]
        if k == 'g':
            e = st.epoch.get(loc[1], 0)
            return ('glob', loc[1], e) if e else ('glob', loc[1])
        if k == 'mem':
            return ('memof', loc[1])
        if k == 'h':
            return ('newobj', loc[1])
        return ('undef', loc)

    def load(self, st, loc, shallow=False):
        v = st.env.get(loc)
        if v is not None and v[0] == '&':
            return self.load(st, v[1], shallow)
        if self.watch and loc[0] == 'f' and loc[2] in self.watch:
            st.emit('read', '?', self.fnname(st), loc=loc)
        if v is None:
            v = self.default(st, loc)
        if not shallow and loc[0] in ('d', 'v', 't', 'f', 'h', 'g'):
            subs = [(k[2], k) for k in st.env if k[0] == 'f' and k[1] == loc]
            if subs:
                for n, k in subs:
                    v = setf(v, n, self.load(st, k))
        return v

    def store(self, st, loc, v, node=None, op='='):
        loc = self.canon(st, loc)
        if node is not None and self.visible(loc):
            st.emit('write', self.pos(st, node), self.fnname(st), loc=loc, val=v, op=op)
        self._store(st, loc, v)

    def _store(self, st, loc, v):
        k = loc[0]
        if k == 'e':
            base = self.load(st, loc[1])
            self._store(st, loc[1], ('upd', base, loc[2], v))
            return
        if k == 'm':
            base = self.load(st, loc[1])
            self._store(st, loc[1], ('mupd', base, loc[2], v))
            return
        if k == 'nth':
            if v[0] == 'struct':
                m = self.load(st, loc[1])
                self._store(st, loc[1], ('mupd', m, ('nkey', m, loc[2]), getf(v, 'second')))
            return
        if k == 'const':
            return
        if k == 'f':
            b = loc[1]
            if b[0] in ('e', 'm'):
                self._store(st, b, setf(self.load(st, b), loc[2], v))
                return
            pv = st.env.get(b)
            if pv is not None and pv[0] in ('struct', 'with', 'at', 'mget', 'fld', 'deref', 'nkey'):
                st.env[b] = setf(pv, loc[2], v)
                for kk in [x for x in st.env if x[0] == 'f' and self._under(x, loc)]:
                    del st.env[kk]
                return
        dead = [x for x in st.env if x[0] == 'f' and x != loc and self._under(x, loc)]
        for x in dead:
            del st.env[x]
        st.env[loc] = v

    def _under(self, x, loc):
        while x[0] in ('f', 'e', 'm', 'nth', 'nk'):
            if x == loc:
                return True
            x = x[1]
        return x == loc

    def canon(self, st, loc):
        if loc[0] == 'd' and loc[1][0] == 'addr':
            return self.canon(st, loc[1][1])
        v = st.env.get(loc)
        if v is not None and v[0] == '&':
            return self.canon(st, v[1])
        return loc

    def deref(self, st, p):
        """location a pointer value points to"""
        while p[0] == 'dyn':
            p = p[2]
        if p[0] == 'addr':
            return p[1]
        if p[0] == 'new':
            return ('h', p[1])
        if p[0] == 'padd':
            return ('e', ('mem', p[1]), p[2])
        return ('d', p)

    def addrof(self, loc):
        if loc[0] == 'd':
            return loc[1]
        if loc[0] == 'h':
            return ('new', loc[1])
        if loc[0] == 'e' and loc[1][0] == 'mem':
            return ('padd', loc[1][1], loc[2]) if loc[2] != ZERO else loc[1][1]
        if loc[0] == 'e':
            return ('padd', ('dataof', loc[1]), loc[2]) if loc[2] != ZERO else ('dataof', loc[1])
        return ('addr', loc)

    def field(self, st, loc, n):
        loc = self.canon(st, loc)
        if loc[0] == 'nth':
            if n == 'first':
                return ('nk', loc[1], loc[2])
            return ('m', loc[1], ('nkey', self.load(st, loc[1]), loc[2]))
        if loc[0] == 'mit':
            if n == 'first':
                return ('const', loc[2])
            return ('m', loc[1], loc[2])
        return ('f', loc, n)

    def visible(self, loc):
        r = root(loc)
        return r[0] in ('d', 'g', 'h', 'mem')

    def havoc(self, st, fields, why=None):
        for f in fields:
            n = st.new('ep')
            st.epoch[f] = n + 1
        fs = set(fields)
        for k in list(st.env):
            x = k
            while x[0] in ('f', 'e', 'm', 'nth', 'nk'):
                if x[0] == 'f' and x[2] in fs and root(x)[0] in ('d', 'h', 'g'):
                    del st.env[k]
                    break
                x = x[1]

    # ------------------------------------------------------------ truth
    def atom(self, t):
        """boolean term -> (atom, polarity) or (bool,) or composite"""
        k = t[0]
        if k == 'lit':
            return bool(t[1])
        if k == 'null':
            return False
        if k == 'not':
            a = self.atom(t[1])
            if isinstance(a, bool):
                return not a
            if a is None:
                return None
            return (a[0], not a[1])
        if k == 'cmp':
            return self.cmpatom(t[1], t[2], t[3])
        if k in ('and', 'or', 'ite'):
            return None
        if k in ('some', 'addr', 'new', 'lam', 'fnref', 'dataof', 'bind'):
            return True
        if k == 'none':
            return False
        if k == 'has':
            h = vhas(t[1], t[2])
            if h is not None:
                return h
            return (t, True)
        if k == 'i2f' or k == 'f2b':
            return self.atom(t[1])
        if k == 'lin' and t[1] > 0 and not isinstance(t[1], float) and self.unsigned(t):
            return True
        return (('nz', t), True)

    def cmpatom(self, op, a, b):
        if op == '!=':
            r = self.cmpatom('==', a, b)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == '>':
            return self.cmpatom('<', b, a)
        if op == '<=':
            r = self.cmpatom('<', b, a)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        if op == '>=':
            r = self.cmpatom('<', a, b)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        while a[0] == 'dyn' and b[0] != 'null':
            a = a[2]
        while b[0] == 'dyn' and a[0] != 'null':
            b = b[2]
        if a[0] == 'lit' and b[0] == 'lit':
            return a[1] == b[1] if op == '==' else a[1] < b[1]
        if a[0] == 'str' and b[0] == 'str' and op == '==':
            return a[1] == b[1]
        if op == '==':
            if a == b:
                return True
            if b[0] in ('null', 'nullopt') or (b[0] == 'lit' and b[1] in (0, False) and not isinstance(b[1], float)):
                a, b = b, a
            if a[0] in ('null', 'nullopt') or (a[0] == 'lit' and a[1] in (0, False) and not isinstance(a[1], float)):
                r = self.atom(b)
                if isinstance(r, bool):
                    return not r
                if r is not None:
                    return (r[0], not r[1])
            if a[0] == 'lit' and a[1] is True or b[0] == 'lit' and b[1] is True:
                r = self.atom(b if a[0] == 'lit' and a[1] is True else a)
                if r is not None:
                    return r
            if a[0] == 'has' and b == ONE or b[0] == 'has' and a == ONE:
                return self.atom(a if a[0] == 'has' else b)
            if a[0] in ('enum',) and b[0] in ('enum',):
                return a == b
            fresh = ('new', 'addr')
            if a[0] in fresh and b[0] in fresh:
                return False
            if (a[0] == 'new' or b[0] == 'new'):
                o = b if a[0] == 'new' else a
                if not any_term(o, lambda x: x == (a if a[0] == 'new' else b)):
                    return False
            d = lindiff(a, b)
            if d is not None:
                return d == 0
            if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
                return self.itcmp(a, b)
            x, y = sorted((a, b), key=repr)
            return (('eq', x, y), True)
        # <
        if a[0] == 'it' and b[0] == 'it' and a[2][0] == 'i':
            hi = b[2]
            if hi[0] == 'end':
                return self.cmpatom('<', a[2][1], ('endof', b[1]))
            if hi[0] == 'i':
                return self.cmpatom('<', a[2][1], hi[1])
        d = lindiff(a, b)
        if d is not None:
            return d < 0
        if a[0] == 'lit' and a[1] == 0 and not isinstance(a[1], float) and self.unsigned(b):
            return self.atom(b)
        if b[0] == 'lit' and b[1] == 0 and not isinstance(b[1], float) and self.unsigned(a):
            return False
        if b == ONE and self.unsigned(a):
            r = self.atom(a)
            return (not r) if isinstance(r, bool) else (r[0], not r[1])
        return (('lt', a, b), True)

    def unsigned(self, t):
        if t[0] in ('size', 'idx', 'has'):
            return True
        if t[0] == 'lin':
            return t[1] >= 0 and all(c > 0 and self.unsigned(a) for a, c in t[2])
        if t[0] == 'lit':
            return t[1] >= 0
        if t[0] == 'mfn':
            return t[1].endswith(('n_elems', 'size', 'rank', 'n_known', 'n_audience', 'get_depth'))
        if t[0] == 'usg':
            return True
        return False

    def itcmp(self, a, b):
        """equality of two iterators of the same container location"""
        pa, pb = a[2], b[2]
        if pa[0] == 'end':
            pa, pb = pb, pa
        if pb[0] == 'end':
            if pa[0] == 'end':
                return True
            if pa[0] == 'find':
                h = vhas(pa[1], pa[2])
                if h is not None:
                    return not h
                return (('has', pa[1], pa[2]), False)
            if pa[0] == 'sfind':
                return (('has', pa[1], pa[2]), False)
            if pa[0] == 'i':
                return self.cmpatom('==', pa[1], ('endof', b[1]))
        if pa[0] == 'i' and pb[0] == 'i':
            return self.cmpatom('==', pa[1], pb[1])
        x, y = sorted((a, b), key=repr)
        return (('eq', x, y), True)

    def decide(self, st, atom):
        v = st.facts.get(atom)
        if v is not None:
            return v
        k = atom[0]
        if k == 'nz':
            t = atom[1]
            if t[0] == 'dyn':
                x = st.facts.get(('nz', t[2]))
                if x is False:
                    return False
                r = self.dyncast_known(st, t)
                if r is not None:
                    return r
            if st.facts.get(('nzx', t)):
                return True
            if t == ('this',):
                return True
            # nz from an equality with a non-zero literal
            for a, val in st.facts.items():
                if val and a[0] == 'eq' and (a[1] == t and a[2][0] == 'lit' or a[2] == t and a[1][0] == 'lit'):
                    o = a[2] if a[1] == t else a[1]
                    return bool(o[1])
                if a[0] == 'lt' and val and a[2] == t and self.unsigned(a[1]):
                    return True
        if k == 'eq':
            a, b = atom[1], atom[2]
            for x, y in ((a, b), (b, a)):
                if y[0] in ('lit', 'enum', 'str'):
                    for f, val in st.facts.items():
                        if val and f[0] == 'eq':
                            o = f[2] if f[1] == x else f[1] if f[2] == x else None
                            if o is not None and o[0] == y[0] and o != y:
                                return False
                    if y[0] == 'lit' and y[1] and st.facts.get(('nz', x)) is False:
                        return False
            if st.facts.get(('lt', a, b)) or st.facts.get(('lt', b, a)):
                return False
            # null versus non-null
            na, nb = self.known_nz(st, a), self.known_nz(st, b)
            if na is not None and nb is not None and na != nb:
                return False
        if k == 'lt':
            a, b = atom[1], atom[2]
            if st.facts.get(('eq',) + tuple(sorted((a, b), key=repr))):
                return False
            if st.facts.get(('lt', b, a)):
                return False
            # a < b from a' < b with a' = a + c, c >= 0 ; and from constants
            for f, val in st.facts.items():
                if f[0] == 'lt':
                    if val:
                        d1 = lindiff(f[1], a)
                        d2 = lindiff(b, f[2])
                        if d1 is not None and d2 is not None and d1 + d2 >= 0:
                            return True
                        d1 = lindiff(f[1], b)
                        d2 = lindiff(a, f[2])
                        if d1 is not None and d2 is not None and d1 + d2 >= -1:
                            return False
                    else:   # f[1] >= f[2]
                        d1 = lindiff(a, f[1])
                        d2 = lindiff(f[2], b)
                        if d1 is not None and d2 is not None and d1 + d2 >= 0:
                            return False
                        d1 = lindiff(f[1], b)
                        d2 = lindiff(f[2], a)
                        # f1 >= f2 ; f1 = b + d1 ; f2 = a + d2 ; b + d1 >= a + d2 ; a < b when d1 < d2
                        if d1 is not None and d2 is not None and d1 < d2:
                            return True
        if k == 'has':
            m, key = atom[1], atom[2]
            if m[0] in ('mupd', 'merase'):
                if m[2] == key:
                    return m[0] == 'mupd'
                d = self.decide(st, ('eq',) + tuple(sorted((m[2], key), key=repr)))
                if d is False:
                    return self.decide(st, ('has', m[1], key))
                if d is True:
                    return m[0] == 'mupd'
        return None

    def known_nz(self, st, t):
        if t[0] in ('null',):
            return False
        if t[0] in ('new', 'addr', 'this', 'lam'):
            return True
        v = st.facts.get(('nz', t))
        return v

    def dyncast_known(self, st, t):
        cls, p = t[1], t[2]
        if p[0] == 'new':
            c = st.dyn.get(('h', p[1]))
            if c:
                return self.is_sub(c, cls)
        if p == ('this',) or p[0] == 'addr':
            c = st.dyn.get(self.deref(st, p))
            if c:
                return self.is_sub(c, cls)
        return None

    def is_sub(self, c, base):
        return c == base or base in self.p.bases(c)

    def assume(self, st, atom, val, node):
        st.facts[atom] = val
        if atom[0] == 'nz' and val and atom[1][0] == 'dyn':
            st.facts[('nz', atom[1][2])] = True
        if atom[0] == 'nz' and not val:
            pass
        st.emit('assume', self.pos(st, node) if node is not None else '?', self.fnname(st), atom=atom, val=val)

    def truth(self, st, t, node):
        """-> list of (st, bool)"""
        k = t[0]
        if k == 'not':
            return [(s, not b) for s, b in self.truth(st, t[1], node)]
        if k == 'and':
            out = []
            for s, b in self.truth(st, t[1], node):
                if not b:
                    out.append((s, False))
                else:
                    out += self.truth(s, t[2], node)
            return out
        if k == 'or':
            out = []
            for s, b in self.truth(st, t[1], node):
                if b:
                    out.append((s, True))
                else:
                    out += self.truth(s, t[2], node)
            return out
        if k == 'ite':
            out = []
            for s, b in self.truth(st, t[1], node):
                out += self.truth(s, t[2] if b else t[3], node)
            return out
        a = self.atom(t)
        if isinstance(a, bool):
            return [(st, a)]
        if a is None:
            a = (('nz', t), True)
        at_, pol = a
        at_ = self.fixend(st, at_)
        if isinstance(at_, bool):
            return [(st, at_ == pol)]
        v = self.decide(st, at_)
        if v is not None:
            return [(st, v == pol)]
        s2 = st.fork()
        self.assume(st, at_, True, node)
        self.assume(s2, at_, False, node)
        return [(st, pol), (s2, not pol)]

    def fixend(self, st, a):
        """replace ('endof', loc) by the current size of the container there"""
        if any_term(a, lambda x: x[0] == 'endof'):
            a = subst(a, lambda x: size(self.load(st, x[1])) if x[0] == 'endof' else None)
            if a[0] == 'eq':
                r = self.cmpatom('==', a[1], a[2])
                return r if isinstance(r, bool) else (r[0] if r[1] else r[0])
            if a[0] == 'lt':
                r = self.cmpatom('<', a[1], a[2])
                return r if isinstance(r, bool) else r[0]
            if a[0] == 'nz':
                r = self.atom(a[1])
                return r if isinstance(r, bool) else r[0]
        return a

    # ------------------------------------------------------------ variables
    def varloc(self, st, n):
        dk = n.get('dk')
        if dk in ('global', 'slocal'):
            return ('g', n.get('q') or n['n'])
        return self.canon(st, ('v', st.frame.fid, n['id']))

    # ------------------------------------------------------------ lvalues
    def isglv(self, n):
        k = n['k']
        if k in ('ref', 'mem', 'idx', 'asg', 'str'):
            return True
        if k == 'un':
            return n['op'] == '*' or (n['op'] in ('++', '--') and not n.get('post'))
        if k in ('call', 'mcall'):
            return bool(n.get('rref'))
        if k == 'icall':
            return n.get('t', {}).get('ref') == 'l'
        if k == 'cond':
            return self.isglv(n['a']) and self.isglv(n['b'])
        if k == 'cast':
            return bool(n.get('t', {}).get('ref'))
        if k == 'bin':
            return n['op'] == ','and self.isglv(n['r'])
        return False

    def lval(self, n, st):
        """-> [(st, loc)]"""
        k = n['k']
        if k == 'ref':
            return [(st, self.varloc(st, n))]
        if k == 'mem':
            return self.lval_mem(n, st)
        if k == 'idx':
            out = []
            for s, b in self.eval(n['b'], st):
                for s2, i in self.eval(n['i'], s):
                    if b[0] == 'dataof':
                        out.append((s2, ('e', b[1], i)))
                    elif b[0] == 'padd':
                        out.append((s2, ('e', ('mem', b[1]) if b[1][0] != 'dataof' else b[1][1], iadd(b[2], i))))
                    elif n.get('bt', {}).get('k') == 'a' and self.isglv(n['b']):
                        for s3, L in self.lval(n['b'], s2):
                            out.append((s3, ('e', L, i)))
                    else:
                        out.append((s2, ('e', ('mem', b), i)))
            return out
        if k == 'un' and n['op'] == '*':
            return [(s, self.deref_arr(s, v)) for s, v in self.eval(n['e'], st)]
        if k == 'un' and n['op'] in ('++', '--') and not n.get('post'):
            out = []
            for s, v in self.eval(n, st):
                for s2, l in self.lval(n['e'], s):
                    out.append((s2, l))
            return out
        if k == 'asg':
            return self.assign(n, st)
        if k == 'cast':
            if n['t'].get('ref'):
                return self.lval(n['e'], st)
        if k == 'cond':
            out = []
            for s, c in self.cond(n['c'], st):
                out += self.lval(n['a'] if c else n['b'], s)
            return out
        if k in ('call', 'mcall', 'icall') and (n.get('rref') or n.get('t', {}).get('ref') == 'l' or self.isglv(n)):
            out = []
            for s, v in self.call(n, st, want='loc'):
                if isinstance(v, tuple) and v and v[0] == '&':
                    out.append((s, v[1]))
                else:
                    out.append((s, ('d', ('refof', v)) if v[0] in ('res', 'fn', 'mfn') else self.temp(s, v)))
            return out
        if k == 'bin' and n['op'] == ',':
            out = []
            for s, _ in self.eval(n['l'], st):
                out += self.lval(n['r'], s)
            return out
        # prvalue: materialise
        t = n.get('t') or {}
        if k == 'ctor' and self.p.classes.get(n.get('rec')) and not self.trans(n.get('rq')) and n.get('rq') not in FMT:
            loc = ('t', st.new('t'))
            return [(s, loc) for s in self.construct(n, loc, st)]
        return [(s, self.temp(s, v)) for s, v in self.eval(n, st)]

    def temp(self, st, v):
        loc = ('t', st.new('t'))
        st.env[loc] = v
        return loc

    def deref_arr(self, st, p):
        if p[0] == 'dataof':
            return ('e', p[1], ZERO)
        if p[0] == 'padd':
            if p[1][0] == 'dataof':
                return ('e', p[1][1], p[2])
            return ('e', ('mem', p[1]), p[2])
        return self.deref(st, p)

    def lval_mem(self, n, st):
        b = n['b']
        out = []
        if b['k'] == 'this':
            return [(st, self.field(st, st.frame.this, n['n']))]
        if n.get('arrow'):
            for s, p in self.eval(b, st):
                out.append((s, self.field(s, self.itloc(s, p), n['n'])))
            return out
        for s, l in self.lval(b, st):
            out.append((s, self.field(s, l, n['n'])))
        return out

    def itloc(self, st, p):
        if p[0] == 'it':
            return self.iter_deref(st, p)
        if p[0] == '&':
            return p[1]
        if p[0] in ('dataof', 'padd'):
            return self.deref_arr(st, p)
        return self.deref(st, p)

    def iter_deref(self, st, it):
        L, pos = it[1], it[2]
        kind = it[3] if len(it) > 3 else 'seq'
        if pos[0] == 'i':
            if kind == 'map':
                return ('nth', L, pos[1])
            if kind == 'set':
                return ('nk', L, pos[1])
            if kind == 'rseq':
                return ('e', L, isub(isub(size(self.load(st, L)), ONE), pos[1]))
            return ('e', L, pos[1])
        if pos[0] == 'find':
            if kind == 'map':
                return ('mit', L, pos[2])
            return ('const', pos[2])
        if pos[0] == 'sfind':
            return ('e', L, ('indexof', pos[1], pos[2]))
        if pos[0] == 'end':
            if kind == 'rseq':
                return ('e', L, ('lit', -1))
            return ('e', L, size(self.load(st, L)))
        return ('d', it)

    # ------------------------------------------------------------ expressions
    def cond(self, n, st):
        """evaluate as condition -> [(st,bool)]"""
        if n['k'] == 'bin' and n['op'] in ('&&', '||'):
            out = []
            for s, b in self.cond(n['l'], st):
                if b == (n['op'] == '||'):
                    out.append((s, b))
                else:
                    out += self.cond(n['r'], s)
            return out
        if n['k'] == 'un' and n['op'] == '!':
            return [(s, not b) for s, b in self.cond(n['e'], st)]
        out = []
        for s, v in self.eval(n, st):
            out += self.truth(s, v, n)
        return out

    def evals(self, ns, st, byref=None):
        """evaluate a list of expressions -> [(st, [vals])]"""
        states = [(st, [])]
        for i, n in enumerate(ns):
            nxt = []
            for s, vs in states:
                if byref and i < len(byref) and byref[i]:
                    for s2, l in self.lval(n, s):
                        nxt.append((s2, vs + [('&', self.canon(s2, l))]))
                else:
                    for s2, v in self.eval(n, s):
                        nxt.append((s2, vs + [v]))
            states = nxt
            self.guard(states)
        return states

    def guard(self, states):
        if len(states) > self.maxpaths:
            raise TooBig()

    def eval(self, n, st):
        """-> [(st, value)]"""
        if n is None:
            return [(st, ('undef', None))]
        k = n['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.unknown.append((k, self.pos(st, n)))
            return [(st, ('unk', k))]
        return m(n, st)

    def e_lit(self, n, st):
        return [(st, ('lit', n['v']))]

    def e_str(self, n, st):
        return [(st, ('str', n['v']))]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_zero(self, n, st):
        return [(st, self.zero(n['t']))]

    def zero(self, t):
        k = t.get('k')
        if k == 'p':
            return NULL
        if k == 'b':
            return FALSE
        if k in ('u', 'i', 'f', 'e'):
            return ZERO
        return self.defval(t)

    def defval(self, t):
        rq = t.get('rq')
        if t.get('ptr'):
            return NULL
        if rq in SEQ:
            return ('seq', ())
        if rq in MAPS or rq in SETS:
            return ('emptym',)
        if rq == 'std::basic_string' or rq in STREAMS or rq in FMT:
            return ('str', '')
        if rq in SMART or self.trans(rq):
            return NULL
        if rq in OPT:
            return ('none',)
        if rq == 'std::function':
            return NULL
        return ('defv', rq or t.get('s'))

    def e_enum(self, n, st):
        return [(st, ('enum', n['q']))]

    def e_fnref(self, n, st):
        return [(st, ('fnref', n['fn'], n['q']))]

    def e_sizeof(self, n, st):
        return [(st, ('sizeof', n['t'].get('s')))]

    def e_this(self, n, st):
        return [(st, self.addrof(st.frame.this))]

    def e_init(self, n, st):
        rq = n.get('t', {}).get('rq')
        if n.get('t', {}).get('k') in ('u', 'i', 'f', 'b', 'p', 'e') and len(n['a']) == 1:
            return self.eval(n['a'][0], st)
        c = self.p.classes.get(n.get('t', {}).get('rec'))
        out = []
        for s, vs in self.evals(n['a'], st):
            if c:
                fs = [f['n'] for f in c['fields']]
                out.append((s, struct(c['q'], dict(zip(fs, vs)))))
            else:
                out.append((s, ('seq', tuple(vs))))
        return out

    def e_other(self, n, st):
        if n.get('c') == 'SourceLocExpr':
            return [(st, ('lit', 0))]
        if n.get('a') and len(n['a']) == 1:
            return self.eval(n['a'][0], st)
        self.unknown.append((n.get('c'), self.pos(st, n)))
        return [(st, ('unk', n.get('c')))]

    def e_sexpr(self, n, st):
        out = []
        for s, o in self.exec(n['s'], st):
            out.append((s, ('unk', 'sexpr')))
        return out

    def e_throw(self, n, st):
        if n['e'] is None:
            self.exits.append((st, ('throw', ('rethrow',))))
            return []
        for s, v in self.eval(n['e'], st):
            t = n['e'].get('t', {}) if n['e'] else {}
            self.emit(s, 'throw', n, val=v, type=t.get('rq') or t.get('s'))
            self.exits.append((s, ('throw', v, t.get('rq') or t.get('s'))))
        return []

    def e_ref(self, n, st):
        loc = self.varloc(st, n)
        return [(st, self.load(st, loc))]

    def e_mem(self, n, st):
        if not self.isglv(n['b']) and not n.get('arrow') and n['b']['k'] not in ('this',):
            out = []
            for s, v in self.eval(n['b'], st):
                out.append((s, getf(v, n['n'])))
            return out
        out = []
        for s, l in self.lval_mem(n, st):
            out.append((s, self.load(s, self.canon(s, l))))
        return out

    def e_idx(self, n, st):
        return [(s, self.load(s, l)) for s, l in self.lval(n, st)]

    def e_un(self, n, st):
        op = n['op']
        if op == '*':
            return [(s, self.load(s, l)) for s, l in self.lval(n, st)]
        if op == '&':
            out = []
            if n['e']['k'] == 'fnref':
                return self.eval(n['e'], st)
            for s, l in self.lval(n['e'], st):
                out.append((s, self.addrof(self.canon(s, l))))
            return out
        if op in ('++', '--'):
            out = []
            for s, l in self.lval(n['e'], st):
                l = self.canon(s, l)
                v = self.load(s, l)
                nv = self.step(s, v, 1 if op == '++' else -1, n)
                self.store(s, l, nv, n)
                out.append((s, v if n.get('post') else nv))
            return out
        out = []
        for s, v in self.eval(n['e'], st):
            if op == '!':
                if v[0] == 'not':
                    r = v[1]
                else:
                    a = self.atom(v)
                    r = ('lit', not a) if isinstance(a, bool) else ('not', v)
            elif op == '-':
                if n.get('t', {}).get('k') in ('u', 'i'):
                    r = isub(ZERO, v)
                elif v[0] == 'lit':
                    r = ('lit', -v[1])
                else:
                    r = ('op', 'neg', v)
            elif op == '+':
                r = v
            else:
                r = ('op', op, v)
            out.append((s, r))
        return out

    def step(self, st, v, d, n):
        if v[0] == 'it':
            if v[2][0] == 'i':
                return ('it', v[1], ('i', iadd(v[2][1], ('lit', d)))) + v[3:]
            if v[2][0] == 'end' and (len(v) < 4 or v[3] == 'seq'):
                return ('it', v[1], ('i', iadd(size(self.load(st, v[1])), ('lit', d)))) + v[3:]
            return ('it', v[1], ('next', v[2], d)) + v[3:]
        t = n.get('t', {}) if isinstance(n, dict) else {}
        if t.get('ptr') or v[0] in ('padd', 'dataof'):
            if v[0] == 'padd':
                r = iadd(v[2], ('lit', d))
                return ('padd', v[1], r) if r != ZERO else v[1]
            return ('padd', v, ('lit', d))
        return iadd(v, ('lit', d))

    def binval(self, st, op, a, b, n):
        t = n.get('t', {})
        if op in ('==', '!=', '<', '>', '<=', '>='):
            r = ('cmp', op, a, b)
            x = self.atom(r)
            return ('lit', x) if isinstance(x, bool) else r
        if t.get('ptr'):
            if op in ('+', '-'):
                if a[0] not in ('padd', 'dataof', 'deref', 'ld') and b[0] in ('padd', 'dataof'):
                    a, b = b, a
                off = b if op == '+' else isub(ZERO, b)
                if a[0] == 'padd':
                    r = iadd(a[2], off)
                    return ('padd', a[1], r) if r != ZERO else a[1]
                return ('padd', a, off) if off != ZERO else a
        if t.get('k') in ('u', 'i', 'b', 'e'):
            if a[0] in ('padd', 'dataof') and b[0] in ('padd', 'dataof') and op == '-':
                pa = a if a[0] == 'padd' else ('padd', a, ZERO)
                pb = b if b[0] == 'padd' else ('padd', b, ZERO)
                if pa[1] == pb[1]:
                    return isub(pa[2], pb[2])
            return iop(op, a, b)
        if t.get('k') == 'f':
            return fop(op, a, b)
        return ('op', op, a, b)

    def e_bin(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            # as a value: keep it symbolic when the right side is pure
            for s, a in self.eval(n['l'], st):
                la = self.atom(a)
                if isinstance(la, bool):
                    if la == (op == '||'):
                        out.append((s, ('lit', la)))
                    else:
                        for s2, b in self.eval(n['r'], s):
                            out.append((s2, self.boolval(b)))
                    continue
                for s1, tv in self.truth(s, a, n['l']):
                    if tv == (op == '||'):
                        out.append((s1, ('lit', tv)))
                    else:
                        for s2, b in self.eval(n['r'], s1):
                            out.append((s2, self.boolval(b)))
            return out
        if op == ',':
            out = []
            for s, _ in self.eval(n['l'], st):
                out += self.eval(n['r'], s)
            return out
        out = []
        for s, vs in self.evals([n['l'], n['r']], st):
            out.append((s, self.binval(s, op, vs[0], vs[1], n)))
        return out

    def boolval(self, v):
        a = self.atom(v)
        return ('lit', a) if isinstance(a, bool) else v

    def e_asg(self, n, st):
        return [(s, self.load(s, l)) for s, l in self.assign(n, st)]

    def assign(self, n, st):
        out = []
        op = n['op']
        # right side first (C++17 order; irrelevant to the properties)
        for s, v in self.eval(n['r'], st):
            for s2, l in self.lval(n['l'], s):
                l = self.canon(s2, l)
                if op == '=':
                    nv = v
                else:
                    old = self.load(s2, l)
                    nv = self.binval(s2, op[:-1], old, v, {'t': n.get('t', {})})
                self.store(s2, l, nv, n, op)
                out.append((s2, l))
        return out

    def e_cond(self, n, st):
        out = []
        base = st.tr
        n0 = len(self.exits)
        for s, c in self.cond(n['c'], st):
            out += self.eval(n['a'] if c else n['b'], s)
        return out

    def e_cast(self, n, st):
        if n.get('t', {}).get('ref'):
            return [(s, self.load(s, l)) for s, l in self.lval(n, st)]
        out = []
        t = n['t']
        for s, v in self.eval(n['e'], st):
            if n['ck'] == 'dynamic':
                cls = t.get('rec')
                if v[0] == 'dyn':
                    v = v[2]
                if v == NULL:
                    out.append((s, NULL))
                    continue
                d = ('dyn', cls, v)
                kn = self.dyncast_known(s, d)
                out.append((s, v if kn is True else NULL if kn is False else d))
                continue
            out.append((s, self.castval(v, t, n)))
        return out

    def castval(self, v, t, n):
        kind = n.get('kind', '')
        if t.get('k') in ('u', 'i') and (kind == 'FloatingToIntegral'):
            if v[0] == 'lit':
                return ('lit', int(v[1]))
            return ('f2i', v)
        if t.get('k') == 'f' and kind == 'IntegralToFloating':
            return v if v[0] == 'lit' else ('i2f', v)
        if t.get('k') == 'b' and v[0] == 'lit':
            return ('lit', bool(v[1]))
        return v

    def e_conv(self, n, st):
        out = []
        for s, v in self.eval(n['e'], st):
            ck = n['ck']
            if v[0] == 'lit' and not isinstance(v[1], str):
                if ck == 'IntegralToFloating':
                    r = ('lit', int(v[1]) if isinstance(v[1], bool) else v[1])
                elif ck == 'FloatingToIntegral':
                    r = ('lit', int(v[1]))
                else:
                    r = ('lit', bool(v[1]))
            elif ck == 'IntegralToFloating':
                r = ('i2f', v)
            elif ck == 'FloatingToIntegral':
                r = ('f2i', v)
            else:
                r = ('f2b', v)
            out.append((s, r))
        return out

    def e_lambda(self, n, st):
        key = id(n)
        if key not in self.lamidx:
            self.lamidx[key] = len(self.lams)
            self.lams.append((n, st.frame.files))
        states = [(st, [])]
        caps = []
        for c in n['caps']:
            nxt = []
            for s, vs in states:
                if c.get('this'):
                    nxt.append((s, vs + [('this', self.addrof(s.frame.this))]))
                    continue
                loc = self.canon(s, ('v', s.frame.fid, c['id']))
                if c.get('byref'):
                    nxt.append((s, vs + [(c['id'], ('&', loc))]))
                elif c.get('init') and c['init']['k'] not in ('ref', 'ctor'):
                    for s2, v in self.eval(c['init'], s):
                        nxt.append((s2, vs + [(c['id'], v)]))
                else:
                    nxt.append((s, vs + [(c['id'], self.load(s, loc))]))
            states = nxt
        return [(s, ('lam', self.lamidx[key], tuple(vs))) for s, vs in states]

    def e_new(self, n, st):
        t = n['t']
        out = []
        if n.get('array'):
            for s, sz in (self.eval(n['size'], st) if n.get('size') else [(st, ('unk', 'size'))]):
                h = s.new('h')
                self.emit(s, 'new', n, ptr=('new', h), cls=t.get('rq') or t.get('s'), array=True, size=sz, rec=t.get('rec'))
                s.env[('h', h)] = ('newarr', h)
                out.append((s, ('new', h)))
            return out
        h = st.new('h')
        loc = ('h', h)
        cls = t.get('rec') if not t.get('ptr') else None
        states = [st]
        init = n.get('init')
        if cls:
            st.dyn[loc] = cls
        if init is not None:
            if init['k'] == 'ctor' and cls in self.p.classes:
                states = self.construct(init, loc, st, dyn=cls)
            else:
                states = []
                for s, v in self.eval(init, st):
                    s.env[loc] = v
                    states.append(s)
        for s in states:
            if cls:
                s.dyn[loc] = cls
            self.emit(s, 'new', n, ptr=('new', h), cls=t.get('rq') or t.get('s'), rec=cls, array=False)
            out.append((s, ('new', h)))
        return out

    def e_del(self, n, st):
        out = []
        for s, v in self.eval(n['e'], st):
            while v[0] == 'dyn':
                v = v[2]
            if v == NULL or s.facts.get(('nz', v)) is False:
                out.append((s, ('void',)))
                continue
            self.emit(s, 'delete', n, ptr=v, array=bool(n.get('array')), t=n.get('t', {}).get('rq'))
            hook = self.models.get('delete')
            if hook:
                out += [(x, ('void',)) for x in hook(self, s, v, n)]
            else:
                out.append((s, ('void',)))
        return out

    def e_ctor(self, n, st):
        rq = n.get('rq')
        c = self.p.classes.get(n.get('rec'))
        if c and not self.trans(rq) and rq not in FMT:
            # copy of a record without a user-written copy constructor: a value
            if n.get('cc') in ('copy', 'move') and len(n['a']) == 1:
                f = self.p.fns.get(n['fn'])
                if f is None or f.get('defaulted') or f.get('implicit'):
                    return [(self.emptied(n, s, n['a'][0], None), v) for s, v in self.eval(n['a'][0], st)]
            loc = ('t', st.new('t'))
            return [(s, self.load(s, loc)) for s in self.construct(n, loc, st)]
        import stdmodel
        return stdmodel.ctor(self, n, st)

    def memberwise(self, st, rec, dst, src):
        """compiler-made copy of the part of class rec"""
        c = self.p.classes[rec]
        for b in c['bases']:
            if b.get('usr') in self.p.classes:
                self.memberwise(st, b['usr'], dst, src)
        for x in c.get('fields', []):
            if not x.get('static'):
                v = self.load(st, ('f', src, x['n']))
                if v != self.load(st, ('f', dst, x['n'])):
                    self._store(st, ('f', dst, x['n']), v)

    def emptied(self, n, st, a, dst):
        """a record was moved out of `a` by a compiler-made move: its containers are left empty"""
        if n.get('cc') != 'move' and n.get('q', '').split('::')[-1] != 'operator=':
            return st
        return self.moveout(n, st, a, dst, n.get('rec') or n.get('cls'))

    def moveout(self, n, st, a, dst, rec=None):
        import stdmodel
        x = stdmodel.is_moved(self, a)
        if x is None:
            return st
        t = x.get('t', {})
        cont = lambda q: q in stdmodel.SEQ or q in stdmodel.MAPS or q in stdmodel.SETS
        c = self.p.classes.get(rec or t.get('rec'))
        if cont(t.get('rq')):
            fs = [(None, t['rq'])]
        elif c and not self.own_moves(c):
            fs = [(d['n'], d['t'].get('rq')) for d in c.get('fields', []) if not d.get('static') and cont(d['t'].get('rq')) and not d['t'].get('ref')]
        else:
            return st
        if not fs:
            return st
        r = self.lval(x, st.fork())
        if len(r) != 1:
            return st
        l = self.canon(r[0][0], r[0][1])
        if l == dst:
            return st
        for nm, rq in fs:
            stdmodel.moved_from(self, st, n, ('f', l, nm) if nm else l, rq in stdmodel.SEQ)
        return st

    def own_moves(self, c):
        """does the class come with copy or move operations written by hand?"""
        for u in c.get('methods', []):
            g = self.p.fns.get(u['usr'])
            if g is not None and not (g.get('defaulted') or g.get('implicit')) and (u.get('n') == 'operator=' or g.get('kind') == 'ctor' and len(g['params']) == 1 and
                                                                                  g['params'][0]['t'].get('rec') and g['params'][0]['t'].get('rq') == c['q']):
                return True
        return False

    def plaincopy(self, rec):
        c = self.p.classes.get(rec)
        if not c:
            return False
        for u in c.get('methods', []):
            if u.get('n') == 'operator=' and self.p.fns.get(u['usr']) is not None and not (self.p.fns[u['usr']].get('defaulted') or self.p.fns[u['usr']].get('implicit')):
                return False
        return all(self.plaincopy(b.get('usr')) for b in c['bases'])

    def construct(self, n, loc, st, dyn=None, sub=False):
        """run constructor expression n on the object at loc -> [st]"""
        if n['k'] != 'ctor':
            out = []
            for s, v in self.eval(n, st):
                s.env[loc] = v
                out.append(s)
            return out
        rq = n.get('rq')
        c = self.p.classes.get(n.get('rec'))
        if not c or self.trans(rq) or rq in FMT:
            out = []
            for s, v in self.eval(n, st):
                self._store(s, loc, v)
                out.append(s)
            return out
        f = self.p.fns.get(n['fn'])
        if n.get('cc') in ('copy', 'move') and len(n['a']) == 1 and (f is None or f.get('implicit') or f.get('defaulted')):
            out = []
            if sub and self.isglv(n['a'][0]):
                for s, l in self.lval(n['a'][0], st):
                    self.memberwise(s, n.get('rec'), loc, self.canon(s, l))
                    out.append(s)
                return out
            for s, v in self.eval(n['a'][0], st):
                s = self.emptied(n, s, n['a'][0], loc)
                self._store(s, loc, v)
                out.append(s)
            return out
        if dyn is None:
            dyn = n.get('rec')
        if f is None or self.opaque(f):
            if f is not None and f.get('implicit') and not n['a']:
                pass
            out = []
            byref = [x in (1, 2, 3) for x in n.get('pf', [])]
            for s, vs in self.evals(n['a'], st, byref):
                vals = [self.load(s, v[1]) if v[0] == '&' else v for v in vs]
                r = ('cobj', n['q'], tuple(vals))
                if f is not None:
                    self.emit(s, 'call', n, q=n['q'], fn=n['fn'], recv=self.addrof(loc), args=tuple(vals), rawargs=tuple(vs), res=r, virt=False, cm=False, ctor=True)
                if root(loc)[0] in ('h',) or loc[0] in ('t', 'v', 'f'):
                    s.env[loc] = r if f is not None or n['a'] else ('struct', c['q'], ())
                out.append(s)
            return out
        byref = [bool(p['t'].get('ref')) for p in f['params']]
        out = []
        for s, vs in self.evals(n['a'], st, byref):
            out += [s2 for s2, _ in self.invoke(f, loc, vs, s, n, ctor=True, dyn=dyn)]
        return out

    # ------------------------------------------------------------ calls
    def e_call(self, n, st):
        return [(s, self.load(s, v[1]) if v[0] == '&' else v) for s, v in self.call(n, st)]

    e_mcall = e_call
    e_icall = e_call

    def call(self, n, st, want='val'):
        if n.get('noret') or n.get('q') in ('__assert_fail', 'abort', 'exit', 'std::terminate', 'std::abort'):
            self.emit(st, 'abort', n, q=n.get('q'))
            self.exits.append((st, ('abort',)))
            return []
        if n['k'] == 'icall':
            out = []
            for s, c in self.eval(n['c'], st):
                out += self.apply(c, n['a'], s, n)
            return out
        if n['k'] == 'mcall' and n.get('fn') not in self.p.fns and n.get('q', '').endswith('::operator()') and not n['q'].startswith('std::'):
            r = self.lamcall(n, st)
            if r is not None:
                return r
        import stdmodel
        r = stdmodel.model(self, n, st, want)
        if r is not None:
            return r
        f = self.p.fns.get(n.get('fn'))
        if n['k'] == 'mcall':
            return self.mcall(n, st, f)
        if f is None:
            return self.extern(n, st)
        if self.opaque(f):
            return self.opaque_call(n, st, f, None)
        byref = [bool(p['t'].get('ref')) for p in f['params']]
        out = []
        for s, vs in self.evals(n['a'], st, byref):
            out += self.invoke(f, None, vs, s, n)
        return out

    def recv(self, n, st):
        """location of the receiver"""
        o = n['o']
        out = []
        if n.get('arrow') and o['k'] != 'this':
            for s, p in self.eval(o, st):
                out.append((s, self.itloc(s, p)))
            return out
        if o['k'] == 'this':
            return [(st, st.frame.this)]
        if o['k'] == 'un' and o['op'] == '*' and o['e']['k'] == 'this':
            return [(st, st.frame.this)]
        ot = n.get('ot', {})
        if ot.get('ptr'):
            for s, p in self.eval(o, st):
                out.append((s, self.itloc(s, p)))
            return out
        return [(s, self.canon(s, l)) for s, l in self.lval(o, st)]

    def lamcall(self, n, st):
        """call of a closure by its name or in place"""
        out = []
        o = n['o']
        if o['k'] == 'lambda':
            rs = self.eval(o, st)
        else:
            rs = [(s, self.load(s, self.canon(s, loc))) for s, loc in self.recv(n, st)]
        if any(v[0] not in ('lam', 'fnref') for _, v in rs):
            return None
        for s, v in rs:
            out += self.apply(v, n['a'], s, n)
        return out

    def mcall(self, n, st, f):
        out = []
        for s, loc in self.recv(n, st):
            loc = self.canon(s, loc)
            tgt = f
            known = True
            if n.get('virt'):
                dyn = s.dyn.get(loc)
                if dyn:
                    u = self.p.resolve(dyn, n['fn'])
                    if u:
                        tgt = self.p.fns.get(u, tgt if u == n['fn'] else None)
                        if tgt is None:
                            known = False
                else:
                    ts = self.p.targets(n.get('cls'), n['fn']) if self.cha else []
                    if self.cha and len(ts) == 1 and ts[0] in self.p.fns:
                        tgt = self.p.fns[ts[0]]
                    else:
                        known = False
            if (tgt is None or tgt.get('defaulted') and tgt.get('body') is None) and n['q'].split('::')[-1] == 'operator=' and len(n['a']) == 1 and self.isglv(n['a'][0]) and self.plaincopy(n.get('cls')):
                for s2, l2 in self.lval(n['a'][0], s):
                    self.memberwise(s2, n['cls'], loc, self.canon(s2, l2))
                    out.append((self.emptied(n, s2, n['a'][0], loc), ('&', loc)))
                continue
            if (not known or tgt is None) and n['q'] in self.models:
                for s2, vs in self.evals(n['a'], s, [x in (1, 2, 3) for x in n.get('pf', [])]):
                    out += self.models[n['q']](self, f, loc, vs, s2, n)
                continue
            if not known or tgt is None or self.opaque(tgt):
                out += self.opaque_call(n, s, tgt or f, loc, virt=not known)
                continue
            byref = [bool(p['t'].get('ref')) for p in tgt['params']]
            for s2, vs in self.evals(n['a'], s, byref):
                out += self.invoke(tgt, loc, vs, s2, n)
        return out

    def opaque_call(self, n, st, f, loc, virt=False):
        out = []
        byref = [x in (1, 2, 3) for x in n.get('pf', [])]
        states = [(st, loc)]
        for s, l in states:
            for s2, vs in self.evals(n['a'], s, byref):
                vals = tuple(self.load(s2, v[1]) if v[0] == '&' else v for v in vs)
                recv = self.addrof(l) if l is not None else None
                rt = (f or {}).get('ret', n.get('t', {}))
                key = (n['q'],) + ((recv,) if recv is not None else ()) + vals
                pure = n.get('cm') or (f is not None and self.pure_free(f))
                if pure:
                    res = ('mfn',) + key
                else:
                    c = s2.new(('res', key))
                    res = ('res', c) + key
                self.emit(s2, 'call', n, q=n['q'], fn=n.get('fn'), recv=recv, args=vals, rawargs=tuple(vs), res=res, virt=virt,
                          cm=bool(n.get('cm')), static=loc is None, t=n.get('t', {}))
                if not pure and self.usemods:
                    self.havoc(s2, self.modset(n, f, virt))
                if not n.get('cm'):
                    for i, v in enumerate(vs):
                        if v[0] == '&' and n['pf'][i] in (1,):
                            self._store(s2, v[1], ('out', i, res))
                out.append((s2, res))
        return out

    def pure_free(self, f):
        return False

    def extern(self, n, st):
        out = []
        q = n['q']
        last = q.split('::')[-1]
        byref = [x in (1, 2, 3) for x in n.get('pf', [])]
        for s, vs in self.evals(n['a'], st, byref):
            vals = tuple(self.load(s, v[1]) if v[0] == '&' else v for v in vs)
            if last in PURE_MATH and q in (last, 'std::' + last):
                out.append((s, ('fn', last) + vals))
                continue
            res = ('res', s.new(('res', (q,) + vals)), q) + vals
            self.emit(s, 'ext', n, q=q, args=vals, rawargs=tuple(vs), res=res, recv=None)
            for i, v in enumerate(vs):
                if v[0] == '&' and n['pf'][i] == 1:
                    self._store(s, v[1], ('out', i, res))
            out.append((s, res))
        return out

    def apply(self, c, argnodes, st, n, vals=None):
        """call a callable value with argument nodes (or values)"""
        if c[0] == 'addr':
            c = self.load(st, c[1])
        if c[0] == 'lam':
            node, files = self.lams[c[1]]
            fn = node['fn']
            byref = [bool(p['t'].get('ref')) for p in fn['params']]
            out = []
            for s, vs in ([(st, vals)] if vals is not None else self.evals(argnodes, st, byref)):
                out += self.invoke_lambda(c, node, files, vs, s, n)
            return out
        if c[0] == 'fnref':
            f = self.p.fns.get(c[1])
            if f and not self.opaque(f) and not f.get('cls'):
                byref = [bool(p['t'].get('ref')) for p in f['params']]
                out = []
                for s, vs in ([(st, vals)] if vals is not None else self.evals(argnodes, st, byref)):
                    out += self.invoke(f, None, vs, s, n)
                return out
            out = []
            for s, vs in ([(st, vals)] if vals is not None else self.evals(argnodes, st)):
                vv = tuple(self.load(s, v[1]) if v[0] == '&' else v for v in vs)
                last = c[2].split('::')[-1]
                if last in PURE_MATH:
                    out.append((s, ('fn', last) + vv))
                else:
                    res = ('res', s.new(('res', (c[2],) + vv)), c[2]) + vv
                    self.emit(s, 'call' if f else 'ext', n, q=c[2], fn=c[1], args=vv, rawargs=tuple(vs), res=res, recv=None, virt=False, cm=False)
                    out.append((s, res))
            return out
        if c[0] == 'bind':
            out = []
            for s, vs in ([(st, vals)] if vals is not None else self.evals(argnodes, st)):
                args = []
                for a in c[2]:
                    if a[0] == 'placeholder':
                        args.append(vs[a[1] - 1] if a[1] - 1 < len(vs) else ('undef', 'bind'))
                    else:
                        args.append(a)
                fn = c[1]
                if fn[0] == 'struct' or fn[0] in ('undef', 'cobj', 'glob', 'fld', 'dist', 'rng'):
                    res = ('rand', s.new('rand'), fn) + tuple(args)
                    self.emit(s, 'ext', n, q='operator()', args=tuple(args), rawargs=(), res=res, recv=fn)
                    out.append((s, res))
                else:
                    out += self.apply(fn, None, s, n, args)
            return out
        if c[0] == 'ite':
            out = []
            for s, b in self.truth(st, c[1], n):
                out += self.apply(c[2] if b else c[3], argnodes, s, n, vals)
            return out
        out = []
        for s, vs in ([(st, vals)] if vals is not None else self.evals(argnodes, st)):
            vv = tuple(self.load(s, v[1]) if v[0] == '&' else v for v in vs)
            if self.purecall(c):
                res = ('app', c) + vv
            else:
                res = ('res', s.new(('res', ('icall', c) + vv)), 'icall', c) + vv
            self.emit(s, 'icall', n, callee=c, args=vv, rawargs=tuple(vs), res=res, t=n.get('t', {}) if isinstance(n, dict) else {})
            out.append((s, res))
        return out

    def purecall(self, c):
        return False

    def invoke_lambda(self, c, node, files, vs, st, n):
        fn = dict(node['fn'])
        fn['files'] = files
        fn['usr'] = 'lam%d' % c[1]
        fn['q'] = 'lambda'
        this = None
        caps = []
        for k, v in c[2]:
            if k == 'this':
                this = self.deref(st, v)
            else:
                caps.append((k, v))
        return self.invoke(fn, this, vs, st, n, caps=caps)

    def onstack(self, fr, usr):
        c = 0
        while fr:
            if fr.fn.get('usr') == usr:
                c += 1
            fr = fr.parent
        return c

    def invoke(self, f, this, vs, st, n, ctor=False, dyn=None, caps=()):
        """inline a call to f -> [(st, value or ('&',loc))]"""
        hook = self.models.get(f['q'])
        if hook:
            r = hook(self, f, this, vs, st, n)
            if r is not None:
                return r
        fr = st.frame
        if (fr and fr.depth > self.maxdepth) or self.onstack(fr, f['usr']) >= 1 or f.get('body') is None and not ctor and f.get('kind') != 'ctor' and not f.get('defaulted'):
            vals = tuple(self.load(st, v[1]) if v[0] == '&' else v for v in vs)
            recv = self.addrof(this) if this is not None else None
            key = (f['q'],) + ((recv,) if recv is not None else ()) + vals
            res = ('mfn',) + key if f.get('cm') else ('res', st.new(('res', key))) + key
            self.emit(st, 'call', n, q=f['q'], fn=f['usr'], recv=recv, args=vals, rawargs=tuple(vs), res=res, virt=False, cm=bool(f.get('cm')), rec=True, static=this is None, t=f.get('ret', {}))
            if not f.get('cm') and self.usemods:
                self.havoc(st, self.modset_fn(f['usr']))
            return [(st, res)]
        self.visited.add(f['usr'])
        fid = st.new('fr')
        st.frame = Frame(fid, f, this if this is not None else None, f['files'], fr)
        st.emit('enter', self.pos(st, n) if n is not None and fr else '?', fr.fn['q'] if fr else '', q=f['q'], fn=f['usr'],
                this=self.addrof(this) if this is not None else None, args=tuple(vs), fid=fid)
        for p, v in zip(f['params'], vs):
            loc = ('v', fid, p['id'])
            if p['t'].get('ref') and v[0] != '&':
                st.env[loc] = ('&', self.temp(st, v))
            elif v[0] == '&' and not p['t'].get('ref'):
                st.env[loc] = self.load(st, v[1])
            else:
                st.env[loc] = v
        for k, v in caps:
            st.env[('v', fid, k)] = v
        states = [st]
        olddyn = None
        if ctor or f.get('kind') == 'ctor':
            states = self.run_inits(f, this, st, dyn)
            for s in states:
                if dyn:
                    s.dyn[this] = f.get('cls')
        out = []
        rl = f.get('rref')
        for s in states:
            sc = s.scopes
            s.scopes = ()
            for s2, o in (self.exec(f['body'], s) if f.get('body') else [(s, None)]):
                self.end_scopes(s2, ())
                s2.scopes = sc
                val = o[1] if o and o[0] == 'ret' else ('void',)
                s2.emit('exit', '?', f['q'], q=f['q'], fn=f['usr'], fid=fid, val=val)
                s2.frame = fr
                out.append((s2, val))
        self.guard(out)
        # drop the callee's locals nobody can name any more
        return out

    def run_inits(self, f, this, st, dyn):
        states = [st]
        vbs_done = self.p.classes.get(f.get('cls'), {})
        for i in f.get('inits', []):
            e = i.get('e')
            nxt = []
            for s in states:
                if i.get('base') or i.get('deleg'):
                    if i.get('vb') and dyn is not None and dyn != f.get('cls'):
                        nxt.append(s)
                        continue
                    if e and e['k'] == 'ctor' and e.get('rec') in self.p.classes and not self.trans(e.get('rq')):
                        nxt += self.construct(e, this, s, dyn=dyn, sub=True)
                    else:
                        nxt.append(s)
                    continue
                loc = self.field(s, this, i['f'])
                if e is None:
                    nxt.append(s)
                    continue
                if i.get('ft', {}).get('ref'):
                    for s2, l in self.lval(e, s):
                        s2.env[loc] = ('&', l)
                        nxt.append(s2)
                    continue
                if e['k'] == 'ctor' and e.get('rec') in self.p.classes and not self.trans(e.get('rq')):
                    if e.get('cc') == 'default' and not i.get('written') and (self.p.fns.get(e['fn']) is None):
                        s.env[loc] = ('struct', e.get('rq'), ())
                        nxt.append(s)
                        continue
                    nxt += self.construct(e, loc, s)
                    continue
                for s2, v in self.eval(e, s):
                    s2.env[loc] = v
                    if i.get('written') and self.visible(loc):
                        s2.emit('write', self.pos(s2, e), self.fnname(s2), loc=loc, val=v, op='init')
                    nxt.append(s2)
            states = nxt
        return states

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """-> [(st, outcome)], outcome None | ('ret',v) | ('break',) | ('cont',)"""
        if n is None:
            return [(st, None)]
        return getattr(self, 's_' + n['k'], self.s_unknown)(n, st)

    def s_unknown(self, n, st):
        self.unknown.append((n.get('k') + ':' + str(n.get('c')), self.pos(st, n)))
        return [(st, None)]

    def s_py(self, n, st):
        return n['run'](n, st)

    def s_expr(self, n, st):
        return [(s, None) for s, _ in self.eval(n['e'], st)]

    def s_seq(self, n, st):
        out = []
        mark = st.scopes
        live = [st]
        for c in n['s']:
            nxt = []
            for s in live:
                for s2, o in self.exec(c, s):
                    if o is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            live = self.dedup(nxt)
            self.guard(live)
            if not live:
                break
        for s in live:
            self.end_scopes(s, mark)
            out.append((s, None))
        for s, o in out:
            if o is not None and o[0] in ('break', 'cont'):
                self.end_scopes(s, mark)
        return out

    def dedup(self, states):
        return states

    def end_scopes(self, st, mark):
        """RAII: leave local objects declared since `mark` (reverse order)"""
        while st.scopes and st.scopes != mark:
            parent, item = st.scopes
            st.scopes = parent
            kind, loc, info = item
            if kind == 'lock':
                held = st.env.get(('lk', loc))
                if held == TRUE:
                    st.emit('unlock', '?', self.fnname(st), mutex=info, scope=True)
            elif kind == 'uptr':
                v = self.load(st, loc)
                if v != NULL and st.facts.get(('nz', v)) is not False:
                    st.emit('delete', '?', self.fnname(st), ptr=v, array=False, scope=True, t=None)
            elif kind == 'obj':
                fd = info
                if not self.opaque(fd):
                    # destructors do not fork in practice; keep all results in order
                    r = self.invoke(fd, loc, [], st, None)
                    if r and r[0][0] is not st:
                        pass

    def s_decl(self, n, st):
        states = [st]
        for d in n['d']:
            nxt = []
            for s in states:
                nxt += self.declare(d, s)
            states = nxt
        return [(s, None) for s in states]

    def declare(self, d, st):
        if d.get('static'):
            return [st]
        loc = ('v', st.frame.fid, d['id'])
        t = d['t']
        init = d.get('init')
        out = []
        if d.get('ref'):
            for s, l in self.lval(init, st):
                l = self.canon(s, l)
                s.env[loc] = ('&', l)
                out.append(s)
            return out
        if init is None:
            st.env[loc] = ('undef', loc)
            return [st]
        rq = t.get('rq')
        if init['k'] == 'ctor' and init.get('rec') in self.p.classes and not self.trans(rq) and rq not in FMT and not t.get('ptr'):
            for x in [x for x in st.env if x[0] == 'f' and self._under(x, loc)]:
                del st.env[x]
            st.env.pop(loc, None)
            st.dyn[loc] = init.get('rec')
            for s in self.construct(init, loc, st, dyn=init.get('rec')):
                self.scope_obj(s, loc, t)
                out.append(s)
            return out
        if rq in LOCKS and not t.get('ptr'):
            import stdmodel
            return stdmodel.declare_lock(self, d, loc, st)
        for s, v in self.eval(init, st):
            for x in [x for x in s.env if x[0] == 'f' and self._under(x, loc)]:
                del s.env[x]
            s.env[loc] = v if v[0] != '&' else self.load(s, v[1])
            if rq == 'std::unique_ptr' and not t.get('ptr'):
                s.scopes = (s.scopes, ('uptr', loc, None))
            elif not t.get('ptr') and t.get('rec') in self.p.classes and not self.trans(rq):
                s.dyn[loc] = t.get('rec')
                self.scope_obj(s, loc, t)
            out.append(s)
        return out

    def scope_obj(self, s, loc, t):
        """register a user-written destructor of a plain local object (RAII helpers)"""
        c = self.p.classes.get(t.get('rec'))
        if not c or self.noinline_dtor:
            return
        for m in c['methods']:
            if m.get('kind') == 'dtor' and m['usr'] in self.p.fns:
                f = self.p.fns[m['usr']]
                if f.get('body') and f['body'].get('s') and not f.get('defaulted'):
                    s.scopes = (s.scopes, ('obj', loc, f))

    def s_ret(self, n, st):
        if n['e'] is None:
            return [(st, ('ret', ('void',)))]
        out = []
        if st.frame.fn.get('rref'):
            for s, l in self.lval(n['e'], st):
                out.append((s, ('ret', ('&', self.canon(s, l)))))
            return out
        for s, v in self.eval(n['e'], st):
            rt = st.frame.fn.get('ret', {})
            out.append((s, ('ret', v)))
        return out

    def s_break(self, n, st):
        return [(st, ('break',))]

    def s_cont(self, n, st):
        return [(st, ('cont',))]

    def s_if(self, n, st):
        out = []
        mark = st.scopes
        states = [st]
        if n.get('init'):
            states = [s for s, o in self.exec(n['init'], st) if o is None]
        if n.get('var'):
            states = [s2 for s in states for s2 in self.declare(n['var'], s)]
        for s0 in states:
            base = s0.tr
            benv = dict(s0.env)
            nout = len(out)
            plain = []
            for s, c in self.cond(n['c'], s0):
                br = n['a'] if c else n.get('b')
                for s2, o in self.exec(br, s):
                    if o is None:
                        plain.append(s2)
                    else:
                        out.append((s2, o))
            # merge branches that did nothing at all
            quiet = [s for s in plain if self.only_assumes(s.tr, base) and s.env == benv]
            if len(quiet) > 1 and (self.merge or len(quiet) == len(plain) and len(out) == nout):
                keep = quiet[0]
                common = {a: v for a, v in keep.facts.items() if all(q.facts.get(a) == v for q in quiet[1:])}
                keep.facts = common
                keep.tr = self.common_tr(quiet, base, common, keep)
                plain = [keep] + [s for s in plain if not any(s is q for q in quiet)]
            out += [(s, None) for s in plain]
        for s, o in out:
            if o is None:
                self.end_scopes(s, mark)
        return out

    def only_assumes(self, tr, base):
        while tr is not None and tr is not base:
            if tr[1].k not in ('assume', 'enter', 'exit'):
                return False
            tr = tr[0]
        return tr is base

    def common_tr(self, quiet, base, common, keep):
        evs = []
        t = keep.tr
        while t is not base:
            evs.append(t[1])
            t = t[0]
        tr = base
        for e in reversed(evs):
            if e.k == 'assume' and common.get(e.atom) == e.val:
                tr = (tr, e)
        return tr

    def s_switch(self, n, st):
        out = []
        items = []          # flattened (label or None, stmt)

        def flat(x):
            while x is not None and x['k'] in ('case', 'default'):
                items.append(('case', x['v'], None) if x['k'] == 'case' else ('default', None, None))
                x = x['s']
            if x is not None:
                items.append(('stmt', None, x))
        for x in (n['body']['s'] if n['body']['k'] == 'seq' else [n['body']]):
            flat(x)
        for s, v in self.eval(n['c'], st):
            pend = [s]
            starts = []
            dflt = None
            for i, (k, e, x) in enumerate(items):
                if k == 'default':
                    dflt = i
                if k != 'case':
                    continue
                nxt = []
                for p in pend:
                    for p2, cv in self.eval(e, p):
                        for p3, b in self.truth(p2, self.binval(p2, '==', v, cv, {'t': {}}), n):
                            if b:
                                starts.append((p3, i))
                            else:
                                nxt.append(p3)
                pend = nxt
            for p in pend:
                if dflt is not None:
                    starts.append((p, dflt))
                elif self.enum_exhausted(p, v, [e for k, e, x in items if k == 'case']):
                    pass
                else:
                    out.append((p, None))
            for p, i in starts:
                live = [p]
                for k, e, x in items[i:]:
                    if k != 'stmt':
                        continue
                    nxt = []
                    for q in live:
                        for q2, o in self.exec(x, q):
                            if o is None:
                                nxt.append(q2)
                            elif o[0] == 'break':
                                out.append((q2, None))
                            else:
                                out.append((q2, o))
                    live = nxt
                out += [(q, None) for q in live]
        return out

    def enum_exhausted(self, st, v, cases):
        qs = {c.get('q') for c in cases if c['k'] == 'enum'}
        for e in ENUMS:
            if qs == e:
                return True
        return False

    def s_try(self, n, st):
        saved = self.exits
        self.exits = []
        fr = st.frame
        sc = st.scopes
        try:
            res = self.exec(n['body'], st)
            exits = self.exits
        finally:
            self.exits = saved
        out = list(res)
        for s, o in exits:
            if o[0] != 'throw':
                self.exits.append((s, o))
                continue
            s.frame = fr
            self.end_scopes_to(s, sc)
            s.scopes = sc
            h = self.handler(n['h'], o)
            if h is None:
                self.exits.append((s, o))
                continue
            if h.get('var'):
                s.env[('v', fr.fid, h['var']['id'])] = o[1]
            self.emit(s, 'catch', n)
            out += self.exec(h['body'], s)
        return out

    def end_scopes_to(self, st, mark):
        while st.scopes and st.scopes != mark:
            self.end_scopes(st, st.scopes[0])

    def handler(self, hs, o):
        t = o[2] if len(o) > 2 else None
        for h in hs:
            if not h.get('var'):
                return h
            ht = h['var']['t'].get('rq')
            if ht is None or t is None or ht == t or ht == 'std::exception' or t.startswith('std::') and ht in ('std::runtime_error', 'std::logic_error') and ht == t:
                return h
        return None

    # ------------------------------------------------------------ loops
    def s_for(self, n, st):
        mark = st.scopes
        states = [st]
        if n.get('init'):
            states = [s for s, o in self.exec(n['init'], st) if o is None]
        out = []
        for s in states:
            out += self.loop(n, s, n.get('c'), n.get('inc'), n['body'], n.get('var'))
        for s, o in out:
            if o is None:
                self.end_scopes(s, mark)
        return out

    def s_while(self, n, st):
        return self.loop(n, st, n['c'], None, n['body'], n.get('var'))

    def s_do(self, n, st):
        # body once, then as a while loop
        out = []
        for s, o in self.exec(n['body'], st):
            if o is None or o[0] == 'cont':
                out += self.loop(n, s, n['c'], None, n['body'], None)
            elif o[0] == 'break':
                out.append((s, None))
            else:
                out.append((s, o))
        return out

    def s_rfor(self, n, st):
        out = []
        rng = n['range']
        v = n['var']
        rt = n.get('rt', {})
        srcs = []
        if self.isglv(rng):
            for s, l in self.lval(rng, st):
                srcs.append((s, self.canon(s, l)))
        else:
            for s, val in self.eval(rng, st):
                srcs.append((s, self.temp(s, val)))
        rq = rt.get('rq')
        kind = 'map' if rq in MAPS else 'set' if rq in SETS else 'seq'
        for s, L in srcs:
            def bind(s2, idx, L=L):
                loc = self.iter_deref(s2, ('it', L, ('i', idx), kind))
                if v.get('ref'):
                    s2.env[('v', s2.frame.fid, v['id'])] = ('&', loc)
                else:
                    s2.env[('v', s2.frame.fid, v['id'])] = self.load(s2, loc)
            cont = self.load(s, L)
            if cont[0] == 'seq' and len(cont[1]) <= 8:
                out += self.unroll_range(s, len(cont[1]), bind, n['body'])
            else:
                out += self.absloop(n, s, None, None, n['body'], None, rng=(L, kind, bind))
        return out

    def unroll_range(self, st, cnt, bind, body):
        live = [st]
        out = []
        for i in range(cnt):
            nxt = []
            for s in live:
                bind(s, ('lit', i))
                for s2, o in self.exec(body, s):
                    if o is None or o[0] == 'cont':
                        nxt.append(s2)
                    elif o[0] == 'break':
                        out.append((s2, None))
                    else:
                        out.append((s2, o))
            live = nxt
            self.guard(live)
        return out + [(s, None) for s in live]

    def loop(self, n, st, c, inc, body, var):
        r = self.try_unroll(n, st, c, inc, body, var)
        if r is not None:
            return r
        return self.absloop(n, st, c, inc, body, var)

    def try_unroll(self, n, st, c, inc, body, var):
        """loops whose trip count is decided by literals (at most 8)"""
        if c is None or var:
            return None
        probe = st.fork()
        saved = self.exits
        self.exits = []
        try:
            # the condition must be decidable at once
            live = [probe]
            out = []
            first = True
            for it in range(9):
                nxt = []
                for s in live:
                    cs = self.cond(c, s)
                    if len(cs) != 1 and not self.branchy:
                        return None
                    if len(cs) == 1 and first and not cs[0][1]:
                        return [(cs[0][0], None)] if self.flush(saved) else None
                    out += [(s2, None) for s2, b in cs if not b]
                    cs = [s2 for s2, b in cs if b]
                    if not cs:
                        continue
                    if it == 8:
                        return None
                    for s3, o in [x for s2 in cs for x in self.exec(body, s2)]:
                        if o is None or o[0] == 'cont':
                            for s4, _ in (self.eval(inc, s3) if inc else [(s3, None)]):
                                nxt.append(s4)
                        elif o[0] == 'break':
                            out.append((s3, None))
                        else:
                            out.append((s3, o))
                first = False
                live = nxt
                if not live:
                    self.flush(saved)
                    return out
                if len(live) > (600 if self.branchy else 64):
                    return None
            return None
        finally:
            if self.exits is not saved:
                self.exits = saved

    def flush(self, saved):
        saved.extend(self.exits)
        self.exits = saved
        return True

    def written(self, before, after):
        """locations existing before the loop whose content differs after"""
        w = set()
        roots = {root(k) for k in before.env}
        for k, v in after.env.items():
            if before.env.get(k) == v:
                continue
            r = root(k)
            if r[0] in ('v', 't') and r not in roots:
                continue
            if r[0] == 'v' and r[1] >= before.cnt.get('fr', 0):
                continue
            if r[0] == 'h' and r[1] >= before.cnt.get('h', 0):
                continue
            if k[0] == 'lk':
                continue
            if v[0] == '&' and k not in before.env:
                continue
            w.add(k)
        for k in before.env:
            if k not in after.env:
                w.add(k)
        return w

    def absloop(self, n, st, c, inc, body, var, rng=None):
        depth = st.ldepth + 1
        idx = ('idx', depth)
        W = {}
        induct = {}
        epochs = set()
        hi = None
        guardatom = None
        for rnd in range(8):
            s0 = st.fork()
            s0.ldepth = depth
            s0.tr = None
            # facts about an earlier loop's index at this depth do not apply
            s0.facts = {a: v for a, v in s0.facts.items() if not any_term(a, lambda x: x == idx)}
            outer_epoch = dict(s0.epoch)
            if epochs:
                self.havoc(s0, sorted(epochs))
            for loc in sorted(W, key=outerfirst):
                init = W[loc]
                if loc in induct:
                    stp = induct[loc]
                    v = self.closed(init, stp, idx)
                else:
                    v = self.phi(init, loc, depth)
                self.setphi(s0, loc, v)
            saved = self.exits
            self.exits = []
            ends = []       # states reaching the next iteration
            brk = []
            leave = []      # ret outcomes
            stop = []       # condition false states
            pre_count = None
            try:
                if rng:
                    L, kind, bind = rng
                    sz = size(self.load(s0, L))
                    a = ('lt', idx, sz)
                    s0.facts[a] = True
                    bind(s0, idx)
                    starts = [(s0, True)]
                    s0 = s0.fork()
                    hi = sz
                elif c is None:
                    starts = [(s0, True)]
                    s0 = s0.fork()
                else:
                    ss = [s0]
                    s0 = s0.fork()
                    if var:
                        ss = [x for s in ss for x in self.declare(var, s)]
                    starts = [y for s in ss for y in self.cond(c, s)]
                evaltr = [s.tr for s, b in starts if b]
                for s, b in starts:
                    if not b:
                        stop.append(s)
                        continue
                    for s2, o in self.exec(body, s):
                        if o is None or o[0] == 'cont':
                            for s3, _ in (self.eval(inc, s2) if inc else [(s2, None)]):
                                ends.append(s3)
                        elif o[0] == 'break':
                            brk.append(s2)
                        else:
                            leave.append((s2, o))
                exits = self.exits
            finally:
                self.exits = saved
            self.guard(ends)
            newW = {}
            for s in ends + brk + stop:
                for loc in self.written(s0, s):
                    if loc not in W:
                        newW[loc] = self.loadraw(st, loc)
            newE = set()
            for s in ends:
                for f, e in s.epoch.items():
                    if e != s0.epoch.get(f):
                        newE.add(f)
            if newW or not newE <= epochs:
                W.update(newW)
                epochs |= newE
                induct = {}
                continue
            # induction variables
            if not induct:
                found = {}
                for loc in W:
                    stp = None
                    for s in ends:
                        d = self.stepof(self.getphi(s0, loc), s.env.get(loc))
                        if d is None or (stp is not None and d != stp):
                            stp = None
                            break
                        stp = d
                    if stp:
                        found[loc] = stp
                if found:
                    induct = found
                    continue
            break
        # trip count
        ivs = sorted(induct, key=repr)
        keep = {}
        for loc, init in W.items():
            ph = self.getphi(s0, loc)
            if ph and ph[0] == 'phi' and ends and all(size(s.env.get(loc) or ph) == size(ph) for s in ends):
                keep[size(ph)] = size(init)     # its length stays what it was
        same = lambda x: keep.get(x) if x[0] == 'size' else None
        if hi is None and c is not None:
            hi = self.tripcount(st, s0, starts, idx, depth, same)
            if hi is not None and len(stop) > 1 and not self.onestop(s0, starts, stop, idx):
                hi = None       # it may also end for another reason
        elif hi is not None and keep:
            hi = subst(hi, same)
        paths = []
        for s in ends:
            paths.append(('next', s))
        for s in brk:
            paths.append(('break', s))
        for s, o in leave:
            paths.append(('ret', s))
        for s, o in exits:
            paths.append((o[0], s))
        spec = {'hi': hi, 'depth': depth, 'over': rng[0] if rng else None, 'kind': rng[1] if rng else None,
                'overval': self.load(st, rng[0]) if rng else None}
        sub = []
        for kk, s in paths:
            sub.append((kk, s, s.events()))
        lev = Ev('loop', {'spec': spec, 'paths': sub, 'hi': hi, 'depth': depth, 'W': dict(W), 'V': {},
                          'stop': [(s, s.events()) for s in stop]}, self.pos(st, n), self.fnname(st))
        lev.d['W'] = {loc: i for loc, i in W.items() if any(
            (s.env.get(loc) if s.env.get(loc) is not None else self.loadraw(s, loc)) != self.getphi(s0, loc)
            for s in ends + brk + stop)}
        out = []
        # normal termination
        after = st.fork()
        for s in ends + brk + [x for x, _ in leave] + [x for x, _ in exits] + stop:
            for k, v in s.cnt.items():
                if v > after.cnt.get(k, 0):
                    after.cnt[k] = v
        if epochs:
            self.havoc(after, sorted(epochs))
        for loc in sorted(W, key=outerfirst):
            init = W[loc]
            vals = []
            for s in ends:
                v = s.env.get(loc)
                if v is None:
                    v = self.loadraw(s, loc)
                if v not in vals:
                    vals.append(v)
            if loc in induct and hi is not None and not brk:
                v = self.closed(init, induct[loc], hi)
            else:
                ph = self.getphi(s0, loc)
                if len(vals) == 2 and all(x[0] == 'push' and x[1] == ph for x in vals):
                    g = self.guarded(s0, ends, loc, vals)
                    if g is not None:
                        vals = [('push', ph, g)]
                v = self.summarise(init, ph, vals, idx, depth, hi, loc, bool(brk))
            self.setphi(after, loc, v)
            lev.d['V'][loc] = v
        after.tr = (after.tr, lev)
        # effects of evaluating a final false condition (e.g. n-- > 0) are ignored, its facts kept
        if c is not None and stop and not brk and len(stop) == 1:
            f2 = self.exit_facts(st, s0, stop[0], after, induct, W, hi, depth)
            after.facts.update(f2)
        if hi is not None and hi[0] == 'lit':
            pass
        if c is not None or rng:
            out.append((after, None))
        for s in brk:
            out.append((self.leave_state(st, s, lev, depth), None))
        for s, o in leave:
            out.append((self.leave_state(st, s, lev, depth), o))
        for s, o in exits:
            self.exits.append((self.leave_state(st, s, lev, depth), o))
        return out

    def guarded(self, s0, ends, loc, vals):
        """the element pushed in an iteration, when one fact decides which of two it is"""
        sides = [[], []]
        for s in ends:
            v = s.env.get(loc)
            if v is None:
                v = self.loadraw(s, loc)
            sides[vals.index(v)].append(s.facts)
        for a in sides[0][0]:
            if a in s0.facts or a[0] not in ('lt', 'eq', 'nz'):
                continue
            p = {f.get(a) for f in sides[0]}
            q = {f.get(a) for f in sides[1]}
            if (p, q) in (({True}, {False}), ({False}, {True})):
                c = a[1] if a[0] == 'nz' else ('cmp', '<' if a[0] == 'lt' else '==', a[1], a[2])
                x, y = vals[0][2], vals[1][2]
                return ('ite', c, x, y) if p == {True} else ('ite', c, y, x)
        return None

    def leave_state(self, st, s, lev, depth):
        """state that leaves the loop early in some iteration: index gets a name of its own"""
        k = s.new('brk')
        name = ('some', 'iter', k)
        nm = ('iter', k)
        idx = ('idx', depth)
        f = lambda x: nm if x == idx else None
        r = s.fork()
        r.env = {self.subloc(l, idx, nm): subst(v, f) for l, v in s.env.items()}
        r.facts = {subst(a, f): v for a, v in s.facts.items()}
        r.ldepth = st.ldepth
        r.scopes = s.scopes
        tr = (st.tr, lev)
        for e in s.events():
            tr = (tr, e)
        r.tr = tr
        return r

    def subloc(self, l, a, b):
        return subst(l, lambda x: b if x == a else None)

    def loadraw(self, st, loc):
        v = st.env.get(loc)
        if v is None:
            v = self.default(st, loc)
        return v

    def setphi(self, st, loc, v):
        for x in [x for x in st.env if x[0] == 'f' and x != loc and self._under(x, loc)]:
            del st.env[x]
        st.env[loc] = v

    def getphi(self, st, loc):
        return st.env.get(loc)

    def phi(self, init, loc, depth):
        if init[0] == 'it':
            return ('it', init[1], ('i', ('phi', depth, loc))) + init[3:] if init[2][0] in ('i', 'end', 'next') else ('phi', depth, loc)
        if init[0] == '&':
            return init
        return ('phi', depth, loc)

    def closed(self, init, stp, n):
        if init[0] == 'it':
            if init[2][0] == 'end':
                return ('it', init[1], ('i', iadd(('endof', init[1]), imul(('lit', stp), n)))) + init[3:]
            return ('it', init[1], ('i', iadd(init[2][1], imul(('lit', stp), n)))) + init[3:]
        if init[0] == 'padd':
            r = iadd(init[2], imul(('lit', stp), n))
            return ('padd', init[1], r) if r != ZERO else init[1]
        if isinstance(stp, tuple):
            return ('padd', init, imul(('lit', stp[1]), n)) if n != ZERO else init
        return iadd(init, imul(('lit', stp), n))

    def stepof(self, ph, v):
        if ph is None or v is None:
            return None
        if ph[0] == 'it' and v[0] == 'it' and ph[1] == v[1] and ph[2][0] == 'i' and v[2][0] == 'i':
            d = lindiff(v[2][1], ph[2][1])
            return d or None
        if ph[0] == 'phi':
            if v[0] == 'padd' and v[1] == ph and v[2][0] == 'lit':
                return ('p', v[2][1])
            d = lindiff(v, ph)
            return d or None
        return None

    def onestop(self, s0, starts, stop, idx):
        """all ways out of the condition are the guard on the index having failed"""
        good = [s for s, b in starts if b][0]
        new = [(a, v) for a, v in good.facts.items() if a not in s0.facts and any_term(a, lambda x: x == idx)]
        a, v = new[0]
        return all(s.facts.get(a) is (not v) for s in stop)

    def tripcount(self, st, s0, starts, idx, depth, same=lambda x: None):
        """number of iterations from the guard facts, when the guard is a simple comparison"""
        good = [s for s, b in starts if b]
        if len(good) != 1:
            return None
        s = good[0]
        new = [(a, v) for a, v in s.facts.items() if a not in s0.facts and any_term(a, lambda x: x == idx)]
        if len(new) < 1:
            return None
        a, v = new[0]
        a = (a[0],) + tuple(subst(x, same) for x in a[1:])
        def inv(t):
            return not any_term(t, lambda x: x[0] == 'phi' and x[1] == depth)
        if a[0] == 'lt':
            x, y = a[1], a[2]
            if not v:
                x, y = y, iadd(x, ONE)      # x>=y  ->  y < x+1
            # x < y with x = a + c*idx
            d = isub(y, x)                 # > 0
        elif a[0] == 'eq' and not v:
            d = isub(a[2], a[1])
            c0, dd = (d[1], dict(d[2])) if d[0] == 'lin' else (0, {d: 1})
            if dd.get(idx, 0) > 0:
                d = isub(a[1], a[2])
        elif a[0] == 'nz' and v:
            d = a[1]
        else:
            return None
        if not inv(d):
            return None
        c0, dd = (d[1], dict(d[2])) if d[0] == 'lin' else ((0, {d: 1}))
        k = dd.pop(idx, 0)
        if k == -1 and not any(any_term(t, lambda x: x == idx) for t in dd):
            r = ('lit', c0)
            for t, co in dd.items():
                r = iadd(r, imul(('lit', co), t))
            return r
        return None

    def exit_facts(self, st, s0, stop, after, induct, W, hi, depth):
        """facts the failed condition leaves behind, in terms of the values after the loop"""
        m = {}
        for loc in W:
            ph = self.getphi(s0, loc)
            if ph and ph[0] == 'phi':
                m[ph] = after.env.get(loc)
        out = {}
        for a, v in stop.facts.items():
            if a in s0.facts:
                continue
            if any_term(a, lambda x: x == ('idx', depth)):
                continue
            b = subst(a, lambda x: m.get(x) if x[0] == 'phi' and x in m else None)
            if not any_term(b, lambda x: x[0] == 'phi' and x[1] == depth):
                out[b] = v
        return out

    def summarise(self, init, ph, vals, idx, depth, hi, loc, brk):
        if len(vals) == 1 and hi is not None and not brk:
            v = vals[0]
            if v == ph:
                return init
            if v[0] == 'upd' and v[1] == ph and v[2] == idx:
                e = subst(v[3], lambda x: at(init, idx) if x == ('at', ph, idx) else None)
                if not mentions(e, ph):
                    return ('map', init, depth, hi, e)
            if v[0] == 'upd' and v[1] == ph and v[2] != idx:
                e = v[3]
                k = dict(v[2][2]).get(idx, 0) if v[2][0] == 'lin' else 0
                if k and not any(any_term(t, lambda x: x == idx) for t, co in v[2][2] if t != idx):
                    # a different place in every iteration
                    e = subst(v[3], lambda x: at(init, v[2]) if x == ('at', ph, v[2]) else None)
                if not mentions(e, ph) and not mentions(v[2], ph):
                    return ('scatter', init, depth, hi, v[2], e)
            if v[0] == 'push' and v[1] == ph and init == ('seq', ()) and v[2][0] == 'at' and v[2][2] == idx and hi == size(v[2][1]) and not mentions(v[2][1], idx) and not mentions(v[2][1], ph):
                return v[2][1]
            if v[0] == 'push' and v[1] == ph and not mentions(v[2], ph):
                return ('gen', init, depth, hi, v[2])
            if v[0] in ('mupd',) and v[1] == ph and not mentions(v[2], ph) and not mentions(v[3], ph):
                return ('genm', init, depth, hi, v[2], v[3])
            if v[0] == 'op' and len(v) == 4 and v[2] == ph and not mentions(v[3], ph):
                return ('fold', v[1], init, depth, hi, v[3])
            if v[0] == 'op' and len(v) == 4 and v[3] == ph and not mentions(v[2], ph) and v[1] in '+*':
                return ('fold', v[1], init, depth, hi, v[2])
            if v[0] == 'lin' and dict(v[2]).get(ph) == 1:
                r = isub(v, ph)
                if not mentions(r, ph):
                    return ('fold', '+', init, depth, hi, r)
            if not mentions(v, ph):
                return ('last', init, depth, hi, v)
        if not vals and not brk:
            return init
        vs = tuple(sorted(vals, key=repr))
        return ('loopv', depth, init, tuple(replace(v, ph, ('prev',)) for v in vs), hi or ('unk', 'trip'))

    # ------------------------------------------------------------ what calls may modify
    def modset(self, n, f, virt):
        out = set()
        if virt and n.get('cls'):
            for t in self.p.targets(n['cls'], n['fn']):
                out |= self.modset_fn(t)
        else:
            out |= self.modset_fn(n.get('fn'))
        return out

    def modset_fn(self, u):
        if not hasattr(self.p, '_mods'):
            compute_mods(self.p)
        return self.p._mods.get(u, set())

    # ------------------------------------------------------------ entry
    def run(self, f, this=('d', ('this',)), dyn=None, args=None, st=None):
        """analyse one function from an arbitrary entry state -> [Path]"""
        st = st or empty_state()
        self.exits = []
        if dyn:
            st.dyn[this] = dyn
        vs = []
        for i, p in enumerate(f['params']):
            if args and args.get(i) is not None:
                vs.append(args[i])
                continue
            v = ('par', p['n'] or 'arg%d' % i)
            if p['t'].get('ref'):
                vs.append(('&', ('d', v)))
                if not p['t'].get('ptr') and p['t'].get('rec') in self.p.classes:
                    pass
            else:
                vs.append(v)
        self.entry = f
        res = self.invoke(f, this if not f.get('static') and f.get('cls') else None, vs, st, None,
                          ctor=f.get('kind') == 'ctor', dyn=dyn if f.get('kind') == 'ctor' else None)
        out = []
        for s, v in res:
            s.frame = None
            out.append(Path(s, 'ret', self.load(s, v[1]) if v[0] == '&' else v, self))
        for s, o in self.exits:
            s.frame = None
            out.append(Path(s, o[0], o[1] if len(o) > 1 else None, self))
        return out


ENUMS = [{'nnet::UNSUBSCRIBE', 'nnet::UPDATE'}, {'nnet::notification::UNSUBSCRIBE', 'nnet::notification::UPDATE'}]


def compute_mods(p):
    """field names each function may modify, transitively (virtual calls by class hierarchy)"""
    direct = {}
    calls = {}

    def lvroot(n, acc):
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'mem':
                acc.add(n['n'])
                n = n['b'] if not n.get('arrow') else None
            elif k in ('idx',):
                n = n['b']
            elif k == 'un' and n['op'] in ('*', '++', '--'):
                n = None
            elif k == 'mcall' and n.get('q', '').split('::')[-1] in ('operator[]', 'at', 'front', 'back', 'first', 'second', 'begin'):
                n = n['o']
            elif k == 'cast':
                n = n['e']
            else:
                return

    def walk(n, acc, cl):
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'asg':
                lvroot(n['l'], acc)
            elif k == 'un' and n.get('op') in ('++', '--'):
                lvroot(n['e'], acc)
            elif k == 'mcall':
                if n.get('fn') not in p.fns and not n.get('cm') and n.get('q', '').split('::')[-1] not in (
                        'begin', 'end', 'find', 'size', 'empty', 'at', 'operator[]', 'front', 'back', 'operator*', 'operator->', 'get', 'rbegin', 'rend'):
                    lvroot(n['o'], acc)
                if n.get('q', '').split('::')[-1] == 'operator[]' and 'map' in n.get('q', ''):
                    lvroot(n['o'], acc)
                cl.append((n.get('fn'), n.get('cls') if n.get('virt') else None))
            elif k in ('call', 'ctor'):
                cl.append((n.get('fn'), None))
            if k in ('call', 'mcall', 'ctor') and n.get('fn') not in p.fns and n.get('q') not in ('std::move', 'std::forward'):
                for a, fl in zip(n.get('a', []), n.get('pf', [])):
                    if fl == 1:
                        lvroot(a, acc)
            if k in ('call', 'mcall') and n.get('q') == 'std::move':
                for a in n.get('a', []):
                    lvroot(a, acc)
            if k == 'del':
                pass
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v, acc, cl)
        elif isinstance(n, list):
            for v in n:
                walk(v, acc, cl)
    for u, f in p.fns.items():
        acc, cl = set(), []
        walk(f.get('body'), acc, cl)
        walk(f.get('inits'), acc, cl)
        direct[u] = acc
        outs = set()
        for fn, vc in cl:
            if vc:
                outs.update(p.targets(vc, fn))
            elif fn:
                outs.add(fn)
        calls[u] = outs
    mods = {u: set(s) for u, s in direct.items()}
    ch = True
    while ch:
        ch = False
        for u, outs in calls.items():
            m = mods[u]
            n0 = len(m)
            for o in outs:
                if o in mods:
                    m |= mods[o]
            if len(m) != n0:
                ch = True
    p._mods = mods
    p._calls = calls
    p._direct = direct
