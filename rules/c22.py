"""C22: the replay memory keeps the newest experiences, unaltered and bounded."""
from common import *

CLS = 'rocnnet::dq_net'
STORE = CLS + '::store'
THIS = ('d', ('this',))
MANY = 10 ** 6


def mine(g):
    """calls that leave the agent stay calls"""
    return inner(CLS)(g)


def seqform(t, base):
    """t as (k, [items]): the base with its k oldest entries gone, followed by items; None when it is anything else"""
    if t == base:
        return 0, []
    if t[0] == 'push':
        s = seqform(t[1], base)
        return s and (s[0], s[1] + [t[2]])
    if t[0] == 'erased':
        s = seqform(t[1], base)
        if s and not s[1][1:] and t[2:] and t[2] == ('i', ZERO):
            n = ONE if len(t) == 3 else t[3][1] if t[3][0] == 'i' else t[3]
            if n[0] == 'lit':
                return s[0] + n[1], s[1]
    if t[0] == 'loopv' and len(t[3]) == 1 and seqform(t[3][0], ('prev',)) == (1, []):
        # one entry at a time, until the loop's condition fails
        s = seqform(t[2], base)
        if s and len(s[1]) == 1:
            return MANY, s[1]
    return None


def entry(x):
    return dict(x[2]) if x[0] in ('struct', 'with') else {}


class Memory:
    """what the memory, its entries and the counter are, found from what storing does"""
    def __init__(self, ctx):
        self.f, = ctx.fns(STORE)
        ctx.need(len(self.f['params']) == 4, 'store takes an observation, an action, a reward and the next observation')
        self.given = [('par', p['n']) for p in self.f['params']]
        self.paths = ctx.run(self.f, mine, mods=False)
        self.loc = None
        for pa in self.paths:
            for e, c in flat(pa.ev):
                if e.k == 'cmut' and e.loc[0] == 'f' and e.loc[1] == THIS:
                    self.loc = e.loc
        ctx.need(self.loc is not None, 'the memory that store adds to')
        self.val = ('fld', ('deref', ('this',)), self.loc[2])
        self.fields = {}
        for pa in self.paths:
            s = seqform(pa.ip.load(pa.st, self.loc), self.val)
            if s and len(s[1]) == 1:
                for n, v in entry(s[1][0]).items():
                    if v in self.given:
                        self.fields[self.given.index(v)] = n


def check(ctx):
    ctx.explain = ('Every path of storing an experience: what the memory holds afterwards, as a term over what it held before, and the facts of the path; '
                   'and every other public operation of the agent leaves the memory alone.')
    ctx.rule('every interval', 'exactly each store_interval-th experience, starting with the first, is remembered; the count of calls advances by one each time')
    ctx.rule('unaltered', 'the remembered entry is the given observation, action, reward and next observation, and goes behind the older ones; nothing else changes the memory')
    ctx.rule('bounded', 'the memory never holds more than the configured maximum, and forgets only when full, one entry, the oldest')
    m = Memory(ctx)
    w = site(m.f)
    n = size(m.val)
    stored = dropped = 0
    for pa in m.paths:
        st = pa.st
        if pa.out != 'ret':
            ctx.fail('every interval', w, 'storing an experience can fail: %s' % pa.where(), key='store:fails')
            continue
        strides = [(a, v) for a, v in st.facts.items() if a[0] == 'nz' and a[1][0] == 'op' and a[1][1] == '%']
        if len(strides) != 1 or strides[0][0][1][2][0] != 'fld':
            ctx.fail('every interval', w, 'whether an experience is remembered is not decided by the number of calls modulo the interval', key='store:stride')
            continue
        (a, v), = strides
        cnt = a[1][2]
        ctx.ob('every interval', w, 'store_interval' in repr(a[1][3]), 'the interval used is the configured store interval', key='store:interval')
        ctx.ob('every interval', w, pa.ip.load(st, ('f', THIS, cnt[2])) == iadd(cnt, ONE), 'the number of calls advances by one', key='store:count')
        val = pa.ip.load(st, m.loc)
        s = seqform(val, m.val)
        if s is None:
            ctx.fail('bounded', w, 'the memory is not its old content less the oldest entries, followed by the new one: %s' % show(val)[:160], key='store:content', detail=pa.where())
            continue
        k, items = s
        if v:
            ctx.ob('every interval', w, val == m.val, 'between two intervals the memory stays as it is', key='store:skipped', detail=pa.where())
            continue
        stored += 1
        ctx.ob('unaltered', w, len(items) == 1, 'one entry is added (%d found)' % len(items), key='store:one', detail=pa.where())
        for x in items:
            fs = entry(x)
            ctx.ob('unaltered', w, sorted(fs.values(), key=repr) == sorted(m.given, key=repr),
                   'the entry holds the given values: %s' % [show(t) for t in fs.values()], key='store:entry')
        b = bounds(st)
        caps = {x for ij in b for x in ij if x[0] == 'fld' and 'max_exp' in repr(x)}
        if not caps:
            ctx.fail('bounded', w, 'an experience is added without regard to the configured maximum', key='store:over', detail=pa.where())
            continue
        cap, = caps
        if k == MANY:
            dropped += 1
            held = b.get((size(val), cap), 1) <= 0
            full = all(bounds(s).get((cap, ('size', i)), 1) <= -1 for e in pa.ev if e.k == 'loop' for kind, s, sub in e.paths for i in [('phi', e.depth, m.loc)])
            ctx.ob('bounded', w, held and full, 'entries are forgotten one by one while the memory is over its maximum', key='store:over', detail=pa.where())
            continue
        ctx.ob('bounded', w, k >= 1 or b.get((n, cap), 1) <= -1, 'after storing, the size is within the maximum', key='store:over', detail=pa.where())
        if k:
            dropped += 1
            ctx.ob('bounded', w, k == 1 and b.get((cap, n), 1) <= 0, 'only a full memory forgets, and only one entry', key='store:early', detail=pa.where())
    ctx.ob('every interval', w, stored > 0, 'experiences are remembered', key='store:none')
    ctx.ob('bounded', w, dropped > 0, 'a full memory makes room', key='store:unbounded')
    p = ctx.prog()
    for q, fs in sorted(p.byq.items()):
        for g in fs:
            if not q.startswith(CLS + '::') or g.get('body') is None or g.get('access') != 'public' or g.get('kind') in ('ctor', 'dtor') or \
                    lname(q) in ('store', 'operator='):
                continue
            for pa in ctx.run(g, mine, mods=False):
                touched = [e for e, c in flat(pa.ev) if fwrites(e, m.loc[2]) == THIS]
                ctx.ob('unaltered', site(g), not touched, '%s leaves the memory as it is' % lname(q), key='other:' + lname(q), detail=pa.where())
