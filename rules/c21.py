"""C21: the edge recorder of the recording build holds exactly the graph's edges."""
from common import *
from edges import *
import c01

GOOD = ('glob', 'rocnnet_record::record_status::rec_good')
REC = 'rocnnet_record::'


class Recording:
    """the same analyses over the recording build, under this property's own keys"""

    def __init__(self, ctx):
        self.c = ctx

    def __getattr__(self, n):
        return getattr(self.c, n)

    def fns(self, q, **kw):
        return self.c.fns(q, config='csv', **kw)

    def run(self, f, *a, **kw):
        return self.c.run(f, *a, config='csv', **kw)

    def prog(self):
        return self.c.prog('csv')

    def key(self, k):
        return None if k is None else k.replace('C01:', 'C21:same:')

    def rule(self, n, t):
        self.c.rule('same-' + n, 'recording build: ' + t)

    def ob(self, rule, where, ok, text, key=None, detail=None):
        return self.c.ob('same-' + rule, where, ok, text, self.key(key), detail)

    def fail(self, rule, where, text, key=None, detail=None):
        return self.ob(rule, where, False, text, key, detail)


def told(ip, e):
    """what a call says to the recorder"""
    if e.k == 'call' and e.q.startswith(REC) and lname(e.q) in ('edge_capture', 'edge_release', 'node_release'):
        return (lname(e.q),) + tuple(e.args)
    return None


def says(p, ev=None):
    out = []
    for e, c in flat(p.ev if ev is None else ev):
        t = told(p.ip, e)
        if t:
            out.append((t, c, e))
    return out


def check_mirror(rc):
    ctx = rc.c
    ctx.rule('mirror', 'while the recorder lives, attach tells it the edge, detach each edge it takes away, and the destructor that the subject is gone; nothing else tells it anything')
    ctx.rule('lives', 'the recorder is talked to only while it lives')
    half = keep(*QUIET)
    ok_sites = set()

    def lives(p, tag, f):
        for t, c, e in says(p):
            ctx.ob('lives', site(f), p.facts.get(('nz', GOOD)) is True, 'the recorder is used without looking whether it is still there', 'C21:lives:' + tag, p.where())

    for f in rc.fns('nnet::subject::attach'):
        v, i = [('par', p['n']) for p in f['params']]
        for p in rc.run(f, half):
            lives(p, 'attach', f)
            t = [x for x, _, _ in says(p)]
            good = p.facts.get(('nz', GOOD))
            ok = t == ([] if good is False else [('edge_capture', v, THIS, i)])
            ctx.ob('mirror', site(f), ok, 'attach must record the edge (viewer, this, idx) once; it tells the recorder %s' % t, 'C21:attach', p.where())
    for f in rc.fns('nnet::subject::detach'):
        ps = [('par', p['n']) for p in f['params']]
        v = ps[0]
        A = ('fld', ('deref', THIS), AUD)
        for p in rc.run(f, half):
            lives(p, 'detach%d' % len(ps), f)
            good = p.facts.get(('nz', GOOD))
            inmap = p.facts.get(('has', A, v))
            s = says(p)
            if good is False:
                ctx.ob('mirror', site(f), not s, 'no recorder to tell', 'C21:detach%d' % len(ps), p.where())
            elif len(ps) == 2:
                i = ps[1]
                t = [x for x, _, _ in s]
                no = inmap is False or p.facts.get(('has', mget(A, v), i)) is False
                ok = t == [('edge_release', v, THIS, i)] or (not t and no)
                ctx.ob('mirror', site(f), ok, 'detach(viewer, idx) must take the edge (viewer, this, idx) out of the record; it tells the recorder %s' % t, 'C21:detach2', p.where())
            else:
                def each(ev_):
                    return [t for e2, c2 in flat(ev_) for t in [told(p.ip, e2)] if t]
                whole = [e for e in p.ev if e.k == 'loop' and e.hi == sz(mget(A, v)) and
                         all(k == 'next' and each(ev2) == [('edge_release', v, THIS, ('nkey', mget(A, v), ('idx', e.depth)))] for k, _, ev2 in e.paths)]
                top = [x for x, c, _ in s if not c]
                n = sum(1 for e in p.ev if e.k == 'loop' and says(p, [e]))
                ok = not top and ((len(whole) == 1 and n == 1) or (inmap is False and n == 0))
                ctx.ob('mirror', site(f), ok, 'detach(viewer) must take every edge of the viewer out of the record', 'C21:detach1', p.where())
            # asking the audience about a viewer must not enter it
            seen = None
            for e in p.ev:
                if e.k == 'assume' and e.atom == ('has', A, v):
                    seen = e.val
                if e.k == 'touch' and e.key == v and fld_loc(e.loc, AUD) is not None:
                    ctx.ob('same-audience', site(f), seen is True, 'looking a viewer up enters it into the audience: what was no observer then counts as the last one leaving',
                           'C21:same:enter%d' % len(ps), p.where())
    for f in rc.fns('nnet::subject::~subject'):
        for p in rc.run(f, keep('notify', 'remove_ondeath_dependent', *QUIET)):
            lives(p, 'gone', f)
            good = p.facts.get(('nz', GOOD))
            s = says(p)
            ok = [x for x, _, _ in s] == ([] if good is False else [('node_release', THIS)])
            ctx.ob('mirror', site(f), ok, 'a subject that is destroyed must be taken out of the record; it tells the recorder %s' % [x for x, _, _ in s], 'C21:gone', p.where())
            if ok and s:
                i = p.ev.index(s[0][2])
                late = [e for e, _ in flat(p.ev[i + 1:]) if e.k == 'call' and lname(e.q) in ('notify', 'attach')]
                ctx.ob('mirror', site(f), not late, 'the subject is taken out of the record before its observers have left it', 'C21:gone:early', p.where())
    # who else talks to the recorder
    import astq
    for f in rc.prog().fns.values():
        if not f['q'].startswith('nnet::') or not f.get('body') or f['q'] in ('nnet::subject::attach', 'nnet::subject::detach', 'nnet::subject::~subject'):
            continue
        for n in astq.walk(f['body']):
            if n.get('k') in ('call', 'mcall') and lname(n.get('q') or '') in ('edge_capture', 'edge_release', 'node_release'):
                ctx.ob('mirror', astq.where(f, n), f['q'] in ctx.functions, '%s tells the recorder something on its own' % f['q'], 'C21:other:' + f['q'])


def info(ip, st, t):
    """(observer, slot) of a record entry"""
    if t[0] in ('with', 'struct', 'cobj'):
        d = {}
        for x in t[1:]:
            if isinstance(x, tuple) and x and all(isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str) for y in x):
                d.update(dict(x))
        if set(d) >= {'obs_', 'idx_'}:
            return d['obs_'], d['idx_']
    return None


def check_store(rc):
    ctx = rc.c
    ctx.rule('store', 'the recorder keeps exactly the edges it was told and not told to forget, of observers that are to be recorded; two entries are one exactly when observer and slot agree')
    N = ('fld', ('deref', THIS), 'subj_nodes')
    qr = 'nnet::iobserver::is_recordable'

    def changes(p):
        """net effect on the record: list of ('put', sub, entry) / ('del', sub, entry) / ('drop', sub) / ('?',)"""
        out = []
        for e, c in flat(p.ev):
            if e.k != 'cmut' or 'subj_nodes' not in show(e.loc):
                continue
            l = e.loc
            if l[0] == 'm' and fld_loc(l[1], 'subj_nodes') is not None:
                if e.op in ('insert', 'emplace'):
                    out.append(('put', l[2], info(p.ip, p.st, e.args[-1])) if not c else ('?', show(e.loc)))
                elif e.op == 'erase':
                    out.append(('del', l[2], info(p.ip, p.st, e.args[0])) if not c else ('?', show(e.loc)))
                else:
                    out.append(('?', e.op))
            elif fld_loc(l, 'subj_nodes') is not None:
                if e.op in ('insert', 'emplace') and e.args[-1] in (('emptym',), ('seq',)):
                    if p.facts.get(('has', N, e.args[0])) is not False:
                        out.append(('?', 'emptied'))
                elif e.op == 'erase':
                    out.append(('drop', e.args[0]))
                else:
                    out.append(('?', e.op))
            else:
                out.append(('?', show(l)))
        return out
    for f in rc.fns(REC + 'adjlist_record::edge_capture'):
        o, s, i = [('par', p['n']) for p in f['params']]
        for p in rc.run(f, keep('is_recordable')):
            r = p.facts.get(('nz', ('mfn', qr, o)))
            ch = changes(p)
            ok = p.out == 'ret' and r is not None and ch == ([('put', s, (o, i))] if r else [])
            ctx.ob('store', site(f), ok, 'recording an edge must enter (observer, slot) under its subject, if the observer is to be recorded; it does %s' % ch, 'C21:capture', p.where())
    for f in rc.fns(REC + 'adjlist_record::edge_release'):
        o, s, i = [('par', p['n']) for p in f['params']]
        for p in rc.run(f, keep('is_recordable')):
            ch = changes(p)
            there = p.facts.get(('has', N, s))
            rec = p.facts.get(('nz', ('mfn', qr, o)))
            no = there is False or rec is False or any(a[0] == 'has' and v is False and a[1] == mget(N, s) for a, v in p.facts.items())
            dele = [x for x in ch if x[0] != 'drop']
            drop = [x for x in ch if x[0] == 'drop']
            empty = any(a[0] == 'nz' and v is False and a[1][0] == 'size' and a[1][1][0] == 'merase' for a, v in p.facts.items())
            ok = p.out == 'ret' and (dele == [('del', s, (o, i))] or (not dele and no)) and (not drop or (drop == [('drop', s)] and empty))
            ctx.ob('store', site(f), ok, 'releasing an edge must take exactly (observer, slot) out from under its subject; it does %s' % ch, 'C21:release', p.where())
    for f in rc.fns(REC + 'adjlist_record::node_release'):
        s = ('par', f['params'][0]['n'])
        for p in rc.run(f, keep()):
            ch = changes(p)
            ok = p.out == 'ret' and (ch == [('drop', s)] or (not ch and p.facts.get(('has', N, s)) is False))
            ctx.ob('store', site(f), ok, 'a subject that is gone must be taken out of the record, with all its edges; it does %s' % ch, 'C21:node', p.where())
    fs = rc.fns(REC + 'operator==', pred=lambda f: 'obs_info' in f['sig'])
    for f in fs:
        a, b = [('par', p['n']) for p in f['params']]
        need = {tuple(sorted((('fld', ('deref', a), n), ('fld', ('deref', b), n)), key=repr)) for n in ('obs_', 'idx_')}
        for p in rc.run(f, keep()):
            got, ne = set(), False
            for at_, v in p.facts.items():
                if at_[0] == 'eq':
                    t = tuple(sorted(at_[1:3], key=repr))
                    if v:
                        got.add(t)
                    else:
                        ne = ne or t in need
            r, neg = p.val, False
            while r and r[0] == 'op' and r[1] in ('!', 'not') or r and r[0] == 'not':
                r, neg = r[-1], not neg
            if r and r[0] == 'cmp' and r[1] in ('==', '!='):
                got.add(tuple(sorted(r[2:4], key=repr)))
                ok = got == need and not ne and (r[1] == '==') != neg
            elif r == ('lit', not neg):
                ok = got == need and not ne
            elif r == ('lit', neg):
                ok = ne
            else:
                ok = False
            ctx.ob('store', site(f), ok, 'two entries are the same exactly when both observer and slot are', 'C21:equal', p.where())
    for f in rc.fns(REC + 'adjlist_record::obs_info_hash::operator()'):
        x = ('deref', ('par', f['params'][0]['n']))
        for p in rc.run(f, keep()):
            bad = p.val is None or mentions(own(p.val, x), x[1]) or any(t[0] == '&' for t in subterms(p.val))
            ctx.ob('store', site(f), p.out == 'ret' and not bad, 'equal entries must have equal hashes: it depends on the fields alone', 'C21:hash', p.where())
    ctx.rule('recordable', 'what an observer was made with decides whether it is recorded, and is settled before its first edge')
    for f in rc.fns('nnet::iobserver::is_recordable'):
        for p in rc.run(f, keep()):
            ctx.ob('recordable', site(f), p.val == ('fld', ('deref', THIS), 'recordable_'), 'an observer tells how it was made', 'C21:recordable', p.where())
    for f in rc.fns('nnet::iobserver::iobserver'):
        rp = [p['n'] for p in f['params'] if p['t'].get('k') == 'b']
        for p in rc.run(f, keep('attach', 'detach', 'replace_dependency', *QUIET)):
            if p.out != 'ret':
                continue
            want = ('par', rp[0]) if rp else ('fld', ('deref', ('par', f['params'][0]['n'])), 'recordable_')
            fin = p.load(('f', ('d', THIS), 'recordable_'))
            ctx.ob('recordable', site(f), fin == want, 'an observer keeps what it was made with (%s)' % show(fin)[:60], 'C21:recordable:made:' + f['sig'], p.where())
            seen = False
            for e, _ in flat(p.ev):
                if e.k == 'write' and fld_loc(e.loc, 'recordable_') is not None and root(e.loc) == ('d', THIS):
                    seen = True
                if e.k == 'call' and lname(e.q) == 'attach':
                    ctx.ob('recordable', site(f), seen, 'an edge is made before it is settled whether to record it', 'C21:recordable:order:' + f['sig'], p.where())
    for f in rc.fns(REC + 'igraph_record::~igraph_record'):
        for p in rc.run(f, keep()):
            ctx.ob('lives', site(f), p.load(('g', GOOD[1])) == ('lit', False), 'a recorder that is gone must say so', 'C21:dead', p.where())


def own(t, x):
    """t without the fields of x"""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == 'fld' and t[1] == x:
            return ('field', t[2])
        return tuple(own(y, x) for y in t)
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            yield from subterms(x)


def number(ctx, rc, f, p, s, parts, nodes, idx):
    """nodes are told apart by numbers: each has one, and no other has it"""
    fresh = []
    for part, a in zip(parts, nodes):
        same = lambda t: t == a or t[0] == 'dyn' and t[-1] == a
        ns = [t[2] for z in part for t in subterms(z) if t[0] == 'txt' and t[1] == 'u']
        if not ns:
            continue            # by name
        x = ns[0]
        ok = len(set(ns)) == 1
        if x[0] == 'mget':
            ok = ok and same(x[2]) and p.ip.decide(s, ('has', x[1], x[2])) is not False
        else:
            ms = [t[1] for t, v in s.facts.items() if t[0] == 'has' and v is False and same(t[2])]
            kept = counted = False
            for m in ms:
                l = m[2] if m[0] == 'phi' else None
                t = p.ip.load(s, l) if l else ('none',)
                while t[0] == 'mupd':
                    kept = kept or same(t[2]) and t[3] == x
                    t = t[1]
            for t in subterms(x):
                if t[0] == 'phi':
                    d = lindiff(p.ip.load(s, t[2]), x)
                    counted = isinstance(d, int) and d >= 1
            fresh.append(x)
            ok = ok and kept and counted
        ctx.ob('report', site(f), ok, 'the number of a node is not its own: %s' % show(x)[:80], 'C21:report:number', p.where())
    ctx.ob('report', site(f), len(set(fresh)) == len(fresh), 'two nodes get the same number', 'C21:report:number', p.where())


def check_report(rc):
    ctx = rc.c
    ctx.rule('report', 'the report has one line for each recorded edge of a node of the type and, when asked, the graph: observer, subject, slot')
    N = ('fld', ('deref', THIS), 'subj_nodes')
    for f in rc.fns(REC + 'csv_record::to_csv'):
        g = ('par', f['params'][0]['n'])
        for p in rc.run(f, keep('is_same_graph', 'print_shape', 'get_name', 'get_label', 'get_shape')):
            outer = [e for e in p.ev if e.k == 'loop' and e.hi == sz(N)]
            if not outer:
                shut = any(a[0] == 'nz' and v is False and 'is_open' in show(a) for a, v in p.facts.items())
                ctx.ob('report', site(f), shut, 'the recorded edges are not gone through', 'C21:report:none', p.where())
                continue
            stray = [e for e in p.ev if e.k == 'put']
            ctx.ob('report', site(f), not stray and len(outer) == 1, 'the report has lines that stand for no edge', 'C21:report:stray', p.where())
            e = outer[0]
            sub = ('nkey', N, ('idx', e.depth))
            S = mget(N, sub)
            for k, s, ev in e.paths:
                inner = [x for x in ev if x.k == 'loop' and x.hi == sz(S)]
                if not inner:
                    typed = any(a[0] == 'nz' and v is False and a[1][0] == 'dyn' and a[1][2] == sub for a, v in s.facts.items())
                    ctx.ob('report', site(f), k == 'next' and typed, 'a subject is left out, or the report ends, for another reason than its type', 'C21:report:subject', p.where())
                    continue
                ctx.ob('report', site(f), k == 'next' and len(inner) == 1 and not [x for x in ev if x.k == 'put'], 'each edge of a subject is reported once', 'C21:report:once', p.where())
                x = inner[0]
                ent = ('nkey', S, ('idx', x.depth))
                obs, idx = ('fld', ent, 'obs_'), ('fld', ent, 'idx_')
                for k2, s2, ev2 in x.paths:
                    puts = [y for y, _ in flat(ev2) if y.k == 'put' and root(y.loc) == y.loc]
                    files = {}
                    for y in puts:
                        files.setdefault(y.loc, []).append(y.val)
                    line = [v for l, v in files.items() if any(t == idx for z in v for t in subterms(z))]
                    if not line:
                        skip = any(a[0] == 'nz' and v is False and a[1][0] == 'mfn' and lname(a[1][1]) == 'is_same_graph' and set(a[1][2:]) == {obs, g} for a, v in s2.facts.items()) \
                            and s2.facts.get(('nz', g)) is True
                        ctx.ob('report', site(f), k2 == 'next' and skip, 'an edge is left out for another reason than its graph', 'C21:report:skip', p.where())
                        continue
                    asked = s2.facts.get(('nz', g)) is False or any(a[0] == 'nz' and v is True and a[1][0] == 'mfn' and lname(a[1][1]) == 'is_same_graph' and set(a[1][2:]) == {obs, g} for a, v in s2.facts.items())
                    txt = []
                    for z in line[0]:
                        txt += list(z[1]) if z[0] == 'scat' else [z]
                    parts, cur = [], []
                    for z in txt:
                        if z in (('str', ','), ('str', str(ord(',')))):
                            parts.append(cur)
                            cur = []
                        else:
                            cur.append(z)
                    parts.append(cur)

                    def about(ts, a):
                        ms = [t for z in ts for t in subterms(z)]
                        return any(t == a for t in ms)
                    ok = len(line) == 1 and len(parts) == 3 and about(parts[0], obs) and about(parts[1], sub) and not about([z for z in parts[1]], idx) \
                        and [z for z in parts[2] if about([z], idx)] and parts[2][-1] in (('str', '\n'), ('str', '10'))
                    nl = sum(1 for z in txt if z in (('str', '\n'), ('str', '10')))
                    ctx.ob('report', site(f), ok and nl == 1 and k2 == 'next', 'the line of an edge is observer, subject, slot', 'C21:report:line', p.where())
                    ctx.ob('report', site(f), asked, 'edges of other graphs are reported', 'C21:report:graph', p.where())
                    number(ctx, rc, f, p, s2, parts, (obs, sub), idx)
                    # who is who: a name or label called on the observer comes first, on the subject second
                    for part, a, b in ((parts[0], obs, sub), (parts[1], sub, obs)):
                        calls = [t for z in part for t in subterms(z) if t[0] == 'mfn' and lname(t[1]) in ('get_name', 'get_label')]
                        ctx.ob('report', site(f), bool(calls) and all(t[2] == a for t in calls), 'observer and subject of an edge are exchanged or left out', 'C21:report:who', p.where())


def check(ctx):
    ctx.explain = ('The recording build (edge recorder compiled in) is analysed: every path of the functions that add and remove edges is matched '
                   'against what it tells the recorder, the recorder\'s own functions against what they were told, and its report line by line; '
                   'the edge functions are checked to work as in the build without recorder.')
    rc = Recording(ctx)
    ctx.need(not ctx.prog('csv').driver_errors, 'the recording build does not parse: %s' % ctx.prog('csv').driver_errors[:300])
    c01.check_half(rc)
    c01.check_slots(rc)
    c01.check_transfer(rc)
    c01.check_repoint(rc)
    check_mirror(rc)
    check_store(rc)
    check_report(rc)
