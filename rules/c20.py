"""C20: what the threads of the streaming build share is only touched under its lock, and no wake-up is lost."""
from common import *

CFG = 'thread'
SYNC = {'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex',
        'std::condition_variable', 'std::condition_variable_any', 'std::thread'}
ATOMIC = {'std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::atomic_bool'}
MUTEX = {'std::mutex', 'std::recursive_mutex', 'std::timed_mutex', 'std::shared_mutex', 'std::shared_timed_mutex'}
SELF = ('d', ('this',))
WAITS = {'wait', 'wait_for', 'wait_until'}
ACCESS = {'read', 'write', 'cmut', 'touch', 'put', 'atomic'}
CHANGE = {'write', 'cmut', 'touch', 'put'}


def ours(c):
    return c['q'].startswith(('nnet::', 'rocnnet_record::'))


def root(loc):
    """names of the fields a location goes through"""
    out = []
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'm', 'd', 'addr', 'fld', 'deref', 'mget', 'at'):
        if loc[0] in ('f', 'fld'):
            out.append(loc[2])
        loc = loc[1]
    return out


def owner(loc, names):
    """the object whose field of one of the given names the location goes through, outermost"""
    best = None
    while isinstance(loc, tuple) and loc and loc[0] in ('f', 'e', 'm'):
        if loc[0] == 'f' and loc[2] in names:
            best = loc[1]
        loc = loc[1]
    return best


def synced(q):
    return q.startswith(('std::condition_variable::', 'std::_V2::condition_variable'))


def held(evs):
    """each event with the mutexes held at it"""
    s = []
    for e in evs:
        if e.k == 'lock':
            s = s + [e.d['mutex']]
        elif e.k == 'unlock':
            if e.d['mutex'] in s:
                s = list(s)
                s.reverse()
                s.remove(e.d['mutex'])
                s.reverse()
        yield e, tuple(s)


def flat(evs):
    for e in evs:
        yield e
        if e.k == 'loop':
            for _, _, sub in e.d['paths']:
                for x in flat(sub):
                    yield x


def nested(evs, s=()):
    """as held(), into the bodies of loops"""
    for e, h, _ in within(evs, s, {}):
        yield e, h


def within(evs, s, facts):
    for e, h in held(evs):
        yield e, s + h, facts
        if e.k == 'loop':
            for _, st, sub in e.d['paths']:
                for x in within(sub, s + h, {**facts, **dict(st.facts)}):
                    yield x


def lockarg(e, h):
    """the mutex a wait lets go of"""
    a = e.d['args'][0] if e.d['args'] else None
    if a and a[0] == 'lockof':
        return a[1]
    if a and a[0] == 'phi' and len(h) == 1:     # the lock object of the only mutex held, seen from inside a loop
        return h[0]
    return None


class Shared:
    """a class with a lock of its own: its entry points, what they change, and on which of their paths"""

    def __init__(self, ctx, cls):
        self.c, self.cls, self.q = ctx, cls, cls['q']
        P = ctx.prog(CFG)
        self.mutexes = [f['n'] for f in cls['fields'] if f['t'].get('rq') in MUTEX and f['t']['k'] == 'r']
        self.conds = [f['n'] for f in cls['fields'] if (f['t'].get('rq') or '').startswith('std::condition_variable')]
        self.parts = self.part(cls, set(), P)
        self.fields = {f['n']: f for c in self.parts for f in c['fields'] if f['t'].get('rq') not in SYNC}
        self.own = set(f['n'] for f in cls['fields'])
        self.entries = [f for f in P.fns.values() if f.get('cls') == cls['usr'] and f.get('body') is not None and not f.get('defaulted')
                        and f.get('kind') not in ('ctor', 'dtor') and f.get('access') in ('public', 'protected')]
        inner = set(c['usr'] for c in self.parts)
        self.paths = {}
        for f in self.entries:
            self.paths[f['usr']] = ctx.run(f, lambda g: g.get('cls') is not None and g['cls'] not in inner and self.foreign(g['cls'], P), config=CFG,
                                           watch=set(self.fields))
        self.changed = set()
        for f in self.entries:
            for p in self.paths[f['usr']]:
                for e in flat(p.ev):
                    if e.k in CHANGE:
                        for n in root(e.d['loc']):
                            if n in self.fields:
                                self.changed.add(n)
                    if e.k == 'call' and (e.d.get('recv') or (0,))[0] == 'addr':
                        for n in root(e.d['recv']):
                            if n in self.fields and not e.d.get('cm'):
                                self.changed.add(n)

    def foreign(self, usr, P):
        c = P.classes.get(usr)
        if c is None or not ours(c):
            return True
        return any(f['t'].get('rq') in MUTEX for f in c['fields'])

    def part(self, cls, seen, P):
        """the class and those its fields are made of or lead to, up to classes with locks of their own"""
        if cls['usr'] in seen:
            return []
        seen.add(cls['usr'])
        out = [cls]
        txt = []
        for f in cls['fields']:
            for c in P.classes.values():
                if c['usr'] not in seen and ours(c) and (f['t'].get('rec') == c['usr'] or c['usr'].split('@F@')[0] in (f['t'].get('rec') or '') and f['t'].get('rq') in
                                                         ('std::shared_ptr', 'std::unique_ptr', 'std::unordered_map', 'std::map', 'std::vector', 'std::list')):
                    if not self.foreign(c['usr'], P):
                        out += self.part(c, seen, P)
        return out

    def guards(self):
        return [('f', SELF, m) for m in self.mutexes]

    def name(self, f):
        a = f['q'].split('::')
        t = f['sig']
        return '::'.join(a[-2:]) + (' [%s]' % self.tag if self.tag else '')

    tag = ''


def touches(e, names):
    """the guarded field the event reads or changes"""
    if e.k in ACCESS:
        for n in root(e.d['loc']):
            if n in names:
                return n
    if e.k in ('call', 'ext') and not synced(e.d.get('q', '')):
        for x in [e.d.get('recvloc') or e.d.get('recv')]:
            for n in root(x) if isinstance(x, tuple) else ():
                if n in names:
                    return n
    return None


def check(ctx):
    ctx.rule('guarded', 'every access to what several threads share happens while the lock of its object is held')
    ctx.rule('waits', 'a wait lets go of exactly the lock under which it was found that there is nothing new, and of no other')
    ctx.rule('wakes', 'whoever changes what others wait for wakes all of them afterwards, and lets none slip between check and wait')
    ctx.rule('stops', 'a thread asked to stop leaves at its next check; the request reaches the flag of that thread')
    ctx.rule('ends', 'an owner that ends joins its thread before what the thread uses ends')
    P = ctx.prog(CFG)
    classes = [c for c in P.classes.values() if ours(c) and any(f['t'].get('rq') in MUTEX and f['t']['k'] == 'r' for f in c['fields'])]
    byq = {}
    for c in classes:
        byq.setdefault(c['q'], []).append(c)
    for q in ('nnet::shareable_cache', 'nnet::stop_flag', 'rocnnet_record::gui_notifier'):
        if q not in byq:
            for c in P.classes.values():
                if c['q'] == q:
                    ctx.fail('guarded', q, 'several threads use it, but it has no lock', 'C20:nolock@' + q)
    ctx.need(any(c['q'] == 'nnet::shareable_cache' for c in P.classes.values()), 'the shared cache is gone')
    n = 0
    for c in classes:
        s = Shared(ctx, c)
        if not s.entries:
            continue
        n += 1
        guarded(ctx, s)
        waiting(ctx, s)
    ctx.need(n > 0, 'no class with a lock')
    stopping(ctx)
    ending(ctx)
    ctx.explain = ('lockset analysis of every path of every entry point of the classes that have a lock (the message caches in both '
                   'instantiations, the service that holds the subscriptions, the flag of a stoppable thread), with everything they call inlined: '
                   'each read and change of a member that is changed after construction - and of the list nodes it leads to - must happen while '
                   'the mutex of the object is held; each wait must be on a condition of the object with that mutex, be reached only after a '
                   'look at the shared members without letting go in between, hold no other lock, and follow only where nothing is handed out; '
                   'each change must be followed by a notification of all (for the flag of one thread, of one) on every path. '
                   'Order of ends: fields and events of the owner of the server thread and of the server function.')


def guarded(ctx, s):
    gs = s.guards()
    names = set(n for n in s.changed)
    for f in s.entries:
        for p in s.paths[f['usr']]:
            for e, h in nested(p.ev):
                if e.k in ('call', 'ext') and lname(e.d.get('q', '')) in ('lock', 'unlock'):
                    continue
                n = touches(e, names)
                if n is None:
                    continue
                if (s.fields[n]['t'].get('rq') or '') in ATOMIC and e.k != 'write':
                    continue
                # its lock, or that of the one object the path is about
                ok = any(g in h for g in gs)
                ctx.ob('guarded', f['q'], ok, '%s is %s %s its lock' % (n, 'read' if e.k in ('read', 'atomic') else 'used', 'under' if ok else 'without'),
                       'C20:guarded@%s.%s' % (f['q'], n), p.where())


def waiting(ctx, s):
    gs = s.guards()
    cl = [('f', SELF, c) for c in s.conds]
    for f in s.entries:
        for p in s.paths[f['usr']]:
            looked = None
            waited = False
            lastchange = None
            woke = None
            locked = False
            for i, (e, h) in enumerate(nested(p.ev)):
                if e.k in ('lock', 'unlock') and e.d['mutex'] in gs:
                    looked = None
                    locked = e.k == 'lock'
                n = touches(e, s.changed)
                if n is not None:
                    looked = i
                if e.k in CHANGE and n is not None or e.k == 'call' and n is not None and not e.d.get('cm') and n in s.own:
                    lastchange, woke = i, None
                if e.k == 'ext' and synced(e.d['q']):
                    m = lname(e.d['q'])
                    if m in WAITS:
                        waited = True
                        lk = lockarg(e, h)
                        mine = lk is not None and lk in gs and lk in h
                        ctx.ob('waits', f['q'], mine, 'the wait lets go of the lock of the object%s' % ('' if mine else ': it does not'),
                               'C20:waitlock@%s' % f['q'], p.where())
                        ctx.ob('waits', f['q'], e.d.get('recvloc') in cl, 'the wait is on a condition of the object',
                               'C20:waitcond@%s' % f['q'], p.where())
                        ctx.ob('waits', f['q'], len(set(h) - set(gs)) == 0, 'no other lock is held while waiting', 'C20:waitother@%s' % f['q'], p.where())
                        pred = len(e.d['args']) > (1 if m == 'wait' else 2)
                        ctx.ob('waits', f['q'], pred or looked is not None, 'what is waited for is looked at under the lock right before the wait',
                               'C20:blind@%s' % f['q'], p.where())
                    elif m in ('notify_one', 'notify_all'):
                        ok = m == 'notify_all' or s.q == 'nnet::stop_flag'
                        ctx.ob('wakes', f['q'], ok, 'all who wait are woken%s' % ('' if ok else ': only one is'), 'C20:one@%s' % f['q'], p.where())
                        ctx.ob('wakes', f['q'], e.d.get('recvloc') in cl, 'the condition of the object is notified', 'C20:which@%s' % f['q'], p.where())
                        woke = i
            if lastchange is not None and s.conds and p.out == 'ret':
                ctx.ob('wakes', f['q'], woke is not None, 'those who wait are woken after the change%s' % ('' if woke is not None else ': they are not'),
                       'C20:silent@%s' % f['q'], p.where())
            got = p.val
            if got is not None and got[0] in ('some', 'none') and s.conds:
                ok = waited == (got[0] == 'none')
                ctx.ob('waits', f['q'], ok, 'it waits exactly when there is nothing to hand out%s' % ('' if ok else ': it does not'),
                       'C20:when@%s' % f['q'], p.where())
    if s.conds and s.q == 'nnet::shareable_cache':
        esc = [f for f in s.entries if any(e.k == 'ext' and synced(e.d['q']) and lname(e.d['q']).startswith('notify')
                                           for p in s.paths[f['usr']] for e in flat(p.ev))
               and not any(touches(e, s.changed) for p in s.paths[f['usr']] for e in flat(p.ev))]
        named = [f for f in s.entries if lname(f['q']) == 'escape_wait']
        for f in named:
            ctx.ob('wakes', f['q'], f in esc, 'ending a wait notifies those who wait', 'C20:escape@%s' % f['q'])


def ext(p, q):
    return [i for i, e in enumerate(flat(p.ev)) if e.k in ('ext', 'call') and e.d['q'] == q]


def stopping(ctx):
    FLAG = 'nnet::stop_flag'
    P = ctx.prog(CFG)
    cls = [c for c in P.classes.values() if c['q'] == FLAG][0]
    mx = [f['n'] for f in cls['fields'] if f['t'].get('rq') in MUTEX]
    at = [f['n'] for f in cls['fields'] if f['t'].get('rq') in ATOMIC or f['t']['s'] == 'bool']
    ctx.need(at, 'no flag')
    fn = at[0]
    # set: true under the lock, then the condition
    for f in ctx.fns(FLAG + '::set', config=CFG):
        for p in ctx.run(f, config=CFG):
            ok = False
            for e, h in held(p.ev):
                if e.k == 'write' and root(e.d['loc'])[:1] == [fn]:
                    ok = e.d['val'] == ('lit', True) and any(('f', SELF, m) in h for m in mx)
            ctx.ob('stops', f['q'], ok, 'a stop request sets the flag under the lock its thread checks it with%s' % ('' if ok else ': it does not'), 'C20:set', p.where())
            ns = [i for i, e in enumerate(p.ev) if e.k == 'ext' and synced(e.d['q']) and lname(e.d['q']).startswith('notify')]
            ws = [i for i, e in enumerate(p.ev) if e.k == 'write' and root(e.d['loc'])[:1] == [fn]]
            ctx.ob('stops', f['q'], bool(ns) and bool(ws) and ns[-1] > ws[-1], 'a stop request wakes its thread after setting the flag', 'C20:setwake', p.where())
    for f in ctx.fns(FLAG + '::is_set', config=CFG):
        for p in ctx.run(f, config=CFG):
            ctx.ob('stops', f['q'], p.val == ('fld', ('deref', ('this',)), fn), 'the check answers with the flag', 'C20:isset', p.where())
    G = 'nnet::thread_stop_flag'
    seen = ('nz', ('fld', ('glob', G), fn))
    for f in ctx.fns('nnet::stop_throw', config=CFG):
        ps = ctx.run(f, config=CFG)
        for p in ps:
            want = p.facts.get(seen)
            ctx.ob('stops', f['q'], want is not None and (p.out == 'throw') == want, 'a thread leaves exactly when its own flag is set', 'C20:throw', p.where())
            if p.out == 'throw':
                t = [e.d.get('type') for e in p.ev if e.k == 'throw']
                ctx.ob('stops', f['q'], t == ['nnet::thread_interrupted'], 'it leaves the way the thread expects', 'C20:throwtype', p.where())
    for f in ctx.fns('nnet::stop_wait', config=CFG):
        for p in ctx.run(f, config=CFG):
            ws = [(e, h, fs) for e, h, fs in within(p.ev, (), {}) if e.k == 'ext' and synced(e.d['q']) and lname(e.d['q']) in WAITS]
            ctx.ob('stops', f['q'], len(ws) > 0 or p.facts.get(seen) is True, 'it waits until it is asked to stop', 'C20:nowait', p.where())
            for e, h, fs in ws:
                lk = lockarg(e, h)
                ok = lk is not None and lk in h and any(lk == ('f', ('g', G), m) for m in mx)
                ctx.ob('waits', f['q'], ok, 'the wait for a stop request lets go of the lock the request is made under%s' % ('' if ok else ': it does not'),
                       'C20:stoplock', p.where())
                ctx.ob('waits', f['q'], e.d.get('recvloc', (0, 0))[1] == ('g', G), 'the wait is on the condition of the own flag', 'C20:stopcond', p.where())
                pred = e.d['args'][1] if len(e.d['args']) > 1 else None
                # a loop that looks at the flag again, and is left only when it is set
                good = fs.get(seen) is False and p.facts.get(seen) is True
                if pred is not None and pred[0] == 'lam':
                    good = predicate(ctx, f, p, e, pred, ('fld', ('glob', G), fn))
                ctx.ob('waits', f['q'], good, 'the wait goes on until the flag is set%s' % ('' if good else ': it does not look at the flag'), 'C20:stoppred', p.where())
    for f in ctx.fns('nnet::stoppable_thread::stop', config=CFG):
        fl = ('fld', ('deref', ('this',)), 'flag_')
        for p in ctx.run(f, config=CFG):
            hit = [e for e in p.ev if e.k == 'write' and root(e.d['loc'])[:1] == [fn] and e.d['val'] == ('lit', True) and e.d['loc'][1] == ('d', fl)]
            there = p.facts.get(('nz', fl))
            ctx.ob('stops', f['q'], bool(hit) == (there is not False), 'stopping a thread sets the flag of that thread, if it has one', 'C20:stop', p.where())


def predicate(ctx, f, p, e, pred, want):
    from stdmodel import applyv
    st = p.st
    ip = p.ip
    for s, v in applyv(ip, pred, [], st, {'L': None}):
        t = v
        if t == want or t == ('nz', want):
            continue
        return False
    return True


def ending(ctx):
    P = ctx.prog(CFG)
    for f in ctx.fns('nnet::stoppable_thread::~stoppable_thread', config=CFG):
        for p in ctx.run(f, config=CFG):
            op = ('fld', ('deref', ('this',)), 'internal_op_')
            j = p.facts.get(('nz', ('fn', 'std::thread::joinable', op)))
            joined = bool(ext(p, 'std::thread::join')) or bool(ext(p, 'std::thread::detach'))
            ctx.ob('ends', f['q'], (j is not True) or bool(ext(p, 'std::thread::join')), 'a running thread is joined by its owner', 'C20:join', p.where())
            ctx.ob('ends', f['q'], not joined or j is True, 'only a running thread is joined', 'C20:joinable', p.where())
    for f in ctx.fns('rocnnet_record::rpc_record::~rpc_record', config=CFG):
        for p in ctx.run(f, lambda g: lname(g['q']) == 'stop', config=CFG):
            ctx.ob('ends', f['q'], any(e.k == 'call' and e.d['q'] == 'nnet::stoppable_thread::stop' for e in flat(p.ev)),
                   'the recorder asks its server to stop before it goes', 'C20:askstop', p.where())
    for c in P.classes.values():
        if c['q'] == 'rocnnet_record::rpc_record':
            ns = [f['n'] for f in c['fields']]
            th = [i for i, f in enumerate(c['fields']) if f['t'].get('rq') in ('nnet::stoppable_thread', 'std::thread')]
            ca = [i for i, f in enumerate(c['fields']) if f['t'].get('rq') == 'nnet::shareable_cache']
            ctx.need(th and ca, 'the recorder has no server thread')
            ctx.ob('ends', c['q'], max(ca) < min(th), 'the server thread ends before the caches it reads (%s)' % ', '.join(ns), 'C20:order')
    for f in ctx.fns('rocnnet_record::spawn_server', config=CFG):
        for p in ctx.run(f, lambda g: lname(g['q']) in ('stop_wait', 'clear_subscriptions'), config=CFG):
            def at(q):
                return [i for i, e in enumerate(p.ev) if e.k in ('ext', 'call') and (e.d['q'] == q or lname(e.d['q']) == q)]
            w, c, s, j = at('stop_wait'), at('clear_subscriptions'), at('Shutdown'), at('join')
            ok = all((w, c, s, j)) and w[0] < c[0] < s[0] and s[0] < j[-1]
            ctx.ob('ends', f['q'], ok, 'the server waits for the stop request, lets its subscribers go, shuts down and joins, in this order%s' % ('' if ok else ': it does not'),
                   'C20:server', p.where())
    for f in ctx.fns('rocnnet_record::gui_notifier::clear_subscriptions', config=CFG):
        for p in ctx.run(f, lambda g: lname(g['q']) == 'escape_wait', config=CFG):
            esc = [(i, e.d['recv']) for i, e in enumerate(p.ev) if e.k == 'call' and lname(e.d['q']) == 'escape_wait']
            chg = [i for i, e in enumerate(p.ev) if e.k in CHANGE and 'subscriptions_' in root(e.d['loc'])]
            srcs = [x['n'] for c in P.classes.values() if c['q'] == 'rocnnet_record::gui_notifier' for x in c['fields'] if x['t'].get('rq') == 'nnet::shareable_cache']
            ok = bool(chg) and len(set(r for _, r in esc)) == len(srcs) and all(i > chg[-1] for i, _ in esc)
            ctx.ob('ends', f['q'], ok, 'every subscriber is taken off the list and then woken from every cache%s' % ('' if ok else ': it is not'), 'C20:clear', p.where())
    # no lock is held while a subscriber waits for its next message
    for q in ('SubscribeNode', 'SubscribeEdge'):
        for f in ctx.fns('rocnnet_record::gui_notifier::' + q, config=CFG):
            for p in ctx.run(f, lambda g: lname(g['q']) == 'get_latest', config=CFG):
                for e, h in nested(p.ev):
                    if e.k == 'call' and lname(e.d['q']) == 'get_latest':
                        ctx.ob('waits', f['q'], not h, 'a subscriber holds no lock while it waits for messages', 'C20:blocked@' + q, p.where())
