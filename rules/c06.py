"""C06: whoever changes a leaf's value marks it valid and tells its observers, afterwards and on every path; valid means there is data."""
from edges import *
from c05 import applied, strip, F
import objects

DATA, INIT = F(THIS, 'data_'), F(THIS, 'is_init_')
LEAVES = ('nnet::ileaf', 'nnet::ivariable', 'nnet::variable', 'nnet::placeholder', 'nnet::constant', 'nnet::generator')
OPQ = ('nnet::tensor::', 'nnet::tensorshape', 'nnet::itensor', 'nnet::assign_func', 'nnet::initializer', 'nnet::itensor_handler', 'nnet::subject',
       'nnet::iobserver', 'nnet::const_init', 'nnet::iconnector::', 'nnet::print_shape')


def opq(g):
    return g['q'].startswith(OPQ)


def constref(t):
    return bool(t.get('ref')) and (t.get('const') or t.get('s', '').startswith('const '))


def boolret(ip, e):
    return any((g.get('ret') or {}).get('s') == 'bool' for g in ip.p.byq.get(e.q, []))


class Track:
    """what one path does to the value, the valid mark and the observers of the object `this`"""

    def __init__(self, p, evs, init0, datas=None):
        self.p, self.ip = p, p.ip
        self.changes, self.tells, self.marks = [], [], []
        datas = set(datas or ()) | {DATA}
        inits = init0
        for n, (e, c) in enumerate(flat(evs)):
            if e.k == 'write' and e.loc == ('f', ('d', THIS), 'is_init_'):
                self.marks.append((n, e.val))
            elif e.k == 'write' and e.loc == ('f', ('d', THIS), 'data_'):
                if e.val != NULL:
                    datas.add(e.val)
                    self.changes.append((n, e, c))
            elif e.k in ('write', 'cmut') and root(e.loc) in {('d', d) for d in datas}:
                self.changes.append((n, e, c))
            elif e.k == 'call':
                if lname(e.q) == 'notify' and e.recv == THIS:
                    if e.args and e.args[0][-1].endswith('UPDATE'):
                        self.tells.append((n, e, c))
                    continue
                hit = e.recv is not None and strip(e.recv) in datas and e.res and e.res[0] == 'res'
                f = p.ip.p.fns.get(e.d.get('usr')) or e.d.get('fn') or {}
                ps = f.get('params', []) if isinstance(f, dict) else []
                for i, a in enumerate(e.args):
                    if any(a == ('deref', d) or a == d for d in datas) and not (i < len(ps) and constref(ps[i]['t'])):
                        raw = (e.d.get('rawargs') or [None] * 9)[i]
                        if a != ('deref', strip(a[1])) if a[0] == 'deref' else True:
                            continue
                        if ps and i < len(ps) and not ps[i]['t'].get('ref') and not ps[i]['t'].get('ptr'):
                            continue
                        hit = True
                if hit:
                    self.changes.append((n, e, c))

    def failed(self):
        """a change that reported failure on this path"""
        for n, e, c in self.changes:
            if e.k == 'call' and self.ip.decide(self.p.st, ('nz', e.res)) is False:
                return True
        return False


def other(f):
    t = f['params'][0]['t'] if len(f['params']) == 1 else {}
    return t.get('rq') in LEAVES and t.get('ref') and not t.get('ptr')


def check_tell(ctx):
    ctx.rule('tell', 'a function that changes the value of a leaf or of a generator tells the observers, after the change, on every path; a change that failed is not announced')
    ctx.rule('mark', 'a leaf that was given a value counts as initialised by the time its observers are told; a change that failed does not make it so')
    p0 = ctx.prog('base')
    n = 0
    for f in sorted(p0.fns.values(), key=lambda f: f['usr']):
        if f['q'].rsplit('::', 1)[0] not in LEAVES or f.get('access') not in ('public', 'protected') or not f.get('body') or f.get('const'):
            continue
        if f.get('kind') in ('ctor', 'dtor') or lname(f['q']).startswith('~') or f['q'].rsplit('::', 1)[0] == f['q'].rsplit('::', 1)[1]:
            continue
        if not (f.get('cls') or '').endswith('>#d'):
            continue
        if lname(f['q']) in ('copy_helper', 'move_helper', 'clean_up', 'clone_impl', 'move_impl', 'clone', 'move'):
            continue        # looked into from the functions that use them
        if f.get('access') != 'public' and lname(f['q']) not in ('update', 'read_proto'):
            continue
        tag = 'C06:%s%s' % (f['q'].split('::', 1)[1], sig(f).replace(' ', ''))
        gen = f['q'].startswith('nnet::generator')
        for p in ctx.run(f, opq, mods=False, branchy=True):
            if p.out != 'ret':
                continue
            ip, st = p.ip, p.st
            t = Track(p, p.ev, None)
            if not t.changes:
                continue
            n += 1
            if t.failed():
                ctx.ob('tell', site(f), not t.tells, 'a change that failed is announced', tag + ':failed', p.where())
                ctx.ob('mark', site(f), not [m for m in t.marks if m[1] != INIT], 'a change that failed marks the leaf initialised', tag + ':failedmark', p.where())
                continue
            last = t.changes[-1][0]
            after = [x for x in t.tells if x[0] > last and not x[2]]
            le = t.changes[-1][1]
            if le.k == 'call' and boolret(ip, le) and ip.decide(st, ('nz', le.res)) is None:
                ctx.ob('tell', site(f), not t.tells, 'whether the change succeeded is not looked at before it is announced', tag + ':unasked', p.where())
                continue
            ctx.ob('tell', site(f), after, 'the value changes and the observers are not told afterwards', tag + ':silent', p.where())
            if gen or not after:
                continue
            cm = other(f)
            mk = [m for m in t.marks if m[0] < after[0][0]]
            if cm:
                want = F(('par', f['params'][0]['n']), 'is_init_')
                ok = bool(mk) and (mk[-1][1] == want or mk[-1][1][0] == 'lit' and ip.decide(st, ('nz', want)) == bool(mk[-1][1][1]))
                ctx.ob('mark', site(f), ok, 'the copy must be initialised exactly when its source was', tag + ':copymark', p.where())
            else:
                v = mk[-1][1] if mk else INIT
                ok = v in (TRUE, ('lit', 1), ('lit', True)) or ip.decide(st, ('nz', v)) is True
                ctx.ob('mark', site(f), ok, 'the leaf holds a value but does not count as initialised when its observers are told', tag + ':mark', p.where())
    ctx.need(n >= 6, 'no function that changes the value of a leaf was recognised')


def check_closures(ctx):
    ctx.rule('assign', 'an update of a variable that is asked to tell does so after the value changed, one that is not asked does not')
    n = 0
    for q in ('nnet::variable::assign', 'nnet::variable::assign_add', 'nnet::variable::assign_sub'):
        for f in ctx.fns(q):
            if not (f.get('cls') or '').endswith('>#d'):
                continue
            tag = 'C06:' + lname(q)
            for p in ctx.run(f, lambda g: opq(g) or lname(g['q']) in ('eval', 'get_eval', 'operator=='), mods=False):
                if p.out != 'ret':
                    continue
                import stdmodel
                s = p.st.fork()
                before = len(Path(s, 'ret', None, p.ip).ev)
                flag = ('par', 'tell?')
                for s2, v in stdmodel.applyv(p.ip, p.val, [flag], s, {'L': None}):
                    q2 = Path(s2, 'ret', v, p.ip)
                    t = Track(q2, q2.ev[before:], None)
                    if not t.changes:
                        # adding nothing
                        ctx.ob('assign', site(f), lname(q) != 'assign' and zero_arg(p), 'the update changes nothing', tag + ':nothing', p.where())
                        continue
                    n += 1
                    asked = p.ip.decide(s2, ('nz', flag))
                    after = [x for x in t.tells if x[0] > t.changes[-1][0] and not x[2]]
                    ctx.ob('assign', site(f), asked is not None, 'whether to tell is not looked at', tag + ':ask', q2.where())
                    if asked:
                        ctx.ob('assign', site(f), after, 'the value changes and the observers are not told afterwards', tag + ':silent', q2.where())
                    elif asked is False:
                        ctx.ob('assign', site(f), not t.tells, 'the observers are told although that was not asked for', tag + ':told', q2.where())
    ctx.need(n >= 6, 'the updates of a variable were not recognised')


def zero_arg(p):
    """the path knows that the constant operand is 0"""
    return any(a[0] == 'nz' and v and 'operator==' in repr(a[1]) for a, v in p.facts.items()) or any(a[0] == 'eq' and v for a, v in p.facts.items())


def check_valid(ctx):
    ctx.rule('valid', 'a leaf that was not initialised yields no value; a copy has the value of its source exactly when that is initialised, and an emptied leaf yields nothing')
    for f in ctx.fns('nnet::ileaf::get_eval', pred=lambda f: f['cls'].endswith('>#d')):
        for p in ctx.run(f, lambda g: False, mods=False):
            if p.out != 'ret':
                continue
            good = p.ip.decide(p.st, ('nz', INIT))
            ctx.ob('valid', site(f), (p.val == DATA and good is True) or (p.val == NULL and good is False), 'the value must be given out exactly when it is initialised', 'C06:eval', p.where())
    for q in ('nnet::ileaf::good_status',):
        for f in ctx.fns(q, pred=lambda f: f['cls'].endswith('>#d')):
            for p in ctx.run(f, lambda g: False, mods=False):
                v = p.val
                ok = v == INIT or (v[0] == 'lit' and p.ip.decide(p.st, ('nz', INIT)) == bool(v[1])) or (v[0] == 'and' and INIT in v[1:])
                ctx.ob('valid', site(f), ok, 'what is reported must be the valid mark', 'C06:good', p.where())
    # generator: valid exactly when it has data
    for f in ctx.fns('nnet::generator::good_status', pred=lambda f: f['cls'].endswith('>#d')):
        for p in ctx.run(f, lambda g: False, mods=False):
            v = p.val
            d = p.ip.decide(p.st, ('nz', DATA))
            ok = (v[0] == 'lit' and d is not None and d == bool(v[1])) or (v[0] in ('cmp', 'not', 'nz', 'ne', 'bool') and any_term(v, lambda t: t == DATA)) or v == DATA
            ctx.ob('valid', site(f), ok, 'a generator is valid when it has data', 'C06:goodgen', p.where())
    # moves: the emptied leaf must not claim a value
    for q in ('nnet::ileaf::ileaf', 'nnet::ileaf::operator='):
        for f in ctx.fns(q, pred=lambda f: f['cls'].endswith('>#d')):
            if not f['params'] or f['params'][0]['t'].get('rq') != 'nnet::ileaf' or f['params'][0]['t'].get('ptr'):
                continue
            mv = f['params'][0]['t'].get('ref') == 'r'
            o = ('par', f['params'][0]['n'])
            for p in ctx.run(f, opq, mods=False):
                if p.out != 'ret' or p.ip.decide(p.st, ('eq',) + tuple(sorted((o, THIS), key=repr))):
                    continue
                ip, st = p.ip, p.st
                od = ip.load(st, ('f', ('d', o), 'data_'))
                if mv:
                    # the tests fix that an emptied leaf keeps its mark; it must yield no value
                    ctx.ob('valid', site(f), od == NULL, 'the emptied leaf still yields the value it gave away', 'C06:moved:' + lname(f['q']), p.where())
                d = ip.load(st, ('f', ('d', THIS), 'data_'))
                i = ip.load(st, ('f', ('d', THIS), 'is_init_'))
                if d == NULL:
                    # only when the source had none
                    ok = ip.decide(st, ('nz', F(o, 'data_'))) is False or i in (FALSE, ('lit', 0), ('lit', False))
                    ctx.ob('valid', site(f), ok, 'the data is lost', 'C06:lost:' + lname(f['q']), p.where())
                elif d[0] in ('mfn', 'res') and lname(d[1] if isinstance(d[1], str) else d[2]) == 'clone':
                    # shape only when the source is not initialised
                    a = d[-1]
                    ctx.ob('valid', site(f), shape_only(ip, st, a, F(o, 'is_init_')), 'the copy must take the values exactly when its source is initialised', 'C06:copyvalue:' + lname(f['q']), p.where())


def shape_only(ip, st, a, init):
    """`a` (copy the shape only) is the negation of the source's valid mark"""
    if a == ('not', init):
        return True
    if a[0] == 'lit':
        i = ip.decide(st, ('nz', init))
        return i is not None and bool(a[1]) == (not i) or (not a[1])
    return False


def check(ctx):
    ctx.explain = ('Every public function of the leaf classes and of the random generator is walked path by path: a change of the value (a write, a call that may modify '
                   'the tensor) must be followed by the announcement, with the valid mark set before it.')
    check_tell(ctx)
    check_closures(ctx)
    check_valid(ctx)
