"""C19: a training step moves every variable from the same state: updates run with the error graph frozen, which is thawed again."""
from alg import *
from c22 import THIS
from c24 import Net, leafs, SELF
import c28


def builders(ctx, cls):
    fs = [f for f in ctx.fns(cls + '::' + lname(cls)) if not f.get('implicit')] + ctx.fns(cls + '::operator=')
    for f in fs:
        for pa in ctx.run(f, inner(cls), mods=False):
            if pa.out == 'ret' and any(e.k == 'call' and lname(e.q) == 'calculate' for e, c in flat(pa.ev)):
                yield f, pa


def applied(evs):
    """(field, how, complete?) for each run over stored updates, with its position"""
    for i, e in enumerate(evs):
        if e.k != 'loop':
            if e.k == 'icall' and e.callee[0] == 'at':
                yield i, e.callee[1][2] if e.callee[1][0] == 'fld' else None, False, [e.args]
            continue
        calls = [x for k, s, sub in e.paths for x, c in flat(sub) if x.k == 'icall']
        if not calls:
            continue
        for x in calls:
            v = x.callee
            nm = v[1][2] if v[0] == 'at' and v[1][0] == 'fld' and v[1][1] == SELF else None
            full = nm and v[2] == ('idx', e.depth) and e.hi == size(v[1]) and len(e.paths) == 1 and e.paths[0][0] == 'next' and len(calls) == 1
            yield i, nm, full, [x.args]


def check(ctx):
    ctx.explain = ('The error and the updates every constructor and assignment of the trainers leaves behind, and every path of a training step: where the updates run '
                   'relative to freezing and thawing the graph of the error, and that all of them run.')
    ctx.rule('loss', 'the gradient is that of the squared difference between the expected output and what the model makes of the training input')
    ctx.rule('kept', 'the trainer keeps the updates and the error they reduce, from every constructor and assignment')
    ctx.rule('frozen', 'no update that reduces the error runs while the graph of the error follows changes of variables')
    ctx.rule('thawed', 'a step that froze the graph thaws it, after the last of these updates')
    ctx.rule('complete', 'a step that applies one update applies each once, and tells the graph')
    ctx.rule('fed', 'the training data given is fed in before the graph is frozen')
    for cls in ('rocnnet::gd_net', 'rocnnet::dq_net'):
        names = set()
        nb = 0
        roles = None
        for f, pa in builders(ctx, cls):
            nb += 1
            w = site(f)
            tag = lname(cls) + ':' + lname(f['q']) + sig(f)
            net = Net(ctx, f, pa)
            if net.bad:
                ctx.fail('kept', w, net.bad, key='kept:' + tag)
                continue
            ups = [nm for nm, v in net.own.items() if v == net.calc.res]
            errs = [nm for nm, v in net.own.items() if v == net.err]
            ctx.ob('kept', w, len(ups) == 1 and len(errs) == 1, 'updates kept in %s, error in %s' % (ups, errs), key='kept:' + tag)
            if len(ups) == 1 and len(errs) == 1:
                names.add((ups[0], errs[0]))
            if cls.endswith('gd_net'):
                r = loss(net)
                ctx.ob('loss', w, r is not None, 'the error is (expected - output)^2: %s' % show(net.err)[:200], key='loss:' + tag)
                if r:
                    if roles and roles != r:
                        ctx.fail('loss', w, 'the inputs are kept elsewhere than in the other constructors', key='roles:' + tag)
                    roles = r
        ctx.need(nb >= 3, 'constructors of %s' % cls)
        if len(names) != 1:
            ctx.fail('kept', cls, 'constructors keep the updates in different places: %s' % sorted(names), key='kept:' + cls)
            continue
        (upd, err), = names
        f, = ctx.fns(cls + '::train')
        w = site(f)
        n = 0
        for pa in ctx.run(f, inner(cls), mods=False):
            if pa.out != 'ret':
                continue
            evs = pa.ev
            E = ('fld', SELF, err)
            fz = [(i, e.args[0]) for i, e in enumerate(evs) if e.k == 'call' and lname(e.q) == 'freeze_status' and e.recv == E]
            runs = [(i, full, args) for i, nm, full, args in applied(evs) if nm == upd]
            other = [nm for i, nm, full, args in applied(evs) if nm is None]
            ctx.ob('complete', w, not other, 'only updates the trainer keeps are applied', key='other:' + cls, detail=pa.where())
            if not runs:
                ctx.ob('thawed', w, not fz or fz[-1][1] == FALSE, 'a step without updates leaves the graph as it is', key='idle:' + cls, detail=pa.where())
                continue
            n += 1
            ctx.ob('complete', w, len(runs) == 1 and runs[0][1] and runs[0][2] == [(TRUE,)], 'each update is applied once', key='complete:' + cls, detail=pa.where())
            first, last = runs[0][0], runs[-1][0]
            before = [v for i, v in fz if i < first]
            amid = [v for i, v in fz if first <= i <= last] + [e for i, *r in runs for e, c in flat([evs[i]]) if e.k == 'call' and lname(e.q) == 'freeze_status']
            after = [v for i, v in fz if i > last]
            ctx.ob('frozen', w, before and before[-1] == TRUE and not amid, 'the graph of the error is frozen when the updates run', key='frozen:' + cls, detail=pa.where())
            ctx.ob('thawed', w, after and after[-1] == FALSE, 'the graph of the error is thawed afterwards', key='thawed:' + cls, detail=pa.where())
            later = [nm for i, nm, full, args in applied(evs) if nm not in (upd, None) and i > last]
            thaw = [i for i, v in fz if i > last and v == FALSE]
            ctx.ob('thawed', w, not later or thaw and all(i > thaw[0] for i, nm, full, args in applied(evs) if nm not in (upd, None)), 'other updates run on the thawed graph', key='late:' + cls, detail=pa.where())
            frz = [i for i, v in fz if v == TRUE]
            feeds = [(i, e) for i, e in enumerate(evs) if e.k == 'call' and lname(e.q) == 'operator=' and e.recv is not None and e.recv[0] == 'fld' and e.recv[1] == SELF]
            ctx.ob('fed', w, feeds and frz and all(i < frz[0] for i, e in feeds), 'the data is fed in before the graph is frozen', key='fed:' + cls, detail=pa.where())
            if roles and cls.endswith('gd_net'):
                given = [('deref', ('par', p['n'])) for p in f['params']]
                got = {e.recv[2]: e.args[0] for i, e in feeds}
                ctx.ob('fed', w, got.get(roles[0]) == given[0] and got.get(roles[1]) == given[1] and len(feeds) == 2, 'input and expected output go where the error expects them: %s' % {k: show(v) for k, v in got.items()}, key='data:' + cls, detail=pa.where())
        ctx.ob('complete', w, n > 0, 'training steps happen', key='never:' + cls)
    c28.closures(ctx)


def loss(net):
    """(input field, expected field) when the error is the squared difference"""
    got = poly(net.err, leafs)
    for s, x in sorted(set(net.ups), key=repr):
        for en, ev in net.own.items():
            if same(got, power(arith('-', poly(ev), A(('up', s, x))), 2)) and ev != net.err:
                i = net.name(x)
                return (i, en) if i and net.own.get(i) == x and s in net.own.values() else None
    return None
