"""C10: an operator given no operand gives no node, and touches nothing."""
from ops import *


def nullwhen(t, p, ctx):
    """the result is null whenever operand p is"""
    if t is None:
        return False
    if t == ('null',) or t == ('par', p):
        return True
    if t[0] == 'ite':
        return nullwhen(t[2], p, ctx) and nullwhen(t[3], p, ctx)
    nm, ops = opcall(t)
    if nm:
        return any(nullwhen(o, p, ctx) for o in ops if isinstance(o, tuple))
    return False


def uses(e, p):
    """the event looks into the operand"""
    x = ('par', p)
    if e.k == 'call':
        nm = lname(e.q)
        if e.recv is not None and has(e.recv, x):
            return True
        if e.q.startswith('nnet::') and e.q.count('::') == 1 and nm in PUBLIC:
            return False
        return any(a == x or has(a, ('deref', x)) or (a[0] == 'seq' and x in a[1]) for a in e.args)
    if e.k in ('icall', 'ext'):
        return any(a == x or has(a, ('deref', x)) for a in e.d.get('args', ()) if isinstance(a, tuple)) or \
            (isinstance(e.d.get('recv'), tuple) and has(e.recv, x))
    if e.k in ('write', 'cmut'):
        return has(e.loc, ('d', x)) or (isinstance(e.d.get('val'), tuple) and has(e.val, ('deref', x)))
    return False


def has(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(has(c, x) for c in t if isinstance(c, tuple))


def check(ctx):
    ctx.explain = ('every path of every public operator of the graph, with the helpers it shares expanded: where an operand is not known to '
                   'be there, the path neither looks into it nor builds on it, and its result is no node')
    ctx.rule('null-result', 'when an operand may be missing the result is no node, or what another operator makes of the missing operand')
    ctx.rule('null-untouched', 'an operand that may be missing is not looked into, searched from or built on')
    ctx.rule('node-result', 'when every operand is there, the result is a node')
    n = 0
    for o in operators(ctx):
        for p in o.nodes_p:
            n += 1
            bad = None
            for pa in o.paths:
                known = pa.facts.get(('nz', ('par', p)))
                if known:
                    continue
                if pa.out == 'ret' and not nullwhen(pa.val, p, ctx):
                    # other operands' absence may settle the path
                    if not (pa.val and any(pa.facts.get(('nz', ('par', q))) is False and nullwhen(pa.val, q, ctx) for q in o.nodes_p)):
                        bad = (pa, 'null-result', 'without %s, the result of %s is %s' % (p, o.id, show(pa.val)[:120] if pa.val else 'undefined'))
                        break
                for e, cx in flat(pa.ev):
                    if uses(e, p):
                        bad = (pa, 'null-untouched', '%s looks into %s, which may be missing: %s' % (o.id, p, str(e)[:160]))
                        break
                if bad:
                    break
            for rule in ('null-result', 'null-untouched'):
                b = bad if bad and bad[1] == rule else None
                ctx.ob(rule, o.where, not b, b[2] if b else '%s with %s missing' % (o.id, p), key='%s@%s:%s' % (rule, o.id, p),
                       detail=b[0].where() if b else None)
        bad = None
        for pa in o.paths:
            if pa.out == 'ret' and (pa.val is None or pa.val == ('null',)) and all(pa.facts.get(('nz', ('par', q))) is not False for q in o.nodes_p):
                if not all(pa.facts.get(('nz', ('par', q))) is None for q in o.nodes_p):
                    bad = pa
        ctx.ob('node-result', o.where, not bad, '%s gives no node although its operands are there' % o.id if bad else '%s gives a node' % o.id,
               key='node-result@' + o.id, detail=bad.where() if bad else None)
    ctx.need(n >= 60, 'node operands of the operators')
