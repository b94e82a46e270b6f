"""Edge operations: additions/removals of (observer, slot) in a subject's audience, and of slots of an observer."""
from common import *

AUD, DEP = 'audience_', 'dependencies_'
HALF = {'nnet::subject::attach', 'nnet::subject::detach'}
THIS = ('this',)


def keep(*names):
    names = set(names)
    return lambda g: lname(g['q']) in names


QUIET = ('death_on_noparent', 'death_on_broken', 'edge_capture', 'edge_release', 'node_release', 'data_update')


def ptr(ip, loc):
    return ip.addrof(loc)


def edge_op(ip, e):
    """primitive edge operation of one event, or None"""
    if e.k == 'call' and lname(e.q) in ('attach', 'detach') and e.q.startswith('nnet::'):
        if lname(e.q) == 'attach' and len(e.args) == 2:
            return ('add', e.recv, e.args[0], e.args[1])
        if len(e.args) == 2:
            return ('del', e.recv, e.args[0], e.args[1])
        if len(e.args) == 1:
            return ('delall', e.recv, e.args[0])
    if e.k == 'call' and lname(e.q) == 'replace_dependency':
        return ('repl', e.recv, e.args[0], e.args[1])
    if e.k == 'call' and lname(e.q) == 'remove_dependency':
        return ('rem', e.recv, e.args[0])
    if e.k == 'call' and lname(e.q) == 'add_dependency':
        return ('addd', e.recv, e.args[0])
    if e.k == 'cmut':
        l = e.loc
        if l[0] == 'm' and l[1][0] == 'f' and l[1][2] == AUD:
            s, x = ptr(ip, l[1][1]), l[2]
            if e.op in ('insert', 'emplace') and len(e.args) >= 1:
                return ('add', s, x, e.args[-1])
            if e.op == 'erase':
                return ('del', s, x, e.args[0])
            if e.op == 'clear':
                return ('delall', s, x)
            return ('?', e)
        if l[0] == 'f' and l[2] == AUD:
            s = ptr(ip, l[1])
            if e.op == 'erase':
                return ('delall', s, e.args[0])
            if e.op == 'clear':
                return ('clear', s)
            if e.op in ('assign', 'swap'):
                return ('aassign', s, e.args[0] if e.args else None)
            return ('?', e)
        if l[0] == 'f' and l[2] == DEP:
            x = ptr(ip, l[1])
            if e.op == 'push_back' or e.op == 'emplace_back':
                return ('dpush', x, e.args[0])
            if e.op == 'pop_back':
                return ('dpop', x)
            if e.op == 'clear':
                return ('dclear', x)
            if e.op == 'assign':
                return ('dassign', x, e.args[0])
            if e.op in ('insert', 'resize', 'append'):
                return ('dgrow', x)
            return ('?', e)
    if e.k == 'write' and e.op == '=':
        l = e.loc
        if l[0] == 'e' and l[1][0] == 'f' and l[1][2] == DEP:
            return ('dset', ptr(ip, l[1][1]), l[2], e.val)
        if l[0] == 'f' and l[2] == DEP:
            return ('dassign', ptr(ip, l[1]), e.val)
        if fld_loc(l, AUD) is not None or fld_loc(l, DEP) is not None:
            return ('?', e)
    return None


def ops(path, evs=None):
    """[(op, ctx, ev)] in order, nested loops included"""
    out = []
    for e, c in flat(path.ev if evs is None else evs):
        o = edge_op(path.ip, e)
        if o:
            out.append((o, c, e))
    return out


def sz(t):
    return ('size', t)


def is_dep_of(t, x):
    """t is some version of x's slot vector"""
    r = t
    while r[0] in ('set', 'pop', 'push', 'ins', 'upd', 'store') or r[0] == 'phi':
        if r[0] == 'phi':
            return fld_loc(r[2], DEP) is not None if isinstance(r[2], tuple) else False
        r = r[1]
    return r[0] == 'fld' and r[2] == DEP


def slot_terms(s, d, vecpred):
    """slot index terms that run through a whole vector in this iteration state: [(slot, vec)]"""
    idx = ('idx', d)
    out = []
    for a, v in s.facts.items():
        if a[0] == 'lt' and v and a[2][0] == 'size' and vecpred(a[2][1]):
            if a[1] == idx:
                out.append((idx, a[2][1]))
                out.append((isub(isub(a[2], ONE), idx), a[2][1]))
        x = a[1] if a[0] == 'nz' else a[2] if a[0] == 'lt' and a[1] == ZERO else None
        if v and x is not None and x[0] == 'lin':
            # n-- > 0 : n - idx nonzero
            for t, c in x[2]:
                if t[0] == 'size' and vecpred(t[1]) and c == 1 and lindiff(x, isub(t, idx)) == 0:
                    out.append((isub(isub(t, ONE), idx), t[1]))
    return out


def covers(loop, vecpred, each):
    """the loop runs through every slot of the vector and `each(slot, elem, state, events)` holds on every iteration path"""
    if loop.k != 'loop':
        return False
    got = 0
    for kind, s, ev in loop.paths:
        if kind in ('break', 'ret'):
            return False
        if kind != 'next':
            continue
        sl = slot_terms(s, loop.depth, vecpred)
        if not any(each(i, at(vec, i), vec, s, ev) for i, vec in sl):
            return False
        got += 1
    return got > 0


def is_null(s, ip, t):
    return t == NULL or ip.known_nz(s, t) is False or ip.decide(s, ('nz', t)) is False
