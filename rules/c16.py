"""C16: a saved model is restored from its file: same names, every variable, other entries kept, all or fresh values."""
from common import *
from objects import fields
import astq


def par(f, i):
    return ('par', f['params'][i]['n'] or 'arg%d' % i)


def hook(ip, f, this, vs, st, n):
    l = ip.deref(st, vs[0]) if vs[0][0] != '&' else vs[0][1]
    ip.store(st, l, ('msgof', ip.addrof(this)), n)
    return [(st, ('void',))]


WRITE, READ = 'nnet::write_inorder', 'nnet::read_inorder'


def opaque(g):
    if g['q'] == 'nnet::tensor::serialize' or g['q'] in (WRITE, READ):
        return False
    return g['q'].startswith('nnet::') and g.get('cls') is not None


def evs(pa):
    return [e for e, _ in flat(pa.ev)]


def norm(f, t):
    m = {par(f, i): ('arg', i) for i in range(len(f['params']))}
    return subst(t, lambda x: m.get(x) if x[0] == 'par' else ('idx', 0) if x[0] == 'idx' else None)


def stream_of(pa, e):
    a = e.d.get('rawargs') or e.args
    x = a[0]
    if x[0] == '&':
        return pa.ip.load(pa.st, x[1])
    return pa.ip.load(pa.st, pa.ip.deref(pa.st, x)) if x[0] == 'addr' else x


def onfile(t, name):
    return any_term(t, lambda x: x == name)


def is_label(t, label):
    """a name made of the label, a separator and the position only"""
    return t[0] == 'scat' and any_term(t, lambda x: x == label) and any_term(t, lambda x: x[0] == 'idx')


def parsed_map(t, name):
    return t[0] == 'fld' and t[2] == 'node_map' and t[1][0] == 'parsed' and onfile(t[1], name)


def result(pa, t):
    if t in (TRUE, FALSE):
        return t == TRUE
    return pa.ip.decide(pa.st, ('nz', t))


def outermost(pa, name):
    """the loop that handles the nodes"""
    return [e for e in pa.ev if e.k == 'loop']


def writer(ctx, f):
    vec, label, file = ('deref', par(f, 0)), par(f, 1), par(f, 2)
    where = site(f)
    keys = set()
    done = 0
    for pa in ctx.run(f, opaque, mods=False, models={'nnet::tensor::serialize': hook}):
        if pa.out != 'ret':
            ctx.fail('written', where, 'saving can %s' % pa.out, 'C16:write:' + pa.out, pa.where())
            continue
        ev = evs(pa)
        parse = [e for e in ev if e.k == 'ext' and 'Parse' in lname(e.q)]
        ser = [e for e in ev if e.k == 'ext' and lname(e.q).startswith('Serialize')]
        trunc = [e for e in ev if e.k == 'ext' and e.d.get('ctor') and 'stream' in e.q and any_term(('a',) + tuple(e.args), lambda x: x[0] == 'glob' and lname(x[1]) in ('trunc', 'out'))
                 or e.k == 'ext' and e.d.get('ctor') and 'ofstream' in e.q]
        bad = [e for e in parse if result(pa, e.res) is not True]
        if bad:
            ctx.ob('kept', where, result(pa, pa.val) is False and not ser and not trunc, 'a file that cannot be read is overwritten, or the failure is not reported', 'C16:write:unreadable', pa.where())
            continue
        if result(pa, pa.val) is False:
            ctx.ob('written', where, bool(ser), 'saving fails without trying', 'C16:write:gaveup', pa.where())
            continue
        if not ctx.ob('written', where, len(ser) == 1 and result(pa, ser[0].res) is True, 'success is reported though nothing was written', 'C16:write:result', pa.where()):
            continue
        done += 1
        i = ev.index(ser[0])
        ctx.ob('written', where, onfile(stream_of(pa, ser[0]), file), 'the model is not written to the file named', 'C16:write:file', pa.where())
        fl = [e for e in ev[i:] if e.k == 'ext' and lname(e.q) in ('flush', 'close')]
        seen = any(any_term(a, lambda x: x[0] in ('mut', 'res') and any(lname(str(y)) in ('flush', 'close') for y in x if isinstance(y, str))) for a in pa.st.facts)
        ctx.ob('written', where, bool(fl) and seen, 'success is reported before the data has left the program', 'C16:write:flush', pa.where())
        m = getf(ser[0].d['recvval'], 'node_map')
        ok = False
        if m[0] == 'loopv':
            base, alts, trip = m[2], m[3], m[4]
            ok = all(a == ('prev',) or a[0] == 'mupd' and a[1] == ('prev',) for a in alts) and any(a[0] == 'mupd' for a in alts)
            ups = [(a[2], a[3]) for a in alts if a[0] == 'mupd']
        elif m[0] == 'genm':
            base, trip, ups, ok = m[1], m[3], [(m[4], m[5])], True
        if not ctx.ob('written', where, ok, 'what is written is not the entries of the file with those of the nodes (%s)' % show(m)[:120], 'C16:write:entries', pa.where()):
            continue
        if parse:
            ctx.ob('kept', where, parsed_map(base, file), 'entries the file already had are lost', 'C16:write:kept', pa.where())
        else:
            neg = [a for a, v in pa.st.facts.items() if onfile(a, file)]
            ctx.ob('kept', where, bool(neg), 'a file that may exist is overwritten without being read', 'C16:write:unread', pa.where())
        ctx.ob('written', where, trip == size(vec), 'not every node is written', 'C16:write:every', pa.where())
        for k, v in ups:
            ctx.ob('names', where, is_label(k, label), 'a node is not stored under the label and its position (%s)' % show(k)[:80], 'C16:write:name', pa.where())
            keys.add(norm(f, k))
            el = v[1][2] if v[0] == 'msgof' and len(v[1]) > 2 else None
            ctx.ob('written', where, v[0] == 'msgof' and any_term(v, lambda x: x[0] == 'at' and x[1] == vec and x[2][0] == 'idx') and 'eval' in show(v),
                   'the entry of a node is not its value (%s)' % show(v)[:80], 'C16:write:value', pa.where())
        for e in ev:
            if e.k != 'loop':
                continue
            for kind, s, sub in e.paths:
                calls = [x for x in sub if x.k == 'call' and lname(x.q) in ('eval', 'get_eval')]
                if not calls:
                    continue
                null = pa.ip.decide(s, ('nz', calls[0].res)) is False
                wr = [x for x in sub if x.k in ('touch', 'cmut', 'write') and 'node_map' in show(x.loc)]
                ctx.ob('written', where, kind in ('next', 'continue') and (bool(wr) or null), 'a node that has a value is left out', 'C16:write:skipped', pa.where())
    ctx.need(done, 'no path of %s writes a file' % f['q'])
    return keys


def reader(ctx, f, keys):
    V = ('d', par(f, 0))
    vec, label, file = ('deref', par(f, 0)), par(f, 1), par(f, 2)
    where = site(f)
    done = 0
    for pa in ctx.run(f, opaque, mods=False):
        if pa.out != 'ret':
            ctx.fail('restored', where, 'reading can %s' % pa.out, 'C16:read:' + pa.out, pa.where())
            continue
        ev = evs(pa)
        parse = [e for e in ev if e.k == 'ext' and 'Parse' in lname(e.q)]
        good = len(parse) == 1 and result(pa, parse[0].res) is True
        if not good:
            ok = result(pa, pa.val) is False and not [e for e in ev if e.k in ('write', 'cmut') and e.loc == V] and not [e for e in ev if e.k == 'call' and lname(e.q) == 'read_proto']
            ctx.ob('restored', where, ok, 'a file that cannot be read changes something, or the failure is not reported', 'C16:read:unreadable', pa.where())
            continue
        done += 1
        ctx.ob('restored', where, result(pa, pa.val) is True, 'a file that was read is reported as unreadable', 'C16:read:result', pa.where())
        ctx.ob('restored', where, onfile(stream_of(pa, parse[0]), file), 'the model is not read from the file named', 'C16:read:file', pa.where())
        final = pa.ip.load(pa.st, V)
        ok = final[0] == 'loopv' and final[2] == ('seq', ()) and final[4] == size(vec) and \
            all(a == ('prev',) or a[0] == 'push' and a[1] == ('prev',) and a[2][0] == 'at' and a[2][1] == vec and a[2][2][0] == 'idx' for a in final[3])
        if not ctx.ob('restored', where, ok, 'the nodes handed back are not those that were not found (%s)' % show(final)[:120], 'C16:read:unfound', pa.where()):
            continue
        loops = [e for e in ev if e.k == 'loop' and any(any(x.k == 'call' and lname(x.q) == 'read_proto' for x in sub) for _, _, sub in e.paths)]
        if not ctx.ob('restored', where, len(loops) == 1, 'the nodes are not read', 'C16:read:loop', pa.where()):
            continue
        L = loops[0]
        locs = [l for l in L.W if any(pa.ip.load(s, l)[0] == 'push' for _, s, _ in L.paths)]
        for kind, s, sub in L.paths:
            if kind not in ('next', 'continue'):
                ctx.fail('restored', where, 'reading stops before every node was looked up', 'C16:read:stop', pa.where())
                continue
            rd = [x for x in sub if x.k == 'call' and lname(x.q) == 'read_proto']
            out = any(pa.ip.load(s, l)[0] == 'push' for l in locs)
            has = [(a, v) for a, v in s.facts.items() if a[0] == 'has' and parsed_map(a[1], file)]
            if rd:
                x = rd[0]
                a = [y for y in x.args if any_term(y, lambda z: z[0] == 'mget')]
                el = x.recv
                ok = len(rd) == 1 and el[0] == 'at' and el[1] == vec and el[2][0] == 'idx' and len(a) == 1 and a[0][0] == 'mget' and parsed_map(a[0][1], file)
                if not ctx.ob('restored', where, ok, 'a node is not read from its own entry of the file', 'C16:read:entry', pa.where()):
                    continue
                k = a[0][2]
                ctx.ob('names', where, keys == {norm(f, k)}, 'nodes are read under other names than they are saved under (%s)' % show(k)[:80], 'C16:names', pa.where())
                ctx.ob('restored', where, (('has', a[0][1], k), True) in has, 'an entry is used that the file may not have', 'C16:read:missing', pa.where())
                r = pa.ip.decide(s, ('nz', x.res))
                ctx.ob('restored', where, r is not None and out == (not r), 'a node whose entry was refused is not handed back, or one that was read is', 'C16:read:refused', pa.where())
            else:
                ctx.ob('restored', where, out and any(v is False for _, v in has), 'a node is left out though the file has its entry', 'C16:read:left', pa.where())
    ctx.need(done, 'no path of %s reads a file' % f['q'])


def scope_ok(pa, f, i, t):
    p = par(f, i)
    e = pa.ip.decide(pa.st, ('nz', ('size', p)))
    own = ('fld', ('deref', ('this',)), 'scope_')
    return t == (p if e else own) if e is not None else False


def compound(ctx, p):
    opq = lambda g: g['q'].startswith('nnet::') or lname(g['q']) == 'get_variables'
    gv = lambda t: t[0] in ('mfn', 'res') and 'get_variables' in show(t) and any_term(t, lambda x: x == ('this',))
    for f in ctx.fns('rocnnet::icompound::save'):
        for pa in ctx.run(f, opq, mods=False):
            if pa.out != 'ret':
                ctx.fail('whole', site(f), 'saving a model can %s' % pa.out, 'C16:save:' + pa.out, pa.where())
                continue
            w = [e for e in evs(pa) if e.k == 'call' and e.q == WRITE]
            ok = len(w) == 1 and gv(w[0].args[0]) and w[0].args[2] == par(f, 0) and pa.val == w[0].res
            ctx.ob('whole', site(f), ok, 'saving a model does not write all of its variables to the file, or does not report whether it did', 'C16:save', pa.where())
            if len(w) == 1:
                ctx.ob('names', site(f), scope_ok(pa, f, 1, w[0].args[1]), 'a model is not saved under the name given, or else its own', 'C16:save:name', pa.where())
    for f in ctx.fns('rocnnet::icompound::initialize'):
        for pa in ctx.run(f, opq, mods=False):
            if pa.out != 'ret':
                ctx.fail('whole', site(f), 'restoring a model can %s' % pa.out, 'C16:init:' + pa.out, pa.where())
                continue
            ev = evs(pa)
            r = [e for e in ev if e.k == 'call' and e.q == READ]
            if not ctx.ob('whole', site(f), len(r) == 1 and gv(r[0].args[0]) and r[0].args[2] == par(f, 0), 'restoring a model does not look its variables up in the file', 'C16:init:read', pa.where()):
                continue
            ctx.ob('names', site(f), scope_ok(pa, f, 1, r[0].args[1]), 'a model is not restored under the name given, or else its own', 'C16:init:name', pa.where())
            rest = ('out', 0, r[0].res)
            read = pa.ip.decide(pa.st, ('nz', r[0].res))
            left = pa.ip.decide(pa.st, ('nz', size(rest)))
            inits = [e for e in ev if e.k == 'call' and lname(e.q) == 'initialize']
            if read is True and left is False:
                ctx.ob('whole', site(f), not inits, 'values that were read are replaced', 'C16:init:replaced', pa.where())
                continue
            loops = [e for e in pa.ev if e.k == 'loop']
            ok = False
            for L in loops:
                if L.hi is None or L.hi[0] != 'size' or not gv(L.hi[1]):
                    continue
                good = True
                for kind, s, sub in L.paths:
                    c = [x for x in sub if x.k == 'call' and lname(x.q) == 'initialize']
                    good = good and kind in ('next', 'continue') and len(c) == 1 and not c[0].args and c[0].recv[0] == 'at' and gv(c[0].recv[1]) and c[0].recv[2][0] == 'idx'
                ok = ok or good
            ctx.ob('whole', site(f), ok and (read is False or left is True), 'when not every variable was read, not all of them get fresh values', 'C16:init:fresh', pa.where())


def models(ctx, p):
    """models made of compounds: each is saved and restored under one name of its own"""
    n = 0
    comp = set()
    for k, c in p.classes.items():
        if c['q'] == 'rocnnet::icompound' or derives(p, k, 'rocnnet::icompound'):
            comp.add(c['q'])
    for f in sorted(p.fns.values(), key=lambda f: f['usr']):
        if not f['q'].startswith('rocnnet::') or lname(f['q']) != 'save' or f['q'] == 'rocnnet::icompound::save' or f.get('body') is None or len(f['params']) < 2:
            continue
        k = f['cls']
        parts = {x for x, t in fields(p, k) if t.get('k') == 'p' and t.get('rq') in comp}
        fi = [g for g in p.fns.values() if g.get('cls') == k and lname(g['q']) == 'initialize' and g.get('body') is not None]
        if not parts:
            continue
        ctx.need(len(fi) == 1, '%s has no initialize' % f['q'])
        n += 1
        names = {}
        for g, what in ((f, 'save'), (fi[0], 'initialize')):
            key = 'C16:%s:' % f['q'].split('::')[1]
            for pa in ctx.run(g, lambda h: h['q'] in ('rocnnet::icompound::save', 'rocnnet::icompound::initialize'), mods=False):
                if pa.out != 'ret':
                    ctx.fail('whole', site(g), '%s can %s' % (what, pa.out), key + pa.out, pa.where())
                    continue
                cs = [e for e in evs(pa) if e.k == 'call' and lname(e.q) == what]
                got = {}
                for e in cs:
                    nm = e.recv[2] if e.recv[0] == 'fld' else None
                    e2 = pa.ip.decide(pa.st, ('nz', ('size', par(g, 1))))
                    lab = subst(e.args[1], lambda x: ('scope',) if x == par(g, 1) and e2 is True or x == ('fld', ('deref', ('this',)), 'scope_') and e2 is False else None)
                    if e.args[0] != par(g, 0):
                        lab = ('otherfile',)
                    got[nm] = lab
                names.setdefault(what, set()).add(tuple(sorted(got.items(), key=repr)))
                ctx.ob('whole', site(g), set(got) == parts and len(cs) == len(parts), '%s does not handle every network of the model' % what, key + what, pa.where())
                ctx.ob('names', site(g), len(set(got.values())) == len(got) and all(any_term(v, lambda x: x == ('scope',)) for v in got.values()),
                       'the networks of the model do not get names of their own from the name given', key + what + ':names', pa.where())
                if what == 'save':
                    rs = [result(pa, e.res) for e in cs]
                    un = [e.res for e, x in zip(cs, rs) if x is None]
                    want = pa.val == FALSE if False in rs else pa.val == TRUE if not un else un == [pa.val] or len(un) > 1 and pa.val[0] == 'op' and pa.val[1] == '&' and set(pa.val[2:]) == set(un)
                    ctx.ob('whole', site(g), want, 'success is reported though a network was not saved', key + 'result', pa.where())
        ctx.ob('names', site(f), len(set().union(*names.values())) == 1, 'a model is saved under other names than it is restored under', key + 'same')
    ctx.need(n >= 2, 'the models were not found')


def derives(p, k, q):
    for b in p.classes[k]['bases']:
        b = b.get('usr') or b.get('rec') if isinstance(b, dict) else b
        if b in p.classes and (p.classes[b]['q'] == q or derives(p, b, q)):
            return True
    return False


def check(ctx):
    ctx.explain = ('The functions that write and read a file are run on all paths: the map of entries written is a symbolic value, so that the names, the values and what '
                   'is kept can be read off and compared with what reading looks up; the same for every model that saves and restores networks.')
    ctx.rule('names', 'reading uses the names writing uses: the label given and the position of the node')
    ctx.rule('written', 'success is only reported after every node that has a value was written to the file named')
    ctx.rule('kept', 'entries a file already has are kept; a file that cannot be read is left alone')
    ctx.rule('restored', 'each node found is read from its own entry; those not found or refused are handed back, and a file that cannot be read changes nothing')
    ctx.rule('whole', 'a model saves and restores all of its variables and networks; unless all were read, all variables get fresh values')
    p = ctx.prog('base')
    for w in ctx.fns(WRITE):
        keys = writer(ctx, w)
        for r in ctx.fns(READ):
            if r['params'][0]['t'].get('rec') == w['params'][0]['t'].get('rec'):
                reader(ctx, r, keys)
    compound(ctx, p)
    models(ctx, p)
