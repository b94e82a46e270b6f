"""Queries over the type-checked syntax tree: walking, declarations, and the origin of references."""


def kids(n):
    if isinstance(n, dict):
        for k, v in n.items():
            if k not in ('t', 'et', 'bt', 'ot', 'rt', 'L', 'pf') and isinstance(v, (dict, list)):
                yield v
    elif isinstance(n, list):
        for v in n:
            if isinstance(v, (dict, list)):
                yield v


def walk(n):
    """every node below n, lambda bodies included"""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
        stack.extend(kids(x))


def body(f):
    """the tree of a function: constructor initialisers and body"""
    return {'inits': f.get('inits'), 'body': f.get('body')}


def decls(f):
    """id -> declaration of locals and parameters of f (lambdas included)"""
    out = {}
    for p in f.get('params', ()):
        if 'id' in p:
            out[p['id']] = dict(p, param=True)
    for n in walk(body(f)):
        if n.get('k') == 'decl':
            for d in n['d']:
                if 'id' in d:
                    out[d['id']] = d
        elif n.get('k') == 'lambda':
            for p in (n['fn'].get('params') or ()):
                if 'id' in p:
                    out[p['id']] = dict(p, param=True)
        elif n.get('k') == 'rfor' and isinstance(n.get('var'), dict) and 'id' in n['var']:
            out[n['var']['id']] = dict(n['var'], loop=True)
    return out


def types(n):
    for k in ('t', 'et', 'bt', 'ot', 'rt'):
        if isinstance(n.get(k), dict) and 's' in n[k]:
            yield n[k]


def where(f, n):
    l = n.get('L') or f['L']
    return '%s:%d' % (f['files'][l[0]].split('/repo/')[-1], l[1])


def strip(e):
    """drop casts, conversions and parentheses"""
    while isinstance(e, dict) and e.get('k') in ('cast', 'conv', 'paren') and 'e' in e:
        e = e['e']
    return e
