"""Queries over the resolved program."""


def kids(n):
    for k, v in n.items():
        if k in ('callee',):
            continue
        if isinstance(v, dict):
            yield k, v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield k, x


def walk(n):
    """every node below n (n included)"""
    if n is None:
        return
    st = [n]
    while st:
        x = st.pop()
        yield x
        for _, c in kids(x):
            st.append(c)


def walkp(n, path=()):
    """(node, path of ancestors outermost first, each (node, edge))"""
    st = [(n, path)]
    while st:
        x, p = st.pop()
        yield x, p
        for e, c in kids(x):
            st.append((c, p + ((x, e),)))


def bodies(fn):
    if fn.body is not None:
        yield fn.body
    for i in fn.d.get('inits', ()) or ():
        if i.get('e'):
            yield i['e']


def callees(fn):
    """(callee description, node) of every call, construction and function reference in fn"""
    for b in bodies(fn):
        for n in walk(b):
            c = n.get('callee')
            if c:
                yield c, n
            if n.get('k') == 'LambdaExpr':
                for u in [n.get('usr')] + list(n.get('inst') or ()):
                    if u:
                        yield {'usr': u, 'q': '(lambda)', 'repo': True}, n


def reach(prog, roots):
    """usr set reachable through resolved calls, with a predecessor map"""
    pred = {}
    todo = []
    for f in roots:
        if f.usr not in pred:
            pred[f.usr] = None
            todo.append(f.usr)
    while todo:
        u = todo.pop()
        f = prog.fns.get(u)
        if f is None:
            continue
        for c, n in callees(f):
            v = c['usr']
            if v not in pred and v in prog.fns:
                pred[v] = (u, n.get('l'))
                todo.append(v)
    return pred


def chain(prog, pred, u):
    out = []
    while u is not None:
        out.append(prog.fns[u].q)
        u = pred[u][0] if pred.get(u) else None
    return list(reversed(out))


def strip(n):
    """skip value-preserving wrappers"""
    while n is not None and n.get('k') in ('ImplicitCastExpr', 'MaterializeTemporaryExpr', 'ExprWithCleanups', 'ParenExpr',
                                           'CXXBindTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'ConstantExpr'):
        n = n.get('e')
    return n
