"""C20: the comparison reports a difference exactly when there is one."""
from copies import *


def compares(fn):
    return fn.rec == GC and fn.n == 'compare_content' and fn.body is not None and fn.const


def compare_summary(D, st, fn, this, ops, n):
    """the comparison of two elements: an empty report when they are equal, else a text"""
    if not compares(fn):
        return None
    a, b = gc_oid(D, st, this), gc_oid(D, st, ops[0])
    if a is None or b is None:
        return None
    ta, tb = D.gcterm(st, a), D.gcterm(st, b)
    out = []
    for s, t in D.truth(st, ('cmp', '==', ('gcval', ta), ('gcval', tb))):
        if t:
            out.append((s, ('s', '')))
        else:
            v = ('A', 'report', ta, tb)
            D.assume(s, sub(from_atom(('len', v)), 1))
            out.append((s, v))
    return out


def emptiness(D, st, v):
    """{True, False}: whether the text can be empty / not empty"""
    if v is None or is_unk(v):
        return {None}
    if isinstance(v, int) or isinstance(v, Lin):
        return {False}
    if v == ('s', ''):
        return {True}
    k = v[0]
    if k == 's':
        return {False}
    if k == 'A' and v[1] == 'report':
        return {False}
    if k == 'A':
        L = from_atom(('len', v))
        if D.entails(st, sub(L, 1)):
            return {False}
        if D.entails(st, neg(L)):
            return {True}
        return {True, False}
    if k in ('strof', 'cat'):
        r = {True}
        for x in (v[1] if k == 'strof' else v[1:]):
            if k == 'strof':
                if not x or x[0] != 'out':
                    return {None}
                x = x[1]
                if isinstance(x, tuple) and x and x[0] in ('fn', 'manip'):
                    continue
            e = emptiness(D, st, x)
            if None in e:
                r = r | {None}
            if e == {False}:
                return {False}
            r |= e
        return r if None not in r else {None}
    if k in ('fconst', 'i2f', 'fop', 'f2f', 'cx', 'key', 'chr1', 'P', 'N'):
        return {False} if k != 'key' else {True, False}
    return {None}


def conds_mention(D, st, x):
    if isinstance(x, Lin):
        ids = atoms_of(x)
        def has(v):
            return any(has_atom(v, i) for i in ids)
    else:
        def has(v):
            return any(t == x or t[:1] == ('A',) and x[:1] == ('A',) and t[1:] == x[1:] for t in walk_terms(v))
    return any(has(f) for f in st.facts) or any(has(k) for k in st.bools) or any(has(u) for u in st.uni)


def only_length(v, x):
    """every mention of the text x in v is its length"""
    if isinstance(v, Lin):
        return all(only_length(atom_name(a), x) for a in atoms_of(v))
    if isinstance(v, tuple):
        if v == x:
            return False
        if v[:1] == ('len',) and len(v) == 2 and v[1] == x:
            return True
        return all(only_length(y, x) for y in v if isinstance(y, (tuple, Lin)))
    return True


def only_lengths(D, st, x):
    """the conditions of the path say nothing of the text x but how long it is, and it can be non-empty"""
    if not (isinstance(x, tuple) and x[:1] in (('A',), ('key',))):
        return False
    if not all(only_length(v, x) for v in st.facts) or not all(only_length(v, x) for v in st.bools) or not all(only_length(v, x) for v in st.uni):
        return False
    s = st.copy()
    return D.assume(s, sub(from_atom(('len', x)), 1))


def told_equal(D, st, cond, kind, a, b):
    """True when the path implies a == b, False when they can differ, None"""
    if a == b:
        return True
    if is_unk(a) or is_unk(b):
        return None
    if kind in (None, 'gc'):
        a, b = ('gcval', a), ('gcval', b)
    if isnum(a) and isnum(b):
        if D.equal(st, a, b):
            return True
    elif st.bools.get(('eqv', a, b)) is True or st.bools.get(('eqv', b, a)) is True:
        return True
    for e in cond.extra:
        if e[0] == 'b' and e[1][0] == 'eqv' and e[3] and {repr(e[1][1]), repr(e[1][2])} == {repr(a), repr(b)}:
            return True
        if e[0] in ('==', '!=') and e[3] == (e[0] == '==') and {repr(e[1]), repr(e[2])} == {repr(a), repr(b)}:
            return True
    if kind == 'COMPLEX':
        r = [told_equal(D, st, cond, 'REAL', D.cx_part(a, p), D.cx_part(b, p)) for p in ('re', 'im')]
        if r == [True, True]:
            return True
        if False in r and not conds_mention(D, st, a) and not conds_mention(D, st, b):
            return False
        return None
    if cond.vague or cond.alts or D.blurred(st):
        return None
    if isnum(a) and isnum(b):
        if any(is_unk(e) for e in cond.extra):
            return None
        return False if (not conds_mention(D, st, a) or not conds_mention(D, st, b)) and D.differ(st, a, b) or not cond.q and D.differ(st, a, b) else None
    if not conds_mention(D, st, a) or not conds_mention(D, st, b):
        return False
    if kind == 'STRING' and not cond.extra and (only_lengths(D, st, a) or only_lengths(D, st, b)):
        return False
    return None


def rename(v, old, new):
    if isinstance(v, Lin):
        m = {}
        for a in atoms_of(v):
            nm = atom_name(a)
            nn = rename(nm, old, new)
            if nn != nm:
                m[a] = norm_atom(nn)
        return subst(v, m) if m else v
    if isinstance(v, tuple):
        if v == old:
            return new
        return tuple(rename(x, old, new) if isinstance(x, (tuple, Lin)) else x for x in v)
    return v


def possible_when_equal(D, st, old, new):
    """False: the conditions of the path contradict equal contents; True: they do not; None: not known"""
    s = D.entry_state()
    for f in st.facts:
        g = rename(f, old, new)
        if isinstance(g, int):
            if g < 0:
                return False
        elif not D.assume(s, g):
            return False
    unsure_ = False
    for k, t in st.bools.items():
        g = rename(k, old, new)
        if g[0] == 'eqv' and g[1] == g[2] and not t:
            return False
        if g[0] == 'eq' and isinstance(g[1], int) and (g[1] == 0) != t:
            return False
        if g[0] == 'eq' and not isinstance(g[1], int):
            if not t and D.equal(s, g[1], 0) or t and not (D.assume(s, g[1]) and D.assume(s, neg(g[1]))):
                return False
        if g[0] == 'f>' and g[1] == g[2] and t:
            return False
        if g[0] not in ('eqv', 'eq') and g != k:
            unsure_ = True
    if unsure_ or D.blurred(st) or st.uni and any(u[0] != 'all' for u in st.uni):
        return None if D.blurred(st) or unsure_ else True
    return True


def visit_c20(D, fn, tag, outs, this, objs):
    st0, other = D.entry, objs[0]
    ta, pa = D.payload(st0, this)
    tb, pb = D.payload(st0, other)
    if ta is None or tb is None:
        return
    for o in outs:
        st = o.st
        if o.kind == 'exc':
            if throws(o):
                D.at_exit(st, 'C20', 'report', 'the comparison throws', 'undec' if D.blurred(st) else 'viol')
            continue
        got = D.val(st, o.val)
        for e in emptiness(D, st, got):
            if e is None:
                D.at_exit(st, 'C20', 'report', '%s and %s: the report is not determined' % (ta, tb), 'undec')
            elif e:
                silent(D, st, st0, ta, pa, tb, pb)
            else:
                speaks(D, st, st0, ta, tb, this, other)


def silent(D, st, st0, ta, pa, tb, pb):
    what = '%s and %s:' % (ta, tb)
    if ta != tb:
        D.at_exit(st, 'C20', 'silent', what + ' no difference is reported', 'undec' if D.blurred(st) else 'viol')
        return
    if ta == 'NOTYPE':
        D.ok('C20', 'silent')
        return

    def pair(s, cond, kind, a, b, where=''):
        a, b = text_of(a), text_of(b)
        r = told_equal(D, s, cond, kind, a, b)
        say(D, s, 'C20', 'silent', r, '%s no difference is reported although%s the values can differ' % (what, where))
        return r is True
    if ta in SCALARS:
        pair(st, Cond(D, st), ta, pa, pb)
        return
    s0 = st.copy()
    A, B = pa[1] + 200000, pb[1] + 200000
    s0.heap[A], s0.heap[B] = st0.heap[pa[1]], st0.heap[pb[1]]
    if pa[1] == pb[1]:
        D.ok('C20', 'silent')
        return
    fa, fb = s0.heap[A].f, s0.heap[B].f
    if ta in MATS:
        for f, w in (('m_num_rows', 'rows'), ('m_num_cols', 'columns')):
            if not same_num(D, s0, fa[f], fb[f], 'C20', 'silent', what + ' no difference is reported although the number of %s' % w):
                return
    if not same_num(D, s0, fa['size'], fb['size'], 'C20', 'silent', what + ' no difference is reported although the number of elements'):
        return
    for s, q in positions(D, s0, fb['size']):
        cond = Cond(D, s, q)
        if ta == 'MAP':
            ka, kb = D.key_of(s, A, q), D.key_of(s, B, q)
            if not pair(s, cond, 'STRING', ka, kb, ' the keys at %s or' % D.nice(q)):
                return
            va, vb = D.map_term(s, A, q), D.map_term(s, B, q)
        else:
            va, vb = D.seq_term(s, A, q), D.seq_term(s, B, q)
        if not pair(s, cond, ELEM_OF.get(ta), va, vb, ' at %s' % D.nice(q)):
            return


def speaks(D, st, st0, ta, tb, this, other):
    what = '%s and %s:' % (ta, tb)
    if ta != tb:
        D.ok('C20', 'speaks')
        return
    a, b = st0.heap[this].m.get('origin'), st0.heap[other].m.get('origin')
    pa, pb = D.payload(st0, this)[1], D.payload(st0, other)[1]
    if ta not in SCALARS and ta != 'NOTYPE':
        fa, fb = st0.heap[pa[1]].f, st0.heap[pb[1]].f
        for k in ('size', 'm_num_rows', 'm_num_cols'):
            if isinstance(fa.get(k), int) and isinstance(fb.get(k), int) and fa[k] != fb[k]:
                D.ok('C20', 'speaks')
                return
    r = possible_when_equal(D, st, a, b) if this != other else True
    if r is False:
        D.ok('C20', 'speaks')
    else:
        D.at_exit(st, 'C20', 'speaks', what + ' a difference is reported although the contents can be equal', 'viol' if r and not D.blurred(st) else 'undec')


# the container itself, then the other one: elements, rows, columns
UNEQUAL = ((1, 1, 1, 2, 1, 2), (2, 1, 2, 1, 2, 1), (2, 2, 2, 3, 2, 1))


def compare_cases(D, fn):
    out = []
    for a in sorted(D.alltags):
        for b in sorted(D.alltags):
            out.append((fn, a, typed_arg(D, 0, b), ' and ' + D.tagname[b]))
    for t, s, l in alias_cases(D, fn):
        if l.endswith('the container itself'):
            out.append((fn, t, s, l))
    return out


def init_c20(D):
    init_vals(D)
    D.summaries[GC + '::compare_content'] = compare_summary


def check_C20():
    rep = Report('C20')
    prog = P_.extract()
    fns = [f for f in operations(prog) if compares(f)]
    res = sweep_all(prog, visit_c20, init_c20, fns, True, Vals, SIZES + UNEQUAL, compare_cases)
    collect(rep, res, 'C20', ('silent', 'speaks', 'report'), {
        'silent': 'an empty report is returned only on paths whose conditions imply the same type, sizes, keys and elements',
        'speaks': 'a report is returned only on paths whose conditions contradict equal contents',
        'report': 'the comparison returns, with a text of which it is known whether it is empty'})
    rep.cov['pairs of stored types'] = len(fns) * 441
    return rep.finish('other', HOW + ' The conditions collected along every path of the comparison are confronted with equality of the two contents, element by element; nested '
                      'containers by induction (the recursive call compares).', ASSUME)
