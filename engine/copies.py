"""C05: copies are equal to the source, share nothing with it and leave it unchanged."""
from values import *

GC_COPY = ('operator=', 'load', 'from_gc', 'to_gc', 'GenericContainer')
VAL = {'bool': ('BOOL', 'BOOL'), 'int': ('INTEGER', 'INTEGER'), 'unsigned int': ('UINT', 'INTEGER'), 'long': ('LONG', 'LONG'), 'unsigned long': ('ULONG', 'LONG'),
       'float': ('FLOAT', 'REAL'), 'double': ('REAL', 'REAL'), 'std::complex<double>': ('COMPLEX', 'COMPLEX'), 'std::complex<float>': ('CFLOAT', 'COMPLEX')}
SPAN = dict(RANGE, UINT=(0, (1 << 32) - 1), ULONG=(0, (1 << 64) - 1))


def copies(fn):
    """('gc', destination, source) or ('value', parameter kind, stored type, parameter) or ('cx',) or None"""
    if fn.rec != GC or fn.static or fn.body is None:
        return None
    n, ps = fn.n, [fn.types[p['t']] for p in fn.ps]
    if len(ps) == 1 and ps[0].base == GC and ps[0].ref and n in GC_COPY:
        return ('gc', 0, 'this') if n == 'to_gc' else ('gc', 'this', 0)
    ctor = bool(fn.d.get('ctor'))
    named = None
    if n.startswith('set_') and own_tag(n[4:]):
        named = own_tag(n[4:])
    if named == 'COMPLEX' and len(ps) == 2 and all(p.base == 'double' for p in ps):
        return ('cx', 'COMPLEX')
    if not (ctor or named or n in ('set', 'operator=')) or len(ps) != 1:
        return None
    b, k = ps[0].base, kind_of(ps[0].base)
    if k == 'vec':
        e = elem_type(b)
        t = {'void *': 'POINTER', 'bool': 'BOOL', 'int': 'INTEGER', 'long': 'LONG', 'double': 'REAL', 'std::complex<double>': 'COMPLEX'}.get(e)
        if t is None and kind_of(e) == 'str':
            t = 'STRING'
        if t is None:
            return None
        t = ('MAT_' if b.startswith(NS + 'mat_type') else 'VEC_') + t
        return ('seq', t) if named in (None, t) else None
    if named in VECS or named in MATS or named in ('VECTOR', 'MAP'):
        return None
    if b in VAL:
        return ('value', VAL[b][0], VAL[b][1]) if named in (None, VAL[b][1]) else None
    if k in ('sv', 'str') or k == 'ptr' and pointee(b) == 'char':
        return ('text', 'STRING') if named in (None, 'STRING') else None
    if k == 'ptr':
        return ('pointer', 'POINTER') if named in (None, 'POINTER') else None
    return None


# ------------------------------------------------------------------------------------------ copying of elements (recursion)
def gc_oid(D, st, v):
    if isinstance(v, tuple) and v:
        if v[0] in ('c', 'mp', 'e'):
            v = ('L', v)
        if v[0] == 'L' and v[1][0] == 'c':
            return v[1][1]
        if v[0] == 'L':
            v = D.read(st, v[1])
        if v[0] == 'O':
            return v[1]
        if v[0] == 'P' and v[1][0] == 'c':
            return v[1][1]
    return None


def copy_summary(D, st, fn, this, ops, n):
    """the element receives the value of the source element"""
    sp = copies(fn)
    if sp is None or sp[0] != 'gc':
        return None
    a, b = gc_oid(D, st, this), gc_oid(D, st, ops[0])
    if a is None or b is None or fn.d.get('ctor'):
        return None
    d, s = (a, b) if sp[1] == 'this' else (b, a)
    assign_term(D, st, d, D.gcterm(st, s))
    return [(st, None if fn.rt.cls == 'void' else ('L', ('c', d)))]


def assign_term(D, st, d, term):
    o = st.heap[d]
    m = {k: v for k, v in o.m.items() if k in ('elem', 'param', 'heap')}
    if isinstance(term, tuple) and term[:1] == ('gcv',) or term == ('default',):
        k = D.materialise(st, o.t, term, m)
        st.heap[d] = Obj('gc', st.heap[k].f, o.t, True, dict(m, init=None))
        st.heap.pop(k)
        return
    tag = from_atom(('tag', term))
    D.rng.setdefault(tag.t[0][0][0], (min(D.alltags), max(D.alltags)))
    f = {'tag': tag, 'mem': '?', 'val': None}
    m.update(origin=term, init=f, copyof=True)
    st.heap[d] = Obj('gc', f, o.t, True, m)


# ------------------------------------------------------------------------------------------------------------ comparison
def tag_dom(D, st, term):
    """types a container value can have: (set of tags, payload term or None)"""
    if term == ('default',) or term == ('gcv', 0, None):
        return frozenset((0,)), None
    if isinstance(term, tuple) and term and term[0] == 'gcv':
        return frozenset((term[1],)), term[2]
    if isinstance(term, tuple) and term and not is_unk(term):
        d = D.dom_of(st, from_atom(('tag', term)))
        return (frozenset(x + d[1] for x in d[2]) if d else D.alltags), None
    return None, None


def same_value(D, st, a, b):
    """True / False (they differ for some stored values) / None for two container values"""
    if a == b:
        return True
    if is_unk(a) or is_unk(b):
        return None
    ta, pa = tag_dom(D, st, a)
    tb, pb = tag_dom(D, st, b)
    if ta is None or tb is None:
        return None
    if len(ta) == 1 and len(tb) == 1:
        if ta != tb:
            return False
        if ta == frozenset((0,)):
            return True
        t = D.tagname[next(iter(ta))]
        if pa is None and isinstance(a, tuple):
            pa = scalar_of(D, t, a)
        if pb is None and isinstance(b, tuple):
            pb = scalar_of(D, t, b)
        if pa is None or pb is None:
            return None
        if pa == pb or isnum(pa) and isnum(pb) and D.equal(st, pa, pb):
            return True
        if isnum(pa) and isnum(pb) and not D.blurred(st) and D.differ(st, pa, pb):
            return False
        return None
    if D.blurred(st):
        return None
    # one of them is an input whose type the path leaves open
    return False if ta != tb or a != b and pa is None and pb is None else None


def scalar_of(D, t, name):
    if t not in SCALARS:
        return None
    mem = D.tagmem.get(t)
    b = D.mem_type.get(mem, 'void *')
    pn = ('pl', name, mem)
    if kind_of(b) == 'ptr' and b != 'void *':
        b = pointee(b)
    return D.mkatom(b, pn)


def same_elem(D, st, kind, a, b):
    """True / False / None for two elements of a sequence"""
    if kind is None:
        return same_value(D, st, a, b)
    a, b = text_of(a), text_of(b)
    if a == b:
        return True
    if a is None or b is None or is_unk(a) or is_unk(b):
        return None
    if isnum(a) and isnum(b):
        if D.equal(st, a, b):
            return True
        return False if not D.blurred(st) and D.differ(st, a, b) else None
    if D.blurred(st):
        return None
    if st.bools.get(('eqv', a, b), st.bools.get(('eqv', b, a))) is True:
        return True
    if isinstance(a, tuple) and a[:2] == ('A', 'i2p') and isnum(a[2]):
        w = from_atom(('p2i', b)) if not isnum(b) else b
        return True if D.equal(st, a[2], w) else False if D.differ(st, a[2], w) else None
    if bitwise(a) or bitwise(b):
        return None
    if kind in NUMERIC and sampled(D, st, kind, a, b):
        return False
    ra, rb = root_key(a) if not isinstance(a, tuple) else a, root_key(b) if not isinstance(b, tuple) else b
    if isinstance(ra, tuple) and isinstance(rb, tuple) and ra[0] in ('A', 's', 'N') and rb[0] in ('A', 's', 'N'):
        return False
    return None


def sampled(D, st, kind, got, want):
    """a stored number for which another one is found in its place"""
    roots = [root_key(v) for v in parts(D, kind, want)]
    cond = Cond(D, st)
    if None in roots or is_unk(got) or cond.vague:
        return False
    others = other_roots(D, st, [got], roots)
    for x in samples(kind):
        env = Env(D, dict(zip(roots, x)))
        env.r.update(others)
        if cond.holds(env, set(roots)) is not True:
            continue
        try:
            g, w = (env.cpx(got), env.cpx(want)) if kind == 'COMPLEX' else (env.num(got), env.num(want))
        except NoValue:
            return False
        if not same(g, w):
            return True
    return False


def say(D, st, prop, rule, r, msg):
    if r is True:
        D.ok(prop, rule)
    else:
        D.at_exit(st, prop, rule, msg, 'viol' if r is False else 'undec')
    return r is True


def same_contents(D, st, tn, oid, st0, oid0, prop, what):
    """two sequences, matrices or maps hold the same elements"""
    st = st.copy()
    D.fold_kids(st, oid, drop=False)
    x = st0.copy()
    D.fold_kids(x, oid0, drop=False)
    st.heap[oid0 + 100000] = x.heap[oid0]
    oid0 += 100000
    a, b = st.heap[oid], st.heap[oid0]
    if a.f is b.f or all(a.f[k] == b.f.get(k) for k in a.f if k != 'known'):
        D.ok(prop, 'equal')
        return
    if tn in MATS:
        for f, w in (('m_num_rows', 'rows'), ('m_num_cols', 'columns')):
            if not same_num(D, st, a.f[f], b.f[f], prop, 'equal', what + ' the number of %s' % w):
                return
    n0 = b.f['size']
    if not same_num(D, st, a.f['size'], n0, prop, 'equal', what + ' the number of elements'):
        return
    kind = ELEM_OF.get(tn)
    for s, q in positions(D, st, n0):
        if tn == 'MAP':
            if not isinstance(q, int):
                D.at_exit(st, prop, 'equal', what + ' the entries of the copy are compared only for known numbers of entries', 'undec')
                return
            k = D.key_of(s, oid0, q)
            va, vb = D.map_term(s, oid, ('at', k)), D.map_term(s, oid0, q)
            if b.f['base'] == a.f['base'] and va == ('val', b.f['base'], k) and vb == ('val', b.f['base'], q):
                D.ok(prop, 'equal')
                continue
        else:
            va, vb = D.seq_term(s, oid, q), D.seq_term(s, oid0, q)
        if not say(D, s, prop, 'equal', same_elem(D, s, kind, va, vb), '%s element %s is %s instead of %s' % (what, D.nice(q), D.nice(va), D.nice(vb))):
            return


def spans(kind):
    if kind in ('UINT', 'ULONG'):
        lo, hi = SPAN[kind]
        return [(v,) for v in INTPOOL if lo <= v <= hi]
    if kind == 'FLOAT':
        return [(f32(v),) for v in FLTPOOL]
    if kind == 'CFLOAT':
        return [(f32(a), f32(b)) for a in FLTPOOL for b in (0.0, -2.5)]
    return samples(kind)


def stored_number(D, st, kind, term, target, got, prop, what):
    """the number stored is the one given, for every number that the stored type can hold"""
    cx = kind in ('COMPLEX', 'CFLOAT')
    roots = [root_key(v) for v in parts(D, 'COMPLEX' if cx else kind, term)]
    if got == term or isnum(got) and isnum(term) and D.equal(st, got, term):
        D.ok(prop, 'equal')
        return
    cond = Cond(D, st)
    if None in roots or got is None or is_unk(got) or cond.vague:
        D.at_exit(st, prop, 'equal', what + ' the value stored is not determined', 'undec')
        return
    others = other_roots(D, st, [got], roots)
    for x in spans(kind):
        if not fits(target, x):
            continue
        env = Env(D, dict(zip(roots, x), **{}))
        env.r.update(others)
        if cond.holds(env, set(roots)) is not True:
            continue
        try:
            g = env.cpx(got) if target == 'complex' else env.num(got)
        except NoValue:
            D.at_exit(st, prop, 'equal', what + ' the value stored is not determined', 'undec')
            return
        if not same(g, expected(target, x)):
            D.at_exit(st, prop, 'equal', '%s %s is stored as %s' % (what, x[0] if len(x) == 1 else x, g))
            return
    D.ok(prop, 'equal')


def visit_c05(D, fn, tag, outs, this, objs):
    sp = copies(fn)
    st0 = D.entry
    if sp[0] == 'gc':
        dst, src = (this, objs[0]) if sp[1] == 'this' else (objs[0], this)
    else:
        dst, src = this, objs.get(0)
    for o in outs:
        st = o.st
        if o.kind == 'exc':
            if throws(o):
                D.at_exit(st, 'C05', 'equal', 'the copy throws', 'undec' if D.blurred(st) else 'viol')
            continue
        if sp[0] == 'gc' and src == dst:
            a, b = D.gcterm(st, dst), D.gcterm(st0.copy(), dst)
            say(D, st, 'C05', 'source', True if a == b else None, 'assigning a container to itself changes it')
            continue
        D.consistent(o, 'C05', 'on return')
        # the source is what it was
        if src is not None and src in st.heap and not inside(D, st0, src, dst) and not inside(D, st0, dst, src):
            a, b = D.objterm(st, src), D.objterm(st0.copy(), src)
            if a == b:
                D.ok('C05', 'source')
            else:
                D.at_exit(st, 'C05', 'source', 'the source is changed by the copy', 'undec' if is_unk(a) or D.blurred(st) else 'viol')
        t, p = D.payload(st, dst)
        want, p0 = D.payload(st0, src) if sp[0] == 'gc' else (sp[-1], None)
        if want is None:
            continue
        what = 'a %s copied:' % want
        if t != want:
            D.at_exit(st, 'C05', 'equal', '%s the type of the copy is %s' % (what, t), 'undec' if t is None or D.blurred(st) else 'viol')
            continue
        if want == 'NOTYPE':
            D.ok('C05', 'equal')
        elif sp[0] == 'gc':
            if want in SCALARS:
                if want in NUMERIC:
                    stored_number(D, st, want, p0, TARGET_OF[want], p, 'C05', what)
                else:
                    say(D, st, 'C05', 'equal', same_elem(D, st, want, p, p0), '%s the copy is %s instead of %s' % (what, D.nice(p), D.nice(p0)))
            else:
                same_contents(D, st, want, p[1], st0, p0[1], 'C05', what)
        elif sp[0] == 'seq':
            same_contents(D, st, want, p[1], st0, src, 'C05', what)
        elif sp[0] == 'value':
            x = st0.heap[src].f['v'] if src is not None else D.args0[0]
            stored_number(D, st, sp[1], x, TARGET_OF[want], p, 'C05', what)
        elif sp[0] == 'cx':
            stored_number(D, st, 'COMPLEX', D.mk_cx(D.args0[0], D.args0[1]), 'complex', p, 'C05', what)
        else:
            x = st0.heap[src].f['v'] if src is not None and src in st0.heap else D.args0[0]
            if isinstance(x, tuple) and x in D.view_owner:
                x = D.view_owner[x][1]
            say(D, st, 'C05', 'equal', same_elem(D, st, want, p, x), '%s the value stored is %s instead of %s' % (what, D.nice(p), D.nice(x)))


def inside(D, st, a, b):
    """the object a is reached from the container b"""
    return a in D.reachable(st, [b])


def copy_cases(D, fn):
    sp = copies(fn)
    if sp[0] != 'gc':
        return case_list_(D, fn, True)
    out = []
    ts = sorted(D.alltags)
    for a in ts if not fn.d.get('ctor') else [None]:
        for b in ts:
            out.append((fn, a, typed_arg(D, 0, b), ' and argument holding ' + D.tagname[b] if a is not None else 'argument holding ' + D.tagname[b]))
    for t, s, l in alias_cases(D, fn):
        if l.endswith('the container itself'):
            out.append((fn, t, s, l))
            continue
        for b in ts:
            out.append((fn, t, then_typed(D, s, b), '%s holding %s' % (l, D.tagname[b])))
    return out


def then_typed(D, setup, tag):
    def f(st, this, ops, objs):
        r = setup(st, this, ops, objs)
        t, o, ob = r if r is not None else (this, ops, objs)
        if 0 in ob and st.heap[ob[0]].kind == 'gc':
            D.concretise(st, ob[0], tag)
        return r
    return f


def init_c05(D):
    init_vals(D)
    for q in GC_COPY:
        D.summaries[GC + '::' + q] = copy_summary


def check_C05():
    rep = Report('C05')
    prog = P_.extract()
    fns = [f for f in operations(prog) if copies(f)]
    res = sweep_all(prog, visit_c05, init_c05, fns, True, Vals, True, copy_cases)
    collect(rep, res, 'C05', ('equal', 'source', 'agree', 'owner'), {
        'equal': 'type, size and every element of the destination are those of the source at the entry',
        'source': 'the source is what it was',
        'agree': 'the destination holds a live payload of its type', 'owner': 'no payload is owned by two containers'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' For every pair of types of source and destination, distinct or one inside the other, the terms found in the destination at the exit are '
                      'compared with those of the source at the entry; nested containers by induction (the recursive call copies). A difference is reported only with stored values '
                      'that show it.', ASSUME)
