"""C23, C04, C17: what the typed reads return, for every stored type."""
from memory import *
from evalt import *

SCALARS = ('POINTER', 'BOOL', 'INTEGER', 'LONG', 'REAL', 'COMPLEX', 'STRING')
VECS = {'VEC_POINTER': 'POINTER', 'VEC_BOOL': 'BOOL', 'VEC_INTEGER': 'INTEGER', 'VEC_LONG': 'LONG', 'VEC_REAL': 'REAL', 'VEC_COMPLEX': 'COMPLEX',
        'VEC_STRING': 'STRING'}
MATS = {'MAT_INTEGER': 'INTEGER', 'MAT_LONG': 'LONG', 'MAT_REAL': 'REAL', 'MAT_COMPLEX': 'COMPLEX'}
NUMERIC = ('BOOL', 'INTEGER', 'LONG', 'REAL', 'COMPLEX')
NAMES = {
    'NOTYPE': 'NOTYPE', 'POINTER': 'pointer', 'BOOL': 'bool_type', 'INTEGER': 'int_type', 'LONG': 'long_type', 'REAL': 'real_type',
    'COMPLEX': 'complex_type', 'STRING': 'string_type', 'VEC_POINTER': 'vec_pointer_type', 'VEC_BOOL': 'vec_bool_type',
    'VEC_INTEGER': 'vec_int_type', 'VEC_LONG': 'vec_long_type', 'VEC_REAL': 'vec_real_type', 'VEC_COMPLEX': 'vec_complex_type',
    'VEC_STRING': 'vec_string_type', 'MAT_INTEGER': 'mat_int_type', 'MAT_LONG': 'mat_long_type', 'MAT_REAL': 'mat_real_type',
    'MAT_COMPLEX': 'mat_complex_type', 'VECTOR': 'vector_type', 'MAP': 'map_type'}
ORDER = list(NAMES)


class Vals(Exits):
    """the exits of an operation with the values it leaves"""
    oom = False
    keep_alts = True

    def payload(self, st, oid):
        """(type name, stored value or payload object id) of a container whose type is known in st"""
        o = st.heap[oid]
        t = o.f['tag']
        if not isinstance(t, int):
            d = self.gc_domain(st, oid)
            if len(d) != 1:
                return None, None
            t = next(iter(d))
        v = o.f['val']
        if isinstance(v, tuple) and v and v[0] == 'P' and v[1][0] == 'c' and o.f['mem'] not in (None, 'p'):
            p = st.heap.get(v[1][1])
            if p is not None and p.kind == 'cell':
                return self.tagname[t], p.f['v']
            return self.tagname[t], ('O', v[1][1])
        return self.tagname[t], v

    def blurred(self, st):
        """the conditions of the path are not all known exactly"""
        return bool(st.inexact) or st.joined or any(is_unk(f) for f in st.facts) or any(is_unk(k) for k in st.bools)


def num_elements(D, st, tag, p):
    if tag == 'NOTYPE':
        return 0
    if tag in SCALARS:
        return 1
    o = st.heap[p[1]]
    if tag in MATS:
        return mul(o.f['m_num_rows'], o.f['m_num_cols'])
    return o.f['size']


def num_rows(D, st, tag, p):
    if tag == 'NOTYPE':
        return 0
    if tag in MATS:
        return st.heap[p[1]].f['m_num_rows']
    return 1


def num_cols(D, st, tag, p):
    if tag == 'NOTYPE':
        return 0
    if tag in MATS:
        return st.heap[p[1]].f['m_num_cols']
    return 1 if tag in SCALARS else st.heap[p[1]].f['size']


REPORTS = {
    'get_type': lambda D, st, t, p: D.tagval[t],
    'get_type_name': lambda D, st, t, p: ('s', NAMES[t]),
    'get_num_elements': num_elements,
    'num_rows': num_rows, 'get_numRows': num_rows,
    'num_cols': num_cols, 'get_numCols': num_cols,
    'simple_data': lambda D, st, t, p: int(ORDER.index(t) <= ORDER.index('STRING')),
    'simple_vec_data': lambda D, st, t, p: None if ORDER.index(t) <= ORDER.index('STRING') else int(ORDER.index(t) < ORDER.index('VEC_STRING')),
}


def text_of(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'cs' and v[3] == 0:
            return v[1]
        if v[0] == 's':
            return v
    return v


def visit_c23(D, fn, tag, outs, this, objs):
    spec = REPORTS[fn.n]
    tn = D.tagname.get(tag)
    if tn not in NAMES:
        return
    for o in outs:
        if o.kind == 'exc':
            if o.exc.t == 'std::runtime_error':
                D.at_exit(o.st, 'C23', 'report', 'throws for a stored %s' % tn, 'undec' if D.blurred(o.st) else 'viol')
            continue
        t, p = D.payload(o.st, this)
        if t != tn:
            D.at_exit(o.st, 'C23', 'report', 'the type is changed', 'undec')
            continue
        want = spec(D, o.st, t, p)
        if want is None:
            continue
        got = D.val(o.st, o.val)
        got = text_of(got)
        if isinstance(got, bool):
            got = int(got)
        if isinstance(got, tuple) and got and got[0] in ('cmp', 'not'):
            r = {b for _, b in D.truth(o.st.copy(), got)}
            got = int(next(iter(r))) if len(r) == 1 else got
        if D.equal(o.st, got, want):
            D.ok('C23', 'report')
            continue
        if isinstance(want, tuple):
            sure = isinstance(got, tuple) and got and got[0] == 's'
        else:
            sure = isnum(got) and not is_unk(got) and not D.blurred(o.st)
            if sure and not (isinstance(got, int) and isinstance(want, int)):
                sure = D.differ(o.st, got, want)
        D.at_exit(o.st, 'C23', 'report', 'gives %s instead of %s' % (D.nice(got), D.nice(want)), 'viol' if sure else 'undec')


def differ(D, st, a, b):
    """values of the atoms for which the path is taken and a != b"""
    d = sub(a, b)
    if isinstance(d, int):
        return d != 0
    # witness(L): values with L < 0
    return D.witness(st, d) is not None or D.witness(st, neg(d)) is not None


Vals.differ = differ


def check_C23():
    rep = Report('C23')
    prog = P_.extract()
    fns = [f for f in prog.fns.values() if f.rec == GC and f.body is not None and f.n in REPORTS and not f.ps]
    fns.sort(key=lambda f: (f.file, f.l, f.usr))
    res = sweep_all(prog, visit_c23, None, fns, False, Vals)
    collect(rep, res, 'C23', ('report',), {
        'report': 'the value returned is the one of the stored type: the name of the type, its code, the size of the stored sequence, rows and columns of the stored matrix'})
    # one name per type
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' The returned value is compared, as a term, with the one the documentation gives for the stored type; a difference is reported only with '
                      'values of the stored sizes for which it shows.', ASSUME)


# ---------------------------------------------------------------------------------------------- typed reads
INT_T = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'bool': (1, False)}
KINDS = {'pointer': 'POINTER', 'bool': 'BOOL', 'int': 'INTEGER', 'long': 'LONG', 'real': 'REAL', 'complex': 'COMPLEX', 'string': 'STRING'}
AS = {'get_as_int': 'int', 'get_as_uint': 'unsigned int', 'get_as_long': 'long', 'get_as_ulong': 'unsigned long', 'get_number': 'double',
      'get_complex_number': 'complex'}
ELEM_T = {'int': 'int', 'uint': 'unsigned int', 'long': 'long', 'ulong': 'unsigned long', 'real': 'double', 'complex': 'complex', 'string': 'string'}
RANGE = {'BOOL': (0, 1), 'INTEGER': (-(1 << 31), (1 << 31) - 1), 'LONG': (-(1 << 63), (1 << 63) - 1)}
SENTINEL = 424242


def t_range(t):
    b, sg = INT_T[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)


def parts(D, kind, term):
    """root terms of a stored number"""
    if kind == 'COMPLEX':
        return [D.cx_part(term, 're'), D.cx_part(term, 'im')]
    return [term]


def root_key(v):
    if isinstance(v, Lin):
        if v.c == 0 and len(v.t) == 1 and len(v.t[0][0]) == 1 and v.t[0][1] == 1:
            return atom_name(v.t[0][0][0])
        return None
    if isinstance(v, tuple) and v and v[0] in ('A', 're', 'im'):
        return v
    return None


def samples(kind):
    if kind in RANGE:
        lo, hi = RANGE[kind]
        return [(v,) for v in INTPOOL if lo <= v <= hi]
    if kind == 'REAL':
        return [(v,) for v in FLTPOOL]
    return [(v, w) for w in (0.0, -0.0, 1.0, -2.5, math.nan) for v in FLTPOOL]


def fits(target, x):
    """the number x (re[, im]) is representable in the target type"""
    if len(x) == 2 and target != 'complex' and not x[1] == 0:
        return False
    if target in INT_T:
        v = x[0]
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v) or v != math.trunc(v):
                return False
            v = int(v)
        lo, hi = t_range(target)
        return lo <= v <= hi
    return True


def expected(target, x):
    v = x[0]
    if target in INT_T:
        return int(v)
    if target == 'complex':
        return (float(v), x[1] if len(x) == 2 else 0.0)
    return f32(float(v)) if target == 'float' else float(v)


def same(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not isinstance(a, tuple):
            a = (a, 0.0)
        if not isinstance(b, tuple):
            b = (b, 0.0)
        return same(a[0], b[0]) and same(a[1], b[1])
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return a == b


class Cond:
    """conditions of a path, with the facts known of the element at the generic index q"""

    def __init__(self, D, st, q=None):
        self.D, self.st, self.q = D, st, q
        self.extra, self.alts = [], []
        self.vague = bool(st.inexact) or st.joined
        if q is not None:
            for u in st.uni:
                if u[2] is None or not D.entails(st, sub(sub(u[2], q), 1)):
                    if u[0] == 'alt' and u[2] is not None:
                        self.vague = True
                    continue
                e = subst(u[3], {u[1]: q})
                if u[0] == 'all':
                    self.extra.append(e)
                else:
                    self.alts.append(e)

    def entry(self, env, e, roots):
        try:
            if e[0] == 'b':
                return bool(env.key(e[1])) == e[3]
            a, b = env.num(e[1]), env.num(e[2])
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[e[0]] == e[3]
        except NoValue:
            return None if mentions(e[:3], roots) else True

    def holds(self, env, roots):
        r = env.holds(self.st, roots)
        if r is False:
            return False
        for e in self.extra:
            x = self.entry(env, e, roots)
            if x is False:
                return False
            if x is None:
                r = None
        for al in self.alts:
            best = False
            for vague, es in al:
                xs = [self.entry(env, e, roots) for e in es]
                if False in xs:
                    continue
                if None in xs or vague:
                    best = None if best is False else best
                else:
                    best = True
            if best is False:
                return False
            if best is None:
                r = None
        return r


def agree(D, st, kind, term, target, got):
    """the result is the stored number by the form of the terms alone"""
    if kind in RANGE and target in INT_T:
        lo, hi = t_range(target)
        return isnum(got) and D.equal(st, got, term) and D.entails(st, sub(term, lo)) and D.entails(st, sub(hi, term))
    if target in ('double', 'float'):
        want = [('i2f', term)] if kind in RANGE else [term] if kind == 'REAL' else [D.cx_part(term, 're')]
        if kind == 'COMPLEX' and not zero_part(st, D.cx_part(term, 'im')):
            return False
        w = list(want)
        w += [('f2f', 64, x) for x in want] + ([('f2f', 32, x) for x in want] if target == 'float' else [])
        return got in w or kind in RANGE and isnum(got) and D.equal(st, got, term)
    if target == 'complex':
        if kind == 'COMPLEX':
            return got == term or got == ('cx',) + tuple(parts(D, kind, term))
        f = ('i2f', term) if kind in RANGE else term
        return got in (f, ('cx', f, ('fconst', 0.0)), ('cx', f, 0), ('cx', term, 0), ('cx', term, ('fconst', 0.0)))
    # floating to integer: bounds and integrality on the path
    x = D.cx_part(term, 're') if kind == 'COMPLEX' else term
    if kind == 'COMPLEX' and not zero_part(st, D.cx_part(term, 'im')):
        return False
    if not (isinstance(got, Lin) and root_of_f2i(got) == x):
        return False
    lo, hi = t_range(target)
    return bounded(st, x, lo, hi) and zero_part(st, ('fop', '-', x, ('fop', 'round', x, None)))


def root_of_f2i(v):
    if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1:
        nm = atom_name(v.t[0][0][0])
        if nm[0] == 'f2i':
            return nm[3]
    return None


def zero_part(st, x):
    a = from_atom(('fpc', x))
    for c in (2, 3):
        if st.bools.get(('eq', sub(c, a))) is True or st.bools.get(('eq', sub(a, c))) is True:
            return True
    for k, t in st.bools.items():
        if t and k[0] in ('eqv',) and x in k[1:] and (('fconst', 0.0) in k[1:] or 0 in k[1:]):
            return True
    return False


def bounded(st, x, lo, hi):
    okl = okh = False
    for k, t in st.bools.items():
        if k[0] not in ('f>', 'f>='):
            continue
        a, b = k[1], k[2]
        if a == x and isinstance(b, tuple) and b[0] == 'fconst' and t:
            okl |= b[1] >= lo
        if a == x and isinstance(b, tuple) and b[0] == 'fconst' and not t:
            okh |= b[1] <= hi
        if b == x and isinstance(a, tuple) and a[0] == 'fconst' and t:
            okh |= a[1] <= hi + (1 if k[0] == 'f>' else 0)
        if b == x and isinstance(a, tuple) and a[0] == 'fconst' and not t:
            okl |= a[1] >= lo
    return okl and okh


def other_roots(D, st, vals, own):
    """arguments and other inputs that the result or the conditions mention"""
    acc = {}
    for v in vals:
        roots_of(D, v, acc)
    return {k: SENTINEL if kd[0] == 'int' else float(SENTINEL) for k, kd in acc.items() if k not in own and not is_unk(k)}


def misread(v):
    """the value comes from a member of the storage other than the one stored"""
    if isinstance(v, Lin):
        return any(misread(atom_name(a)) for a in atoms_of(v))
    if isinstance(v, tuple):
        return 'other member' in v or any(misread(x) for x in v if isinstance(x, (tuple, Lin)))
    return False


def judge(D, st, kind, term, target, got, ret, prop, what, q=None):
    """a typed read of the number `term` stored as `kind` ends with `got` (or refuses)"""
    roots = [root_key(v) for v in parts(D, kind, term)]
    rule = 'value' if ret else 'refused'
    if ret and agree(D, st, kind, term, target, got):
        D.ok(prop, rule)
        return
    if None in roots:
        D.at_exit(st, prop, rule, what + ' the stored value is not determined', 'undec')
        return
    if ret and misread(got) and not unsure(D, st):
        D.at_exit(st, prop, rule, what + ' the value returned is read as another type than the stored one')
        return
    if ret and (got is None or is_unk(got)):
        D.at_exit(st, prop, rule, what + ' the value returned is not determined', 'undec')
        return
    cond = Cond(D, st, q)
    if cond.vague:
        D.at_exit(st, prop, rule, what + ' the conditions of the path are not all known', 'undec')
        return
    if ret:
        others = other_roots(D, st, [got], roots)
    else:
        # all elements hold a number that fits
        others = {}
    n = unknown = 0
    for x in samples(kind):
        if not ret and not fits(target, x):
            continue
        m = dict(zip(roots, x))
        m.update(others)
        if not ret:
            for r in stored_roots(D, st, roots[0]):
                m.setdefault(r, x[0])
        env = Env(D, m)
        h = cond.holds(env, set(roots))
        if h is None:
            unknown += 1
        if h is not True:
            continue
        n += 1
        val = '%r%s' % (x[0], '' if len(x) == 1 else ' %+ri' % x[1])
        if not ret:
            D.at_exit(st, prop, rule, '%s the stored value %s is refused although it can be represented as %s' % (what, val, target))
            return
        try:
            g = env.cpx(got) if target == 'complex' else env.num(got)
        except NoValue:
            unknown += 1
            continue
        if not fits(target, x):
            D.at_exit(st, prop, rule, '%s the stored value %s does not fit %s and %s is returned instead of an error' % (what, val, target, g))
            return
        w = expected(target, x)
        if not same(g, w) and not (target in ('float', 'double') and same(g, float(x[0]))):
            D.at_exit(st, prop, rule, '%s the stored value %s is returned as %s instead of %s' % (what, val, g, w))
            return
    if not ret:
        if unknown:
            D.at_exit(st, prop, rule, what + ' whether a value that fits can be refused is not determined', 'undec')
        else:
            D.ok(prop, rule)
        return
    if n and not unknown and kind in ('BOOL', 'REAL', 'COMPLEX') or not n and not unknown:
        D.ok(prop, 'value')
    else:
        D.at_exit(st, prop, rule, what + ' equality of the value returned with the stored one is not established', 'undec')


def stored_roots(D, st, like):
    """atoms of other elements of the same sequence in the conditions"""
    if not (isinstance(like, tuple) and 'sel' in like[:2]):
        return []
    i = like.index('sel')
    acc = {}
    for f in st.facts:
        roots_of(D, f, acc)
    for k in st.bools:
        for x in k[1:]:
            roots_of(D, x, acc)
    return [r for r in acc if isinstance(r, tuple) and r[:i + 2] == like[:i + 2]]


def throws(o):
    return o.kind == 'exc' and not o.exc.oom and o.exc.t != 'callee exception'


# ------------------------------------------------------------------------------------------------ what each read promises
PROMOTES = {
    'VEC_INTEGER': ('VEC_BOOL',), 'VEC_LONG': ('VEC_BOOL', 'VEC_INTEGER'), 'VEC_REAL': ('VEC_BOOL', 'VEC_INTEGER', 'VEC_LONG'),
    'VEC_COMPLEX': ('VEC_BOOL', 'VEC_INTEGER', 'VEC_LONG', 'VEC_REAL'),
    'MAT_INTEGER': ('VEC_BOOL', 'VEC_INTEGER'), 'MAT_LONG': ('VEC_BOOL', 'VEC_INTEGER', 'VEC_LONG', 'MAT_INTEGER'),
    'MAT_REAL': ('VEC_BOOL', 'VEC_INTEGER', 'VEC_LONG', 'VEC_REAL', 'MAT_INTEGER', 'MAT_LONG'),
    'MAT_COMPLEX': ('VEC_BOOL', 'VEC_INTEGER', 'VEC_LONG', 'VEC_REAL', 'VEC_COMPLEX', 'MAT_INTEGER', 'MAT_LONG', 'MAT_REAL')}


def own_tag(name):
    """stored type read by get_<name>"""
    if name in KINDS:
        return KINDS[name]
    if name.startswith('vec_') and name[4:] in KINDS:
        return 'VEC_' + KINDS[name[4:]]
    if name.startswith('mat_') and name[4:] in KINDS:
        return 'MAT_' + KINDS[name[4:]]
    return {'vector': 'VECTOR', 'map': 'MAP'}.get(name)


def is_text(t):
    return kind_of(t.base) in ('sv', 'str', 'ptr')


def classify(fn):
    """the promise made by a typed read, or None"""
    n = fn.n
    ps = [fn.types[p['t']] for p in fn.ps]
    idx = [i for i, t in enumerate(ps) if kind_of(t.base) == 'int' and not t.ref]
    nt = len([t for t in ps if kind_of(t.base) in ('sv',) or kind_of(t.base) == 'ptr'])
    if n == 'get_value' and ps and ps[0].ref and ps[0].base in ('int', 'unsigned int', 'long', 'unsigned long', 'float', 'double'):
        return ('number', ps[0].base, 'arg')
    if n in AS and not idx:
        outs = [i for i, t in enumerate(ps) if t.ref and t.base == 'double']
        return ('number', AS[n], 'arg2' if len(outs) == 2 else 'ret')
    if n in ('get_number_at', 'get_complex_number_at') and idx == [0]:
        outs = [i for i, t in enumerate(ps) if t.ref and t.base == 'double']
        return ('number_at', 'double' if n == 'get_number_at' else 'complex', 'arg2' if len(outs) == 2 else 'ret')
    if n.startswith('get_') and n.endswith('_at') and n[4:-3] in KINDS and fn.const:
        if idx == [0]:
            return ('at', 'VEC_' + KINDS[n[4:-3]])
        if idx == [0, 1]:
            return ('at2', 'MAT_' + KINDS[n[4:-3]])
    if n in ('get_gc_at', 'operator[]', 'operator()') and idx == [0] and fn.const:
        return ('at', 'VECTOR')
    if n.startswith('copyto_vec_') and n[11:] in ELEM_T and ps and ps[0].ref:
        return ('copyto_vec', ELEM_T[n[11:]])
    if n.startswith('copyto_mat_') and n[11:] in ELEM_T and ps and ps[0].ref:
        return ('copyto_mat', ELEM_T[n[11:]])
    if n.startswith('get_') and n.endswith('_pointer') and n[4:-8] in ('int', 'long', 'real', 'complex'):
        return ('address', KINDS[n[4:-8]])
    if n in ('get_pvoid', 'get_ppvoid'):
        return ('exact', 'POINTER')
    if n.startswith('get_') and not idx and own_tag(n[4:]) and len(ps) == nt and len(ps) <= 1 and fn.rt.cls != 'void' and '<' not in n:
        return ('exact', own_tag(n[4:]))
    return None


def result(D, o, objs, how, target):
    if how == 'arg':
        return D.read(o.st, ('c', objs[0])) if 0 in objs else None
    if how == 'arg2':
        r = [D.read(o.st, ('c', objs[i])) for i in sorted(objs)]
        return D.mk_cx(*r[:2]) if len(r) >= 2 else None
    return D.val(o.st, o.val)


def visit_c04(D, fn, tag, outs, this, objs, prop='C04'):
    c = classify(fn)
    tn = D.tagname.get(tag)
    if c is None or tn not in NAMES:
        return
    for o in outs:
        if o.kind == 'exc' and not throws(o):
            continue
        PROMISE[c[0]](D, fn, tn, o, this, objs, c, prop)


def wrong_type(D, o, tn, prop, why='the stored type is not accepted but a value is returned'):
    D.at_exit(o.st, prop, 'accept', 'stored %s: %s' % (tn, why), 'undec' if unsure(D, o.st) else 'viol')


def unsure(D, st):
    return bool(st.inexact) or any(is_unk(f) for f in st.facts) or any(is_unk(k) for k in st.bools)


def p_number(D, fn, tn, o, this, objs, c, prop):
    target, how = c[1], c[2]
    accept = c[3] if len(c) > 3 else NUMERIC if fn.n != 'get_number' else NUMERIC[:-1]
    if tn not in accept:
        if o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        else:
            D.ok(prop, 'accept')
        return
    t, p = D.payload(o.st, this)
    if t != tn:
        return
    judge(D, o.st, tn, p, target, result(D, o, objs, how, target) if o.kind == 'ret' else None, o.kind == 'ret', prop, 'stored %s:' % tn)


def p_exact(D, fn, tn, o, this, objs, c, prop):
    own = c[1]
    st = o.st
    if tn != own:
        if not fn.const and (tn == 'NOTYPE' or tn in PROMOTES.get(own, ())):
            return
        if o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        else:
            D.ok(prop, 'accept')
        return
    if o.kind == 'exc':
        D.at_exit(st, prop, 'accept', 'stored %s: the read of the stored type throws' % tn, 'undec' if D.blurred(st) else 'viol')
        return
    t, p = D.payload(st, this)
    if t != tn:
        D.at_exit(st, prop, 'value', 'stored %s: the type is changed' % tn, 'undec')
        return
    if fn.n == 'get_ppvoid':
        return
    v = o.val
    if isinstance(p, tuple) and p and p[0] == 'O':
        if isinstance(v, tuple) and v and v[0] == 'L' and v[1] == ('c', p[1]):
            D.ok(prop, 'value')
        elif isinstance(v, tuple) and v and v[0] in ('L', 'O') and not is_unk(v):
            oid = v[1][1] if v[0] == 'L' and v[1][0] == 'c' else v[1] if v[0] == 'O' else None
            same_ = oid in st.heap and not is_unk(D.objterm(st, oid)) and st.heap[oid].kind in ('vec', 'map')
            if same_ and D.objterm(st, oid) == D.objterm(st, p[1]):
                D.ok(prop, 'value')
            else:
                D.at_exit(st, prop, 'value', 'stored %s: something else than the stored value is returned' % tn, 'viol' if same_ and not unsure(D, st) else 'undec')
        else:
            D.at_exit(st, prop, 'value', 'stored %s: the value returned is not determined' % tn, 'undec')
        return
    got = text_of(D.val(st, v))
    if got == p or isnum(got) and isnum(p) and D.equal(st, got, p):
        D.ok(prop, 'value')
    elif misread(got) and not unsure(D, st):
        D.at_exit(st, prop, 'value', 'stored %s: the value returned is read as another type than the stored one' % tn)
    elif got is None or is_unk(got) or unsure(D, st):
        D.at_exit(st, prop, 'value', 'stored %s: the value returned is not determined' % tn, 'undec')
    elif tn in NUMERIC:
        judge(D, st, tn, p, {'BOOL': 'bool', 'INTEGER': 'int', 'LONG': 'long', 'REAL': 'double', 'COMPLEX': 'complex'}[tn], got, True, prop, 'stored %s:' % tn)
    else:
        D.at_exit(st, prop, 'value', 'stored %s: %s is returned instead of the stored value' % (tn, D.nice(got)))


def in_range(D, st, *idx):
    """the state in which every (index, bound) is inside, or None"""
    s = st.copy()
    for i, b in idx:
        for f in (i, sub(sub(b, i), 1)):
            if isinstance(f, int):
                if f < 0:
                    return None
            elif D.contradicts(s, f) if False else not D.assume(s, f):
                return None
    return s


def index_args(D, fn):
    return [D.mkatom(fn.types[p['t']].base, ('arg', i, fn.types[p['t']].base)) for i, p in enumerate(fn.ps) if kind_of(fn.types[p['t']].base) == 'int'
            and not fn.types[p['t']].ref]


def elem_check(D, st, tn, et, oid, pos, v, prop, what):
    """v is the element at position pos of the stored sequence"""
    if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] == 'e' and v[1][1] == oid:
        if D.equal(st, v[1][2], pos):
            D.ok(prop, 'value')
            return
        sure = not is_unk(v[1][2]) and not unsure(D, st) and D.differ(st, v[1][2], pos)
        D.at_exit(st, prop, 'value', '%s the element at %s is returned instead of the one at %s' % (what, D.nice(v[1][2]), D.nice(pos)), 'viol' if sure else 'undec')
        return
    if isinstance(v, tuple) and v and v[0] == 'L' and v[1][0] == 'c':
        for (p, k), kid in st.kids.items():
            if p == oid and kid == v[1][1]:
                if isnum(k) and D.equal(st, k, pos):
                    D.ok(prop, 'value')
                else:
                    D.at_exit(st, prop, 'value', '%s another element is returned' % what, 'viol' if isnum(k) and D.differ(st, k, pos) else 'undec')
                return
    if et is None:
        D.at_exit(st, prop, 'value', what + ' the value returned is not determined', 'undec')
        return
    got = D.val(st, v)
    want = D.seq_term(st, oid, pos)
    if got == want or isnum(got) and isnum(want) and D.equal(st, got, want):
        D.ok(prop, 'value')
    elif isinstance(got, tuple) and got and got[0] == 'bit' and got[1][0] == 'e' and got[1][1] == oid and D.equal(st, got[1][2], pos):
        D.ok(prop, 'value')
    else:
        D.at_exit(st, prop, 'value', what + ' the value returned is not determined', 'undec')


def p_at(D, fn, tn, o, this, objs, c, prop):
    own = c[1]
    st = o.st
    if tn != own:
        if o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        else:
            D.ok(prop, 'accept')
        return
    t, p = D.payload(st, this)
    if t != tn:
        return
    ix = index_args(D, fn)
    ob = st.heap[p[1]]
    if c[0] == 'at':
        pos, dims = ix[0], [(ix[0], ob.f['size'])]
    else:
        pos, dims = add(ix[0], mul(ix[1], ob.f['m_num_rows'])), [(ix[0], ob.f['m_num_rows']), (ix[1], ob.f['m_num_cols'])]
    if o.kind == 'ret':
        elem_check(D, st, tn, VECS.get(tn) or MATS.get(tn), p[1], pos, o.val, prop, 'stored %s:' % tn)
        return
    s = in_range(D, st, *dims)
    if s is None:
        D.ok(prop, 'refused')
    elif D.blurred(st):
        D.at_exit(st, prop, 'refused', 'stored %s: whether an element that exists can be refused is not determined' % tn, 'undec')
    else:
        w = D.witness(s, sub(-1, 0))
        D.at_exit(st, prop, 'refused', 'stored %s: an element that exists is refused, e.g. for %s' % (tn, D.nice_witness(w) if w else '?'), 'viol' if w else 'undec')


def p_number_at(D, fn, tn, o, this, objs, c, prop):
    _, target, how = c
    st = o.st
    kind = VECS.get(tn) or MATS.get(tn)
    if tn == 'VECTOR':
        return
    accept = NUMERIC if target == 'complex' else NUMERIC[:-1]
    if kind not in accept:
        if o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        else:
            D.ok(prop, 'accept')
        return
    t, p = D.payload(st, this)
    ob = st.heap[p[1]]
    i = index_args(D, fn)[0]
    if o.kind == 'exc':
        s = in_range(D, st, (i, ob.f['size']))
        if s is None:
            D.ok(prop, 'refused')
        else:
            w = None if D.blurred(st) else D.witness(s, sub(-1, 0))
            D.at_exit(st, prop, 'refused', 'stored %s: an element that exists is refused' % tn, 'viol' if w else 'undec')
        return
    got = result(D, o, {k: v for k, v in objs.items()}, how, target)
    term = D.seq_term(st, p[1], i)
    judge(D, st, kind, term, target, got, True, prop, 'stored %s:' % tn)


def positions(D, st, size):
    """[(state, index)]: every position of a sequence of known size, else one generic index"""
    if isinstance(size, int):
        return [(st.copy(), i) for i in range(min(size, 8))]
    s = st.copy()
    q = from_atom(('arg', 'q'))
    D.rng.setdefault(q.t[0][0][0], (0, (1 << 31) - 1))
    return [(s, q)] if D.assume(s, sub(sub(size, q), 1)) else []


def p_copyto(D, fn, tn, o, this, objs, c, prop):
    how, target = c[0], c[1]
    st = o.st
    mat = how == 'copyto_mat'
    kind = tn if tn in SCALARS else VECS.get(tn) or MATS.get(tn)
    if tn in ('NOTYPE', 'VECTOR', 'MAP'):
        if target == 'string' and tn in ('NOTYPE', 'MAP') and o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        if tn == 'VECTOR' and o.kind == 'ret' and not mat:
            t, p = D.payload(st, this)
            size_check(D, st, objs[0], st.heap[p[1]].f['size'], prop, tn)
        return
    ok = kind in NUMERIC and target != 'string' or kind == 'STRING' and target == 'string'
    if mat and tn in MATS and MATS[tn] in ('INTEGER', 'LONG', 'REAL', 'COMPLEX'):
        pass
    t, p = D.payload(st, this)
    if t != tn:
        return
    if not ok:
        if o.kind != 'ret':
            D.ok(prop, 'accept')
            return
        if isinstance(p, tuple) and p and p[0] == 'O':
            g = positions(D, st, st.heap[p[1]].f['size'])
            if not g:
                return
            w = D.witness(g[0][0], sub(-1, 0))
            if w is None:
                D.at_exit(st, prop, 'accept', 'stored %s: not determined' % tn, 'undec')
                return
        wrong_type(D, o, tn, prop)
        return
    scalar = tn in SCALARS
    size = 1 if scalar else st.heap[p[1]].f['size']
    if o.kind == 'exc':
        if kind == 'STRING':
            D.at_exit(st, prop, 'refused', 'stored %s is refused' % tn, 'undec' if D.blurred(st) else 'viol')
            return
        if mat and NUMERIC.index(kind) > NUMERIC.index({'int': 'INTEGER', 'long': 'LONG', 'double': 'REAL', 'complex': 'COMPLEX'}[target]):
            D.ok(prop, 'refused')
            return
        term = p
        if not scalar:
            # an element the conditions speak of, or any
            term = None
            for r in cond_elems(D, st, p[1]):
                term = r
            if term is None:
                g = positions(D, st, size)
                if not g:
                    return
                term = D.seq_term(g[0][0], p[1], g[0][1])
        if kind == 'COMPLEX' and isinstance(term, tuple) and term[:2] in (('A', 're'), ('A', 'im')):
            term = ('A',) + term[2:]
        judge(D, st, kind, term, target, None, False, prop, 'stored %s:' % tn)
        return
    ob = st.heap.get(objs.get(0))
    if ob is None or ob.kind != 'vec':
        return
    if mat:
        nr, nc = (1, 1) if scalar else (st.heap[p[1]].f['m_num_rows'], st.heap[p[1]].f['m_num_cols']) if tn in MATS else (size, 1)
        for f, w in (('m_num_rows', nr), ('m_num_cols', nc)):
            same_num(D, st, ob.f[f], w, prop, 'size', 'stored %s: %s of the result' % (tn, 'rows' if 'rows' in f else 'columns'))
    if not size_check(D, st, objs[0], size, prop, tn):
        return
    for s, q in positions(D, st, size):
        got = D.seq_term(s, objs[0], q)
        term = p if scalar else D.seq_term(s, p[1], q)
        if kind != 'STRING':
            judge(D, s, kind, term, target, got, True, prop, 'stored %s:' % tn, q)
        elif got == term:
            D.ok(prop, 'value')
        else:
            D.at_exit(st, prop, 'value', 'stored %s: an element of the result is %s' % (tn, D.nice(got)), 'undec' if is_unk(got) or unsure(D, st) else 'viol')


def cond_elems(D, st, oid):
    base = st.heap[oid].f['base']
    acc = {}
    for f in st.facts:
        roots_of(D, f, acc)
    for k in st.bools:
        for x in k[1:]:
            roots_of(D, x, acc)
    out = []
    for r in acc:
        t = r[1:] if r[0] == 'A' else r
        t = t[1:] if t and t[0] in ('re', 'im') else t
        if len(t) == 3 and t[0] == 'sel' and t[1] == base:
            out.append(('A',) + t if r[0] == 'A' else from_atom(r))
    return out


def same_num(D, st, got, want, prop, rule, what):
    if isnum(got) and D.equal(st, got, want):
        D.ok(prop, rule)
        return True
    sure = isnum(got) and not is_unk(got) and not D.blurred(st) and D.differ(st, got, want)
    D.at_exit(st, prop, rule, '%s is %s instead of %s' % (what, D.nice(got), D.nice(want)), 'viol' if sure else 'undec')
    return False


def size_check(D, st, oid, size, prop, tn):
    return same_num(D, st, st.heap[oid].f['size'], size, prop, 'size', 'stored %s: the number of elements of the result' % tn)


def p_address(D, fn, tn, o, this, objs, c, prop):
    kind = c[1]
    st = o.st
    k = tn if tn in SCALARS else VECS.get(tn) or MATS.get(tn)
    if k != kind:
        if o.kind == 'ret':
            wrong_type(D, o, tn, prop)
        else:
            D.ok(prop, 'accept')
        return
    t, p = D.payload(st, this)
    if o.kind == 'exc':
        D.at_exit(st, prop, 'accept', 'stored %s: the address of the stored value is refused' % tn, 'undec' if D.blurred(st) else 'viol')
        return
    v = o.val
    loc = v[1] if isinstance(v, tuple) and v and v[0] == 'P' else None
    f = st.heap[this].f['val']
    if loc is None:
        D.at_exit(st, prop, 'value', 'stored %s: the address returned is not determined' % tn, 'undec')
    elif tn in SCALARS:
        good = loc[0] == 'u' and loc[1] == this or isinstance(f, tuple) and f and f[0] == 'P' and loc == f[1]
        D.ok(prop, 'value') if good else D.at_exit(st, prop, 'value', 'stored %s: not the address of the stored value' % tn, 'undec')
    else:
        good = loc[0] == 'e' and loc[1] == p[1] and D.equal(st, loc[2], 0)
        if good:
            D.ok(prop, 'value')
        else:
            sure = loc[0] == 'e' and isnum(loc[2]) and not is_unk(loc[2])
            D.at_exit(st, prop, 'value', 'stored %s: the address of the first element is not the one returned' % tn, 'viol' if sure and not unsure(D, st) else 'undec')


PROMISE = {'number': p_number, 'exact': p_exact, 'at': p_at, 'at2': p_at, 'number_at': p_number_at, 'copyto_vec': p_copyto, 'copyto_mat': p_copyto,
           'address': p_address}


def check_C04():
    rep = Report('C04')
    prog = P_.extract()
    fns = [f for f in operations(prog) if classify(f)]
    res = sweep_all(prog, visit_c04, init_vals, fns, False, Vals, True)
    collect(rep, res, 'C04', ('accept', 'value', 'refused', 'size'), {
        'accept': 'a stored type that the read does not accept never ends in a normal return, the stored type itself never in an error',
        'value': 'the value returned is the stored one or its conversion',
        'refused': 'an accepted value that can be represented, and an element that exists, is not refused',
        'size': 'a copy has as many elements as the stored sequence'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' Each typed read has a promise (accepted types, conversion); the terms returned at every exit are compared with it. A difference is reported '
                      'only with a stored value for which the path is taken.', ASSUME)


def init_vals(D):
    D.oom = False
    D.merge_deep = False
    D.keep_alts = True


def narrowing(fn):
    c = classify(fn)
    return c is not None and c[0] in ('number', 'copyto_vec', 'copyto_mat') and c[1] in INT_T


def visit_c17(D, fn, tag, outs, this, objs):
    visit_c04(D, fn, tag, [o for o in outs if o.kind == 'ret'], this, objs, 'C17')


def check_C17():
    rep = Report('C17')
    prog = P_.extract()
    fns = [f for f in operations(prog) if narrowing(f)]
    res = sweep_all(prog, visit_c17, init_vals, fns, False, Vals, True)
    collect(rep, res, 'C17', ('value',), {
        'value': 'on every path that returns, the integer returned is the stored number: the conditions tested on the path imply that it fits'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' For each read that returns an integer and each stored numeric type, the conditions on the stored number collected along the path are compared with the '
                      'range of the result; a violation is reported only with a stored number for which the path is taken.',
                      ASSUME + ['fractional and imaginary parts smaller than the least normal number count as zero, as in the library'])


# --------------------------------------------------------------------------------------------------- promotions
ELEM_OF = dict(list(VECS.items()) + list(MATS.items()))
TARGET_OF = {'BOOL': 'bool', 'INTEGER': 'int', 'LONG': 'long', 'REAL': 'double', 'COMPLEX': 'complex'}


def promoted(fn):
    """type asked for by promote_to_<name>, or None"""
    if fn.rec == GC and fn.n.startswith('promote_to_') and not fn.ps:
        return own_tag(fn.n[11:])
    return None


def entry_view(D, this):
    """(state, payload) of the container before the operation"""
    return D.entry, D.payload(D.entry, this)[1]


def same_payload(D, st, tn, p, st0, p0):
    """True / False / None: the container holds the value it held at the entry"""
    if tn == 'NOTYPE':
        return True
    if not (isinstance(p0, tuple) and p0 and p0[0] == 'O'):
        a, b = text_of(p), text_of(p0)
        if a == b or isnum(a) and isnum(b) and D.equal(st, a, b):
            return True
        if a is None or is_unk(a) or D.blurred(st):
            return None
        if isnum(a) and isnum(b):
            return False if D.differ(st, a, b) else None
        return None
    if not (isinstance(p, tuple) and p and p[0] == 'O'):
        return None
    a, b = D.objterm(st, p[1]), D.objterm(st0, p0[1])
    if a == b:
        return True
    oa, ob = st.heap[p[1]], st0.heap[p0[1]]
    if oa.kind == 'vec' and ob.kind == 'vec' and not D.blurred(st) and not is_unk(oa.f['size']) and D.differ(st, oa.f['size'], ob.f['size']):
        return False
    return None


def visit_c06(D, fn, tag, outs, this, objs):
    want = promoted(fn)
    tn = D.tagname.get(tag)
    if tn not in NAMES:
        return
    st0, p0 = entry_view(D, this)
    for o in outs:
        st = o.st
        t, p = D.payload(st, this)
        if t is None:
            D.at_exit(st, 'C06', 'type', 'stored %s: the type left is not determined' % tn, 'undec')
            continue
        if o.kind == 'exc':
            if o.exc.oom:
                continue
            if t != tn:
                D.at_exit(st, 'C06', 'refusal', 'stored %s: the promotion throws and leaves the type %s' % (tn, t), 'undec' if D.blurred(st) else 'viol')
                continue
            r = same_payload(D, st, tn, p, st0, p0)
            if tn == want and r is not None and not D.blurred(st):
                D.at_exit(st, 'C06', 'refusal', 'a container that already has the type %s is refused' % tn)
            elif r is True:
                D.ok('C06', 'refusal')
            else:
                D.at_exit(st, 'C06', 'refusal', 'stored %s: the promotion throws and the value is not the one before' % tn, 'viol' if r is False else 'undec')
            continue
        if t != want:
            if tn in VECS and want == 'COMPLEX' and t == 'VEC_COMPLEX':
                pass
            else:
                D.at_exit(st, 'C06', 'type', 'stored %s: the promotion returns and the type is %s' % (tn, t), 'undec' if D.blurred(st) else 'viol')
                continue
        D.ok('C06', 'type')
        if tn == t:
            r = same_payload(D, st, tn, p, st0, p0)
            if r is True:
                D.ok('C06', 'value')
            else:
                D.at_exit(st, 'C06', 'value', 'stored %s: a promotion to the type itself changes the value' % tn, 'viol' if r is False else 'undec')
            continue
        if tn == 'NOTYPE':
            continue
        widened(D, st, tn, p0, st0, t, p)


def widened(D, st, tn, p0, st0, t, p):
    what = 'stored %s:' % tn
    if tn in ('VECTOR', 'MAP') or t == 'MAP':
        return D.at_exit(st, 'C06', 'type', what + ' a promotion to %s is accepted' % t, 'undec')
    if t in SCALARS:
        if tn not in SCALARS:
            return D.at_exit(st, 'C06', 'type', what + ' a promotion to the scalar %s is accepted' % t, 'undec' if D.blurred(st) else 'viol')
        return widened_elem(D, st, tn, p0, t, p, what, None)
    scalar = tn in SCALARS
    n0 = 1 if scalar else st0.heap[p0[1]].f['size']
    if not same_num(D, st, st.heap[p[1]].f['size'], n0, 'C06', 'size', what + ' the number of elements'):
        return
    if t in MATS:
        nr, nc = (st0.heap[p0[1]].f['m_num_rows'], st0.heap[p0[1]].f['m_num_cols']) if tn in MATS else (n0, 1)
        same_num(D, st, st.heap[p[1]].f['m_num_rows'], nr, 'C06', 'size', what + ' the number of rows')
        same_num(D, st, st.heap[p[1]].f['m_num_cols'], nc, 'C06', 'size', what + ' the number of columns')
    kind = tn if scalar else ELEM_OF[tn]
    for s, q in positions(D, st, n0):
        term = p0 if scalar else entry_elem(D, s, st0, p0[1], q)
        if t != 'VECTOR':
            widened_elem(D, s, kind, term, ELEM_OF[t], D.seq_term(s, p[1], q), what, q)
            continue
        kt, kp = D.payload(s, D.kid(s, p[1], q))
        if kt is None:
            D.at_exit(st, 'C06', 'value', what + ' the type of the elements is not determined', 'undec')
        elif kt != kind:
            D.at_exit(st, 'C06', 'value', what + ' elements of type %s become %s' % (kind, kt), 'undec' if D.blurred(s) else 'viol')
        else:
            widened_elem(D, s, kind, term, kind, kp, what, q)


def entry_elem(D, s, st0, oid0, q):
    o = st0.heap[oid0]
    k = max(list(s.heap) + list(st0.heap)) + 1000
    s2 = s.copy()
    s2.heap[k] = o
    return D.seq_term(s2, k, q)


def widened_elem(D, st, kind, term, target, got, what, q):
    got = text_of(got)
    if kind in NUMERIC and target in NUMERIC:
        if isinstance(got, tuple) and got and got[0] == 'O':
            return D.at_exit(st, 'C06', 'value', what + ' the value left is not determined', 'undec')
        return judge(D, st, kind, term, TARGET_OF[target], got, True, 'C06', what, q)
    if got == text_of(term) and kind == target or isnum(got) and isnum(term) and D.equal(st, got, term):
        return D.ok('C06', 'value')
    if kind != target and not D.blurred(st):
        return D.at_exit(st, 'C06', 'value', '%s a value of type %s becomes one of type %s' % (what, kind, target))
    D.at_exit(st, 'C06', 'value', what + ' equality of the element with the one before is not established', 'undec')


def check_C06():
    rep = Report('C06')
    prog = P_.extract()
    fns = [f for f in operations(prog) if promoted(f)]
    res = sweep_all(prog, visit_c06, init_vals, fns, False, Vals, True)
    collect(rep, res, 'C06', ('type', 'refusal', 'size', 'value'), {
        'type': 'a promotion that returns leaves the type asked for',
        'refusal': 'a promotion that throws leaves type and value as they were',
        'size': 'as many elements, rows and columns as before (a scalar: one)',
        'value': 'the element at a generic position is the numeric conversion of the one at the same position before'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' The terms stored at every exit of the 13 promotions are compared with those of the entry, at a generic position; a difference is reported '
                      'only with a stored value for which it shows.', ASSUME)
