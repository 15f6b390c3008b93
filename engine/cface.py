"""C27: the functions of the C interface store and return the values of the selected position."""
from keyed import *

# value stored by a setter: type, then how the stored value follows from the arguments
SET = {'GC_set_bool': ('BOOL', 'flag'), 'GC_set_int': ('INTEGER', 'arg'), 'GC_set_real': ('REAL', 'arg'), 'GC_set_complex2': ('COMPLEX', 'cx2'),
       'GC_set_complex': ('COMPLEX', 'cxp'), 'GC_set_string': ('STRING', 'arg'), 'GC_set_map': ('MAP', 'any'), 'GC_set_vector': ('VECTOR', 'count'),
       'GC_set_empty_vector': ('VECTOR', 'none'), 'GC_set_empty_vector_of_bool': ('VEC_BOOL', 'none'), 'GC_set_empty_vector_of_int': ('VEC_INTEGER', 'none'),
       'GC_set_empty_vector_of_real': ('VEC_REAL', 'none'), 'GC_set_empty_vector_of_complex': ('VEC_COMPLEX', 'none'),
       'GC_set_empty_vector_of_string': ('VEC_STRING', 'none'), 'GC_set_vector_of_bool': ('VEC_BOOL', 'flags'), 'GC_set_vector_of_int': ('VEC_INTEGER', 'array'),
       'GC_set_vector_of_real': ('VEC_REAL', 'array'), 'GC_set_vector_of_complex': ('VEC_COMPLEX', 'arrays'), 'GC_set_vector_of_string': ('VEC_STRING', 'array')}
PUSH = {'GC_push_bool': ('VEC_BOOL', 'flag'), 'GC_push_int': ('VEC_INTEGER', 'arg'), 'GC_push_real': ('VEC_REAL', 'arg'), 'GC_push_complex2': ('VEC_COMPLEX', 'cx2'),
        'GC_push_complex': ('VEC_COMPLEX', 'cxp'), 'GC_push_string': ('VEC_STRING', 'arg')}
GET = {'GC_get_bool': ('BOOL', None), 'GC_get_int': ('INTEGER', None), 'GC_get_long': ('LONG', None), 'GC_get_real': ('REAL', None),
       'GC_get_complex': ('COMPLEX', 'both'), 'GC_get_complex_re': ('COMPLEX', 're'), 'GC_get_complex_im': ('COMPLEX', 'im'), 'GC_get_string': ('STRING', None)}
AT = {'GC_get_bool_at_pos': ('VEC_BOOL', None), 'GC_get_int_at_pos': ('VEC_INTEGER', None), 'GC_get_real_at_pos': ('VEC_REAL', None),
      'GC_get_string_at_pos': ('VEC_STRING', None), 'GC_get_complex_at_pos': ('VEC_COMPLEX', 'both'), 'GC_get_complex_real_at_pos': ('VEC_COMPLEX', 're'),
      'GC_get_complex_imag_at_pos': ('VEC_COMPLEX', 'im'), 'GC_get_real_at_coor': ('MAT_REAL', None), 'GC_get_complex_at_coor': ('MAT_COMPLEX', 'both'),
      'GC_get_complex_real_at_coor': ('MAT_COMPLEX', 're'), 'GC_get_complex_imag_at_coor': ('MAT_COMPLEX', 'im')}
REPORT = {'GC_get_type': 'get_type', 'GC_get_type_name': 'get_type_name', 'GC_get_vector_size': 'get_num_elements', 'GC_get_matrix_num_rows': 'num_rows', 'GC_get_matrix_num_cols': 'num_cols'}
MOVE = ('GC_push_vector_position', 'GC_push_map_position', 'GC_pop_head', 'GC_reset_head')
SPEC = dict(SET)
for x in (PUSH, GET, AT, REPORT, dict.fromkeys(MOVE)):
    SPEC.update(x)


class Layout:
    """where the interface keeps the selected container: found by the types, None when it is kept some other way"""

    def __init__(self, prog):
        self.glob = self.rec = self.head = None
        for usr, g in sorted(prog.globals.items()):
            t = g['_types'][g['t']].base
            r = pointee(t) if kind_of(t) == 'ptr' else None
            rec = prog.records.get(r) if r else None
            if rec is None:
                continue
            hs = [f['name'] for f in rec['fields'] if kind_of(rec['_types'][f['t']].base) == 'vec' and
                  kind_of(elem_type(rec['_types'][f['t']].base)) == 'ptr' and pointee(elem_type(rec['_types'][f['t']].base)) == GC]
            if len(hs) == 1 and not any(kind_of(rec['_types'][f['t']].base) == 'ptr' and pointee(rec['_types'][f['t']].base) == GC for f in rec['fields']):
                self.glob, self.rec, self.head, self.t = usr, r, hs[0], t


def selected(D, tag, sign=None, count=None, deep=False):
    """the position selected is a container of stored type tag; the first integer argument is not negative / negative"""
    def f(st, this, ops, objs):
        L = D.layout
        ex = D.sym_obj(st, L.rec, ('explorer',), {'param': True})
        top = D.sym_obj(st, GC, ('top',), {'param': True})
        D.concretise(st, top, tag)
        hid = st.heap[ex].f[L.head][1]
        o = st.heap[hid]
        if deep:            # the position is one step below a root of the same type
            root = D.sym_obj(st, GC, ('root',), {'param': True})
            D.concretise(st, root, tag)
            st.heap[hid] = o = o.set(size=2, upd=(('pt', 0, P(('c', root))), ('pt', 1, P(('c', top)))))
        else:
            D.assume(st, sub(o.f['size'], 1))
            st.heap[hid] = o.set(upd=(('pt', sub(o.f['size'], 1), P(('c', top))),))
        st.kids[('global', L.glob)] = D.new_cell(st, P(('c', ex)), L.t, {'static': True})
        D.sel = (top, hid, o.f['size'])
        D.start = D.payload(st, top)
        p = D.start[1]
        D.start_size = st.heap[p[1]].f['size'] if isinstance(p, tuple) and p[:1] == ('O',) and 'size' in st.heap[p[1]].f else None
        if sign is not None:
            for v in ops:
                if isinstance(v, Lin):
                    D.assume(st, v if sign else sub(-1, v))
        if count is not None:
            D.unfold = 6
            return this, [count if isinstance(v, Lin) else v for v in ops], objs
        return None
    return f


def cases(D, fn):
    out = []
    n = D.tagname
    for t in sorted(D.alltags):
        if fn.n in PUSH and n[t] != PUSH[fn.n][0]:
            continue
        if fn.n in AT or fn.n in ('GC_push_vector_position', 'GC_set_vector') or fn.n in SET and SET[fn.n][1] in ('flags', 'array', 'arrays'):
            if fn.n in AT and n[t] != AT[fn.n][0]:
                continue
            out.append((fn, None, selected(D, t, True), n[t]))
            if fn.n in MOVE:
                out.append((fn, None, selected(D, t, True, None, True), n[t] + ' below the root'))
            out.append((fn, None, selected(D, t, False), n[t] + ' and a negative argument'))
            if SET.get(fn.n, ('', ''))[1] in ('flags', 'array', 'arrays') and n[t] in ('NOTYPE', 'INTEGER', 'MAP', SET[fn.n][0]):
                out += [(fn, None, selected(D, t, None, k), n[t] + ' and %d elements' % k) for k in (0, 1, 2)]
        else:
            out.append((fn, None, selected(D, t), n[t]))
            if fn.n in MOVE:
                out.append((fn, None, selected(D, t, None, None, True), n[t] + ' below the root'))
    return out


def viol(D, st, rule, what):
    D.at_exit(st, 'C27', rule, what, 'undec' if unsure(D, st) or D.witness(st, -1) is None else 'viol')


def undec(D, st, rule, what):
    D.at_exit(st, 'C27', rule, what, 'undec')


def visit(D, fn, tag, outs, this, objs):
    for o in outs:
        if o.kind != 'ret':
            continue        # C12
        if fn.n in SET:
            stored(D, fn, o)
        elif fn.n in PUSH:
            pushed(D, fn, o)
        elif fn.n in GET:
            got(D, fn, o)
        elif fn.n in AT:
            at(D, fn, o)
        elif fn.n in REPORT:
            reported(D, fn, o)
        else:
            moved(D, fn, o)


def status(D, o):
    v = D.val(o.st, o.val)
    return int(v) if isinstance(v, (int, bool)) else None


def negative(D, o, i=-1):
    vs = [v for v in D.args0 if isinstance(v, Lin)]
    return bool(vs) and D.entails(o.st, sub(-1, vs[i]))


def arg(D, i):
    return D.args0[i]


def compare_num(D, st, a, b, rule, what):
    """a is the number found, b the one wanted"""
    if a == b or isnum(a) and isnum(b) and D.equal(st, a, b):
        D.ok('C27', rule)
    elif a is None or is_unk(a) or is_unk(b):
        undec(D, st, rule, what + ' is not determined')
    elif isnum(a) and isnum(b):
        w = differ(D, st, a, b)
        D.at_exit(st, 'C27', rule, '%s is %s instead of %s' % (what, D.nice(a), D.nice(b)), 'viol' if w and not unsure(D, st) else 'undec')
    else:
        viol(D, st, rule, '%s is %s instead of %s' % (what, D.nice(a), D.nice(b)))


def compare_flag(D, st, v, a, rule, what):
    """the truth value v found is a != 0"""
    for s, b in D.truth(st.copy(), v):
        r = {x for _, x in D.truth(s.copy(), ('cmp', '!=', a, 0))}
        if r == {b}:
            D.ok('C27', rule)
        elif is_unk(v) or is_unk(a):
            undec(D, s, rule, what + ' is not determined')
        else:
            viol(D, s, rule, '%s is %s although the argument %s zero' % (what, bool(b), 'can be' if b else 'can differ from'))


def given(D, fn, st, how):
    """the value passed"""
    if how == 'cx2':
        return ('cx', arg(D, 0), arg(D, 1))
    if how == 'cxp':
        v = arg(D, 0)
        if not (isinstance(v, tuple) and v[0] == 'P'):
            return None
        r = D.entry.heap[v[1][1]]
        fs = [D.val(D.entry, r.f[k]) for k in r.f]
        return ('cx', fs[0], fs[1]) if len(fs) == 2 else None
    return text_of(arg(D, 0))


def cx(D, v):
    return (D.cx_part(v, 're'), D.cx_part(v, 'im'))


def same_value(D, st, kind, found, want, rule, what):
    if want is None:
        undec(D, st, rule, what + ' is not determined')
        return
    if kind == 'cx':
        for p, a, b in zip(('real', 'imaginary'), cx(D, found), cx(D, want)):
            compare_num(D, st, a, b, rule, 'the %s part of %s' % (p, what))
        return
    compare_num(D, st, text_of(found), text_of(want), rule, what)


def refused(D, fn, o):
    """the call reports a failure"""
    r = status(D, o)
    if r == 0:
        return False
    if r is None:
        undec(D, o.st, 'status', 'the status is not determined')
    elif negative(D, o):
        D.ok('C27', 'status')
    else:
        viol(D, o.st, 'status', 'a valid request is refused')
    return True


def stored(D, fn, o):
    st = o.st
    tn, how = SET[fn.n]
    if refused(D, fn, o):
        return
    if how in ('count', 'flags', 'array', 'arrays') and negative(D, o):
        viol(D, st, 'status', 'a negative number of elements is accepted')
        return
    t, p = D.payload(st, D.sel[0])
    if t != tn:
        D.at_exit(st, 'C27', 'stored', 'the type stored is %s instead of %s' % (t, tn), 'undec' if t is None or unsure(D, st) else 'viol')
        return
    D.ok('C27', 'stored')
    if how == 'any':
        return
    if how == 'flag':
        compare_flag(D, st, p, arg(D, 0), 'stored', 'the value stored')
        return
    if how in ('arg', 'cx2', 'cxp'):
        same_value(D, st, 'cx' if how != 'arg' else None, p, given(D, fn, st, how), 'stored', 'the value stored')
        return
    oid = p[1]
    size = st.heap[oid].f['size']
    want = 0 if how == 'none' else [v for v in D.args0 if isnum(v)][-1]
    if not isnum(size) or is_unk(size):
        undec(D, st, 'stored', 'the number of elements is not determined')
        return
    compare_num(D, st, size, want, 'stored', 'the number of elements')
    if how in ('none', 'count'):
        return
    qs = range(want) if isinstance(want, int) else (from_atom(('q', 'generic')),)
    for q in qs:
        s = st.copy()
        if not (D.assume(s, q) and D.assume(s, sub(sub(want, 1), q))):
            continue
        e = D.seq_term(s, oid, q)
        xs = [item(D, s, fn, i, q) for i, v in enumerate(D.args0) if not isnum(v)]
        if how == 'flags':
            if xs[0] is None or is_unk(e):
                undec(D, s, 'stored', 'an element is not determined')
            else:
                compare_flag(D, s, e, xs[0], 'stored', 'an element')
        elif how == 'arrays':
            same_value(D, s, 'cx', e, ('cx', xs[0], xs[1]) if None not in xs else None, 'stored', 'an element')
        else:
            same_value(D, s, None, e, xs[0], 'stored', 'an element')


def item(D, s, fn, i, q):
    """element q of the array passed as argument i"""
    try:
        loc = D.deref(s, D.args0[i], pointee(fn.types[fn.ps[i]['t']].base))
        if loc[0] != 'e':
            return None
        return text_of(D.val(s, ('L', ('e', loc[1], add(loc[2], q)))))
    except Unsupported:
        return None


def pushed(D, fn, o):
    st = o.st
    tn, how = PUSH[fn.n]
    if refused(D, fn, o):
        return
    t, p = D.payload(st, D.sel[0])
    if t != tn:
        D.at_exit(st, 'C27', 'stored', 'the type is %s after adding an element to %s' % (t, tn), 'undec' if t is None or unsure(D, st) else 'viol')
        return
    size = st.heap[p[1]].f['size']
    compare_num(D, st, size, add(D.start_size, 1), 'stored', 'the number of elements')
    if not D.equal(st, size, add(D.start_size, 1)):
        return
    e = D.seq_term(st, p[1], D.start_size)
    if how == 'flag':
        compare_flag(D, st, e, arg(D, 0), 'stored', 'the element added')
    else:
        same_value(D, st, 'cx' if how != 'arg' else None, e, given(D, fn, st, how), 'stored', 'the element added')
    q = from_atom(('q', 'generic'))
    s = st.copy()
    if D.assume(s, q) and D.assume(s, sub(sub(D.start_size, 1), q)):
        same_value(D, s, None, D.seq_term(s, p[1], q), D.seq_term(s, D.start[1][1], q) if s.heap[p[1]].f['base'] is None else
                   D.seq_read(s, strip_const(elem_type(s.heap[p[1]].t)), s.heap[p[1]].f['base'], (), q), 'stored', 'an earlier element')


def nothing(v):
    """the answer of a reader that has no value"""
    return v in (0, ('N',), ('fconst', 0.0), ('s', ''), ('i2f', 0))


def complex_result(D, st, v):
    oid = v[1] if isinstance(v, tuple) and v[:1] == ('O',) else v[1][1] if isinstance(v, tuple) and v[:1] == ('L',) and v[1][0] == 'c' else None
    r = st.heap.get(oid)
    if r is None or r.kind != 'rec' or len(r.f) != 2:
        return None
    fs = [D.val(st, r.f[k]) for k in sorted(r.f, key=lambda k: ('im' in k, k))]
    return fs


def answer(D, st, fn, o, part, want, what):
    """the value returned is want (a part of it)"""
    if part == 'both':
        r = complex_result(D, st, o.val)
        if r is None:
            undec(D, st, 'value', what + ' is not determined')
            return
        w = cx(D, want)
        for nm, a, b in zip(('real', 'imaginary'), r, w):
            compare_num(D, st, a, b, 'value', 'the %s part of %s' % (nm, what))
        return
    v = text_of(D.val(st, o.val))
    if part:
        want = D.cx_part(want, part)
    if isinstance(v, tuple) and v[:1] in (('cmp',), ('not',)) or isinstance(v, int) and not isinstance(want, tuple) and fn.n.startswith('GC_get_bool'):
        for s, b in D.truth(st.copy(), v):
            compare_num(D, s, int(b), want, 'value', what)
        return
    compare_num(D, st, v, text_of(want), 'value', what)


def empty_answer(D, st, o, part):
    if part == 'both':
        r = complex_result(D, st, o.val)
        return None if r is None or any(is_unk(x) for x in r) else all(nothing(x) for x in r)
    v = D.val(st, o.val)
    return None if is_unk(v) else nothing(text_of(v)) or nothing(v)


def got(D, fn, o):
    st = o.st
    tn, part = GET[fn.n]
    t, p = D.payload(st, D.sel[0])
    if t is None:
        undec(D, st, 'value', 'the type is not determined')
    elif t == tn:
        if D.start[0] == tn and p != D.start[1]:
            viol(D, st, 'value', 'reading changes the value')
        answer(D, st, fn, o, part, p, 'the value returned')
    else:
        e = empty_answer(D, st, o, part)
        if e:
            D.ok('C27', 'value')
        elif e is None:
            undec(D, st, 'value', 'the value returned is not determined')
        else:
            viol(D, st, 'value', 'a value is returned although the position holds %s' % t)


def at(D, fn, o):
    st = o.st
    tn, part = AT[fn.n]
    t, p = D.payload(st, D.sel[0])
    if t != tn:
        D.at_exit(st, 'C27', 'value', 'reading an element changes the type', 'undec' if t is None or unsure(D, st) else 'viol')
        return
    x = st.heap[p[1]]
    idx = [v for v in D.args0 if isnum(v)]
    bounds = [x.f['m_num_rows'], x.f['m_num_cols']] if tn in MATS else [x.f['size']]
    pos = add(idx[0], mul(idx[1], bounds[0])) if tn in MATS else idx[0]
    e = empty_answer(D, st, o, part)
    inside = in_range(D, st, *zip(idx, bounds))
    if e:
        # a zero element cannot be told from a refusal: it must not be in range, or the element is known to be zero
        if inside is None or D.witness(inside, -1) is None:
            D.ok('C27', 'value')
        elif zero_known(D, inside, p[1], pos, part):
            D.ok('C27', 'value')
        else:
            viol(D, inside, 'value', 'an element that is there is not returned')
        return
    if e is None:
        undec(D, st, 'value', 'the value returned is not determined')
        return
    if inside is None:
        viol(D, st, 'value', 'a value is returned for a position that is not there')
        return
    out_ = not all(D.entails(st, y) for i, b in zip(idx, bounds) for y in (i, sub(sub(b, i), 1)))
    if out_:
        undec(D, st, 'value', 'whether the position is there is not determined')
    element(D, inside, fn, o, part, p[1], pos)


def zero_known(D, s, oid, pos, part):
    e = D.seq_term(s, oid, pos)
    if isnum(e):
        return D.equal(s, e, 0)
    return False


def element(D, s, fn, o, part, oid, pos):
    want = D.seq_term(s, oid, pos)
    v = D.val(s, o.val)
    r = complex_result(D, s, o.val) if part == 'both' else [text_of(v)]
    sels = [x for y in r or () for x in walk_terms(y) if isinstance(x, tuple) and x[:2] == ('A', 'sel') and len(x) >= 4 and isnum(x[3])]
    for x in sels:
        if D.equal(s, x[3], pos):
            # the index is written in another way: the same element
            s = s.copy()
            want = x if part is None and not isnum(want) else want
            r = [replace(y, x, D.seq_term(s, oid, pos)) for y in r]
    if part == 'both':
        for nm, a, b in zip(('real', 'imaginary'), r, cx(D, want)):
            elem_num(D, s, a, b, pos, 'the %s part of the element returned' % nm)
    elif isinstance(v, tuple) and v[:1] in (('cmp',), ('not',)) or fn.n.startswith('GC_get_bool') and isinstance(v, int):
        for s2, b in D.truth(s.copy(), v):
            for s3, w in D.truth(s2, want if not isnum(want) else ('cmp', '!=', want, 0)):
                if b == w:
                    D.ok('C27', 'value')
                else:
                    viol(D, s3, 'value', 'another truth value than that of the element is returned')
    else:
        elem_num(D, s, r[0], D.cx_part(want, part) if part else text_of(want), pos, 'the element returned')


def replace(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(replace(x, a, b) if isinstance(x, tuple) else x for x in v)
    return v


def elem_num(D, s, a, b, pos, what):
    if not (isnum(a) and isnum(b)) and a != b and not is_unk(a) and not is_unk(b):
        # two elements of the same sequence differ when their positions can differ
        x = [y for y in walk_terms(a) if isinstance(y, tuple) and y[:2] == ('A', 'sel') and len(y) >= 4 and isnum(y[3])]
        if len(x) == 1 and not differ(D, s, x[0][3], pos):
            z = replace(a, x[0], ('A', 'sel') + x[0][2:3] + (pos,) + x[0][4:])
            if z == b:
                D.ok('C27', 'value')
            else:
                undec(D, s, 'value', what + ' is not determined')
            return
    compare_num(D, s, a, b, 'value', what)


def reported(D, fn, o):
    st = o.st
    tn, p = D.start
    want = REPORTS[REPORT[fn.n]](D, st, tn, p)
    v = D.val(st, o.val)
    if want is None:
        return
    if fn.n == 'GC_get_type_name':
        t = text_of(v)
        if t == want:
            D.ok('C27', 'report')
        else:
            D.at_exit(st, 'C27', 'report', 'the name returned is %s instead of %s' % (D.nice(t), D.nice(want)),
                      'viol' if isinstance(t, tuple) and t[:1] == ('s',) and not unsure(D, st) else 'undec')
        return
    if not isnum(v):
        undec(D, st, 'report', 'the number returned is not determined')
        return
    compare_num(D, st, v, want, 'report', 'the number returned')


def moved(D, fn, o):
    st = o.st
    top, hid, size = D.sel
    h = st.heap[hid]
    r = status(D, o)
    now = h.f['size']
    if r is None or not isnum(now) or is_unk(now):
        undec(D, st, 'move', 'the position selected is not determined')
        return
    tn, p = D.payload(st, top)
    if fn.n in ('GC_pop_head', 'GC_reset_head'):
        if r != 0:
            viol(D, st, 'move', 'the move is refused')
        else:
            compare_num(D, st, now, sub(size, 1) if fn.n == 'GC_pop_head' else 1, 'move', 'the depth of the position')
        return
    want = 'VECTOR' if fn.n == 'GC_push_vector_position' else 'MAP'
    if r != 0:
        if not D.equal(st, now, size):
            viol(D, st, 'move', 'the position changes although the call reports a failure')
        elif tn == want and not (want == 'VECTOR' and negative(D, o)):
            viol(D, st, 'move', 'the move is refused although the position holds %s' % want)
        else:
            D.ok('C27', 'move')
        return
    if tn != want or want == 'VECTOR' and negative(D, o):
        viol(D, st, 'move', 'the move succeeds although there is no such element')
        return
    compare_num(D, st, now, add(size, 1), 'move', 'the depth of the position')
    if not D.equal(st, now, add(size, 1)):
        return
    v = D.seq_term(st, hid, size)
    loc = v[1] if isinstance(v, tuple) and v[:1] == ('P',) else None
    key = [x for x in D.args0 if isnum(x)][0] if want == 'VECTOR' else ('at', text_of(arg(D, 0)))
    if loc is not None and loc[0] == 'e' and want == 'VECTOR' and loc[1] == p[1]:
        compare_num(D, st, loc[2], key, 'move', 'the element selected')
        return
    if loc is not None and loc[0] == 'e' and want == 'VECTOR' and isinstance(p, tuple) and loc[1] != p[1] and loc[1] in D.entry.heap:
        viol(D, st, 'move', 'an element of another container is selected')
        return
    owner = [q for (q, kk), c in st.kids.items() if q != 'global' and loc == ('c', c)]
    if owner and owner[0] != p[1] and any(x[:1] == ('c',) and D.payload(st, x[1])[1] == ('O', owner[0])
                                          for x in [v2[1] for v2 in (D.seq_term(st, hid, 0),) if isinstance(v2, tuple) and v2[:1] == ('P',)]):
        viol(D, st, 'move', 'an element of another container is selected')
        return
    k = [kk for (q, kk), c in st.kids.items() if q == p[1] and loc == ('c', c)]
    if loc is None or not k:
        if loc == ('c', top):
            viol(D, st, 'move', 'the position stays on the same container')
        else:
            undec(D, st, 'move', 'the element selected is not determined')
    elif isnum(k[0]) and isnum(key):
        compare_num(D, st, k[0], key, 'move', 'the element selected')
    elif k[0] == key:
        D.ok('C27', 'move')
    else:
        D.at_exit(st, 'C27', 'move', 'another entry than the one with the key is selected', 'undec' if is_unk(k[0]) or unsure(D, st) or isnum(k[0]) else 'viol')


def init(D):
    init_vals(D)
    D.modular = MODULAR
    D.modular_elem = ()
    D.layout = Layout(D.prog)


class Face(Vals):
    def __init__(self, prog):
        super().__init__(prog)
        self.layout = Layout(prog)

    def may_throw(self, st, what):
        if not self.collectors or self.nothrow:
            return
        super().may_throw(st, what)
        if what in ('unknown callee', 'callee exception'):
            s = self.collectors[-1][-1]         # a call that is not known: whether it fails is not either
            s.inexact += (what,)


def check_C27():
    rep = Report('C27')
    prog = P_.extract()
    L = Layout(prog)
    fns = [f for f in prog.fns.values() if f.n in SPEC and not f.rec and f.body is not None]
    rep.cov['operations'] = sorted(f.n for f in fns)
    if L.glob is None:
        rep.cov['layout'] = 'the selected container is not found: nothing is decided'
        return rep.finish('other', HOW, ASSUME)
    res = sweep_all(prog, visit, init, fns, False, Face, False, cases)
    collect(rep, res, 'C27', ('stored', 'status', 'value', 'report', 'move'), {
        'stored': 'after a setter or an addition the selected position holds exactly the value passed',
        'status': 'a valid request is not refused, and a negative count is',
        'value': 'a reader returns the value of the selected position or element, and zero or null when there is none',
        'report': 'type, sizes and dimensions reported are those of the selected position',
        'move': 'a move selects exactly the element asked for, and a failed one keeps the position'})
    return rep.finish('other', HOW + ' Functions of the C interface are analysed with a selected position that holds each of the 21 types, any arguments.', ASSUME)
