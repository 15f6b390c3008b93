"""C26: access by key reaches the entry stored under that key, or reports it missing."""
from values import *

READS = {'get_map_bool': ('exact', 'BOOL'), 'get_map_int': ('number', 'int', 'ret'), 'get_map_number': ('number', 'double', 'ret', NUMERIC[:-1]),
         'get_map_string': ('exact', 'STRING'), 'get_map_vec_real': ('exact', 'VEC_REAL'), 'get_map_vec_complex': ('exact', 'VEC_COMPLEX'),
         'get_map_vec_string': ('exact', 'VEC_STRING'), 'get_map_vec_int': ('exact', 'VEC_INTEGER'), 'get_map_vec_long': ('exact', 'VEC_LONG')}
OTHERS = ('exists', 'must_exists', 'erase', 'operator()', 'operator[]', 'get_if_exists')
INTO = {'int': 'int', 'unsigned int': 'unsigned int', 'long': 'long', 'unsigned long': 'unsigned long', 'float': 'float', 'double': 'double',
        'std::complex<double>': 'complex'}


def keyed(fn):
    ps = [fn.types[p['t']] for p in fn.ps]
    return bool(ps) and (kind_of(ps[0].base) in ('sv', 'str') or several(fn) or path_of_keys(fn)) and (fn.n in READS or fn.n in OTHERS)


def several(fn):
    """takes a sequence of keys: the first one that is there counts"""
    t = fn.types[fn.ps[0]['t']]
    return t.ref and kind_of(t.base) == 'vec' and kind_of(elem_type(t.base)) == 'str'


def prepared(D, child):
    """the map has no entry with the key (child None), or one holding a value of type child"""
    def f(st, this, ops, objs):
        t, p = D.payload(st, this)
        oid = p[1]
        key = D.sval(st, ops[0])
        o = st.heap[oid]
        st.heap[oid] = o.set(known=o.f.get('known', ()) + ((key, child is not None),))
        D.mapentry = (oid, key, None, st.heap[oid].f['size'], None)
        if child is not None:
            D.assume(st, sub(st.heap[oid].f['size'], 1))
            k = D.kid(st, oid, ('at', key))
            D.concretise(st, k, child)
            t, p = D.payload(st, k)
            D.mapentry = (oid, key, k, st.heap[oid].f['size'], (t, D.objterm(st, p[1]) if isinstance(p, tuple) and p[:1] == ('O',) else p))
        return None
    return f


def path_of_keys(fn):
    """takes the keys of a path through nested maps"""
    return fn.types[fn.ps[0]['t']].base.startswith('std::initializer_list<')


def keys_of(D, st, oid, n):
    """the sequence of keys passed has n elements"""
    v = st.heap[oid]
    D.unfold = 6
    g = dict(v.f, size=n)
    m = dict(v.m)
    if m.get('init') is not None:
        m['init'] = g
    st.heap[oid] = Obj(v.kind, g, v.t, v.alive, m)
    return [D.seq_term(st, oid, i) for i in range(n)]


def path(D, fn, n, end):
    """n keys, all there but the last; end: None or the type of the last entry; 'blocked': the first entry is not a map"""
    def f(st, this, ops, objs):
        keys = keys_of(D, st, objs[0], n)
        t, p = D.payload(st, this)
        if t != 'MAP':
            return None
        top = oid = p[1]
        D.mapentry = (top, None, None, st.heap[top].f['size'], None)
        for i, key in enumerate(keys):
            last = i == n - 1
            o = st.heap[oid]
            st.heap[oid] = o.set(known=o.f.get('known', ()) + ((key, not (last and end is None)),))
            if last and end is None:
                return None
            D.assume(st, sub(st.heap[oid].f['size'], 1))
            k = D.kid(st, oid, ('at', key))
            D.concretise(st, k, D.tagval['INTEGER'] if end == 'blocked' else end if last else D.tagval['MAP'])
            if end == 'blocked':
                return None
            t, p = D.payload(st, k)
            if not last:
                oid = p[1]
        D.mapentry = (top, key, k, st.heap[top].f['size'], (t, D.objterm(st, p[1]) if isinstance(p, tuple) and p[:1] == ('O',) else p))
        return None
    return f


def paths(D, fn):
    n = D.tagname
    out = [(fn, t, path(D, fn, 1, None), '') for t in sorted(D.alltags) if n[t] != 'MAP']
    m = D.tagval['MAP']
    out += [(fn, m, path(D, fn, k, None), ' with %d keys, the last one missing' % k) for k in (1, 2, 3)]
    out.append((fn, m, path(D, fn, 2, 'blocked'), ' with 2 keys, the first entry not a map'))
    for k in (1, 2, 3):
        for x in sorted(D.alltags):
            if k == 2 or n[x] in ('INTEGER', 'BOOL', 'STRING') or n[x] == READS[fn.n][1]:
                out.append((fn, m, path(D, fn, k, x), ' with %d keys, the last entry holding %s' % (k, n[x])))
    return out


def sequence(D, fn, there):
    """there: per key of the sequence, None or the type of the entry it has"""
    def f(st, this, ops, objs):
        oid = D.payload(st, this)[1][1]
        keys = keys_of(D, st, objs[0], len(there))
        o = st.heap[oid]
        st.heap[oid] = o.set(known=o.f.get('known', ()) + tuple((k, x is not None) for k, x in zip(keys, there)))
        size = st.heap[oid].f['size']
        D.mapentry = (oid, None, None, size, None)
        if any(x is not None for x in there):
            D.assume(st, sub(size, 1))
        for key, x in reversed(list(zip(keys, there))):
            if x is None:
                continue
            k = D.kid(st, oid, ('at', key))
            D.concretise(st, k, x)
            t, p = D.payload(st, k)
            if fn.n == 'get_if_exists' and D.mapentry[2] is not None and t != 'BOOL':
                continue
            D.mapentry = (oid, key, k, size, (t, D.objterm(st, p[1]) if isinstance(p, tuple) and p[:1] == ('O',) else p))
        return None
    return f


def sequences(D, fn):
    n = D.tagname
    out = [(fn, t, None, '') for t in sorted(D.alltags) if n[t] != 'MAP']
    m = D.tagval['MAP']
    out += [(fn, m, sequence(D, fn, x), ' with %s keys, none of them there' % w) for x, w in (((), 'no'), ((None,), 'one'), ((None, None), 'two'))]
    second = D.tagval['BOOL' if fn.n in ('get_if_exists', 'get_map_bool') else 'INTEGER']
    for x in sorted(D.alltags):
        if fn.n in READS or fn.n == 'get_if_exists' or n[x] in ('INTEGER', 'MAP'):
            out.append((fn, m, sequence(D, fn, (x, None)), ' with two keys, the first there and holding %s' % n[x]))
            out.append((fn, m, sequence(D, fn, (None, x)), ' with two keys, the second there and holding %s' % n[x]))
            out.append((fn, m, sequence(D, fn, (x, second)), ' with two keys, both there, the first holding %s' % n[x]))
    return out


def cases(D, fn):
    if several(fn):
        return sequences(D, fn)
    if path_of_keys(fn):
        return paths(D, fn)
    out = []
    for t in sorted(D.alltags):
        if D.tagname[t] != 'MAP':
            out.append((fn, t, None, ''))
            continue
        out.append((fn, t, prepared(D, None), ' without the key'))
        ts = sorted(D.alltags)
        if fn.n in ('exists', 'erase', 'operator()', 'operator[]'):
            ts = [x for x in ts if D.tagname[x] in ('INTEGER', 'MAP')]
        out += [(fn, t, prepared(D, x), ' whose entry holds %s' % D.tagname[x]) for x in ts]
    return out


def visit(D, fn, tag, outs, this, objs):
    tn = D.tagname.get(tag)
    e = getattr(D, 'mapentry', None) if tn == 'MAP' else None
    D.mapentry = None
    for o in outs:
        if o.kind == 'exc' and not throws(o):
            continue
        if tn == 'MAP':
            in_map(D, fn, o, this, objs, e)
        else:
            elsewhere(D, fn, tn, o, this, objs)


def bad(D, st, rule, what):
    D.at_exit(st, 'C26', rule, what, 'undec' if unsure(D, st) else 'viol')


def flag(D, o):
    v = D.val(o.st, o.val)
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    r = {b for _, b in D.truth(o.st.copy(), v)}
    return int(next(iter(r))) if len(r) == 1 else None


def untouched(D, fn, o, objs):
    """the destination of a lookup that fails keeps its value"""
    if 1 not in objs:
        return
    x = o.st.heap.get(objs[1])
    t = fn.types[fn.ps[1]['t']].base
    if x is None or x.kind != 'cell':
        return
    v = D.read(o.st, ('c', objs[1]))
    if v == D.mkatom(t, ('arg', 1, t)):
        D.ok('C26', 'missing')
    elif v is not None and not is_unk(v):
        bad(D, o.st, 'missing', 'the destination is changed although nothing is reported as found')
    else:
        D.at_exit(o.st, 'C26', 'missing', 'whether the destination is kept is not determined', 'undec')


def missing(D, fn, o, objs, what):
    """there is no such entry"""
    if fn.n in ('exists', 'get_if_exists'):
        if o.kind == 'exc':
            bad(D, o.st, 'missing', what + ': throws instead of answering no')
            return
        r = flag(D, o)
        if r is None:
            for s2, b in D.truth(o.st.copy(), D.val(o.st, o.val)):
                if b and not unsure(D, s2) and D.witness(s2, -1) is not None:
                    bad(D, s2, 'missing', what + ': the answer can be yes')
                    return
        if r == 0:
            D.ok('C26', 'missing')
            if fn.n == 'get_if_exists':
                untouched(D, fn, o, objs)
        elif r is None:
            D.at_exit(o.st, 'C26', 'missing', what + ': the answer is not determined', 'undec')
        else:
            bad(D, o.st, 'missing', what + ': the answer is yes')
    elif o.kind == 'ret':
        bad(D, o.st, 'missing', what + ': returns instead of throwing')
    else:
        D.ok('C26', 'missing')


def elsewhere(D, fn, tn, o, this, objs):
    if fn.n == 'operator[]' and not fn.const:
        if o.kind == 'exc':
            bad(D, o.st, 'insert', 'a stored %s is not replaced by a map' % tn)
            return
        t, p = D.payload(o.st, this)
        if t == 'MAP':
            key = [k[1] for (q, k), c in o.st.kids.items() if q == p[1] and not isnum(k)]
            if len(key) == 1:
                inserted(D, o, p[1], key[0], 0)
                return
        D.at_exit(o.st, 'C26', 'insert', 'what becomes of a stored %s is not determined' % tn, 'undec' if t in (None, 'MAP') or unsure(D, o.st) else 'viol')
        return
    missing(D, fn, o, objs, 'a stored %s has no keys' % tn)


def only(o, key, allowed):
    """the map is changed at the key only"""
    for u in o.f['upd']:
        if u[0] == 'kidpt':
            continue
        if u[0] not in allowed or u[1] != key:
            return False
    return True


def same_map(D, o, oid):
    m = o.st.heap.get(oid)
    return m if m is not None and m.alive else None


def in_map(D, fn, o, this, objs, e):
    st = o.st
    oid, key, child, size0, was = e
    m = same_map(D, o, oid)
    if m is None:
        D.at_exit(st, 'C26', 'entry', 'the stored map is replaced', 'undec' if unsure(D, st) else 'viol')
        return
    if fn.n == 'erase':
        if o.kind == 'exc':
            bad(D, st, 'erase', 'a map refuses the key')
            return
        want = size0 if child is None else sub(size0, 1)
        gone = dict(m.f.get('known', ())).get(key)
        if not is_unk(m.f['size']) and D.differ(st, m.f['size'], want):
            bad(D, st, 'erase', 'the map has %s entries instead of %s' % (D.nice(m.f['size']), D.nice(want)))
        elif m.f['base'] is None or any(u[0] in ('ph', 'unk') for u in m.f['upd']):
            D.at_exit(st, 'C26', 'erase', 'what is erased is not determined', 'undec' if m.f['base'] is not None or unsure(D, st) else 'viol')
        elif D.equal(st, m.f['size'], want) and gone is not True:
            D.ok('C26', 'erase')
        else:
            D.at_exit(st, 'C26', 'erase', 'what is erased is not determined', 'undec')
        return
    if child is None:
        if fn.n == 'operator[]' and not fn.const:
            inserted(D, o, oid, key, size0)
        else:
            missing(D, fn, o, objs, 'the key is missing')
        return
    if fn.n == 'must_exists':
        if o.kind == 'exc':
            bad(D, st, 'entry', 'a key is there but none is found')
            return
        got = text_of(D.sval(st, o.val))
        if got == key:
            D.ok('C26', 'entry')
        else:
            D.at_exit(st, 'C26', 'entry', 'the key returned is %s' % ('not determined' if is_unk(got) else 'not the first one that is there'),
                      'undec' if is_unk(got) or unsure(D, st) else 'viol')
        return
    if fn.n == 'exists':
        r = flag(D, o) if o.kind == 'ret' else 0
        if r == 1:
            D.ok('C26', 'entry')
        else:
            D.at_exit(st, 'C26', 'entry', 'the key is there but the answer is no', 'undec' if r is None or unsure(D, st) else 'viol')
        return
    if fn.n in ('operator()', 'operator[]'):
        if o.kind == 'exc':
            bad(D, st, 'entry', 'the key is there but the access throws')
        else:
            is_entry(D, o, oid, key, child)
            t, p = D.payload(st, child)
            p = D.objterm(st, p[1]) if isinstance(p, tuple) and p[:1] == ('O',) else p
            if (t, p) == was:
                D.ok('C26', 'entry')
            else:
                D.at_exit(st, 'C26', 'entry', 'reaching the entry changes it', 'undec' if t is None or unsure(D, st) or t == was[0] and is_unk(p) else 'viol')
        return
    tn = D.payload(st, child)[0]
    if tn is None:
        D.at_exit(st, 'C26', 'value', 'the type of the entry is not determined', 'undec')
        return
    if fn.n == 'get_if_exists':
        extract(D, fn, o, objs, tn, child)
        return
    c = ('exact', 'INTEGER') if fn.n == 'get_map_int' and path_of_keys(fn) else READS[fn.n]
    if c[0] == 'number' and tn not in (c[3] if len(c) > 3 else NUMERIC):
        if o.kind == 'ret':
            wrong_type(D, o, tn, 'C26')
        else:
            D.ok('C26', 'accept')
        return
    if o.kind == 'ret' and by_search(st, oid):
        D.at_exit(st, 'C26', 'value', 'the entry is found by comparing keys: whether it is the same is not determined', 'undec')
        return
    PROMISE[c[0]](D, fn, tn, o, child, objs, c, 'C26')


def by_search(st, oid):
    """the path compares the keys of entries at positions with something"""
    return any(isinstance(x, tuple) and x[:1] == ('key',) for k in st.bools for x in walk_terms(k))


def is_entry(D, o, oid, key, child):
    v = o.val
    loc = v[1] if isinstance(v, tuple) and v and v[0] == 'L' else None
    if loc == ('c', child):
        D.ok('C26', 'entry')
        return
    other = None
    for (p, k), c in o.st.kids.items():
        if loc == ('c', c):
            other = (p, k)
    if other is not None and other[0] == oid and not isnum(other[1]) or other is not None and other[0] == oid and not by_search(o.st, oid) or \
            loc is not None and loc[0] == 'c' and other is None and loc[1] in o.st.heap and o.st.heap[loc[1]].kind == 'gc':
        bad(D, o.st, 'entry', 'another container than the entry with the key is returned')
    else:
        D.at_exit(o.st, 'C26', 'entry', 'the container returned is not determined', 'undec')


def inserted(D, o, oid, key, size0):
    st = o.st
    if o.kind == 'exc':
        bad(D, st, 'insert', 'a map refuses a new key')
        return
    m = st.heap[oid]
    want = add(size0, 1)
    k = st.kids.get((oid, ('at', key)))
    if not D.equal(st, m.f['size'], want) or k is None:
        D.at_exit(st, 'C26', 'insert', 'the map has %s entries instead of %s' % (D.nice(m.f['size']), D.nice(want)),
                  'viol' if D.differ(st, m.f['size'], want) and not unsure(D, st) else 'undec')
        return
    if D.payload(st, k)[0] != 'NOTYPE':
        bad(D, st, 'insert', 'the new entry is not an empty container')
        return
    D.ok('C26', 'insert')
    is_entry(D, o, oid, key, k)


def extract(D, fn, o, objs, tn, child):
    st = o.st
    t = fn.types[fn.ps[1]['t']].base
    if o.kind == 'exc':
        bad(D, st, 'entry', 'throws instead of answering no')
        return
    r = flag(D, o)
    if r is None:
        D.at_exit(st, 'C26', 'entry', 'the answer is not determined', 'undec')
        return
    target = INTO.get(t)
    if r == 0:
        untouched(D, fn, o, objs)
    if target is None:
        own = 'BOOL' if t == 'bool' else 'STRING'
        if tn != own:
            if r:
                bad(D, st, 'accept', 'stored %s: reported as found' % tn)
            else:
                D.ok('C26', 'accept')
            return
        if not r:
            bad(D, st, 'refused', 'stored %s: reported as not found' % tn)
            return
        x = st.heap[objs[1]]
        got = D.read(st, ('c', objs[1])) if x.kind == 'cell' else text_of(D.sval(st, ('O', objs[1])))
        _, p = D.payload(st, child)
        if isinstance(p, tuple) and p and p[0] == 'O':
            p = text_of(D.sval(st, p))
        if got == p or isnum(got) and isnum(p) and D.equal(st, got, p):
            D.ok('C26', 'value')
        elif got is None or is_unk(got) or unsure(D, st) or by_search(st, entry_map(st, child)):
            D.at_exit(st, 'C26', 'value', 'stored %s: the value extracted is not determined' % tn, 'undec')
        else:
            D.at_exit(st, 'C26', 'value', 'stored %s: %s is extracted instead of the stored value' % (tn, D.nice(got)))
        return
    if tn not in NUMERIC:
        if r:
            bad(D, st, 'accept', 'stored %s: reported as found' % tn)
        else:
            D.ok('C26', 'accept')
        return
    _, p = D.payload(st, child)
    x = st.heap[objs[1]]
    got = D.read(st, ('c', objs[1])) if x.kind == 'cell' else D.val(st, ('O', objs[1]))
    judge(D, st, tn, p, target, got if r else None, bool(r), 'C26', 'stored %s:' % tn)


def entry_map(st, child):
    for (p, k), c in st.kids.items():
        if c == child:
            return p
    return None


def init(D):
    init_vals(D)
    # the reads are followed into the entry
    D.modular = tuple(x for x in D.modular if x not in FOLLOWED)
    D.modular_elem = tuple(x for x in D.modular_elem if x not in FOLLOWED)


FOLLOWED = ('get_as_int', 'get_as_uint', 'get_as_long', 'get_as_ulong', 'get_number', 'get_complex_number', 'get_value', 'get_bool', 'get_int', 'get_long', 'get_real',
            'get_complex', 'get_string', 'get_vec_bool', 'get_vec_int', 'get_vec_long', 'get_vec_real', 'get_vec_complex', 'get_vec_string', 'exists')


def check_C26():
    rep = Report('C26')
    prog = P_.extract()
    fns = [f for f in operations(prog) if keyed(f)]
    res = sweep_all(prog, visit, init, fns, False, Vals, False, cases)
    collect(rep, res, 'C26', ('entry', 'missing', 'insert', 'erase', 'accept', 'value', 'refused'), {
        'entry': 'when the key is there the entry reached is the one stored under it',
        'missing': 'when there is no such entry the read throws or answers no, leaving the destination as it was',
        'insert': 'assigning through a new key adds one empty entry with that key',
        'erase': 'erasing removes the entry with that key and no other',
        'accept': 'an entry of a type that the read does not accept is refused',
        'value': 'the value returned or extracted is the one of the entry, or its conversion',
        'refused': 'an entry that can be represented is not refused'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' The map has any other entries; the key is absent, or present with an entry of each of the 21 types. The value delivered at every exit is compared '
                      'with the stored one; a difference is reported only with a stored value for which the path is taken.', ASSUME)
