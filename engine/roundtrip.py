"""C07: the size announced, the bytes written and the bytes read back agree, and what is read back is what was written."""
from copies import *
from bounds import Buf, buffer_params, byte_ops

SIZE, WRITE, READ = 'mem_size', 'serialize', 'de_serialize'
MAXBYTES = (1 << 31) - 1
WIDTH = {'VEC_BOOL': 1, 'VEC_INTEGER': 4, 'VEC_LONG': 8, 'VEC_REAL': 8, 'VEC_COMPLEX': 16, 'VEC_POINTER': 8,
         'MAT_INTEGER': 4, 'MAT_LONG': 8, 'MAT_REAL': 8, 'MAT_COMPLEX': 16}


class Bytes(Buf, Vals):
    pass


def nested_bytes(D, term):
    """number of bytes of a nested container (by induction on the depth)"""
    r = from_atom(('msz', term))
    D.rng.setdefault(r.t[0][0][0], (4, MAXBYTES))
    return r


def nested_size(D, st, fn, this, ops, n):
    a = gc_oid(D, st, this)
    if a is None:
        return None
    return [(st, nested_bytes(D, D.gcterm(st, a)))]


def window(D, st, fn, ops):
    ptr, dim = buffer_params(fn)
    if ptr is not None:
        p, d = D.val(st, ops[ptr]), D.val(st, ops[dim])
        if isinstance(p, tuple) and p and p[0] == 'P' and p[1][0] == 'e' and isnum(d) and isnum(p[1][2]):
            return p[1][1], p[1][2], d
    return None


def refuse(D, st):
    D.throw(st, Exc('std::runtime_error', where=D.where(st)))


def nested_write(D, st, fn, this, ops, n):
    a, w = gc_oid(D, st, this), window(D, st, fn, ops)
    if a is None or w is None:
        return None
    oid, off, d = w
    term = D.gcterm(st, a)
    m = nested_bytes(D, term)
    out = []
    if not D.entails(st, sub(d, m)):
        s2 = st.copy()
        if D.assume(s2, sub(sub(m, 1), d)):
            refuse(D, s2)
        if not D.assume(st, sub(d, m)):
            return out
    o = st.heap[oid]
    st.heap[oid] = o.set(upd=o.f['upd'] + (('blob', off, m, term),))
    return [(st, m)]


def blob_at(D, st, oid, off):
    for u in reversed(st.heap[oid].f['upd']):
        if u[0] == 'blob' and D.equal(st, u[1], off):
            return u
        n = 1 if u[0] == 'pt' else u[2] if u[0] in ('bytes', 'fld', 'blob') else None
        if n is None or not isnum(u[1]) or not isnum(n):
            return None
        if not D.entails(st, sub(off, add(u[1], n))) and not D.entails(st, sub(sub(u[1], off), 4)):
            return None
    return None


def nested_read(D, st, fn, this, ops, n):
    a, w = gc_oid(D, st, this), window(D, st, fn, ops)
    if a is None or w is None:
        return None
    oid, off, d = w
    u = blob_at(D, st, oid, off)
    if u is None:
        D.havoc_loc(st, this)
        st.inexact += ('nested',)
        r = D.mkatom(fn.rt.base, ('unk', 'nested', D.uid()))
        D.assume(st, r)
        D.assume(st, sub(d, r))
        return [(st, r)]
    m = u[2]
    if not D.entails(st, sub(d, m)):
        s2 = st.copy()
        if D.assume(s2, sub(sub(m, 1), d)):
            refuse(D, s2)
        if not D.assume(st, sub(d, m)):
            return []
    assign_term(D, st, a, u[3])
    return [(st, m)]


def doubtful(D, st):
    """the path was taken on a condition over single bits for which no values are found"""
    return D.blurred(st) or any(bitwise(f) for f in st.facts) and D.witness(st, -1) is None or any(bitwise(k) for k in st.bools)


def perform(D, st, fn, this, ops):
    """the outcomes of an operation called in the state st"""
    D.collectors = [[]]
    D.stack = []
    try:
        res = D.call(st, fn, this, ops)
        outs = [Outcome('ret', s, v) for s, v in res] + [Outcome('exc', s, None, s.exc) for s in D.collectors[0]]
    finally:
        D.collectors = []
    return outs


def stored_bytes(D, st, tn, p):
    """least number of bytes that hold the texts and nested containers stored, to bound the total; None: of any size"""
    if tn in SCALARS:
        return add(64, D.str_len(st, p)) if tn == 'STRING' else 64
    o = st.heap[p[1]]
    n = o.f['size']
    if tn in WIDTH:
        return add(64, scale(n, WIDTH[tn]))
    if not isinstance(n, int):
        return add(64, scale(n, 16))
    t = 64 + 16 * n
    for q in range(n):
        if tn == 'VEC_STRING':
            t = add(t, D.str_len(st, D.seq_term(st, p[1], q)))
        elif tn == 'VECTOR':
            t = add(t, nested_bytes(D, D.seq_term(st, p[1], q)))
        elif tn == 'MAP':
            t = add(t, add(D.str_len(st, D.key_of(st, p[1], q)), nested_bytes(D, D.map_term(st, p[1], q))))
    return t


def visit_c07(D, fn, tag, outs, this, objs):
    """outs is not used: the operations are performed one after the other from the state at entry"""
    st0 = D.entry
    tn, p = D.payload(st0, this)
    if tn is None:
        return
    ops = {f.n: f for f in D.chain[fn.usr]}
    by_vec = buffer_params(fn)[0] is None
    short = not isinstance(p, tuple) or p[:1] != ('O',) or isinstance(st0.heap[p[1]].f['size'], int)
    st = st0.copy()
    if p is not None and not (isinstance(p, tuple) and p[:1] == ('unk',)):
        b = stored_bytes(D, st, tn, p)
        if isinstance(b, Lin):
            D.assume(st, sub(MAXBYTES, b))
    what = 'stored %s: ' % tn
    no = lambda s, rule, msg, sure=True: D.at_exit(s, 'C07', rule, what + msg, 'viol' if sure and not doubtful(D, s) else 'undec')

    def agree(s, got, want, msg):
        if isnum(got) and isnum(want) and D.equal(s, got, want):
            D.ok('C07', 'count')
            return True
        sure = isnum(got) and isnum(want) and not is_unk(got) and not is_unk(want) and D.differ(s, got, want)
        no(s, 'count', '%s (%s instead of %s)' % (msg, D.nice(got), D.nice(want)), sure)
        return False

    for a in perform(D, st, ops[SIZE], ('c', this), []):
        if a.kind == 'exc':
            if throws(a):
                no(a.st, 'count', 'the size cannot be asked for')
            continue
        m = a.val
        if not isnum(m) or is_unk(m):
            no(a.st, 'count', 'the size announced is not determined', False)
            continue
        s = a.st
        buf = D.new_obj(s, 'vec', {'size': m, 'base': ('bytes',), 'upd': ()}, 'std::vector<unsigned char>', {'param': True, 'buffer': True})
        args = [('L', ('c', buf))] if by_vec else [m, P(('e', buf, 0))]
        for w in perform(D, s, ops[WRITE], ('c', this), args):
            if w.kind == 'exc':
                if throws(w):
                    no(w.st, 'count', 'a buffer of the announced size is refused', short)
                continue
            if not agree(w.st, w.val, m, 'the number of bytes written is not the one announced') or not short:
                continue
            for spare in (0, 1):
                s2 = w.st.copy()
                d = m
                if spare:
                    # a buffer with bytes to spare
                    x = D.nat_atom(('spare',))
                    D.assume(s2, sub(MAXBYTES, add(m, x)))
                    d = add(m, x)
                    s2.heap[buf] = s2.heap[buf].set(size=d)
                back = D.empty_obj(s2, GC)
                args = [('L', ('c', buf))] if by_vec else [d, P(('e', buf, 0))]
                for r in perform(D, s2, ops[READ], ('c', back), args):
                    if r.kind == 'exc':
                        if throws(r):
                            no(r.st, 'read', 'what was written is refused when it is read back')
                        continue
                    agree(r.st, r.val, m, 'the number of bytes read is not the number written')
                    same_back(D, r.st, tn, back, st0, this, p, what)


def same_back(D, st, tn, back, st0, this, p0, what):
    t, p = D.payload(st, back)
    if t != tn:
        D.at_exit(st, 'C07', 'read', '%sthe type read back is %s' % (what, t), 'undec' if t is None or doubtful(D, st) else 'viol')
        return
    if tn == 'NOTYPE':
        D.ok('C07', 'read')
    elif tn in SCALARS:
        if tn == 'BOOL':
            r = True if D.equal(st, p, p0) else same_elem(D, st, tn, p, p0)
        elif tn == 'POINTER' and isinstance(p, Lin) and single_atom(p) == ('p2i', p0):
            r = True
        else:
            r = same_elem(D, st, tn, p, p0)
        say(D, st, 'C07', 'read', r, '%s%s is read back instead of %s' % (what, D.nice(p), D.nice(p0)))
    else:
        same_contents(D, st, tn, p[1], st0, p0[1], 'C07', what)


def init_c07(D):
    init_vals(D)
    D.unfold_paths = 400
    D.chain = chains(D.prog)
    for fs in D.chain.values():
        for f in fs:
            h = {SIZE: nested_size, WRITE: nested_write, READ: nested_read}[f.n]
            D.summaries[f.q] = lambda D, st, fn, this, ops, n: {SIZE: nested_size, WRITE: nested_write, READ: nested_read}[fn.n](D, st, fn, this, ops, n)


def chains(prog):
    """writers with the reader of the same kind of buffer and the announcer of the size"""
    fs = [f for f in operations(prog) if f.rec == GC and f.n in (SIZE, WRITE, READ) and f.body is not None]
    out = {}
    for w in fs:
        if w.n == WRITE:
            raw = buffer_params(w)[0] is not None
            r = [f for f in fs if f.n == READ and (buffer_params(f)[0] is not None) == raw]
            z = [f for f in fs if f.n == SIZE]
            if r and z:
                out[w.usr] = (z[0], w, r[0])
    return out


def check_C07():
    rep = Report('C07')
    prog = P_.extract()
    ch = chains(prog)
    fns = [f for f in operations(prog) if f.usr in ch]
    res = sweep_all(prog, visit_c07, init_c07, fns, False, Bytes, ((0, 0, 0), (0, 2, 0), (0, 0, 2)) + SIZES + ((2, 3, 1), (4, 2, 3)))
    collect(rep, res, 'C07', ('count', 'read', 'equal'), {
        'count': 'the bytes written are as many as announced, and the bytes read back as many as written',
        'read': 'what was written is accepted, with the type and the value written',
        'equal': 'the sequence read back has the size and, position by position, the elements written'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for fs in ch.values() for f in fs]
    return rep.finish('other', HOW + ' The announcer of the size, the writer and the reader are composed: the reader is analysed on the bytes the writer leaves, '
                      'each known as a byte of a stored value; nested containers are written and read as a block whose content and length are theirs (induction on the depth).', ASSUME)
