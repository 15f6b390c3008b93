"""C08, C09: positions stay inside the sequences, matrices and byte buffers they address."""
from memory import *


class Buf(Exits):
    """byte buffers passed with their length are sequences of that length"""

    def make_args(self, st, fn, tags=None):
        ops, objs = Exits.make_args(self, st, fn, tags)
        ptr, dim = buffer_params(fn)
        for i, p in enumerate(fn.ps):
            if i in objs and st.heap[objs[i]].kind == 'vec' and elem_type(fn.types[p['t']].base) in BYTES:
                o = st.heap[objs[i]]
                st.heap[objs[i]] = Obj(o.kind, o.f, o.t, o.alive, dict(o.m, boundprop='C08'))
        if ptr is not None and dim is not None:
            oid = self.new_obj(st, 'vec', {'size': ops[dim], 'base': ('bytes',), 'upd': ()}, 'std::vector<unsigned char>',
                               {'param': True, 'boundprop': 'C08', 'buffer': True})
            objs[ptr] = oid
            ops[ptr] = P(('e', oid, 0))
        return ops, objs


BYTES = ('unsigned char', 'char', 'signed char', 'std::byte')


def buffer_params(fn):
    """(index of the byte pointer, index of its length) of an operation on a raw buffer"""
    ptr = dim = None
    for i, p in enumerate(fn.ps):
        pt = fn.types[p['t']]
        if kind_of(pt.base) == 'ptr' and pointee(pt.base) == 'unsigned char':
            ptr = i
        elif not pt.ref and kind_of(pt.base) == 'int':
            dim = i
    return (ptr, dim) if ptr is not None and dim is not None else (None, None)


def contract(D, st, fn, this, ops, n):
    """nested call on the rest of the buffer: it must be given no more than what is left, and consumes at most that"""
    ptr, dim = buffer_params(fn)
    if ptr is None:
        return None
    p, d = D.val(st, ops[ptr]), D.val(st, ops[dim])
    if not (isinstance(p, tuple) and p and p[0] == 'P' and p[1][0] == 'e' and isnum(d)):
        return None
    oid = p[1][1]
    o = st.heap[oid]
    left = sub(sub(o.f['size'], p[1][2]), d)
    if D.entails(st, left) and D.entails(st, p[1][2]):
        D.ok('C08', 'nested')
    else:
        # a negative length is refused by the nested call; only a positive excess matters
        s2 = st.copy()
        if D.assume(s2, d) and D.assume(s2, sub(-1, left)):
            v = 'viol'
            if is_unk(left) or D.tainted(s2, left) or D.witness(s2, left) is None:
                v = 'undec'
            D.event(st, 'C08', 'nested', 'a nested container is given %s bytes at position %s of a buffer of %s' % (D.nice(d), D.nice(p[1][2]), D.nice(o.f['size'])), v)
        else:
            D.ok('C08', 'nested')
    D.may_throw(st, 'callee exception')
    if this is not None and not fn.const:
        D.havoc_loc(st, this)
    if o.m.get('written', True):
        st.heap[oid] = st.heap[oid].set(upd=st.heap[oid].f['upd'] + (('ph',),))
    r = D.mkatom(fn.rt.base, ('unk', 'nested', D.uid()))
    D.assume(st, r)
    D.assume(st, sub(d, r))
    return [(st, r)]


def visit_c08(D, fn, tag, outs, this, objs):
    ptr, dim = buffer_params(fn)
    for o in outs:
        if o.kind != 'ret' or not isnum(o.val):
            continue
        if ptr is not None:
            size = o.st.heap[objs[ptr]].f['size']
        else:
            vs = [i for i in objs if o.st.heap[objs[i]].kind == 'vec']
            if not vs:
                continue
            size = o.st.heap[objs[vs[0]]].f['size']
        for L, what in ((o.val, 'is negative'), (sub(size, o.val), 'exceeds the buffer')):
            if D.entails(o.st, L):
                D.ok('C08', 'count')
            else:
                v = 'viol'
                if is_unk(L) or D.tainted(o.st, L) or D.witness(o.st, L) is None:
                    v = 'undec'
                D.at_exit(o.st, 'C08', 'count', 'the reported number of bytes %s: %s of %s' % (what, D.nice(o.val), D.nice(size)), v)


def byte_ops(prog):
    out = []
    for f in operations(prog):
        if f.n in ('serialize', 'de_serialize') or buffer_params(f)[0] is not None:
            out.append(f)
    return out


def check_C08():
    rep = Report('C08')
    prog = P_.extract()
    fns = byte_ops(prog)
    def init(D):
        for f in fns:
            D.summaries[f.q] = contract
    res = sweep_all(prog, visit_c08, init, fns, False, Buf)
    collect(rep, res, 'C08', ('bounds', 'nested', 'count'), {
        'bounds': 'every byte read or written lies inside the buffer: 0 <= position < given length',
        'nested': 'a nested container is given no more bytes than are left',
        'count': 'the reported number of bytes is between 0 and the given length'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' The raw buffer is a sequence whose length is the length argument (any value, negative included); nested calls are '
                      'replaced by their contract (consumes between 0 and the given length), which is established at the exits of the same function. '
                      'A violation is reported only with values of the inputs that reach it.', ASSUME)


def check_C09():
    rep = Report('C09')
    prog = P_.extract()
    fns = [f for f in operations(prog) + helpers(prog) + others(prog) if f not in byte_ops(prog)]
    res = sweep_all(prog, lambda *a: None, None, fns, False, Buf)
    collect(rep, res, 'C09', ('bounds',), {
        'bounds': 'every element access (subscript, front, iterator range, copy) addresses 0 <= position < size of the sequence at that point'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW + ' A violation is reported only with values of the inputs that reach it.', ASSUME)


def check_C25():
    rep = Report('C25')
    prog = P_.extract()
    fns = [f for f in others(prog) if not f.rec] + [f for f in operations(prog) + helpers(prog) if f.file.startswith('src/GenericContainerTables')
                                                    or 'able' in f.n and any(kind_of(f.types[p['t']].base) == 'stream' for p in f.ps)]
    fns = list({f.usr: f for f in fns}.values())
    res = sweep_all(prog, lambda *a: None, None, fns, False, Buf, ((0, 0, 0), (0, 2, 0), (0, 0, 2), (2, 2, 1), (1, 2, 2), (0, 1, 1)) + SIZES)
    collect(rep, res, 'C09', ('bounds',), {
        'bounds': 'every header, column and row element used by the table printers exists, for any number of headers, columns and rows'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' Headers, columns and their lengths are unconstrained. A violation is reported only with values of the inputs that reach it.', ASSUME)


def others(prog):
    """functions of the core library on sequences, and methods of the matrix class"""
    out = []
    for f in prog.fns.values():
        if f.rec == GC or f.body is None or f.d.get('implicit') or f.file.startswith('/') or '(lambda' in f.q or 'operator()' in f.q:
            continue
        if f.d.get('externC'):
            continue
        if f.rec.startswith(NS + 'mat_type') and not f.d.get('ctor') and not f.d.get('dtor'):
            out.append(f)
        elif not f.rec and f.file.startswith('src/GenericContainerTables'):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l, f.usr))
