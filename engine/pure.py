"""C10: what is reached through a read-only reference is left as it was."""
from memory import *

BY_DESIGN = ('erase', 'push_bool')     # documented as modifying although declared const


def first_change(D, st, oid, path='', d=0):
    """(where, how certain) of the first difference with the state at entry"""
    o = st.heap.get(oid)
    if o is None:
        return None
    if not o.alive:
        return (path or 'it', 'is destroyed', 'viol')
    unk = 'undec' if o.m.get('unk') or is_unk(o.m.get('origin', ())) else 'viol'
    i = o.m.get('init')
    if o.kind == 'gc':
        if i is None:
            return (path, 'is replaced by something not determined', 'undec')
        if o.f is not i and o.f != i:
            if o.f.get('tag') != i.get('tag'):
                return (path, 'its type is changed', unk)
            if is_unk(o.f.get('val') or ()):
                unk = 'undec'
            return (path, 'its value is changed', unk)
        v = o.f.get('val')
        if isinstance(v, tuple) and v and v[0] == 'P' and v[1][0] == 'c' and d < 12:
            return first_change(D, st, v[1][1], path, d + 1)
        return None
    if i is not None and o.f is not i and not D.same_fields(o.f, i):
        for k in sorted(set(o.f) | set(i)):
            if k != 'known' and o.f.get(k) != i.get(k):
                what = {'size': 'its number of elements is changed', 'upd': 'an element is changed', 'base': 'its elements are replaced',
                        'v': 'its value is changed'}.get(k, 'its %s is changed' % k)
                if k == 'upd' and all(u[0] == 'kidpt' for u in o.f[k][len(i[k]):] if True) and o.f[k][:len(i[k])] == i[k]:
                    # elements written back: they are examined below
                    continue
                if is_unk(o.f.get(k) or ()):
                    unk = 'undec'
                return (path, what, unk)
    if o.kind in ('vec', 'map') and d < 12:
        for (p, k), kid in list(st.kids.items()):
            if p == oid:
                r = first_change(D, st, kid, path + ' an element of', d + 1)
                if r:
                    return r
    return None


def readonly_params(fn):
    out = []
    for i, p in enumerate(fn.ps):
        pt = fn.types[p['t']]
        if pt.ref and pt.const and kind_of(pt.base) in ('gc', 'vec', 'map'):
            out.append(i)
        elif kind_of(pt.base) == 'ptr' and pt.pconst and kind_of(pointee(pt.base)) == 'gc':
            out.append(i)
    return out


def visit_c10(D, fn, tag, outs, this, objs):
    ro = []
    if fn.const and fn.n not in BY_DESIGN and this is not None:
        ro.append((this, 'the container'))
    for i in readonly_params(fn):
        if i in objs and objs[i] != this:
            ro.append((objs[i], 'argument %d' % (i + 1)))
    for o in outs:
        for oid, who in ro:
            r = first_change(D, o.st, oid)
            if r is None:
                D.ok('C10', 'unchanged')
            else:
                how = 'on return' if o.kind == 'ret' else 'when it throws'
                D.at_exit(o.st, 'C10', 'unchanged', '%s: in%s %s %s' % (how, r[0] and r[0] + '' or '', who, r[1]), r[2])


def check_C10():
    rep = Report('C10')
    prog = P_.extract()
    fns = [f for f in operations(prog) + helpers(prog) if f.const and f.n not in BY_DESIGN or readonly_params(f)]
    res = sweep_all(prog, visit_c10, None, fns, False, None, True)
    collect(rep, res, 'C10', ('unchanged',), {
        'unchanged': 'at every exit, normal or by an exception, type, size, values and nested elements are the terms they were at entry'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW, ASSUME + ['push_bool and erase are documented as modifying although declared const'])


def streams(fn):
    return [i for i, p in enumerate(fn.ps) if fn.types[p['t']].ref and not fn.types[p['t']].const and kind_of(fn.types[p['t']].base) == 'stream'
            and 'istream' not in fn.types[p['t']].base]


def visit_c24(D, fn, tag, outs, this, objs):
    for o in outs:
        if o.kind != 'ret':
            continue
        for i in streams(fn):
            if i not in objs or objs[i] not in o.st.heap:
                continue
            f = o.st.heap[objs[i]].f.get('fmt')
            if not f:
                D.ok('C24', 'restored')
                continue
            unk = is_unk(f)
            D.at_exit(o.st, 'C24', 'restored', 'on return the stream given as argument %d is left with %s' % (
                i + 1, ', '.join('%s = %s' % (k, v if not isinstance(v, tuple) else v[-1]) for k, v in f)), 'undec' if unk else 'viol')


def printers(prog):
    out = []
    for f in prog.fns.values():
        if f.body is None or f.d.get('implicit') or f.file.startswith('/') or '(lambda' in f.q or 'operator()' in f.q:
            continue
        if f.rec and f.rec != GC and not f.rec.startswith(NS + 'mat_type'):
            continue
        if streams(f):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l, f.usr))


def check_C24():
    rep = Report('C24')
    prog = P_.extract()
    fns = printers(prog)
    res = sweep_all(prog, visit_c24, None, fns, False)
    collect(rep, res, 'C24', ('restored',), {
        'restored': 'at every normal exit the base, float format, adjustment, flags, precision and fill of the stream are those found at entry'})
    rep.cov['operations'] = [f.sig().replace(NS, '') for f in fns]
    return rep.finish('other', HOW + ' The format of a stream is a record of its flags, precision, width and fill; manipulators and the member functions that change them are modelled.', ASSUME)
