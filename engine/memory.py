"""C01, C02, C03: payload typestate, ownership, validity after exceptions."""
import prog as P_
from report import Report
from sweep import *

THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
QUICK_TYPES = ('NOTYPE', 'STRING', 'VECTOR', 'MAP')
# calls replaced by the summary; the operations themselves are analysed on their own for every stored type
MODULAR = ('collapse',)
MODULAR_ELEM = ('get_number', 'get_number_at', 'get_complex_number', 'get_complex_number_at', 'get_value', 'get_as_int', 'get_as_uint', 'get_as_long',
                'get_as_ulong') + tuple('copyto_vec_' + t for t in ('int', 'uint', 'long', 'ulong', 'real', 'complex'))
HEAVY = ('readFormattedData', 'readFormattedData2')


def operations(prog):
    """public operations of the container with a body"""
    out = []
    for f in prog.fns.values():
        if f.rec != GC or f.body is None or f.d.get('implicit'):
            continue
        if f.d.get('access', 0) != 0:
            continue
        if f.n in HEAVY:
            continue
        out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l, f.usr))


def helpers(prog):
    """functions of the library that receive a container"""
    out = []
    for f in prog.fns.values():
        if f.rec == GC or f.body is None or f.d.get('implicit') or f.file.startswith('/') or '(lambda' in f.q or 'operator()' in f.q:
            continue
        if f.d.get('externC') or f.rec:
            continue
        if any(f.types[p['t']].ref and f.types[p['t']].base == GC for p in f.ps):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l, f.usr))


def alias_cases(D, fn):
    """[(tag, setup, label)]: the argument is the container itself, an element of it, or its payload"""
    out = []
    if fn.rec != GC or fn.static or fn.d.get('ctor'):
        return out
    for i, p in enumerate(fn.ps):
        pt = fn.types[p['t']]
        b = pt.base
        nm = ' with argument %d ' % (i + 1)
        if pt.ref and b == GC:
            for tag in sorted(D.alltags):
                out.append((tag, alias_setup(D, i, 'self', tag), nm + 'being the container itself'))
            for tn in ('VECTOR', 'MAP'):
                if tn in D.tagval:
                    out.append((D.tagval[tn], alias_setup(D, i, 'elem', D.tagval[tn]), nm + 'an element of the container'))
            continue
        for tn, mem in D.tagmem.items():
            if mem is None or mem not in D.mem_type:
                continue
            mt = D.mem_type[mem]
            if kind_of(mt) != 'ptr' or mt == 'void *':
                continue
            pe = pointee(mt)
            if pt.ref and (pt.const or not fn.const) and b == pe:
                out.append((D.tagval[tn], alias_setup(D, i, 'payload', D.tagval[tn]), nm + 'the stored value of the container'))
                for tv in ('VECTOR', 'MAP'):
                    if tv in D.tagval:
                        out.append((D.tagval[tv], alias_setup(D, i, 'epayload', D.tagval[tv], D.tagval[tn]), nm + 'the stored value of an element (%s)' % tn))
            elif kind_of(b) == 'sv' and kind_of(pe) == 'str':
                for tv in ('VECTOR', 'MAP'):
                    if tv in D.tagval:
                        out.append((D.tagval[tv], alias_setup(D, i, 'eview', D.tagval[tv], D.tagval[tn]), nm + 'a view of the text of an element'))
                out.append((D.tagval[tn], alias_setup(D, i, 'view', D.tagval[tn]), nm + 'a view of the stored text'))
    return out


def alias_setup(D, i, how, tag, etag=None):
    def f(st, this, ops, objs):
        if how == 'self':
            ops[i] = ('L', ('c', this))
            objs[i] = this
            return this, ops, objs
        pid = st.heap[this].f['val'][1][1]
        if how == 'payload':
            ops[i] = ('L', ('c', pid))
            objs[i] = pid
            return this, ops, objs
        if how == 'view':
            term = ('A', 'ownview', i)
            D.view_owner[term] = (pid, st.heap[pid].f['v'])
            ops[i] = term
            return this, ops, objs
        if i in objs and how == 'elem':
            st.heap.pop(objs[i], None)
        if D.tagname.get(tag) == 'VECTOR':
            idx = from_atom(('arg', 'idx', i))
            D.rng.setdefault(idx.t[0][0][0], (0, (1 << 31) - 1))
            D.assume(st, sub(sub(st.heap[pid].f['size'], idx), 1))
            kid = D.kid(st, pid, idx)
        else:
            key = ('A', 'ownkey', i)
            m = st.heap[pid]
            D.assume(st, sub(m.f['size'], 1))
            st.heap[pid] = m.set(known=m.f['known'] + ((key, True),))
            kid = D.kid(st, pid, ('at', key))
        if etag is not None:
            D.concretise(st, kid, etag)
            pid = st.heap[kid].f['val'][1][1]
            if how == 'eview':
                term = ('A', 'ownview', i)
                D.view_owner[term] = (pid, st.heap[pid].f['v'])
                ops[i] = term
            else:
                ops[i] = ('L', ('c', pid))
                objs[i] = pid
            return this, ops, objs
        ops[i] = ('L', ('c', kid))
        objs[i] = kid
        return this, ops, objs
    return f


def reads_stream(fn):
    """reads text from a stream or a file: what was stored before is given up at once"""
    if 'basic_istream' in fn.sig() or 'basic_ifstream' in fn.sig():
        return True
    st = [fn.body]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st += x
        elif isinstance(x, dict):
            if x.get('k') == 'DeclStmt' and any('ifstream' in fn.types[d['t']].base for d in x['d'] if 't' in d):
                return True
            st += [v for v in x.values() if isinstance(v, (dict, list))]
    return False


def tags_for(D, fn):
    if fn.rec != GC or fn.static or fn.d.get('ctor'):
        return [None]
    ts = sorted(D.alltags)
    if not THOROUGH and reads_stream(fn):
        ts = [t for t in ts if D.tagname[t] in QUICK_TYPES]
    return ts


def typed_arg(D, i, tag):
    def f(st, this, ops, objs):
        D.concretise(st, objs[i], tag)
    return f


SIZES = ((1, 1, 1), (2, 1, 2), (3, 2, 2))     # elements, rows, columns


def short_setup(D, full, given):
    def f(st, this, ops, objs):
        r = given(st, this, ops, objs) if given else None
        if r is not None:
            this, ops, objs = r
        D.unfold = 6
        mine = D.payload(st, this)[1] if this is not None and len(full) > 3 else None
        mine = mine[1] if isinstance(mine, tuple) and mine[:1] == ('O',) else None
        for oid, o in list(st.heap.items()):
            if o.kind not in ('vec', 'map') or not isinstance(o.f['size'], Lin):
                continue
            g = dict(o.f)
            n = full if len(full) == 3 else full[:3] if oid == mine else full[3:]
            if 'm_num_rows' in g:
                g.update(m_num_rows=n[1], m_num_cols=n[2], size=n[1] * n[2])
            else:
                g['size'] = n[0] if o.kind == 'vec' else min(n[0], 3 if n[0] > 3 else 2)
            m = dict(o.m)
            if m.get('init') is not None:
                m['init'] = g
            st.heap[oid] = Obj(o.kind, g, o.t, o.alive, m)
        return r
    return f


def short_cases(D, fn, cases, sizes=SIZES):
    """the same cases with sequences of a known small length, where loops are followed pass by pass"""
    vecs = [p for p in fn.ps if fn.types[p['t']].ref and kind_of(fn.types[p['t']].base) in ('vec', 'map')]
    out = []
    for f, tag, setup, label in cases:
        mem = D.tagmem.get(D.tagname.get(tag))
        mt = D.mem_type.get(mem, '') if mem else ''
        seq = kind_of(mt) == 'ptr' and kind_of(pointee(mt)) in ('vec', 'map')
        if not (seq or vecs or setup):
            continue
        for n in sizes:
            out.append((f, tag, short_setup(D, n, setup), label + (' of %d elements' % n[0] if len(n) == 3 else ' of %d elements and %d elements' % (n[0], n[3]))))
    return out


def case_list(D, fn, alias, short=False, given=None):
    c = given(D, fn) if given else case_list_(D, fn, alias)
    return c + short_cases(D, fn, c, SIZES if short is True else short) if short else c


def case_list_(D, fn, alias):
    c = [(fn, t, None, '') for t in tags_for(D, fn)]
    if fn.rec != GC:
        for i, p in enumerate(fn.ps):
            pt = fn.types[p['t']]
            if pt.ref and pt.base == GC:
                ts = sorted(D.alltags)
                if not THOROUGH and 'lua' in fn.file:
                    ts = [t for t in ts if D.tagname[t] in QUICK_TYPES]
                c = [(fn, None, typed_arg(D, i, t), 'argument %d holding %s' % (i + 1, D.tagname[t])) for t in ts]
                break
    if alias:
        c += [(fn, t, s, l) for t, s, l in alias_cases(D, fn)]
    return c


def collect(rep, results, prop, kinds, texts):
    """events of the workers become obligations of the report"""
    tot, fails = {}, {}
    for r in results:
        if isinstance(r, tuple):
            rep.skip('analysis', 'worker failed: ' + r[1].strip().splitlines()[-1])
            if os.environ.get('GC_DEBUG'):
                print(r[1])
            continue
        for k, v in r.counts.items():
            tot[k] = tot.get(k, 0) + v
        for k, v in r.fail.items():
            fails[k] = fails.get(k, 0) + v
    for k in kinds:
        rep.rule(k, texts.get(k, ''))
        n = tot.get('event.%s.%s.ok' % (prop, k), 0)
        if n:
            rep.ok(k, n)
    seen = {}
    for r in results:
        if isinstance(r, tuple):
            continue
        for e in r.events:
            if e.prop != prop or e.kind not in kinds:
                continue
            key = (e.kind, e.file, e.line, e.verdict, e.msg if e.verdict == 'viol' else '')
            seen.setdefault(key, []).append(e)
    for (kind, f, l, v, _), es in sorted(seen.items(), key=lambda x: x[0][:3]):
        e = es[0]
        types = sorted({x.ctx for x in es if x.ctx})
        if v == 'viol':
            rep.bad(kind, '%s:%s' % (f, l), '%s: %s [stored type: %s] path: %s' % (
                e.fn.replace(NS, ''), e.msg, ', '.join(types)[:200], ' < '.join(e.stack)))
        else:
            rep.skip(kind, '%s:%s %s' % (f, l, e.msg[:160]))
    for k, n in fails.items():
        rep.skip('analysis', k)
    rep.cov['calls_analysed'] = tot.get('calls', 0)
    rep.cov['loops_analysed'] = tot.get('loops', 0)
    rep.cov['exits_examined'] = sum(r.outs for r in results if not isinstance(r, tuple))
    return tot


def weight(fn):
    w = getattr(fn, '_weight', None)
    if w is None:
        def cnt(x):
            if isinstance(x, dict):
                return 1 + sum(cnt(v) for v in x.values())
            if isinstance(x, list):
                return sum(cnt(v) for v in x)
            return 0
        w = fn._weight = cnt(fn.body)
    return w


def sweep_all(prog, visit, init, fns, alias=True, cls=None, short=False, cases=None):
    """one worker job per operation and slice of the cases, the largest first"""
    D = (cls or Exits)(prog)
    items = []
    for fn in fns:
        n = len(case_list(D, fn, alias, short, cases))
        k = 8 if weight(fn) > 1500 else 4
        for i in range(min(k, n)):
            items.append((fn, i, min(k, n)))
    first = {fn.usr: not reads_stream(fn) for fn in fns}
    items.sort(key=lambda x: (first[x[0].usr], -weight(x[0]), x[0].usr, x[1]))
    return parallel(lambda it: job_alias(prog, it, visit, init, alias, cls, short, cases), items)


def job_alias(prog, item, visit, init, alias, cls=None, short=False, given=None):
    fn, i, k = item
    D = (cls or Exits)(prog)
    D.merging = fn.rec != GC
    D.merge_deep = not reads_stream(fn)
    D.modular_elem = MODULAR_ELEM
    D.modular = MODULAR + (tuple('get_vec_' + t for t in ('int', 'long', 'real', 'complex')) + ('get_line_and_skip_comments2',) if reads_stream(fn) else ())
    # the set-ups refer to the engine that runs them
    cases = case_list(D, fn, alias, short, given)[i::k]
    return job(prog, lambda p: D, cases, visit, init)


def visit_c01(D, fn, tag, outs, this, objs):
    for o in outs:
        if o.kind == 'ret':
            D.consistent(o, 'C01', 'on return')


def visit_c02(D, fn, tag, outs, this, objs):
    for o in outs:
        if o.exc is not None and o.exc.oom:
            continue
        D.leaks(o, 'C02', 'on return' if o.kind == 'ret' else 'after an exception')


def visit_c03(D, fn, tag, outs, this, objs):
    for o in outs:
        if o.kind != 'exc':
            continue
        how = 'after %s' % ('a failed allocation' if o.exc.oom else 'an exception')
        if o.exc.where:
            how += ' at %s:%s' % tuple(o.exc.where)
        D.consistent(o, 'C03', how)


HOW = ('Abstract interpretation of the resolved program. The state records, per container, the type tag, the union member last stored '
       'and the payload object; per payload, its size and contents as value numbers; between integers, linear inequalities closed under '
       'projection; branches partition the states, loops are generalised to an inductive state (fixpoint), calls to code of the library are '
       'entered, recursive calls and calls to external code are replaced by a summary. Every public operation and every function of the '
       'library that receives a container is analysed once per stored type, and once more per way an argument can alias the container. '
       'A state on which a value is not determined is reported as not decided, never as a violation.')
ASSUME = ['standard library containers, strings and streams behave as documented (models in engine/models.py)',
          'the header-only parsers and Lua do not touch the container except through its operations',
          'sizes and counts of stored sequences fit in 31 bits',
          'functions listed under not_decided are not covered']


def check_C01():
    rep = Report('C01')
    prog = P_.extract()
    fns = operations(prog) + helpers(prog)
    res = sweep_all(prog, visit_c01, None, fns, True)
    collect(rep, res, 'C01', ('union', 'agree', 'owner'), {
        'union': 'the storage is accessed as the member that was last stored',
        'agree': 'reported type and payload agree at every normal exit for every reachable container',
        'owner': 'no payload is owned by two containers at exit'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW, ASSUME)


def check_C02():
    rep = Report('C02')
    prog = P_.extract()
    fns = operations(prog) + helpers(prog)
    res = sweep_all(prog, visit_c02, None, fns, True)
    collect(rep, res, 'C02', ('release', 'double-release', 'use-after-release', 'use-after-change', 'bad-release', 'leak'), {
        'release': 'a release meets a live heap object',
        'double-release': 'no object is released twice',
        'use-after-release': 'no object is accessed after its release',
        'use-after-change': 'no reference or view into a sequence is used after the elements moved',
        'bad-release': 'only heap objects are released, with their own type',
        'leak': 'every heap object is owned by something reachable when the operation ends'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW, ASSUME)


def check_C03():
    rep = Report('C03')
    prog = P_.extract()
    fns = operations(prog) + helpers(prog)
    def init(D):
        D.oom = True
    res = sweep_all(prog, visit_c03, init, fns, True)
    collect(rep, res, 'C03', ('agree', 'owner'), {
        'agree': 'reported type and payload agree wherever an exception leaves the operation (errors raised, checked accesses, every allocation)',
        'owner': 'no payload is owned by two containers when an exception leaves'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW + ' Every allocation (new, growth of a sequence, string or map) has a failing successor.', ASSUME)
