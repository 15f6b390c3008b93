"""C12, C13: the C interface (path analysis over the extern "C" functions; state = selected handle, registry iterators, failure)."""
import os
from prog import *
from astq import *
import prog as PR
from report import Report
from flow import Flow, S
from simple import GC, NS, loc, ASSUME

# standard functions not declared noexcept that do not throw (with the default exception mask of the streams)
NOTHROW = ('std::operator<<', 'std::basic_ostream', 'std::basic_ios', 'std::ios_base', 'std::endl', 'std::flush')
NOTHROW_M = {'map': ('find', 'begin', 'end', 'size', 'empty', 'erase', 'lower_bound', 'upper_bound', 'count', 'clear', 'cbegin', 'cend'),
             'deque': ('back', 'front', 'pop_back', 'pop_front', 'size', 'empty', 'begin', 'end', 'operator[]', 'clear'),
             'vector': ('back', 'front', 'pop_back', 'size', 'empty', 'begin', 'end', 'operator[]', 'data', 'clear'),
             'unique_ptr': ('get', 'operator->', 'operator*', 'reset', 'release', 'operator bool'),
             'complex': ('real', 'imag', 'complex'), '_iterator': None, '_Rb_tree': None, 'basic_string': ('c_str', 'data', 'size', 'length', 'empty', 'begin', 'end'),
             'pair': None}
KNOWN_NEG = {'GC_get_type': -1}


def ext_nothrow(c):
    q = c['q']
    if c.get('nx'):
        return True
    if any(q.startswith(x) for x in NOTHROW):
        return True
    if not q.startswith('std::'):
        # C library functions do not throw
        return '::' not in q and not c.get('repo')
    for k, names in NOTHROW_M.items():
        if k in q:
            if names is None or c['n'] in names:
                return True
    if c['n'] in ('move', 'forward', 'get', 'swap', 'min', 'max', 'addressof', 'copy_n', 'copy', 'fill'):
        return True
    return False


class CFlow(Flow):
    """values: 'ACT' the selected handle, ('REG', it) the handle owned by the registry entry `it`, ('IT', v) registry iterators"""

    def __init__(self, an, fn, args=None, act=None):
        self.an, self.p = an, an.p
        self.args = args or {}
        self.act0 = act
        self.deref = []      # (node, state) uses of the handle while it may be null or dangling
        self.escapes = []    # may-throw calls outside any try
        self.leaks = []
        self.trydepth = 0
        self.stack = [fn.usr]
        Flow.__init__(self, fn, lambda n: None, lambda n: False, lambda n: False)

    def run(self):
        self.rets = []
        self.thrown = [[]]
        s = S()
        if self.act0 is not None:
            s = s.put('act', self.act0)
        for k, v in self.args.items():
            s = s.put(k, v)
        out = self.ex(self.fn.body, {s})
        for s in out['n']:
            self.rets.append((None, s, self.fn.d.get('le', self.fn.l)))
        return self.rets, self.thrown[0]

    def ex(self, n, ss):
        if n is not None and n.get('k') == 'CXXTryStmt':
            cov = any(h.get('all') for h in n['h'])
            self.thrown.append([])
            if cov:
                self.trydepth += 1
            body = self.ex(n['body'], ss)
            if cov:
                self.trydepth -= 1
            thrown = self.thrown.pop()
            entry = {s.fail('an exception') for s in thrown}
            for h in n['h']:
                r = self.ex(h['body'], set(entry))
                body = {x: body[x] | r[x] for x in body}
            if not cov:
                self.thrown[-1] += list(entry)
            return body
        return Flow.ex(self, n, ss)

    def is_active(self, n):
        return n.get('k') == 'DeclRefExpr' and n.get('usr') in self.an.active

    def is_reg(self, n):
        n = strip(n)
        return n is not None and n.get('k') == 'DeclRefExpr' and n.get('usr') in self.an.registry

    # refine the handle on a test
    def null_test(self, s):
        """[(state, is null)]"""
        a = s.get('act')
        if a == 'null':
            return [(s, True)]
        if a in ('valid', 'dang'):
            return [(s, False)]
        return [(s.put('act', 'null'), True), (s.put('act', 'valid'), False)]

    def cond(self, n, s):
        m = n
        while m is not None and m.get('k') in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr') and m.get('e') is not None:
            m = m['e']
        if m.get('k') == 'DeclRefExpr' and 'cv' not in m:
            v = 'ACT' if self.is_active(m) else s.get(m.get('id')) if 'id' in m else None
            if v == 'ACT':
                return [(s2, not b) for s2, b in self.null_test(s)]
            if isinstance(v, tuple):
                return [(s, True), (s, False)]
        if m.get('k') == 'BinaryOperator' and m['op'] in ('==', '!='):
            out = []
            for s2, a in self.ev(m['lhs'], s):
                for s3, b in self.ev(m['rhs'], s2):
                    eq = m['op'] == '=='
                    if a == 'ACT' and b in (0, 'NUL') or b == 'ACT' and a in (0, 'NUL'):
                        out += [(s4, z == eq) for s4, z in self.null_test(s3)]
                    elif 'ACT' in (a, b) and any(isinstance(x, tuple) and x[0] == 'REG' for x in (a, b)):
                        st = s3.get('act')
                        if st == 'null':
                            out.append((s3, not eq))
                        else:
                            out.append((s3.put('act', 'valid').put('rel', 'eq'), eq))
                            out.append((s3.put('rel', 'ne'), not eq))
                    elif a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, str) or isinstance(b, str):
                        out += self.nz(a, b, s3, eq)
                    else:
                        out.append((s3, (a == b) == eq))
            return out
        if m.get('k') == 'CXXOperatorCallExpr' and m['callee']['n'] in ('operator==', 'operator!=') and len(m['a']) == 2:
            out = []
            eq = m['callee']['n'] == 'operator=='
            for s2, a in self.ev(m['a'][0], s):
                for s3, b in self.ev(m['a'][1], s2):
                    it = None
                    for x, y in ((a, b), (b, a)):
                        if isinstance(x, tuple) and x[0] == 'IT' and y == ('END',):
                            it = x[1]
                    if it is not None:
                        out.append((s3.put(('it', it), 'end'), eq))
                        out.append((s3.put(('it', it), 'in'), not eq))
                    else:
                        out += [(s3, True), (s3, False)]
            return self.prune(out)
        return Flow.cond(self, n, s)

    def prune(self, out):
        return out

    def nz(self, a, b, s, eq):
        if 'nz' in (a, b) and 0 in (a, b):
            return [(s, not eq)]
        return [(s, True), (s, False)]

    def ev(self, n, s):
        if n is None:
            return [(s, None)]
        k = n['k']
        if k == 'LambdaExpr':
            i = self.an.siteno(n)
            self.an.lambdas[i] = n
            return [(s, ('LAM', i))]
        if k == 'DeclRefExpr':
            if self.is_active(n):
                return [(s, 'ACT')]
            if 'cv' in n:
                return Flow.ev(self, n, s)
            return [(s, s.get(n['id']) if 'id' in n else None)]
        if k in ('CXXNullPtrLiteralExpr', 'GNUNullExpr'):
            return [(s, 'NUL')]
        if k == 'ImplicitCastExpr' and n.get('ck') in ('NullToPointer',):
            return [(s, 'NUL')]
        if k == 'BinaryOperator' and n['op'] == '=' and self.is_active(strip(n['lhs'])):
            out = []
            for s2, v in self.ev(n['rhs'], s):
                out.append((self.assign_active(n, s2, v), 'ACT'))
            return out
        if k == 'MemberExpr':
            out = []
            for s2, v in self.ev(n['b'], s):
                if n.get('arrow') and v == 'ACT':
                    self.use(n, s2)
                if isinstance(v, tuple) and v[0] == 'IT':
                    if s2.get(('it', v[1])) != 'in':
                        self.baditer(n, s2, v)
                    out.append((s2, ('ENT', v[1]) if n['name'] == 'second' else None))
                    continue
                if isinstance(v, tuple) and v[0] == 'PAIRIT' and n['name'] == 'first':
                    out.append((s2, ('IT', v[1])))
                    continue
                out.append((s2, None))
            return out
        if k == 'UnaryOperator' and n['op'] == '*':
            out = []
            for s2, v in self.ev(n['e'], s):
                if v == 'ACT':
                    self.use(n, s2)
                out.append((s2, v if isinstance(v, tuple) and v[0] == 'IT' else None))
            return out
        if k == 'CXXNewExpr':
            if n.get('init') is not None:
                for s2, _ in self.ev(n['init'], s):
                    s = s2
            self.throwing(n, {'q': 'operator new', 'n': 'operator new'}, s)
            return [(s, ('NEW', n.get('l')))]
        if k == 'CXXDeleteExpr':
            out = []
            for s2, v in self.ev(n['e'], s):
                if isinstance(v, tuple) and v[0] in ('ENT', 'REG'):
                    s2 = s2.mark(('del', v[1]))
                    if s2.get('act') != 'null' and s2.get('rel') != 'ne':
                        s2 = s2.put('act', 'dang')
                elif v == 'ACT':
                    s2 = s2.put('act', 'dang').mark(('del', 'ACT'))
                out.append((s2, None))
            return out
        c = n.get('callee')
        if c is not None and (k.endswith('CallExpr') or k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')):
            return self.call(n, c, s)
        return Flow.ev(self, n, s)

    def assign_active(self, n, s, v):
        s = s.put('rel', None)
        if v in (0, 'NUL'):
            return s.put('act', 'null')
        if v == 'ACT':
            return s
        if isinstance(v, tuple):
            if v[0] in ('REG', 'ENT'):
                return s.put('act', 'valid').mark('done')
            if v[0] == 'NEW':
                return s.put('act', 'valid').mark(('own', v[1])).mark('done')
        return s.put('act', None)

    def use(self, n, s):
        st = s.get('act')
        if st != 'valid':
            self.deref.append((n, st))

    def baditer(self, n, s, v):
        if s.get(('it', v[1])) == 'end':
            self.deref.append((n, 'end'))

    def throwing(self, n, c, s):
        self.thrown[-1].append(s)
        if self.trydepth == 0:
            self.escapes.append((n, c))

    def call(self, n, c, s):
        obj = n.get('obj')
        opnds = list(n.get('a') or ())
        k = n['k']
        states = [(s, [])]
        if obj is not None:
            states = [(s2, [v]) for s2, v in self.ev(obj, s)]
        else:
            states = [(s, [])]
        for a in opnds:
            states = [(s3, vs + [v]) for s2, vs in states for s3, v in self.ev(a, s2)]
        if n.get('fn') is not None:
            for s2, vs in states:
                for s3, v in self.ev(n['fn'], s2):
                    pass
        out = []
        for s2, vs in states:
            out += self.apply(n, c, s2, vs, obj is not None)
        return out

    def apply(self, n, c, s, vs, member):
        q, nm = c['q'], c['n']
        recv = vs[0] if vs and (member or n['k'] == 'CXXOperatorCallExpr') else None
        if c.get('noret'):
            self.throwing(n, c, s)
            return []
        # calls through the handle
        if member and recv == 'ACT' and n.get('arrow', True):
            self.use(n, s)
            s = s.mark('done')
        if member and self.is_reg(n.get('obj')) or (n['k'] == 'CXXOperatorCallExpr' and n.get('a') and self.is_reg(n['a'][0])):
            return self.registry_op(n, c, s, vs)
        # functions of the C file, and lambdas, are analysed in place with the state of the caller
        f = self.p.fns.get(c['usr'])
        if isinstance(recv, tuple) and recv[0] == 'LAM' and nm == 'operator()':
            return self.call_lambda(recv, n, c, s, vs[1:])
        if q == 'std::invoke' and vs and isinstance(vs[0], tuple) and vs[0][0] == 'LAM':
            return self.call_lambda(vs[0], n, c, s, vs[1:])
        lams = [v for v in vs if isinstance(v, tuple) and v[0] == 'LAM']
        if f is not None and f.body is not None and f.usr not in self.stack and len(self.stack) < 12 and (f.file == self.an.file and not c.get('m') or lams):
            return self.inline(f, s, vs[1:] if member else vs)
        if lams and n['k'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and q not in ('std::move', 'std::forward'):
            # an algorithm calls it any number of times
            if self.an.throws(c):
                self.throwing(n, c, s)
            cur = {s}
            for _ in range(3):
                nx = set(cur)
                for s2 in cur:
                    for v in lams:
                        nx |= {s3 for s3, _ in self.call_lambda(v, n, c, s2, [])}
                if nx == cur:
                    break
                cur = nx
            return [(s2, None) for s2 in cur]
        if f is not None and f.body is not None and f.file == self.an.file and not c.get('m'):
            args = {}
            a = vs
            for prm, v in zip(f.ps, a):
                if v is not None and v != 'ACT':
                    args[prm['id']] = v
                elif v == 'ACT':
                    args[prm['id']] = 'ACT'
            rets, thrown, derefs, esc = self.an.summary(f, args, s.get('act'))
            self.deref += [x for x in derefs if x not in self.deref]
            if thrown:
                self.throwing(n, c, s)
            out = []
            for v, t in rets:
                s2 = s.put('act', t[0])
                if t[1]:
                    s2 = s2.mark('done')
                if t[2]:
                    s2 = s2.fail('a call of %s' % nm)
                out.append((s2, v))
            return out
        thr = self.an.throws(c)
        if thr:
            self.throwing(n, c, s)
        if nm == 'operator=' and n['k'] == 'CXXOperatorCallExpr' and len(vs) == 2:
            l = strip(n['a'][0])
            if l is not None and l.get('k') == 'DeclRefExpr' and 'id' in l and (isinstance(vs[1], tuple) or isinstance(vs[0], tuple) and vs[0][0] == 'IT'):
                return [(s.put(l['id'], vs[1]), vs[1])]
        # locals passed by reference become unknown
        s = self.byref(n, s)
        if member or n['k'] == 'CXXOperatorCallExpr':
            if isinstance(recv, tuple) and recv[0] == 'ENT':
                if nm == 'get' or nm in ('operator->',):
                    return [(s, ('REG', recv[1]))]
                if nm in ('reset', 'operator=') and not c.get('const'):
                    if s.get('act') != 'null' and s.get('rel') != 'ne':
                        s = s.put('act', 'dang')
                    return [(s, None)]
                if nm == 'release':
                    self.leaks.append((n, 'the handle is released from its owner'))
                    return [(s, ('REG', recv[1]))]
                if nm == 'operator*':
                    return [(s, ('ENT', recv[1]))]
            if isinstance(recv, tuple) and recv[0] == 'IT' and nm in ('operator->', 'operator*'):
                return [(s, recv)]
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(vs) == 1 and isinstance(vs[0], tuple):
            return [(s, vs[0])]
        if q in ('std::move', 'std::forward', 'std::addressof') and vs:
            return [(s, vs[0])]
        if f is not None and f.body is not None and f.file == self.an.file and c.get('rec', '').endswith('Explorer') and c.get('const') is None:
            pass
        if c.get('repo') or q.startswith('std::'):
            t = self.fn.types[n['t']] if 't' in n else None
            s = s.mark('done') if member and c.get('repo') else s
        return [(s, None)]

    def call_lambda(self, v, n, c, s, args):
        lam = self.an.lambdas[v[1]]
        us = [lam.get('usr')] if lam.get('usr') else list(lam.get('inst') or ())
        if n['k'] == 'CXXOperatorCallExpr' and c['usr'] in us:
            us = [c['usr']]
        f = self.p.fns.get(us[0]) if us else None
        if f is None or f.body is None or f.usr in self.stack or len(self.stack) >= 12:
            self.throwing(n, c, s)
            return [(s.put('act', None), None)]
        return self.inline(f, s, args)

    def inline(self, f, s, vs):
        keep = self.fn, self.rets
        self.fn, self.rets = f, []
        self.stack.append(f.usr)
        for i, prm in enumerate(f.ps):
            s = s.put(prm['id'], vs[i] if i < len(vs) else None)
        out = self.ex(f.body, {s})
        res = [(s2, None) for s2 in out['n']] + [(s2, v) for v, s2, _ in self.rets]
        self.stack.pop()
        self.fn, self.rets = keep
        seen, ret = set(), []
        for s2, v in res:
            for prm in f.ps:
                s2 = s2.put(prm['id'], None)
            if (s2, repr(v)) not in seen:
                seen.add((s2, repr(v)))
                ret.append((s2, v))
        return ret

    def registry_op(self, n, c, s, vs):
        nm = c['n']
        site = '%s.%s' % (n.get('l'), self.an.siteno(n))
        s = s.mark('done')
        args = vs[1:]
        if self.an.throws(c):
            self.throwing(n, c, s)
        if nm in ('find', 'lower_bound'):
            # found or not; after an insertion of the same key it is found
            if 'inserted' in s.lat and nm == 'find':
                return [(s.put(('it', site), 'in'), ('IT', site))]
            return [(s.put(('it', site), None), ('IT', site))]
        if nm in ('end', 'cend'):
            return [(s, ('END',))]
        if nm in ('begin', 'cbegin'):
            return [(s.put(('it', site), None), ('IT', site))]
        if nm in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
            if nm == 'insert_or_assign':
                s = self.killed(s)
            own = {x[1] for x in args if isinstance(x, tuple) and x[0] == 'NEW'}
            return [(s.mark('inserted').put(('it', site), 'in'), ('PAIRIT', site))]
        if nm in ('operator[]', 'at'):
            return [(s.mark('inserted').put(('it', site), 'in'), ('ENT', site))]
        if nm in ('erase', 'clear', 'extract', 'swap', 'operator='):
            s = s.mark('inserted', False)
            if not self.an.owning and not any(isinstance(x, tuple) and x[0] == 'del' for x in s.lat):
                self.leaks.append((n, 'the entry is removed but the handle it points to is not deleted'))
            it = args[0] if args else None
            return [(self.killed(s), None)]
        if nm in ('size', 'empty', 'count', 'contains'):
            return [(s, None)]
        return [(s, None)]

    def killed(self, s):
        """an entry of the registry ends: the selected handle may be that one"""
        if s.get('act') == 'null':
            return s
        if s.get('rel') == 'ne':
            return s
        return s.put('act', 'dang')


class Analysis:
    def __init__(self, p, file):
        self.p, self.file = p, file
        self.memo = {}
        self.tmemo = {}
        self.active, self.registry = {}, {}
        self.sites = {}
        self.lambdas = {}
        self.owning = True
        for u, g in p.globals.items():
            t = g['_types'][g['t']]
            if g.get('file', file) != file and g.get('file'):
                continue
            s = t.s
            if 'Explorer' in s and t.base.endswith('*'):
                self.active[u] = g
            elif 'Explorer' in s and 'map<' in s:
                self.registry[u] = g
                if 'unique_ptr' not in s and 'shared_ptr' not in s and 'Explorer *' in s:
                    self.owning = False
        if len(self.active) != 1 or len(self.registry) != 1:
            raise AnalysisError('the selected handle and the registry of the C interface are not found (%d, %d)' % (len(self.active), len(self.registry)))

    def siteno(self, n):
        return self.sites.setdefault(id(n), len(self.sites))

    def throws(self, c, depth=0):
        if c.get('nx'):
            return False
        if c.get('noret'):
            return True
        u = c['usr']
        f = self.p.fns.get(u)
        if f is None or f.body is None:
            return not ext_nothrow(c)
        if f.nx:
            return False
        if u in self.tmemo:
            return self.tmemo[u]
        self.tmemo[u] = False
        r = self.body_throws(f, depth)
        self.tmemo[u] = r
        return r

    def body_throws(self, f, depth):
        if depth > 40:
            return True
        def go(n, covered):
            if n.get('k') == 'CXXTryStmt':
                cov = covered or any(h.get('all') for h in n['h'])
                if go(n['body'], cov):
                    return True
                return any(go(h['body'], covered) for h in n['h'] if h.get('body'))
            if not covered:
                if n.get('k') == 'CXXThrowExpr':
                    return True
                if n.get('k') == 'CXXNewExpr' and not n.get('nothrow') and not n.get('place'):
                    return True
                c = n.get('callee')
                if c and n.get('k') != 'LambdaExpr' and self.throws(c, depth + 1):
                    return True
            if n.get('k') == 'LambdaExpr':
                return False
            return any(go(x, covered) for _, x in kids(n) if 'k' in x or True)
        return any(go(b, False) for b in bodies(f))

    def summary(self, f, args, act):
        key = (f.usr, tuple(sorted((str(k), str(v)) for k, v in args.items())), act)
        if key in self.memo:
            m = self.memo[key]
            return m if m is not None else ([(None, (None, True, False))], True, [], [])
        self.memo[key] = None
        fl = CFlow(self, f, args, act)
        rets, thrown = fl.run()
        rs = []
        for v, s, l in rets:
            x = (v, (s.get('act'), 'done' in s.lat, s.failed))
            if x not in rs:
                rs.append(x)
        m = (rs, bool(thrown), fl.deref, fl.escapes)
        self.memo[key] = m
        return m


def is_status(f):
    return f.rt.cls == 'int' and not f.n.startswith('GC_get_')


def setup():
    p = PR.extract()
    file = 'src/GenericContainerInterface_C.cc'
    an = Analysis(p, file)
    fns = sorted([f for f in p.fns.values() if f.d.get('externC') and f.body is not None and f.file == file], key=lambda f: f.l)
    return p, an, fns


def check_C12():
    r = Report('C12')
    p, an, fns = setup()
    run12(p, an, fns, r, 60)
    selftest('C12', run12)
    return r.finish('other', 'Path analysis of every extern "C" function (finite state: selected handle null/valid/dangling, registry iterators, failure, operation '
                    'performed), helper functions of the file analysed in the state of their caller, plus an exception-escape analysis over the call graph.',
                    ASSUME + ['output streams have their default exception mask', 'pointers given by the C caller are valid',
                              'whether the right container operation was called is decided by the type checker and by C04/C09'])


def run12(p, an, fns, r, least):
    r.rule('no-escape', 'no call that may throw is made outside a handler that catches everything', least)
    r.rule('handle-checked', 'the selected handle is used only where it is known to exist', least)
    r.rule('error-code', 'after an exception a status function returns a non-zero code, a value function a zero, null or reserved value', least)
    r.rule('zero-means-done', 'a status function returns zero only on paths which performed an operation on a container', 20 if least else 0)
    nst = 0
    for f in fns:
        fl = CFlow(an, f)
        rets, thrown = fl.run()
        nst += fl.steps
        w = loc(f, {'l': f.l})
        esc = {}
        for n, c in fl.escapes:
            esc.setdefault(n.get('l'), c)
        for l, c in sorted(esc.items()):
            r.bad('no-escape', loc(f, {'l': l}), 'an exception thrown by %s leaves the C interface' % c['q'])
        if not esc:
            r.ok('no-escape', sample=w)
        d = {(n.get('l'), st) for n, st in fl.deref}
        for l, st in sorted(d, key=str):
            r.bad('handle-checked', loc(f, {'l': l}), 'the selected handle is used although %s' % (
                {'null': 'it is null', None: 'it may be null', 'dang': 'it may have been deleted', 'end': 'the name was not found'}[st]))
        if not d:
            r.ok('handle-checked', sample=w)
        be, bz = set(), set()
        for v, s, l in rets:
            if s.failed:
                if is_status(f):
                    if v == 0:
                        be.add((l, 'returns zero (success) after %s' % s.why))
                elif isinstance(v, int) and v != 0 and KNOWN_NEG.get(f.n) != v:
                    be.add((l, 'returns the value %s after %s' % (v, s.why)))
            elif is_status(f) and v == 0 and 'done' not in s.lat:
                bz.add((l, 'returns zero although nothing was done%s' % (' (no container is selected)' if s.get('act') == 'null' else '')))
            elif not is_status(f) and s.get('act') == 'null' and isinstance(v, int) and v != 0 and KNOWN_NEG.get(f.n) != v:
                be.add((l, 'returns the value %s when no container is selected' % v))
        for l, m in sorted(be):
            r.bad('error-code', loc(f, {'l': l}), m)
        if not be:
            r.ok('error-code', sample=w)
        if is_status(f):
            for l, m in sorted(bz):
                r.bad('zero-means-done', loc(f, {'l': l}), m)
            if not bz:
                r.ok('zero-means-done', sample=w)
    r.cov['functions_analysed'] = len(fns)
    r.cov['abstract_steps'] = nst


def run13(p, an, fns, r, least):
    r.rule('handle-alive', 'at every exit of a C function the selected handle is null or an entry of the registry', least)
    r.rule('handle-checked', 'a deleted handle, or the entry of a name that was not found, is never used', least)
    r.rule('owned-once', 'removing a name from the registry deletes its container exactly once', 1)
    for f in fns:
        fl = CFlow(an, f)
        rets, thrown = fl.run()
        bad = set()
        for v, s, l in rets:
            if s.get('act') == 'dang':
                bad.add(l)
        if any(s.get('act') == 'dang' for s in thrown):
            bad.add(f.l)
        for l in sorted(bad):
            r.bad('handle-alive', loc(f, {'l': l}), 'returns while the selected handle may be the one just deleted')
        if not bad:
            r.ok('handle-alive', sample=loc(f, {'l': f.l}))
        d = {(n.get('l'), st) for n, st in fl.deref if True}
        for l, st in sorted(d, key=str):
            r.bad('handle-checked', loc(f, {'l': l}), 'uses %s' % {'dang': 'the deleted handle', 'end': 'the entry of a name that was not found', 'null': 'the selected handle although it is null'}.get(st, 'the selected handle, which is null after a deletion'))
        if not d:
            r.ok('handle-checked')
        for n, m in fl.leaks:
            r.bad('owned-once', loc(f, n), m)
        own = {x for v, s, l in rets for x in s.lat if isinstance(x, tuple) and x[0] == 'own'}
        for x in own:
            r.bad('owned-once', loc(f, {'l': x[1]}), 'a new handle is selected without being owned by the registry')
        dele = {x for v, s, l in rets for x in s.lat if isinstance(x, tuple) and x[0] == 'del'}
        if dele and an.owning:
            r.bad('owned-once', loc(f, {'l': f.l}), 'a handle owned by the registry is deleted by hand')
        if not own and not dele and not fl.leaks:
            r.ok('owned-once')
    r.cov['functions_analysed'] = len(fns)
    r.cov['registry_owns_its_entries'] = an.owning


def check_C13():
    r = Report('C13')
    p, an, fns = setup()
    run13(p, an, fns, r, 60)
    selftest('C13', run13)
    return r.finish('other', 'Typestate analysis of the selected handle (null / alive and registered / deleted) and of registry iterators over every path of every '
                    'extern "C" function; the registry type must own its entries.', ASSUME)


def selftest(prop, run):
    fx = PR.extract(fixture=os.path.join(PR.VERIF, 'fixtures', 'capi.cc'))
    an = Analysis(fx, 'capi.cc')
    t = Report(prop)
    fns = [f for f in fx.fns.values() if f.d.get('externC') and f.body is not None]
    run(fx, an, fns, t, 0)
    got = {w.split(' in ')[1].split('::')[-1] for w, _, _ in t.viol}
    want = {f.n for f in fns if f.n.startswith('GC_bad') and prop in f.n} | {f.n for f in fns if f.n.startswith('GC_get_bad') and prop in f.n}
    if got != want:
        raise AnalysisError('self test of the rules failed: expected %s, got %s' % (sorted(want), sorted(got)))
