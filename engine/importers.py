"""C18: text importers report every failure (path analysis of failure reporting, engine/flow.py)."""
import os
from prog import *
from astq import *
import prog as PR
from report import Report
from flow import Flow, S
from simple import GC, NS, loc, ASSUME

ROOTS = ('from_json', 'from_json2', 'from_yaml', 'from_toml')
HDR = ('JSON_to_GC', 'file_JSON_to_GC', 'YAML_to_GC', 'file_YAML_to_GC', 'TOML_to_GC', 'file_TOML_to_GC')
# importers whose parser accepts the empty text: an unreadable stream must be noticed before
EMPTY_OK = ('from_toml',)


def is_gc(t):
    return t.base == GC or t.base == NS + 'GenericContainer'


def fallible_fns(p, pred):
    """functions of the importers that return a success flag and fill a container"""
    out = set()
    for u in pred:
        f = p.fns[u]
        if f.rt.cls != 'bool' or f.body is None:
            continue
        if f.rec == GC and not f.const and f.n.startswith('from_'):
            out.add(u)
        elif f.rec != GC and any(is_gc(t) and t.ref and not t.const for t in f.ptypes()):
            out.add(u)
    return out


class ImpFlow(Flow):
    def __init__(self, fn, p, fall, may):
        self.p, self.fall, self.may = p, fall, may
        self.dest = set(x['id'] for x, t in zip(fn.ps, fn.ptypes()) if is_gc(t) and t.ref and not t.const)
        self.thisdest = fn.rec == GC and not fn.static and not fn.const
        Flow.__init__(self, fn, self.cls, self.tch, self.mt)

    def cls(self, n):
        c = n.get('callee')
        if c and c['usr'] in self.fall:
            return ('bool', 0)
        if c and c['q'] in ('yy::parser::operator()', 'yy::parser::parse'):
            return ('int0',)
        return None

    def isdest(self, e):
        e = strip(e)
        while e is not None and e.get('k') == 'UnaryOperator' and e.get('op') in ('*', '&'):
            e = strip(e['e'])
        if e is None:
            return False
        if e.get('k') == 'CXXThisExpr':
            return self.thisdest
        return e.get('k') == 'DeclRefExpr' and e.get('id') in self.dest

    def tch(self, n):
        c = n.get('callee')
        if not c:
            return False
        if n['k'] == 'CXXMemberCallExpr':
            if self.isdest(n.get('obj')) and not c.get('const'):
                return True
        args = n.get('a') or []
        pts = c.get('pt') or []
        off = 0
        if n['k'] == 'CXXOperatorCallExpr' and c.get('m'):
            off = 1
            if args and self.isdest(args[0]) and not c.get('const'):
                return True
        for a, t in zip(args[off:], pts):
            T = self.fn.types[t]
            if self.isdest(a) and (T.ref and not T.const or T.base.endswith('*')):
                return True
        return False

    def mt(self, n):
        c = n.get('callee')
        if c is None:
            return True
        return not c.get('nx')

    def special(self, n, s):
        c = n.get('callee')
        if c is None:
            return None
        q, nm = c['q'], c['n']
        if 'rapidjson' in q and nm.startswith('Parse') and c.get('m'):
            return [(s, None), (s.fail('the text has a syntax error').mark('parse'), None)]
        if 'rapidjson' in q and nm == 'HasParseError':
            return [(s, 1 if 'parse' in s.lat else 0)]
        if 'rapidjson' in q and nm == 'GetParseError':
            return [(s, 'nz' if 'parse' in s.lat else 0)]
        t = self.fn.types[n['t']].s if 't' in n else ''
        if n['k'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and 'basic_ifstream' in t + q and (n.get('a') or nm != 'basic_ifstream'):
            if len(n.get('a') or ()) >= 1:
                return [(s, None), (s.mark('unread'), None)]
        if nm in ('fail', 'operator!', 'bad') and 'std::' in q:
            return self.stream_test(s, True)
        if nm in ('is_open', 'good', 'operator bool') and 'std::' in q:
            return self.stream_test(s, False)
        return None

    def stream_test(self, s, v):
        if 'unread' in s.lat:
            return [(s.fail('the stream cannot be read').mark('tested'), int(v))]
        if self.fn.n in EMPTY_OK and 'tested' not in s.lat:
            return [(s.mark('tested'), int(not v)), (s.mark('tested').fail('the stream cannot be read'), int(v))]
        return [(s.mark('tested'), int(not v)), (s.mark('tested').fail('the stream cannot be read'), int(v))]


def container_loops(fn):
    for b in bodies(fn):
        for n, path in walkp(b):
            if n.get('k') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
                yield n


class BodyFlow(ImpFlow):
    """one pass through a loop body: `touched` means that an element was stored"""

    def __init__(self, fn, p, fall, may, refs):
        ImpFlow.__init__(self, fn, p, fall, may)
        self.dest = set(self.dest) | refs


def dest_refs(fn, p):
    """locals that are references into the destination (results of non-const calls on it), to a fixpoint"""
    f = ImpFlow(fn, p, set(), None)
    refs = set(f.dest)
    grown = True
    while grown:
        grown = False
        f.dest = refs
        for b in bodies(fn):
            for n in walk(b):
                if n.get('k') == 'DeclStmt':
                    for d in n['d']:
                        t = fn.types[d['t']]
                        if t.ref and not t.const and d.get('init') is not None and d['id'] not in refs:
                            if any(x.get('k') in ('DeclRefExpr', 'CXXThisExpr') and f.isdest(x) for x in walk(d['init'])):
                                refs.add(d['id'])
                                grown = True
    return refs


def elem_touch(f, n):
    """a statement that stores an element: a call (or assignment) rooted in a destination reference"""
    return any(x.get('callee') and f.tch2(x) for x in walk(n))


class ElemFlow(ImpFlow):
    def __init__(self, fn, p, fall, may, refs):
        ImpFlow.__init__(self, fn, p, fall, may)
        self.refs = refs

    def tch(self, n):
        # any non-const use of a destination reference, nested element expressions included
        c = n.get('callee')
        if not c:
            return False
        cand = []
        if n['k'] == 'CXXMemberCallExpr' and not c.get('const'):
            cand.append(n.get('obj'))
        args = n.get('a') or []
        pts = c.get('pt') or []
        off = 0
        if n['k'] == 'CXXOperatorCallExpr' and c.get('m'):
            off = 1
            if args and not c.get('const'):
                cand.append(args[0])
        for a, t in zip(args[off:], pts):
            T = self.fn.types[t]
            if T.ref and not T.const:
                cand.append(a)
        return any(self.rooted(x) for x in cand)

    def rooted(self, e):
        e = strip(e)
        while e is not None:
            k = e.get('k')
            if k == 'CXXThisExpr':
                return self.thisdest
            if k == 'DeclRefExpr':
                return e.get('id') in self.refs or e.get('id') in self.dest
            if k == 'UnaryOperator':
                e = strip(e['e'])
            elif k == 'CXXMemberCallExpr':
                e = strip(e['obj'])
            elif k in ('CXXOperatorCallExpr',) and e.get('a'):
                e = strip(e['a'][0])
            elif k == 'ArraySubscriptExpr':
                e = strip(e['b'])
            elif k == 'MemberExpr':
                e = strip(e['b'])
            else:
                return False
        return False


def size_minus(fn, e, defs):
    """e as size() - c: returns c, or None"""
    e = strip(e)
    if e is None:
        return None
    if e.get('callee') and e['callee']['n'] in ('size', 'Size', 'MemberCount'):
        return 0
    if e.get('k') == 'DeclRefExpr' and e.get('id') in defs:
        return size_minus(fn, defs[e['id']], {k: v for k, v in defs.items() if k != e['id']})
    if e.get('k') == 'InitListExpr' and len(e.get('c', ())) == 1:
        return size_minus(fn, e['c'][0], defs)
    if e.get('k') == 'BinaryOperator' and e['op'] in ('-', '+'):
        a = size_minus(fn, e['lhs'], defs)
        b = strip(e['rhs'])
        if a is not None and b is not None and ('cv' in b or b.get('k') == 'IntegerLiteral'):
            c = int(b.get('cv', b.get('v')))
            return a + c if e['op'] == '-' else a - c
    return None


def const(e):
    e2 = strip(e)
    while e2 is not None and e2.get('k') == 'InitListExpr' and len(e2.get('c', ())) == 1:
        e2 = strip(e2['c'][0])
    for x in (e, e2):
        if x is not None and 'cv' in x:
            return int(x['cv'])
    if e2 is not None and e2.get('k') == 'IntegerLiteral':
        return int(e2['v'])
    return None


def run(p, r, roots):
    pred = reach(p, roots)
    fall = fallible_fns(p, pred)
    fns = [p.fns[u] for u in sorted(fall, key=lambda u: (p.fns[u].file, p.fns[u].l))]
    for q in ('yy::jsonLexer::yylex',):
        pass
    r.rule('failure-reported', 'no path returns success after a syntax, conversion or stream failure', 6)
    r.rule('result-used', 'the success flag of every conversion call is used', 8)
    r.rule('value-stored', 'no path returns success without having stored a value in the destination', 5)
    r.rule('every-element', 'a loop that stores elements stores one on every pass and visits every element of its source', 3)
    r.rule('whole-text', 'the parser is asked to consume the whole text', 1)
    calls = 0
    for fn in fns:
        fl = ImpFlow(fn, p, fall, None)
        rets, thrown = fl.run()
        w0 = loc(fn, {'l': fn.l})
        for d in fl.dropped:
            r.bad('result-used', loc(fn, d), 'the success flag of %s is thrown away' % d['callee']['n'])
        for b in bodies(fn):
            for n in walk(b):
                c = n.get('callee')
                if not c:
                    continue
                if fl.cls(n) and not any(n is d for d in fl.dropped):
                    r.ok('result-used', sample='%s: result of %s' % (loc(fn, n), c['n']))
                if 'rapidjson' in c['q'] and c['n'].startswith('Parse') and c.get('m'):
                    ta = [int(x) for x in c.get('ta', ())]
                    if any(x & 8 for x in ta):     # kParseStopWhenDoneFlag
                        r.bad('whole-text', loc(fn, n), 'the parser stops at the end of the first value: trailing text is accepted')
                    else:
                        r.ok('whole-text', sample=loc(fn, n))
        bad = set()
        nt = 0
        for v, s, l in rets:
            if v == 0:
                continue
            nt += 1
            if s.failed and v is not None:
                bad.add(('failure-reported', l, 'returns success although %s failed on this path' % s.why))
            elif s.failed and v is None:
                r.skip('failure-reported', '%s returns a computed flag after a failure' % w0)
            elif not s.touched and v is not None:
                bad.add(('value-stored', l, 'returns success on a path which stores nothing in the destination'))
            if fn.n in EMPTY_OK and not s.failed and 'tested' not in s.lat:
                bad.add(('failure-reported', l, 'a stream which cannot be read is reported as a success (the parser accepts the empty text)'))
        for rule, l, m in sorted(bad):
            r.bad(rule, loc(fn, {'l': l}), m)
        if not any(b[0] == 'failure-reported' for b in bad):
            r.ok('failure-reported', sample='%s: %d success exits, %d exceptional' % (w0, nt, len(thrown)))
        if not any(b[0] == 'value-stored' for b in bad):
            r.ok('value-stored')
        loops(p, r, fn, fall)
        calls += fl.steps
    lexer(p, r)
    r.cov['functions_analysed'] = [f.sig() for f in fns]
    r.cov['abstract_steps'] = calls
    return fns


def loops(p, r, fn, fall):
    refs = dest_refs(fn, p)
    defs = {}
    for b in bodies(fn):
        for n in walk(b):
            if n.get('k') == 'DeclStmt':
                for d in n['d']:
                    if d.get('init') is not None and not fn.types[d['t']].ref:
                        defs[d['id']] = d['init']
    for n in container_loops(fn):
        ef = ElemFlow(fn, p, fall, None, refs)
        ef.rets = []
        body = ef.ex(n['body'], {S()})
        # a reference declared in the body to the stored element also counts
        ends = body['n'] | body['ct']
        if n.get('inc'):
            e2 = set()
            for s in ends:
                for s2, _ in ef.ev(n['inc'], s):
                    e2.add(s2)
            ends = e2
        st = [s for s in ends if s.touched]
        no = [s for s in ends if not s.touched and not s.failed]
        if not st:
            continue
        w = loc(fn, n)
        if no:
            r.bad('every-element', w, 'a pass through this loop can go on to the next element without storing the current one')
            continue
        if n['k'] == 'CXXForRangeStmt':
            r.ok('every-element', sample=w + ': range loop')
            continue
        # index loop: i from 0 (or begin) by 1 up to size
        msg = index_loop(fn, n, defs)
        if msg is None:
            r.skip('every-element', w + ': bounds not recognised')
        elif msg:
            r.bad('every-element', w, msg)
        else:
            r.ok('every-element', sample=w + ': index loop from first to last')


def conjuncts(e):
    s = strip(e)
    if s is not None and s.get('k') == 'BinaryOperator' and s['op'] == '&&':
        return conjuncts(s['lhs']) + conjuncts(s['rhs'])
    return [s] if s is not None else []


def index_loop(fn, n, defs):
    if n['k'] != 'ForStmt' or not n.get('init') or n['init'].get('k') != 'DeclStmt' or not n.get('cond') or not n.get('inc'):
        return None
    ivars = {d['id']: d for d in n['init']['d']}
    for c in conjuncts(n['cond']):
        if c.get('k') == 'BinaryOperator' and c['op'] in ('<', '!=', '<='):
            l, rr, op = strip(c['lhs']), c['rhs'], c['op']
            add = 0
            if l is not None and l.get('k') == 'BinaryOperator' and l['op'] == '+' and const(l['rhs']) is not None:
                add = const(l['rhs'])
                l = strip(l['lhs'])
            if l is not None and l.get('k') == 'DeclRefExpr' and l.get('id') in ivars:
                v0 = const(ivars[l['id']].get('init'))
                sm = size_minus(fn, rr, defs)
                if v0 is None or sm is None:
                    return None
                last = -sm - add + (1 if op == '<=' else 0)   # size + last exclusive
                if v0 > 0:
                    return 'the first %d elements are skipped' % v0
                if last < 0:
                    return 'the last %d elements are skipped' % -last
                inc = strip(n['inc'])
                if inc.get('k') == 'UnaryOperator' and inc['op'] == '++':
                    return ''
                if inc.get('k') == 'CompoundAssignOperator' and inc['op'] == '+=':
                    k = const(inc['rhs'])
                    if k is not None and k > 1:
                        return 'only every %d-th element is visited' % k
                    return '' if k == 1 else None
                return None
        if c.get('k') == 'CXXOperatorCallExpr' and c['callee']['n'] in ('operator!=', 'operator=='):
            # iterator loop
            a = [strip(x) for x in c['a']]
            if a[0] is not None and a[0].get('id') in ivars:
                i0 = strip(ivars[a[0]['id']].get('init'))
                if i0 is not None and i0.get('callee') and i0['callee']['n'] in ('MemberBegin', 'Begin', 'begin', 'cbegin') and \
                        a[1] is not None and a[1].get('callee') and a[1]['callee']['n'] in ('MemberEnd', 'End', 'end', 'cend'):
                    return ''
    return None


def lexer(p, r):
    """the JSON lexer announces the end of the text only at the end of the text"""
    r.rule('lexer-end', 'the lexer returns the end-of-text token only where the cursor equals the end of the input', 1)
    for fn in p.fns.values():
        if fn.q != 'yy::jsonLexer::yylex' or fn.body is None:
            continue

        class LF(Flow):
            def special(self, n, s):
                c = n['callee']
                if c['n'] in ('operator==', 'operator!=') and len(n.get('a') or ()) == 2:
                    for x in n['a']:
                        y = strip(x)
                        if y is not None and y.get('callee') and y['callee']['n'] in ('end', 'cend'):
                            eq = c['n'] == 'operator=='
                            return [(s.mark('end'), int(eq)), (s.mark('end', False), int(not eq))]
                if c['n'] in ('operator++', 'operator+=', 'operator=', 'operator-=', 'operator--'):
                    return [(s.mark('end', False), None)]
                return None
        f = LF(fn, lambda n: None, lambda n: False, lambda n: False)
        rets, _ = f.run()
        bad = sorted({l for v, s, l in rets if v == 0 and 'end' not in s.lat})
        und = {l for v, s, l in rets if v is None}
        for l in bad:
            r.bad('lexer-end', loc(fn, {'l': l}), 'end of text is announced before the end of the input: the rest is silently ignored')
        if not bad:
            r.ok('lexer-end', n=len({l for v, s, l in rets if v == 0}) or 1, sample=loc(fn, {'l': fn.l}))


def check_C18():
    r = Report('C18')
    p = PR.extract()
    roots = [f for f in p.repo_fns() if (f.rec == GC and f.n in ROOTS) or (f.rec != GC and f.n in HDR)]
    names = {f.n for f in roots if f.body is not None}
    for x in ROOTS + HDR:
        if x not in names:
            raise AnalysisError('importer %s has vanished' % x)
    run(p, r, roots)
    fx = PR.extract(fixture=os.path.join(PR.VERIF, 'fixtures', 'c18.cc'))
    t = Report('C18')
    run(fx, t, [f for f in fx.fns.values() if f.body is not None])
    got = {w.split(' in ')[1].split('::')[-1] for w, _, _ in t.viol}
    want = {f.n for f in fx.fns.values() if f.n.startswith('bad_')}
    if got != want:
        raise AnalysisError('self test of the rules failed: expected %s, got %s' % (sorted(want), sorted(got)))
    return r.finish('other', 'Path analysis of failure reporting (finite abstract state: values of flags, failed, stored; fixpoint at loops) over every function '
                    'of the importers that returns a success flag, with loops that store elements checked to store one on each pass and to span the source.',
                    ASSUME + ['RapidJSON, toml++, fkYAML and the generated Bison parser report every syntax error they meet',
                              'the meaning of the values converted is not part of this check'])
