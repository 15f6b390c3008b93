"""Finite-state path analysis of failure reporting (structured abstract interpretation with fixpoints at loops).

State: valuation of boolean/integer locals over {constant, unknown}, a flag `failed` (some sub-operation reported or threw a
failure on this path) and a flag `touched` (the destination container was written)."""
from astq import *


class S:
    __slots__ = ('env', 'failed', 'touched', 'why', 'lat')

    def __init__(self, env=(), failed=False, touched=False, why=None, lat=frozenset()):
        self.env, self.failed, self.touched, self.why, self.lat = env, failed, touched, why, lat

    def key(self):
        return (self.env, self.failed, self.touched, self.lat)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def get(self, v):
        for a, b in self.env:
            if a == v:
                return b
        return None

    def put(self, v, x):
        e = tuple(sorted([(a, b) for a, b in self.env if a != v] + [(v, x)], key=lambda p: (repr(p[0]), repr(p[1]))))
        return S(e, self.failed, self.touched, self.why, self.lat)

    def fail(self, why):
        return S(self.env, True, self.touched, self.why or why, self.lat)

    def touch(self):
        return S(self.env, self.failed, True, self.why, self.lat)

    def mark(self, f, on=True):
        return S(self.env, self.failed, self.touched, self.why, self.lat | {f} if on else self.lat - {f})


class Flow:
    """classify(call node) -> None | ('bool', failing value) | ('int0',) | ('touch',) ; mayThrow(call) -> bool"""

    def __init__(self, fn, classify, touches, maythrow):
        self.fn, self.classify, self.touches, self.maythrow = fn, classify, touches, maythrow
        self.thrown = [[]]
        self.steps = 0
        self.dropped = []       # fallible call sites whose result is thrown away

    def run(self):
        """[(value, state, line)] of normal returns, [state] thrown"""
        self.rets = []
        self.thrown = [[]]
        out = self.ex(self.fn.body, {S()})
        for s in out['n']:
            self.rets.append((None, s, self.fn.d.get('le', self.fn.l)))
        return self.rets, self.thrown[0]

    # ---- statements: dict kind -> set of states
    def ex(self, n, ss):
        out = {'n': set(), 'br': set(), 'ct': set()}
        if n is None:
            out['n'] |= ss
            return out
        if not ss:
            return out
        self.steps += 1
        k = n['k']
        if k == 'CompoundStmt':
            return self.seq(n['c'], ss)
        if k == 'DeclStmt':
            cur = set(ss)
            for d in n['d']:
                if d.get('init') is not None:
                    nx = set()
                    for s in cur:
                        for s2, v in self.ev(d['init'], s):
                            nx.add(s2.put(d['id'], v))
                    cur = nx
            out['n'] = cur
            return out
        if k == 'IfStmt':
            cur = set(ss)
            for x in ('init', 'cvd'):
                if n.get(x):
                    cur = self.ex(n[x], cur)['n']
            t, f = set(), set()
            for s in cur:
                for s2, b in self.cond(n['cond'], s):
                    (t if b else f).add(s2)
            a = self.ex(n['then'], t)
            b = self.ex(n.get('else'), f)
            return {x: a[x] | b[x] for x in a}
        if k in ('ForStmt', 'WhileStmt', 'CXXForRangeStmt', 'DoStmt'):
            return self.loop(n, ss)
        if k == 'SwitchStmt':
            return self.switch(n, ss)
        if k == 'ReturnStmt':
            for s in ss:
                if n.get('e') is None:
                    self.rets.append((None, s, n['l']))
                else:
                    for s2, v in self.ev(n['e'], s):
                        self.rets.append((v, s2, n['l']))
            return out
        if k == 'BreakStmt':
            out['br'] |= ss
            return out
        if k == 'ContinueStmt':
            out['ct'] |= ss
            return out
        if k == 'CXXTryStmt':
            self.thrown.append([])
            body = self.ex(n['body'], ss)
            thrown = self.thrown.pop()
            entry = {s.fail('an exception') for s in thrown}
            covered = False
            for h in n['h']:
                r = self.ex(h['body'], set(entry))
                body = {x: body[x] | r[x] for x in body}
                if h.get('all'):
                    covered = True
            if not covered:
                self.thrown[-1] += list(entry)
            return body
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
            return self.ex(n.get('sub'), ss)
        # expression statement
        nx = set()
        st = strip(n)
        if st is not None and st.get('callee') and self.classify(st):
            self.dropped.append(st)
        if n.get('k', '').endswith('CastExpr') and n.get('ck') == 'ToVoid':
            inner = strip(n.get('e'))
            if inner is not None and inner.get('callee') and self.classify(inner):
                self.dropped.append(inner)
        for s in ss:
            for s2, v in self.ev(n, s):
                nx.add(s2)
        out['n'] = nx
        return out

    def seq(self, stmts, ss):
        out = {'n': set(), 'br': set(), 'ct': set()}
        cur = set(ss)
        for x in stmts:
            r = self.ex(x, cur)
            out['br'] |= r['br']
            out['ct'] |= r['ct']
            cur = r['n']
            if not cur:
                break
        out['n'] = cur
        return out

    def loop(self, n, ss):
        out = {'n': set(), 'br': set(), 'ct': set()}
        cur = set(ss)
        if n.get('init'):
            cur = self.ex(n['init'], cur)['n']
        if n['k'] == 'CXXForRangeStmt':
            nx = set()
            for s in cur:
                for s2, v in self.ev(n['range'], s):
                    nx.add(s2)
            cur = nx
        if n['k'] == 'DoStmt':
            r = self.ex(n['body'], cur)
            out['n'] |= r['br']
            cur = r['n'] | r['ct']
        seen = set()
        work = set(cur)
        while work:
            new = set()
            for s in work:
                if s in seen:
                    continue
                seen.add(s)
                if n['k'] == 'CXXForRangeStmt' or n.get('cond') is None:
                    conds = [(s, True)] + ([(s, False)] if n['k'] == 'CXXForRangeStmt' else [])
                else:
                    conds = self.cond(n['cond'], s)
                for s2, b in conds:
                    if not b:
                        out['n'].add(s2)
                        continue
                    r = self.ex(n['body'], {s2})
                    out['n'] |= r['br']
                    nxt = r['n'] | r['ct']
                    if n.get('inc'):
                        nn = set()
                        for s3 in nxt:
                            for s4, _ in self.ev(n['inc'], s3):
                                nn.add(s4)
                        nxt = nn
                    new |= nxt
            work = new - seen
            if len(seen) > 4000:
                raise Exception('state explosion in failure analysis')
        return out

    def switch(self, n, ss):
        out = {'n': set(), 'br': set(), 'ct': set()}
        cur = set(ss)
        for x in ('init', 'cvd'):
            if n.get(x):
                cur = self.ex(n[x], cur)['n']
        nx = set()
        val = {}
        for s in cur:
            for s2, v in self.ev(n['cond'], s):
                nx.add((s2, v))
        body = n['body']
        stmts = body['c'] if body['k'] == 'CompoundStmt' else [body]
        has_default = False
        labs = set()
        for i, x in enumerate(stmts):
            lab = []
            y = x
            while y is not None and y['k'] in ('CaseStmt', 'DefaultStmt'):
                if y['k'] == 'DefaultStmt':
                    has_default = True
                else:
                    labs.add(int(y['val']))
                lab.append(y)
                y = y.get('sub')
            if not lab:
                continue
            entry = set()
            for s, v in nx:
                for l in lab:
                    if not isinstance(v, int) or l['k'] == 'DefaultStmt' or int(l['val']) == v:
                        entry.add(s)
            rest = [self.unlabel(z) for z in stmts[i:]]
            r = self.seq([z for z in rest if z is not None], entry)
            out['n'] |= r['n'] | r['br']
            out['ct'] |= r['ct']
        if not has_default and not self.exhaustive(n, labs):
            out['n'] |= {s for s, v in nx}
        return out

    def exhaustive(self, n, labs):
        """without a default: does the switch name every enumerator of its enum?"""
        ev = n.get('ev')
        return ev is not None and {int(x) for x in ev} <= labs

    def special(self, n, s):
        """hook: outcomes of a call known to the rule, or None"""
        return None

    @staticmethod
    def unlabel(z):
        while z is not None and z['k'] in ('CaseStmt', 'DefaultStmt'):
            z = z.get('sub')
        return z

    # ---- expressions: list of (state, value); value in int / None
    def cond(self, n, s):
        k = n['k']
        if k in ('ParenExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'ConstantExpr') and n.get('e') is not None \
                and n.get('ck') not in ('UserDefinedConversion',):
            return self.cond(n['e'], s)
        if k == 'BinaryOperator' and n['op'] in ('&&', '||'):
            out = []
            for s2, b in self.cond(n['lhs'], s):
                if b == (n['op'] == '&&'):
                    out += self.cond(n['rhs'], s2)
                else:
                    out.append((s2, b))
            return out
        if k == 'UnaryOperator' and n['op'] == '!':
            return [(s2, not b) for s2, b in self.cond(n['e'], s)]
        if k == 'DeclRefExpr' and 'id' in n and n.get('ref') == 'local' and 'cv' not in n:
            v = s.get(n['id'])
            if v is None:
                return [(s.put(n['id'], 1), True), (s.put(n['id'], 0), False)]
            if v == 'nz':
                return [(s, True)]
            return [(s, bool(v))]
        out = []
        for s2, v in self.ev(n, s):
            if v is None:
                out += [(s2, True), (s2, False)]
            elif v == 'nz':
                out.append((s2, True))
            else:
                out.append((s2, bool(v)))
        return out

    def ev(self, n, s):
        if n is None:
            return [(s, None)]
        if 'cv' in n:
            try:
                return [(s, int(n['cv']))]
            except (TypeError, ValueError):
                return [(s, None)]
        k = n['k']
        if k in ('CXXBoolLiteralExpr', 'IntegerLiteral'):
            v = n.get('v')
            if isinstance(v, bool):
                return [(s, int(v))]
            try:
                return [(s, int(v))]
            except (TypeError, ValueError):
                return [(s, 1 if v == 'true' else 0 if v == 'false' else None)]
        if k in ('BinaryOperator',) and n['op'] in ('&&', '||') or k == 'UnaryOperator' and n['op'] == '!':
            return [(s2, 1 if b else 0) for s2, b in self.cond(n, s)]
        if k == 'DeclRefExpr':
            return [(s, s.get(n['id']) if 'id' in n else None)]
        if k == 'BinaryOperator' and n['op'] in ('==', '!='):
            out = []
            for s2, a in self.ev(n['lhs'], s):
                for s3, b in self.ev(n['rhs'], s2):
                    if a is None or b is None:
                        out.append((s3, None))
                    elif a == 'nz' or b == 'nz':
                        o = b if a == 'nz' else a
                        out.append((s3, (0 if n['op'] == '==' else 1) if o == 0 else None))
                    else:
                        out.append((s3, int((a == b) == (n['op'] == '=='))))
            return out
        if k == 'BinaryOperator' and n['op'] == '=':
            out = []
            for s2, v in self.ev(n['rhs'], s):
                l = strip(n['lhs'])
                if l.get('k') == 'DeclRefExpr' and 'id' in l:
                    s2 = s2.put(l['id'], v)
                else:
                    for s3, _ in self.ev(n['lhs'], s2):
                        s2 = s3
                out.append((s2, v))
            return out
        if k == 'CompoundAssignOperator':
            out = []
            for s2, v in self.ev(n['rhs'], s):
                l = strip(n['lhs'])
                if l.get('k') == 'DeclRefExpr' and 'id' in l:
                    cur = s2.get(l['id'])
                    r = None
                    if n['op'] == '&=':
                        r = 0 if (cur == 0 or v == 0) else (1 if cur == 1 and v == 1 else None)
                    elif n['op'] == '|=':
                        r = 1 if (cur == 1 or v == 1) else (0 if cur == 0 and v == 0 else None)
                    s2 = s2.put(l['id'], r)
                    v = r
                out.append((s2, v))
            return out
        if k == 'BinaryOperator' and n['op'] in ('&', '|'):
            out = []
            for s2, a in self.ev(n['lhs'], s):
                for s3, b in self.ev(n['rhs'], s2):
                    if n['op'] == '&':
                        r = 0 if a == 0 or b == 0 else (1 if a == 1 and b == 1 else None)
                    else:
                        r = 1 if a == 1 or b == 1 else (0 if a == 0 and b == 0 else None)
                    out.append((s3, r))
            return out
        if k == 'UnaryOperator' and n['op'] in ('++', '--'):
            l = strip(n['e'])
            if l.get('k') == 'DeclRefExpr' and 'id' in l:
                return [(s.put(l['id'], None), None)]
        if k == 'ConditionalOperator':
            out = []
            for s2, b in self.cond(n['cond'], s):
                out += self.ev(n['a'] if b else n['b'], s2)
            return out
        if k == 'CXXThrowExpr':
            for s2, _ in self.evkids(n, s):
                self.thrown[-1].append(s2)
            return []
        if k == 'LambdaExpr':
            return [(s, None)]
        if n.get('callee') or k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            out = []
            for s2, _ in self.evkids(n, s):
                c = n.get('callee')
                if c is not None and c.get('noret'):
                    self.thrown[-1].append(s2)
                    continue
                if self.maythrow(n):
                    self.thrown[-1].append(s2)
                if self.touches(n):
                    s2 = s2.touch()
                cl = self.classify(n) if c is not None else None
                sp = self.special(n, s2)
                if sp is not None:
                    out += sp
                    continue
                # boolean locals passed by reference become unknown
                s2 = self.byref(n, s2)
                if cl is None:
                    out.append((s2, None))
                elif cl[0] == 'bool':
                    out.append((s2, 1 - cl[1]))
                    out.append((s2.fail('%s at line %s' % (c['n'], n.get('l'))), cl[1]))
                else:
                    out.append((s2, 0))
                    out.append((s2.fail('%s at line %s' % (c['n'], n.get('l'))), 'nz'))
            return out
        if k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr',
                 'CXXBindTemporaryExpr', 'ConstantExpr', 'CStyleCastExpr'):
            return self.ev(n.get('e'), s)
        if k == 'InitListExpr' and len(n.get('c', ())) == 1:
            return self.ev(n['c'][0], s)
        return [(s2, None) for s2, _ in self.evkids(n, s)]

    def byref(self, n, s):
        c = n.get('callee')
        if c is None:
            return s
        args = n.get('a') or []
        pts = c.get('pt') or []
        off = 1 if n['k'] == 'CXXOperatorCallExpr' and c.get('m') else 0
        for i, a in enumerate(args):
            j = i - off
            if 0 <= j < len(pts):
                t = self.fn.types[pts[j]]
                if t.ref and not t.const:
                    x = strip(a)
                    if x is not None and x.get('k') == 'DeclRefExpr' and 'id' in x and s.get(x['id']) is not None:
                        s = s.put(x['id'], None)
        return s

    def evkids(self, n, s):
        cur = [s]
        for e, c in kids(n):
            if e == 'h' or 'k' not in c:
                continue
            cur = [s3 for s2 in cur for s3, _ in self.ev(c, s2)]
        return [(x, None) for x in set(cur)]
