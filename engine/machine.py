import struct
from core import *

CALLS = {'CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'UserDefinedLiteral'}


class Machine(Core):
    MAXDEPTH = 40

    def __init__(self, prog):
        Core.__init__(self, prog)
        self.line = 0
        self.globals = {}
        self.summaries = {}
        self.fnstats = set()
        self.nostream = False

    # ------------------------------------------------------------ helpers
    def T(self, st, n):
        return st.frames[-1].types[n['t']]

    def bind(self, st, vid, loc):
        f = st.frames[-1]
        env = dict(f.env)
        env[vid] = loc
        st.frames = st.frames[:-1] + (Frame(f.fn, env, f.this, f.scopes, f.types),)

    def scope_push(self, st):
        f = st.frames[-1]
        st.frames = st.frames[:-1] + (Frame(f.fn, f.env, f.this, f.scopes + ((),), f.types),)

    def scope_add(self, st, oid):
        f = st.frames[-1]
        sc = f.scopes[:-1] + (f.scopes[-1] + (oid,),)
        st.frames = st.frames[:-1] + (Frame(f.fn, f.env, f.this, sc, f.types),)

    def scope_pop(self, st, depth):
        """leave scopes down to depth, ending the life of their objects; returns states"""
        states = [st]
        f = st.frames[-1]
        for sc in reversed(f.scopes[depth:]):
            for oid in reversed(sc):
                states = [s2 for s in states for s2 in self.end_life(s, oid)]
        for s in states:
            f = s.frames[-1]
            s.frames = s.frames[:-1] + (Frame(f.fn, f.env, f.this, f.scopes[:depth], f.types),)
        return states

    def end_life(self, st, oid):
        o = st.heap.get(oid)
        if o is None or not o.alive:
            return [st]
        if o.kind == 'rec':
            d = self.find_dtor(o.t)
            if d is not None and d.body is not None:
                saved = st.exc
                out = [s for s, _ in self.call(st, d, ('c', oid), [])]
                for s in out:
                    s.exc = saved
                    self.destroy(s, oid)
                return out
        self.destroy(st, oid)
        return [st]

    def find_dtor(self, t):
        c = getattr(self, '_dtors', None)
        if c is None:
            c = self._dtors = {}
            for f in self.prog.fns.values():
                if f.d.get('dtor') and not f.d.get('implicit'):
                    c[f.rec] = f
        return c.get(t)

    def limit(self, lst):
        if len(lst) > self.MAXSTATES:
            raise Unsupported('too many partitions')
        return lst

    # ------------------------------------------------------------ lvalues
    def lv(self, n, st):
        """[(state, loc)]"""
        k = n['k']
        m = getattr(self, 'lv_' + k, None)
        if m:
            return m(n, st)
        if k in CALLS:
            out = []
            for s, v in self.ev_call(n, st):
                out.append((s, self.as_loc(s, v, n)))
            return out
        # prvalue used as an object
        out = []
        for s, v in self.ev(n, st):
            out.append((s, self.temp_loc(s, v, self.T(s, n))))
        return out

    def as_loc(self, st, v, n=None):
        if isinstance(v, tuple) and v:
            if v[0] == 'L':
                return v[1]
            if v[0] == 'O':
                return ('c', v[1])
            if v[0] == 'bit':
                return v[1]
        t = self.T(st, n) if n is not None else None
        return self.temp_loc(st, v, t)

    def temp_loc(self, st, v, t):
        if isinstance(v, tuple) and v and v[0] == 'O':
            return ('c', v[1])
        if isinstance(v, tuple) and v and v[0] == 'L':
            return v[1]
        return ('c', self.new_cell(st, v, t.base if t else ''))

    def lv_DeclRefExpr(self, n, st):
        r = n['ref']
        if r in ('local', 'bind', 'static'):
            f = st.frames[-1]
            loc = f.env.get(n['id'])
            if loc is None:
                if r == 'static':
                    key = ('static', (f.fn.usr, n['id']))
                    oid = st.kids.get(key)
                    if oid is None:
                        oid = self.sym_obj(st, self.T(st, n).base, ('static', n['name']), {'static': True})
                        st.kids[key] = oid
                    return [(st, ('c', oid))]
                raise Unsupported('unbound variable ' + n['name'])
            return [(st, loc)]
        if r == 'global':
            return [(st, self.global_loc(st, n))]
        if r == 'func':
            return [(st, ('fnref', n['callee']['usr'], n['callee']['q']))]
        raise Unsupported('lvalue ' + r)

    def global_loc(self, st, n):
        key = ('global', n['usr'])
        oid = st.kids.get(key)
        if oid is None:
            oid = self.make_global(st, n)
            st.kids[key] = oid
        return ('c', oid)

    def make_global(self, st, n):
        t = self.T(st, n)
        g = self.prog.globals.get(n['usr'])
        if g is not None and g.get('cst') and g.get('init') and kind_of(t.base) == 'arr' and g['init'].get('k') == 'StringLiteral':
            o = self.sym_obj(st, t.base, ('global', n['q']), {'static': True, 'lit': g['init'].get('v', '')})
            return o
        return self.sym_obj(st, t.base, ('global', n['q']), {'static': True})

    def lv_MemberExpr(self, n, st):
        out = []
        b = n['b']
        if n.get('mk') == 'static':
            key = ('global', n['q'])
            oid = st.kids.get(key)
            if oid is None:
                oid = self.sym_obj(st, self.T(st, n).base, key, {'static': True})
                st.kids[key] = oid
            return [(st, ('c', oid))]
        if n.get('mk') != 'field':
            raise Unsupported('member ' + str(n.get('mk')))
        if n.get('arrow'):
            bases = [(s, self.deref(s, v, pointee(self.T(s, b).base))) for s, v in self.ev(b, st)]
        else:
            bases = self.lv(b, st)
        for s, loc in bases:
            out += self.member(s, loc, n['name'], n)
        return out

    def member(self, st, loc, name, n=None):
        """[(state, loc)] of a data member"""
        if loc[0] == 'e':
            loc = self.resolve(st, loc)
        if loc[0] == 'ud':
            return self.union_member(st, loc[1], name)
        if loc[0] == 'mp' and len(loc) == 3:
            if name == 'first':
                return [(st, ('mp', loc[1], loc[2], 'first'))]
            return [(st, ('c', self.kid(st, loc[1], loc[2])))]
        if loc[0] == 'c':
            o = self.obj(st, loc[1])
            if o.kind == 'gc':
                if name == self.F_TAG:
                    return [(st, ('f', loc[1], 'tag'))]
                if name == self.F_DATA:
                    return [(st, ('ud', loc[1]))]
                raise Unsupported('container field ' + name)
            if o.kind == 'cell':
                v = o.f['v']
                if isinstance(v, tuple) and v and v[0] == 'pair' and name in ('first', 'second'):
                    x = v[1] if name == 'first' else v[2]
                    if isinstance(x, tuple) and x and x[0] == 'O':
                        return [(st, ('c', x[1]))]
                    return [(st, ('c', self.new_cell(st, x, '')))]
                t = st.frames[-1].types[n['t']].base if n is not None else '?'
                key = ('fld', (loc[1], name))
                oid = st.kids.get(key)
                if oid is None:
                    oid = self.sym_obj(st, t, ('unk', self.uid()), {'unk': True})
                    st.kids[key] = oid
                return [(st, ('c', oid))]
            v = o.f.get(name)
            if isinstance(v, tuple) and v and v[0] == 'O':
                return [(st, ('c', v[1]))]
            if isinstance(v, tuple) and v and v[0] == 'ref':
                return [(st, v[1])]
            if v is None and o.kind == 'rec' and n is not None and not o.m.get('union'):
                t = st.frames[-1].types[n['t']].base
                if is_obj_type(t):
                    sub_ = self.empty_obj(st, t) if o.m.get('fresh') else self.sym_obj(st, t, ('unk', self.uid()), {'unk': True})
                    o = st.heap[loc[1]]
                    st.heap[loc[1]] = o.set(**{name: ('O', sub_)})
                    return [(st, ('c', sub_))]
            return [(st, ('f', loc[1], name))]
        if loc[0] == 'f':
            v = self.read(st, loc)
            if isinstance(v, tuple) and v and v[0] == 'O':
                return self.member(st, ('c', v[1]), name, n)
        if loc[0] == 'unkloc':
            t = st.frames[-1].types[n['t']].base if n is not None else '?'
            return [(st, ('unkloc', t))]
        raise Unsupported('member of ' + str(loc[0]))

    def union_member(self, st, oid, mem):
        o = self.obj(st, oid)
        if o.f['mem'] == '?':
            self.sync_gc(st, oid)
            o = st.heap[oid]
            if o.f['mem'] == '?':
                return [(s, ('u', oid, mem)) for s in self.limit(self.split_gc(st, oid))]
        return [(st, ('u', oid, mem))]

    def resolve(self, st, loc):
        """object elements of sequences become objects of their own"""
        if loc[0] == 'e':
            o = st.heap.get(loc[1])
            if o is not None and o.kind == 'vec':
                et = strip_const(elem_type(o.t)) if o.t else '?'
                if is_obj_type(et):
                    return ('c', self.kid(st, loc[1], loc[2]))
        return loc

    def deref(self, st, v, base, check=True):
        """location a pointer value points to"""
        if isinstance(v, tuple) and v:
            if v[0] == 'P':
                loc = v[1]
                if loc[0] == 'e':
                    if check:
                        self.obj(st, loc[1])
                        self.bounds(st, loc[1], loc[2], 'element accessed through a pointer or iterator')
                    return self.resolve(st, loc)
                return loc
            if v[0] == 'N':
                self.event(st, 'C09', 'null', 'a null pointer is dereferenced')
                return ('unkloc', base)
            if v[0] == 'mi':
                return ('mp', v[1], v[2])
            if v[0] == 'cs':
                return ('chr', v[1], v[3] if len(v) > 3 else 0)
            if v[0] == 'O':
                return ('c', v[1])
            if v[0] == 'bit':
                return v[1]
            key = ('deref', v)
            oid = st.kids.get(key)
            if oid is None:
                if base in ('void', '?') or kind_of(base) == 'fptr':
                    return ('unkloc', base)
                m = {'param': True}
                if is_unk(v):
                    m['unk'] = True
                if not is_obj_type(base):
                    # pointer to a run of scalars: an external array
                    oid = self.new_obj(st, 'vec', {'base': ('deref', v), 'upd': (), 'size': self.nat_atom(('size', ('deref', v)))},
                                       base + '[]', dict(m, nobounds=True, ext=True))
                else:
                    oid = self.sym_obj(st, base, ('deref', v), m)
                st.kids[key] = oid
            o = st.heap[oid]
            if o.m.get('ext') and o.kind == 'vec' and not is_obj_type(base):
                return ('e', oid, 0)
            return ('c', oid)
        if v == 0:
            return self.deref(st, NULL, base)
        return ('unkloc', base)

    def lv_CXXThisExpr(self, n, st):
        return [(st, st.frames[-1].this)]

    def lv_UnaryOperator(self, n, st):
        op = n['op']
        if op == '*':
            base = self.T(st, n).base
            return [(s, self.deref(s, v, base)) for s, v in self.ev(n['e'], st)]
        if op in ('++', '--') and not n.get('post'):
            out = []
            for s, loc in self.lv(n['e'], st):
                for s2, v in self.incdec(s, loc, op, self.T(s, n)):
                    out.append((s2, loc))
            return out
        return [(s, self.temp_loc(s, v, self.T(s, n))) for s, v in self.ev(n, st)]

    def lv_BinaryOperator(self, n, st):
        op = n['op']
        if op == '=':
            out = []
            for s, v in self.ev(n['rhs'], st):
                for s2, loc in self.lv(n['lhs'], s):
                    out += [(s3, loc) for s3 in self.assign(s2, loc, v, self.T(s2, n['lhs']))]
            return out
        if op == ',':
            out = []
            for s, _ in self.ev_any(n['lhs'], st):
                out += self.lv(n['rhs'], s)
            return out
        return [(s, self.temp_loc(s, v, self.T(s, n))) for s, v in self.ev(n, st)]

    def lv_CompoundAssignOperator(self, n, st):
        out = []
        for s, v in self.ev(n['rhs'], st):
            for s2, loc in self.lv(n['lhs'], s):
                cur = self.read(s2, loc)
                tl = self.T(s2, n['lhs'])
                ct = s2.frames[-1].types[n['ct']] if 'ct' in n else tl
                c2 = cur
                if ct.cls == 'float' and isnum(cur):
                    c2 = self.i2f(cur)
                for s3, r in self.arith(s2, n['op'][:-1], c2, v, ct if ct.cls != 'ptr' else tl, tl):
                    if tl.cls == 'int' and ct.cls == 'int':
                        r = self.intcast(s3, r, ct, tl, quietly=True)
                    elif tl.cls == 'int' and ct.cls == 'float':
                        r = self.f2i(s3, r, tl)
                    self.write(s3, loc, r)
                    out.append((s3, loc))
        return out

    def lv_ConditionalOperator(self, n, st):
        out = []
        for s, b in self.cond(n['cond'], st):
            out += self.lv(n['a'] if b else n['b'], s)
        return out

    def lv_ArraySubscriptExpr(self, n, st):
        out = []
        for s, i in self.ev(n['i'], st):
            for s2, p in self.ev(n['b'], s):
                out.append((s2, self.index_ptr(s2, p, i, self.T(s2, n).base)))
        return out

    def index_ptr(self, st, p, i, base):
        if isinstance(p, tuple) and p and p[0] == 'P':
            loc = p[1]
            if loc[0] == 'e':
                if not isnum(i):
                    i = self.unk('long')
                j = add(loc[2], i)
                self.obj(st, loc[1])
                self.bounds(st, loc[1], j, 'array element')
                return self.resolve(st, ('e', loc[1], j))
            if i == 0:
                return loc
            self.event(st, 'C09', 'bounds', 'a single object is indexed as an array with %s' % self.nice(i), 'undec')
            return ('unkloc', base)
        if isinstance(p, tuple) and p and p[0] == 'cs':
            return ('chr', p[1], add(p[3] if len(p) > 3 else 0, i) if isnum(i) else i)
        if isinstance(p, tuple) and p and p[0] == 's':
            return ('chr', p, i)
        loc = self.deref(st, p, base)
        if loc[0] == 'e':
            return ('e', loc[1], add(loc[2], i) if isnum(i) else self.unk('long'))
        return ('unkloc', base)

    def lv_MaterializeTemporaryExpr(self, n, st):
        return [(s, self.temp_loc(s, v, self.T(s, n))) for s, v in self.ev(n['e'], st)]

    def lv_ImplicitCastExpr(self, n, st):
        ck = n['ck']
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
            return self.lv(n['e'], st)
        return [(s, self.temp_loc(s, v, self.T(s, n))) for s, v in self.ev(n, st)]

    lv_CXXStaticCastExpr = lv_ImplicitCastExpr
    lv_CXXConstCastExpr = lv_ImplicitCastExpr
    lv_CXXReinterpretCastExpr = lv_ImplicitCastExpr
    lv_CStyleCastExpr = lv_ImplicitCastExpr
    lv_CXXFunctionalCastExpr = lv_ImplicitCastExpr
    lv_CXXDynamicCastExpr = lv_ImplicitCastExpr

    def lv_StringLiteral(self, n, st):
        return [(st, ('lit', n.get('v', '')))]

    def lv_CXXStdInitializerListExpr(self, n, st):
        return self.lv(n['e'], st)

    # ------------------------------------------------------------ rvalues
    def ev_any(self, n, st):
        """evaluate for side effects (any value category)"""
        if n is None:
            return [(st, None)]
        if n.get('vk'):
            return self.lv(n, st)
        return self.ev(n, st)

    def ev(self, n, st):
        """[(state, value)]"""
        if 'l' in n:
            self.line = n['l']
        cv = n.get('cv')
        if cv is not None:
            return [(st, int(cv))]
        k = n['k']
        if 'fv' in n:
            return [(st, ('fconst', float(n['fv'])))]
        m = getattr(self, 'ev_' + k, None)
        if m:
            return m(n, st)
        if k in CALLS:
            out = []
            for s, v in self.ev_call(n, st):
                if isinstance(v, tuple) and v and v[0] == 'L':
                    v = self.read(s, v[1]) if n.get('vk') is None else v
                out.append((s, v))
            return out
        if n.get('vk'):
            return [(s, ('L', loc)) for s, loc in self.lv(n, st)]
        raise Unsupported('expression ' + k)

    def ev_IntegerLiteral(self, n, st):
        return [(st, int(n['v']))]

    ev_CharacterLiteral = ev_IntegerLiteral

    def ev_CXXBoolLiteralExpr(self, n, st):
        return [(st, 1 if n['v'] else 0)]

    def ev_FloatingLiteral(self, n, st):
        return [(st, ('fconst', float(n['v'])))]

    def ev_StringLiteral(self, n, st):
        return [(st, ('s', n.get('v', '')))]

    def ev_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, NULL)]

    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_CXXThisExpr(self, n, st):
        return [(st, P(st.frames[-1].this))]

    def ev_DeclRefExpr(self, n, st):
        if n['ref'] == 'enum':
            return [(st, int(n['v']))]
        if n['ref'] == 'func':
            return [(st, ('fn', n['callee']['usr'], n['callee']['q']))]
        return [(s, ('L', loc)) for s, loc in self.lv(n, st)]

    def ev_CXXScalarValueInitExpr(self, n, st):
        return [(st, self.default_value(self.T(st, n).base))]

    def ev_ImplicitValueInitExpr(self, n, st):
        b = self.T(st, n).base
        if is_obj_type(b):
            return [(st, ('O', self.empty_obj(st, b)))]
        return [(st, self.default_value(b))]

    def ev_MaterializeTemporaryExpr(self, n, st):
        return self.ev(n['e'], st)

    def ev_UnaryExprOrTypeTraitExpr(self, n, st):
        return [(st, self.unk('unsigned long'))]

    def ev_LambdaExpr(self, n, st):
        f = st.frames[-1]
        usr = n.get('usr') or (n.get('inst') or [None])[0]
        env = []
        states = [st]
        for c in n['caps']:
            if 'id' in c:
                loc = f.env.get(c['id'])
                if loc is None:
                    continue
                if not c['byref'] and loc[0] == 'c' and st.heap[loc[1]].kind == 'cell':
                    loc = ('c', self.new_cell(st, st.heap[loc[1]].f['v'], st.heap[loc[1]].t))
                env.append((c['id'], loc))
        return [(st, ('lam', usr, tuple(env), f.this, tuple(n.get('inst') or ())))]

    def ev_CXXThrowExpr(self, n, st):
        if n.get('e') is None:
            st2 = st
            self.throw(st2, st.exc or Exc('rethrown', False, self.where(st)))
            return []
        for s, v in self.ev(n['e'], st):
            t = self.T(s, n['e']).base
            self.throw(s, Exc(t, False, self.where(s), v))
        return []

    @staticmethod
    def lit_of(n):
        """value of a numeric literal or constant, or None"""
        while n['k'] in ('ImplicitCastExpr', 'ParenExpr') and 'cv' not in n and 'fv' not in n and 'e' in n:
            if n.get('ck') not in (None, 'IntegralCast', 'NoOp'):
                return None
            n = n['e']
        if n['k'] == 'IntegerLiteral':
            return int(n['v'])
        v = n.get('cv')
        if v is not None:
            try:
                return int(v)
            except (TypeError, ValueError):
                return None
        v = n.get('fv')
        if v is None and n['k'] == 'FloatingLiteral':
            v = n.get('v')
        try:
            return float(v) if v is not None else None
        except (TypeError, ValueError):
            return None

    def ev_ConditionalOperator(self, n, st):
        out = []
        ca, cb = self.lit_of(n['a']), self.lit_of(n['b'])
        if ca is not None and cb is not None and ca == 1 and cb == 0 and n['cond']['k'] not in ('BinaryOperator', 'UnaryOperator'):
            # b ? 1 : 0 is b itself
            for s, v in self.ev(n['cond'], st):
                if isinstance(v, tuple) and v and v[0] == 'L':
                    v = self.read(s, v[1])
                if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 and len(v.t[0][0]) == 1 and self.range_of_atom(v.t[0][0][0]) == (0, 1):
                    out.append((s, v if isinstance(ca, int) else ('i2f', v)))
                    continue
                out += [(s2, (1 if b else 0) if isinstance(ca, int) else ('fconst', 1.0 if b else 0.0)) for s2, b in self.truth(s, v)]
            return self.limit(out)
        for s, b in self.cond(n['cond'], st):
            x = n['a'] if b else n['b']
            out += self.ev(x, s)
        return out

    def cond(self, n, st):
        """[(state, bool)]"""
        if n['k'] == 'BinaryOperator' and n['op'] in ('&&', '||') and 'cv' not in n:
            out = []
            for s, b in self.cond(n['lhs'], st):
                if n['op'] == '&&':
                    if not b:
                        out.append((s, False))
                    else:
                        out += self.cond(n['rhs'], s)
                else:
                    if b:
                        out.append((s, True))
                    else:
                        out += self.cond(n['rhs'], s)
            return out
        if n['k'] == 'UnaryOperator' and n['op'] == '!' and 'cv' not in n:
            return [(s, not b) for s, b in self.cond(n['e'], st)]
        out = []
        for s, v in self.ev(n, st):
            if isinstance(v, tuple) and v and v[0] == 'L':
                v = self.read(s, v[1])
            out += self.truth(s, v)
        return self.limit(out)

    def ev_BinaryOperator(self, n, st):
        op = n['op']
        if op in ('&&', '||'):
            return [(s, 1 if b else 0) for s, b in self.cond(n, st)]
        if op == ',':
            out = []
            for s, _ in self.ev_any(n['lhs'], st):
                out += self.ev(n['rhs'], s)
            return out
        if op == '=':
            return [(s, ('L', loc)) for s, loc in self.lv_BinaryOperator(n, st)]
        out = []
        for s, a in self.ev(n['lhs'], st):
            for s2, b in self.ev(n['rhs'], s):
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    out.append((s2, self.compare(s2, op, a, b)))
                else:
                    self.line = n['l']
                    out += self.arith(s2, op, a, b, self.T(s2, n), self.T(s2, n['lhs']))
        return out

    def ev_CompoundAssignOperator(self, n, st):
        return [(s, ('L', loc)) for s, loc in self.lv_CompoundAssignOperator(n, st)]

    def compare(self, st, op, a, b):
        if isinstance(a, tuple) and a and a[0] == 'P' and isinstance(b, tuple) and b and b[0] == 'P' \
                and a[1][0] == 'e' and b[1][0] == 'e' and a[1][1] == b[1][1]:
            a, b = a[1][2], b[1][2]
        if isinstance(a, tuple) and a and a[0] == 'mi' and isinstance(b, tuple) and b and b[0] == 'mi':
            return self.cmp_miter(st, op, a, b)
        if isinstance(a, tuple) and a and a[0] in ('cmp', 'not') and isinstance(b, int):
            if op == '==':
                return a if b else ('not', a)
            if op == '!=':
                return ('not', a) if b else a
        return ('cmp', op, a, b)

    def cmp_miter(self, st, op, a, b):
        pa, pb = a[2], b[2]
        if isnum(pa) and isnum(pb):
            return ('cmp', op, pa, pb)
        if pa == pb:
            return 1 if op == '==' else 0
        # a found node against end()
        for x, y in ((pa, pb), (pb, pa)):
            if not isnum(x) and isnum(y):
                if self.equal(st, y, st.heap[a[1]].f['size']):
                    return 0 if op == '==' else 1
        return ('cmp', op, ('A', 'pos', pa), ('A', 'pos', pb))

    WRAP = {'+', '-', '*'}

    def arith(self, st, op, a, b, t, lt=None):
        """[(state, value)] of a op b in type t"""
        if isinstance(a, tuple) and a and a[0] in ('cmp', 'not'):
            return [r for s, x in self.truth(st, a) for r in self.arith(s, op, 1 if x else 0, b, t, lt)]
        if isinstance(b, tuple) and b and b[0] in ('cmp', 'not'):
            return [r for s, x in self.truth(st, b) for r in self.arith(s, op, a, 1 if x else 0, t, lt)]
        # pointers
        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, tuple) and x and x[0] == 'P' and isnum(y) and op in ('+', '-'):
                if x[1][0] == 'e':
                    off = y if op == '+' else neg(y)
                    return [(st, P(('e', x[1][1], add(x[1][2], off))))]
                if y == 0:
                    return [(st, x)]
                return [(st, ('A', 'unk', self.uid()))]
            if isinstance(x, tuple) and x and x[0] == 'cs' and isnum(y) and op in ('+', '-'):
                off = y if op == '+' else neg(y)
                return [(st, ('cs', x[1], x[2], add(x[3] if len(x) > 3 else 0, off)))]
            if isinstance(x, tuple) and x and x[0] == 'A' and t.cls == 'ptr' and isnum(y) and op in ('+', '-'):
                loc = self.deref(st, x, pointee(t.base))
                if loc[0] == 'e':
                    return [(st, P(('e', loc[1], add(loc[2], y if op == '+' else neg(y)))))]
                return [(st, ('A', 'unk', self.uid()))]
        if isinstance(a, tuple) and a and a[0] == 'P' and isinstance(b, tuple) and b and b[0] == 'P' and op == '-':
            if a[1][0] == 'e' and b[1][0] == 'e' and a[1][1] == b[1][1]:
                return [(st, sub(a[1][2], b[1][2]))]
            return [(st, self.unk('long'))]
        if t.cls == 'float':
            fa, fb = self.i2f(a), self.i2f(b)
            if fa[0] == 'fconst' and fb[0] == 'fconst':
                try:
                    x, y = fa[1], fb[1]
                    return [(st, ('fconst', {'+': x + y, '-': x - y, '*': x * y, '/': x / y if y else float('inf')}[op]))]
                except (KeyError, OverflowError):
                    pass
            return [(st, ('fop', op, fa, fb))]
        if isnum(a) and isnum(b):
            if op in ('+', '-', '*'):
                r = add(a, b) if op == '+' else sub(a, b) if op == '-' else mul(a, b)
                return self.wrap(st, r, t, op)
            if op in ('/', '%') and isinstance(a, int) and isinstance(b, int) and b:
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return [(st, q if op == '/' else a - q * b)]
            if op == '/' and isinstance(b, int) and b == 1:
                return [(st, a)]
            if op == '/' and isinstance(b, int) and b > 0:
                # q with b*q <= a < b*q+b for a >= 0
                q = from_atom(('div', a, b))
                aid = q.t[0][0][0]
                if self.entails(st, a if isnum(a) else -1):
                    self.rng.setdefault(aid, (0, None))
                    self.assume(st, sub(a, scale(q, b)))
                    self.assume(st, sub(add(scale(q, b), b - 1), a))
                else:
                    self.rng.setdefault(aid, (None, None))
                    # truncation towards zero: |a - b*q| < b
                    self.assume(st, sub(add(scale(q, b), b - 1), a))
                    self.assume(st, add(sub(a, scale(q, b)), b - 1))
                    self.truncdiv(st, a, b, q)
                return [(st, q)]
            if op == '%' and isinstance(b, int) and b > 0:
                r = from_atom(('mod', a, b))
                aid = r.t[0][0][0]
                if self.entails(st, a):
                    self.rng.setdefault(aid, (0, b - 1))
                else:
                    self.rng.setdefault(aid, (-(b - 1), b - 1))
                return [(st, r)]
            return [(st, self.bitop(st, op, a, b, t))]
        if op in ('|', '&', '^'):
            return [(st, self.unk(t.base))]
        return [(st, self.mkatom(t.base, ('unk', self.uid())))]

    def truncdiv(self, st, a, b, q):
        # q >= 0 iff a > -b ; keep: q*b <= a when q >= 0 is not expressible without a case split: a <= -1 => q <= 0
        pass

    def wrap(self, st, r, t, op):
        if isinstance(r, int):
            if t.cls == 'int' and not t.signed and t.bits:
                r &= (1 << t.bits) - 1
            return [(st, r)]
        if t.cls == 'int' and not t.signed and t.bits in (32, 64) and op in ('+', '-'):
            out = []
            if not self.entails(st, r):
                if op == '-' or self.contradicts(st, r):
                    # below zero: wraps to a huge value
                    s2 = st.copy()
                    if self.assume(s2, sub(-1, r)):
                        out.append((s2, add(r, 1 << t.bits)))
                    if self.assume(st, r):
                        out.append((st, r))
                    return out
                self.assume(st, r)
            if t.bits == 32:
                over = sub(r, 1 << 32)
                if not self.contradicts(st, over):
                    s2 = st.copy()
                    out = []
                    if self.assume(s2, over):
                        out.append((s2, over))
                    if self.assume(st, sub((1 << 32) - 1, r)):
                        out.append((st, r))
                    return out
        return [(st, r)]

    def bitop(self, st, op, a, b, t):
        if isinstance(a, int) and isinstance(b, int):
            try:
                return {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
            except (KeyError, ValueError):
                return self.unk(t.base)
        if op == '&' and b == 255:
            return self.byte(0, a)
        if op == '&' and a == 255:
            return self.byte(0, b)
        if op == '>>':
            if b == 0:
                return a
            n = single_atom(a) if isinstance(a, Lin) else None
            if n and n[0] == 'shr':
                return from_atom(('shr', n[1], add(n[2], b)))
            return from_atom(('shr', a, b))
        if op == '<<':
            if b == 0:
                return a
            return from_atom(('shl', a, b))
        if op == '|':
            x, y = (self.bytes_of(st, v, (t.bits or 32) // 8) for v in (a, b))
            if x and y and all(p == 0 or q == 0 for p, q in zip(x, y)):
                return self.pack(st, [q if p == 0 else p for p, q in zip(x, y)], t)
            return self.compose(st, a, b, t)
        if op == '&' and (isinstance(a, int) or isinstance(b, int)):
            v, m = (a, b) if isinstance(b, int) else (b, a)
            mask = [(m >> (8 * j)) & 255 for j in range((t.bits or 32) // 8)]
            if m >= 0 and all(x in (0, 255) for x in mask):
                by = self.bytes_of(st, v, len(mask))
                if by:
                    return self.pack(st, [x if y else 0 for x, y in zip(by, mask)], t)
        if op in ('&',) and isinstance(b, int) and b >= 0:
            v = from_atom(('and', a, b))
            self.rng.setdefault(v.t[0][0][0], (0, b))
            return v
        return from_atom(('bit' + op, a, b))

    def bytes_of(self, st, v, w, wide=None):
        """the w low bytes of v, lowest first, each a constant, a byte of an unknown or a whole unknown of eight
        bits; None when they are not known one by one.  wide: the bits of the unknown"""
        if isinstance(v, int):
            return [(v >> (8 * j)) & 255 for j in range(w)]
        n = single_atom(v)
        k = n[0] if n else None
        r = None
        if k == 'byte':
            r = [v]
        elif k == 'or':
            r = [0] * max(w, 8)
            for sh, x in n[1]:
                if not isinstance(sh, int) or sh % 8:
                    return None
                y = self.bytes_of(st, x, max(w, 8))
                if y is None:
                    return None
                for j, b in enumerate(y):
                    p = j + sh // 8
                    if b != 0 and p < len(r):
                        if r[p] != 0:
                            return None
                        r[p] = b
        elif k in ('shl', 'shr') and isinstance(n[2], int) and n[2] % 8 == 0:
            d = n[2] // 8
            r = self.bytes_of(st, n[1], w if k == 'shl' else w + d, n[3] if len(n) > 3 else None)
            if r is None:
                return None
            r = [0] * d + r if k == 'shl' else r[d:]
        elif k == 'le' and isinstance(n[1], int):
            r = [from_atom(('sel', n[2], add(n[3], j))) for j in range(n[1])]
        elif k == 'conv' and not n[2]:
            r = self.bytes_of(st, n[3], n[1] // 8)
            if r is None:
                return None
        elif k in ('shl', 'shr', 'and', 'bit^', 'conv'):
            return None
        else:
            for b in (1, 2, 4):
                if b < w and self.entails(st, v) and self.entails(st, sub((1 << (8 * b)) - 1, v)):
                    r = [v] if b == 1 else [self.byte(j, v) for j in range(b)]
                    break
            else:
                if w > (wide or 64) // 8 and not (wide and self.entails(st, v)):
                    return None
                r = [self.byte(j, v) for j in range(min(w, (wide or 64) // 8))]
        return (r + [0] * w)[:w]

    def pack(self, st, by, t):
        """the value made of these bytes"""
        while by and by[-1] == 0:
            by = by[:-1]
        if all(isinstance(b, int) for b in by):
            return sum(b << (8 * j) for j, b in enumerate(by))
        if len(by) == 1:
            return by[0]
        v = self.compose_parts(st, [(8 * j, b) for j, b in enumerate(by)], t)
        if v is not None:
            return v
        v = from_atom(('or', tuple((8 * j, b) for j, b in enumerate(by) if b != 0)))
        self.rng.setdefault(v.t[0][0][0], (0, (1 << (8 * len(by))) - 1))
        return v

    def byte(self, j, x):
        n = single_atom(x) if isinstance(x, Lin) else None
        if n and n[0] == 'or' and isinstance(j, int) and all(isinstance(sh, int) and sh % 8 == 0 for sh, _ in n[1]):
            own = [self.byte(j - sh // 8, v) for sh, v in n[1] if sh // 8 <= j]
            own = [b for b in own if b != 0]
            if len(own) < 2:
                return own[0] if own else 0
        if n and n[0] == 'conv' and not n[2] and isinstance(j, int):
            return self.byte(j, n[3]) if j < n[1] // 8 else 0
        if n and n[0] == 'byte' and isinstance(j, int) and j > 0:
            return 0
        if n and n[0] == 'shr' and isnum(n[2]):
            d = self.divide(n[2], 8)
            if d is not None:
                return self.byte(add(j, d), n[1])
        if n and n[0] == 'byte' and j == 0:
            return x
        if n and n[0] in ('le', 'les') and isinstance(j, int):
            pass
        if isinstance(x, int) and isinstance(j, int):
            return (x >> (8 * j)) & 255
        v = from_atom(('byte', j, x))
        self.rng.setdefault(v.t[0][0][0], (0, 255))
        return v

    def compose(self, st, a, b, t):
        parts = []
        for x in (a, b):
            n = single_atom(x) if isinstance(x, Lin) else None
            if n and n[0] == 'or':
                parts += list(n[1])
            elif n and n[0] == 'shl' and isnum(n[2]):
                parts.append((n[2], n[1]))
            elif x == 0:
                pass
            else:
                parts.append((0, x))
        parts = self.split_parts(parts)
        parts.sort(key=repr)
        parts.sort(key=lambda p: p[0] if isinstance(p[0], int) else 1 << 30)
        v = self.compose_parts(st, parts, t)
        if v is not None:
            return v
        return from_atom(('or', tuple(parts)))

    def split_parts(self, parts):
        """parts made of several bytes, when further bytes join them, are their bytes again"""
        if len(parts) < 2 or not all(isinstance(p[0], int) for p in parts):
            return parts
        names = [single_atom(p[1]) if isinstance(p[1], Lin) else None for p in parts]
        whole = {n[2] for n in names if n and n[0] == 'byte'}
        out = []
        for (sh, x), n in zip(parts, names):
            if n and n[0] == 'le':
                for j in range(n[1]):
                    out.append((sh + 8 * j, from_atom(('sel', n[2], add(n[3], j)))))
            elif x in whole and sh == 0:
                w = min(q[0] for q, m in zip(parts, names) if m and m[0] == 'byte' and m[2] == x) // 8
                out += [(8 * j, from_atom(('byte', j, x))) for j in range(w)]
            else:
                out.append((sh, x))
        return out

    def compose_parts(self, st, parts, t):
        w = len(parts)
        if w not in (2, 4, 8) or not all(isinstance(p[0], int) for p in parts):
            return None
        if [p[0] for p in parts] != [8 * j for j in range(w)]:
            return None
        names = [single_atom(p[1]) if isinstance(p[1], Lin) else None for p in parts]
        if all(n and n[0] == 'byte' and n[1] == j and n[2] == names[0][2] for j, n in enumerate(names)):
            x = names[0][2]
            if w == 8:
                return x
            low = 0 if t.bits and t.bits > 8 * w else -(1 << (8 * w - 1))
            if self.entails(st, sub(x, low)) and self.entails(st, sub((1 << (8 * w)) - 1, x)):
                return x
            return None
        if all(n and n[0] == 'sel' and n[1] == names[0][1] and sub(n[2], names[0][2]) == j for j, n in enumerate(names)):
            v = from_atom(('le', w, names[0][1], names[0][2]))
            self.rng.setdefault(v.t[0][0][0], (0, (1 << (8 * w)) - 1))
            return v
        return None

    def ev_UnaryOperator(self, n, st):
        op = n['op']
        if op == '&':
            e = n['e']
            out = []
            for s, loc in self.lv(e, st):
                if loc[0] == 'fnref':
                    out.append((s, ('fn', loc[1], loc[2])))
                else:
                    out.append((s, P(self.as_elem(s, loc))))
            return out
        if op == '!':
            return [(s, 0 if b else 1) for s, b in self.cond(n['e'], st)] if n['e']['k'] == 'BinaryOperator' and n['e']['op'] in ('&&', '||') \
                else [(s, self.negate(v)) for s, v in self.ev_rv(n['e'], st)]
        if op in ('++', '--'):
            out = []
            for s, loc in self.lv(n['e'], st):
                for s2, old in self.incdec(s, loc, op, self.T(s, n)):
                    out.append((s2, old if n.get('post') else ('L', loc)))
            return out
        if op == '*':
            return [(s, ('L', loc)) for s, loc in self.lv_UnaryOperator(n, st)]
        out = []
        for s, v in self.ev_rv(n['e'], st):
            if op == '-':
                if isnum(v):
                    t = self.T(s, n)
                    out += self.wrap(s, neg(v), t, '-') if not t.signed else [(s, neg(v))]
                elif isinstance(v, tuple) and v and v[0] == 'fconst':
                    out.append((s, ('fconst', -v[1])))
                else:
                    out.append((s, ('fop', 'neg', v, None)))
            elif op == '+':
                out.append((s, v))
            elif op == '~':
                out.append((s, ~v if isinstance(v, int) else from_atom(('bit~', v))))
            else:
                raise Unsupported('unary ' + op)
        return out

    def as_elem(self, st, loc):
        """&v[i] of scalars keeps the element location; objects know their place in a sequence"""
        if loc[0] == 'c':
            o = st.heap.get(loc[1])
            if o is not None and 'elem' in o.m and isnum(o.m['elem'][1]) and st.kids.get(o.m['elem']) == loc[1]:
                return ('e',) + o.m['elem']
        return loc

    def negate(self, v):
        if isinstance(v, int):
            return 0 if v else 1
        if isinstance(v, tuple) and v and v[0] == 'not':
            return v[1]
        if isinstance(v, tuple) and v and v[0] == 'cmp':
            if v[1] in ('==', '!=') or (isnum(v[2]) and isnum(v[3])):
                return ('cmp', self.NEGOP[v[1]], v[2], v[3])
            return ('not', v)
        if isinstance(v, Lin):
            return ('cmp', '==', v, 0)
        if v == NULL:
            return 1
        return ('not', v)

    def ev_rv(self, n, st):
        out = []
        for s, v in self.ev(n, st):
            if isinstance(v, tuple) and v and v[0] == 'L':
                v = self.read(s, v[1])
            out.append((s, v))
        return out

    def incdec(self, st, loc, op, t):
        """[(state, old value)]"""
        cur = self.read(st, loc)
        d = 1 if op == '++' else -1
        if isnum(cur):
            r = self.wrap(st, add(cur, d), t, '+' if d > 0 else '-')
            out = []
            for s, v in r:
                self.write(s, loc, v)
                out.append((s, cur))
            return out
        nv = self.advance(st, cur, d)
        self.write(st, loc, nv)
        return [(st, cur)]

    def advance(self, st, cur, d):
        if isinstance(cur, tuple) and cur:
            if cur[0] == 'P' and cur[1][0] == 'e':
                return P(('e', cur[1][1], add(cur[1][2], d)))
            if cur[0] == 'mi':
                if isnum(cur[2]):
                    return ('mi', cur[1], add(cur[2], d))
                return ('mi', cur[1], ('at', ('A', 'unk', self.uid())))
            if cur[0] == 'cs':
                return ('cs', cur[1], cur[2], add(cur[3] if len(cur) > 3 else 0, d))
            if cur[0] == 'A':
                key = ('deref', cur)
                if key in st.kids and st.heap[st.kids[key]].m.get('ext'):
                    return P(('e', st.kids[key], d))
                return ('A', 'unk', self.uid())
            if cur[0] == 'P':
                return ('A', 'unk', self.uid())
            if cur[0] == 'fop' or cur[0] == 'fconst':
                return ('fop', '+', cur, ('fconst', float(d)))
        return ('A', 'unk', self.uid())

    # casts -------------------------------------------------------------
    def ev_ImplicitCastExpr(self, n, st):
        ck = n['ck']
        e = n['e']
        t = self.T(st, n)
        if ck == 'LValueToRValue':
            out = []
            for s, loc in self.lv(e, st):
                if 'l' in n:
                    self.line = n['l']
                v = self.read(s, loc)
                out.append((s, self.coerce_read(s, v, t)))
            return out
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'AtomicToNonAtomic'):
            return self.ev(e, st)
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
            return self.ev(e, st)
        if ck == 'IntegralCast':
            ft = self.T(st, e)
            out = []
            for s, v in self.ev_rv(e, st):
                if isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
                    for s2, b in self.truth(s, v):
                        out.append((s2, 1 if b else 0))
                else:
                    self.line = n.get('l', self.line)
                    out.append((s, self.intcast(s, v, ft, t, explicit=n.get('ex') or n['k'] != 'ImplicitCastExpr')))
            return out
        if ck == 'IntegralToBoolean':
            return [(s, (1 if v else 0) if isinstance(v, int) else v if self.is_bool_val(s, v) else ('cmp', '!=', v, 0)) for s, v in self.ev_rv(e, st)]
        if ck == 'FloatingToBoolean':
            return [(s, ('cmp', '!=', v, ('fconst', 0.0))) for s, v in self.ev_rv(e, st)]
        if ck in ('PointerToBoolean', 'MemberPointerToBoolean'):
            return [(s, self.ptr_bool(v)) for s, v in self.ev_rv(e, st)]
        if ck == 'NullToPointer':
            return [(st, NULL)]
        if ck == 'IntegralToFloating':
            out = []
            for s, v in self.ev_rv(e, st):
                if isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
                    for s2, b in self.truth(s, v):
                        out.append((s2, ('fconst', 1.0 if b else 0.0)))
                else:
                    r = self.i2f(v)
                    if t.bits == 32:
                        # single precision holds 24 bits
                        if r[0] == 'fconst':
                            r = ('fconst', struct.unpack('f', struct.pack('f', r[1]))[0])
                        elif not (isinstance(v, Lin) and self.entails(s, add(v, 1 << 24)) and self.entails(s, sub(1 << 24, v))):
                            r = ('f2f', 32, r)
                    out.append((s, r))
            return out
        if ck == 'FloatingToIntegral':
            out = []
            for s, v in self.ev_rv(e, st):
                self.line = n.get('l', self.line)
                out.append((s, self.f2i(s, v, t)))
            return out
        if ck == 'FloatingCast':
            ft = self.T(st, e)
            return [(s, v if t.bits >= ft.bits or v[0] == 'fconst' else ('f2f', t.bits, v)) for s, v in self.ev_rv(e, st)]
        if ck == 'ArrayToPointerDecay':
            if e['k'] == 'StringLiteral':
                return [(st, ('cs', ('s', e.get('v', '')), True, 0))]
            out = []
            for s, loc in self.lv(e, st):
                out.append((s, self.decay(s, loc)))
            return out
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return self.ev(e, st)
        if ck == 'ToVoid':
            return [(s, None) for s, _ in self.ev_any(e, st)]
        if ck in ('BitCast',):
            return self.ev_rv(e, st)
        if ck in ('PointerToIntegral', 'IntegralToPointer'):
            out = []
            for s, v in self.ev_rv(e, st):
                if ck == 'IntegralToPointer':
                    if isinstance(v, Lin):
                        nn = single_atom(v)
                        if nn and nn[0] == 'p2i':
                            out.append((s, nn[1]))
                            continue
                    out.append((s, NULL if v == 0 else ('A', 'i2p', v)))
                else:
                    out.append((s, v[2] if isinstance(v, tuple) and v[:2] == ('A', 'i2p') else from_atom(('p2i', v)) if not isnum(v) else v))
            return out
        if ck == 'LValueBitCast':
            return [(s, ('L', loc)) for s, loc in self.lv(e, st)]
        raise Unsupported('cast ' + ck)

    ev_CXXStaticCastExpr = ev_ImplicitCastExpr
    ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_ImplicitCastExpr
    ev_CStyleCastExpr = ev_ImplicitCastExpr
    ev_CXXFunctionalCastExpr = ev_ImplicitCastExpr
    ev_CXXDynamicCastExpr = ev_ImplicitCastExpr

    def is_bool_val(self, st, v):
        if isinstance(v, tuple):
            return True
        a = single_atom(v) if isinstance(v, Lin) else None
        return a is not None and self.range_of_atom(atom_id(a)) == (0, 1)

    def ptr_bool(self, v):
        if v == NULL or v == 0:
            return 0
        if isinstance(v, tuple) and v and v[0] in ('P', 'cs', 'fn', 's'):
            return 1
        return ('cmp', '!=', v, NULL)

    def decay(self, st, loc):
        if loc[0] == 'lit':
            return ('cs', ('s', loc[1]), True, 0)
        if loc[0] == 'c':
            o = st.heap[loc[1]]
            if o.m.get('lit') is not None:
                return ('cs', ('s', o.m['lit']), True, 0)
            return P(('e', loc[1], 0))
        if loc[0] == 'f':
            v = self.read(st, loc)
            if isinstance(v, tuple) and v and v[0] == 'O':
                return P(('e', v[1], 0))
        return ('A', 'unk', self.uid())

    def coerce_read(self, st, v, t):
        """a value read back through a signed type"""
        if isinstance(v, Lin) and t.cls in ('int', 'enum') and t.signed:
            n = single_atom(v)
            if n and n[0] == 'le':
                r = from_atom(('les',) + n[1:])
                w = n[1] * 8
                self.rng.setdefault(r.t[0][0][0], (-(1 << (w - 1)), (1 << (w - 1)) - 1))
                return r
        return v

    def intcast(self, st, v, ft, t, explicit=False, quietly=False):
        if not isnum(v):
            return v
        if t.cls == 'bool':
            return (1 if v else 0) if isinstance(v, int) else ('cmp', '!=', v, 0)
        bits, sg = t.bits or 32, t.signed
        if t.cls == 'enum':
            return v
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            v &= (1 << bits) - 1
            if sg and v > hi:
                v -= 1 << bits
            return v
        fb, fs = ft.bits or 32, ft.signed
        if ft.cls == 'bool' or (ft.cls == 'int' and (fs == sg and fb <= bits or (not fs and sg and fb < bits))):
            return v
        n = single_atom(v)
        if n and n[0] in ('shr',) and bits == 8:
            return self.byte(0, v)
        if n and n[0] == 'byte':
            return v
        if n and n[0] == 'le' and sg and bits == n[1] * 8:
            return self.coerce_read(st, v, t)
        if n and n[0] in ('shr', 'or') and not sg and bits in (16, 32) and bits < fb:
            by = self.bytes_of(st, v, bits // 8)
            if by:
                return self.pack(st, by, t)
        if bits == 8 and not sg and fb > 8 and not (self.entails(st, v) and self.entails(st, sub(255, v))):
            return self.byte(0, v)
        if self.entails(st, sub(v, lo)) and self.entails(st, sub(hi, v)):
            self.narrow(st, v, ft, t, True)
            return v
        self.narrow(st, v, ft, t, False)
        if bits >= fb and n and n[0] in ('pl', 'sel', 'arg', 'les', 'le', 'p2i'):
            # same width: a bit reinterpretation
            if n[0] == 'p2i':
                return v
        if not sg and self.entails(st, sub(-1, v)) and self.entails(st, add(v, 1 << bits)):
            return add(v, 1 << bits)
        r = from_atom(('conv', bits, sg, v))
        self.rng.setdefault(r.t[0][0][0], (lo, hi))
        return r

    def narrow(self, st, v, ft, t, okay):
        """hook: integer narrowing"""
        pass

    def f2i(self, st, v, t):
        if isinstance(v, tuple) and v[0] == 'fconst':
            try:
                return int(v[1])
            except (OverflowError, ValueError):
                return self.unk(t.base)
        if isinstance(v, tuple) and v[0] == 'i2f':
            return v[1]
        self.f2i_hook(st, v, t)
        r = from_atom(('f2i', t.bits, t.signed, v))
        lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
        self.rng.setdefault(r.t[0][0][0], (lo, hi))
        return r

    def f2i_hook(self, st, v, t):
        pass

    def lv_InitListExpr(self, n, st):
        if n.get('vk') in ('l', 'x') and len(n['c']) == 1:
            # T & r{ object }
            return self.lv(n['c'][0], st)
        return [(s, self.temp_loc(s, v, self.T(s, n))) for s, v in self.ev(n, st)]

    def ev_InitListExpr(self, n, st):
        t = self.T(st, n)
        if n.get('vk') in ('l', 'x') and len(n['c']) == 1:
            return self.ev(n['c'][0], st)
        k = kind_of(t.base)
        c = n['c']
        if len(c) == 1 and k != 'arr' and self.T(st, c[0]).base == t.base:
            return self.ev(c[0], st)
        if not is_obj_type(t.base) and k != 'arr':
            if not c:
                return [(st, self.default_value(t.base))]
            return self.ev_rv(c[0], st)
        states = [(st, ())]
        for x in c:
            states = [(s2, vs + (v,)) for s, vs in states for s2, v in self.ev_rv(x, s)]
        out = []
        for s, vs in states:
            if k == 'arr':
                oid = self.empty_obj(s, t.base)
                upd = tuple(('pt', i, v) for i, v in enumerate(vs))
                s.heap[oid] = s.heap[oid].set(upd=upd, base=None)
                out.append((s, ('O', oid)))
            elif k == 'rec':
                oid = self.empty_obj(s, t.base, {'fresh': True})
                rec = self.prog.records.get(t.base)
                f = {}
                if rec:
                    if rec.get('union'):
                        s.heap[oid] = Obj('rec', {'u': vs[0]} if vs else {}, t.base, True, {'union': True})
                        out.append((s, ('O', oid)))
                        continue
                    for fd, v in zip(rec['fields'], vs):
                        f[fd['name']] = v
                s.heap[oid] = s.heap[oid].set(**f)
                out.append((s, ('O', oid)))
            else:
                oid = self.empty_obj(s, t.base)
                out.append((s, ('O', oid)))
        return out

    def ev_CXXStdInitializerListExpr(self, n, st):
        e = n['e']
        while e['k'] in ('MaterializeTemporaryExpr', 'ImplicitCastExpr'):
            e = e['e']
        out = []
        states = [(st, ())]
        for x in e.get('c', ()):
            states = [(s2, vs + (v,)) for s, vs in states for s2, v in self.ev_rv(x, s)]
        return [(s, ('il', vs)) for s, vs in states]

    def ev_ArraySubscriptExpr(self, n, st):
        return [(s, ('L', loc)) for s, loc in self.lv_ArraySubscriptExpr(n, st)]

    def ev_MemberExpr(self, n, st):
        return [(s, ('L', loc)) for s, loc in self.lv_MemberExpr(n, st)]

    def ev_CXXNewExpr(self, n, st):
        t = st.frames[-1].types[n['at']]
        init = n.get('init')
        if n.get('place') and not n.get('nothrow'):
            raise Unsupported('placement new')
        if n.get('array'):
            out = []
            for s, sz in (self.ev_rv(n['size'], st) if n.get('size') else [(st, None)]):
                if not n.get('nothrow'):
                    self.may_oom(s)
                oid = self.new_obj(s, 'vec', {'base': ('uninit', self.uid()), 'upd': (), 'size': sz if isnum(sz) else self.unk('unsigned long')},
                                   t.base + '[]', {'heap': True, 'array': True, 'alloc': self.where(s)})
                out.append((s, P(('e', oid, 0))))
            return out
        if not n.get('nothrow'):
            self.may_oom(st)
        if init is None:
            oid = self.empty_obj(st, t.base, {'heap': True, 'alloc': self.where(st)})
            if not is_obj_type(t.base):
                st.heap[oid] = st.heap[oid].set(v=self.default_value(t.base) if kind_of(t.base) in ('str', 'cx') else ('A', 'uninit', oid))
            return [(st, P(('c', oid)))]
        out = []
        for s, v in self.ev(init, st):
            if isinstance(v, tuple) and v and v[0] == 'L':
                v = self.read(s, v[1])
            if isinstance(v, tuple) and v and v[0] == 'O':
                oid = v[1]
                o = s.heap[oid]
                s.heap[oid] = Obj(o.kind, o.f, t.base if o.kind != 'vec' or not o.t else o.t, o.alive, dict(o.m, heap=True, alloc=self.where(s)))
            else:
                oid = self.new_cell(s, v, t.base, {'heap': True, 'alloc': self.where(s)})
            out.append((s, P(('c', oid))))
        return out

    def ev_CXXDeleteExpr(self, n, st):
        out = []
        for s, v in self.ev_rv(n['e'], st):
            self.line = n['l']
            if isinstance(v, tuple) and v and v[0] == 'P':
                oid = v[1][1]
                o = s.heap.get(oid)
                arr = bool(o is not None and o.m.get('array'))
                if o is not None and arr != bool(n.get('array')) and o.m.get('heap'):
                    self.event(s, 'C02', 'bad-release', 'array form of delete does not match the allocation')
                if o is not None and o.kind == 'rec' and o.alive:
                    self.release_rec(s, oid, out)
                    continue
                self.release(s, oid, 'delete')
            out.append((s, None))
        return out

    def release_rec(self, st, oid, out):
        d = self.find_dtor(st.heap[oid].t)
        if d is not None:
            for s, _ in self.call(st, d, ('c', oid), []):
                self.release(s, oid, 'delete')
                out.append((s, None))
        else:
            self.release(st, oid, 'delete')
            out.append((st, None))

    # ------------------------------------------------------------ construction
    def ev_CXXConstructExpr(self, n, st):
        t = self.T(st, n)
        base = t.base
        k = kind_of(base)
        c = n['callee']
        a = n['a']
        fn = self.prog.fns.get(c['usr'])
        if k == 'arr' and not a:
            oid = self.empty_obj(st, base)
            e = base[:base.rfind('[')].strip()
            n_ = st.heap[oid].f['size']
            if not is_obj_type(e) and isinstance(n_, int) and n_ <= 64 and '[' not in e:
                st.heap[oid] = st.heap[oid].set(upd=tuple(('pt', i, self.default_value(e)) for i in range(n_)))
            return [(st, ('O', oid))]
        # elided / trivial wrapping of an object prvalue
        if len(a) == 1 and n.get('elide'):
            r = self.ev(a[0], st)
            return [(s, v if not (isinstance(v, tuple) and v and v[0] == 'L') else self.copy_value(s, v[1], base)) for s, v in r]
        if k == 'gc' and self.copyctor_model(c) :
            hook = self.hooks.get('gc_copy')
            if hook and not (self.stack and c['usr'] == self.top_usr()):
                out = []
                for s, loc in self.lv(a[0], st):
                    out += hook(s, loc)
                return out
        if fn is not None and (fn.body is not None) and k in ('gc', 'rec', 'vec', 'other') and c.get('repo'):
            out = []
            states = self.eval_args(st, fn.d['pt'], fn.types, a)
            for s, ops in states:
                if k == 'gc':
                    oid = self.new_obj(s, 'gc', {'tag': from_atom(('unk', 'rawtag', self.uid())), 'mem': None, 'val': None}, base, {'raw': True})
                elif k == 'vec':
                    oid = self.empty_obj(s, base)
                else:
                    oid = self.new_rec(s, base)
                for s2, _ in self.call(s, fn, ('c', oid), ops):
                    out.append((s2, ('O', oid)))
            return out
        return self.construct_model(n, st, base, k, c, a)

    def copyctor_model(self, c):
        return False

    def top_usr(self):
        return self.stack[-1]

    def new_rec(self, st, base):
        oid = self.empty_obj(st, base, {'fresh': True})
        rec = self.prog.records.get(base)
        if rec is None:
            return oid
        if rec.get('union'):
            o = st.heap[oid]
            st.heap[oid] = Obj('rec', {}, base, True, {'union': True, 'fresh': True})
            return oid
        f = {}
        for fd in rec['fields']:
            ft = rec['_types'][fd['t']]
            if ft.ref:
                continue
            if is_obj_type(ft.base):
                if kind_of(ft.base) == 'rec':
                    f[fd['name']] = ('O', self.new_rec(st, ft.base))
                else:
                    f[fd['name']] = ('O', self.empty_obj(st, ft.base))
            elif kind_of(ft.base) in ('str', 'sv', 'cx', 'uptr', 'iter', 'miter'):
                f[fd['name']] = self.default_value(ft.base)
            else:
                f[fd['name']] = ('A', 'uninit', oid, fd['name']) if kind_of(ft.base) not in ('int', 'bool') else self.mkatom(ft.base, ('uninit', oid, fd['name']))
        st.heap[oid] = st.heap[oid].set(**f)
        return oid

    def copy_value(self, st, loc, base):
        """copy of the object at loc as an rvalue"""
        loc = self.resolve(st, loc)
        v = self.read(st, loc)
        if isinstance(v, tuple) and v and v[0] == 'O':
            return ('O', self.clone(st, v[1]))
        return v

    def clone(self, st, oid):
        """independent copy of an object (deep, by value)"""
        o = self.obj(st, oid)
        if o.kind == 'gc':
            term = self.gcterm(st, oid)
            self.may_oom(st)
            return self.materialise(st, o.t, term, {'copyof': oid})
        if o.kind in ('vec', 'map'):
            self.fold_kids(st, oid, drop=False)
            o = st.heap[oid]
            self.may_oom(st)
            f = dict(o.f)
            f['upd'] = tuple(('pt',) + u[1:] if u[0] == 'kidpt' else u for u in f['upd'])
            return self.new_obj(st, o.kind, f, o.t, {'unk': True} if o.m.get('unk') else None)
        if o.kind == 'cell':
            if kind_of(o.t) in ('str',):
                self.may_oom(st)
            return self.new_cell(st, o.f['v'], o.t)
        if o.kind == 'rec':
            f = {}
            for k, v in o.f.items():
                if isinstance(v, tuple) and v and v[0] == 'O':
                    v = ('O', self.clone(st, v[1]))
                f[k] = v
            return self.new_obj(st, 'rec', f, o.t, {x: y for x, y in o.m.items() if x in ('union', 'fresh')})
        return self.new_obj(st, o.kind, dict(o.f), o.t)

    def copy_into(self, st, dst, src):
        """value of object src assigned to object dst (same kind)"""
        so = self.obj(st, src)
        do = self.obj(st, dst, 'write')
        if dst == src:
            return
        if so.kind in ('vec', 'map'):
            self.fold_kids(st, src, drop=False)
            so = st.heap[src]
            self.may_oom(st)
            for (p, k), kid in list(st.kids.items()):
                if p == dst:
                    self.destroy(st, kid)
                    st.kids.pop((p, k), None)
            # the source may live inside the destination
            f = dict(do.f)
            for x in so.f:
                if x in ('size', 'base', 'upd', 'known') or x in f:
                    f[x] = so.f[x]
            f['upd'] = tuple(('pt',) + u[1:] if u[0] == 'kidpt' else u for u in f['upd'])
            st.heap[dst] = Obj(do.kind, f, do.t, True, do.m)
            return
        if so.kind == 'cell':
            st.heap[dst] = do.set(v=so.f['v'])
            return
        if so.kind == 'rec':
            f = dict(do.f)
            for k, v in so.f.items():
                if isinstance(v, tuple) and v and v[0] == 'O' and isinstance(f.get(k), tuple) and f[k][0] == 'O':
                    self.copy_into(st, f[k][1], v[1])
                elif isinstance(v, tuple) and v and v[0] == 'O':
                    f[k] = ('O', self.clone(st, v[1]))
                else:
                    f[k] = v
            st.heap[dst] = Obj(do.kind, f, do.t, True, do.m)
            return
        if so.kind == 'stream':
            return
        raise Unsupported('copy of ' + so.kind)

    def assign(self, st, loc, v, t):
        """built-in assignment; returns states"""
        if loc[0] == 'f' and loc[1] in st.heap and st.heap[loc[1]].kind == 'gc' and st.heap[loc[1]].f['mem'] == '?' \
                and st.heap[loc[1]].f['tag'] != v:
            self.sync_gc(st, loc[1])
            if st.heap[loc[1]].f['mem'] == '?' and not self.unowned(st, loc[1]):
                out = []
                for s in self.limit(self.split_gc(st, loc[1])):
                    out += self.assign(s, loc, v, t)
                return out
        if isinstance(v, tuple) and v and v[0] == 'L':
            v = self.read(st, v[1])
        if isinstance(v, tuple) and v and v[0] == 'O':
            if loc[0] == 'c' and st.heap[loc[1]].kind != 'cell':
                self.copy_into(st, loc[1], v[1])
                return [st]
        if isinstance(v, tuple) and v and v[0] in ('cmp', 'not') and loc[0] in ('e', 'u'):
            out = []
            for s, b in self.truth(st, v):
                self.write(s, loc, 1 if b else 0)
                out.append(s)
            return out
        self.write(st, loc, v)
        return [st]

    # ------------------------------------------------------------ calls
    def eval_args(self, st, pts, types, args):
        """[(state, operands)], operand = ('L', loc) for references, plain value otherwise"""
        states = [(st, [])]
        for i, a in enumerate(args):
            pt = types[pts[i]] if i < len(pts) else None
            nxt = []
            for s, ops in states:
                if (pt is not None and pt.ref) or (pt is None and a.get('vk')):
                    for s2, loc in self.lv(a, s):
                        nxt.append((s2, ops + [('L', loc)]))
                else:
                    for s2, v in self.ev(a, s):
                        if isinstance(v, tuple) and v and v[0] == 'L':
                            v = self.copy_value(s2, v[1], self.T(s2, a).base)
                        nxt.append((s2, ops + [v]))
            states = nxt
        return self.limit(states)

    def ev_call(self, n, st):
        """[(state, value or ('L', loc))]"""
        line = n.get('l', self.line)
        self.line = line
        c = n.get('callee')
        if c is None:
            return self.call_value(n, st)
        cur = st.frames[-1].types
        fn = self.prog.fns.get(c['usr'])
        args = list(n['a'])
        objn = n.get('obj')
        method = c.get('m') and not c.get('static')
        if n['k'] == 'CXXOperatorCallExpr' and method:
            objn, args = args[0], args[1:]
        res = []
        # object operand
        if method:
            if objn is None:
                raise Unsupported('method without object')
            if n.get('arrow') and not n['k'] == 'CXXOperatorCallExpr':
                objs = [(s, self.deref(s, v, pointee(self.T(s, objn).base), check=True)) for s, v in self.ev_rv(objn, st)]
            else:
                objs = self.lv(objn, st)
        else:
            objs = [(st, None)]
        for s, this in objs:
            if this is not None:
                this = self.resolve(s, this)
            for s2, ops in self.eval_args(s, c['pt'], cur, args):
                self.line = line
                res += self.invoke(s2, c, fn, this, ops, n)
        return self.limit(res)

    def invoke(self, st, c, fn, this, ops, n):
        q = c['q'].replace('std::__cxx11::', 'std::')
        h = self.hooks.get(q)
        if h is not None:
            r = h(self, st, c, fn, this, ops, n)
            if r is not None:
                return r
        if fn is not None and fn.body is not None and (c.get('repo') or fn.d.get('repo') or '(lambda' in q or c['usr'] in self.prog.fns):
            if fn.usr in self.stack and not ('(lambda' in q or 'operator()' in q and self.stack.count(fn.usr) < 3):
                return self.recursive(st, fn, this, ops, n)
            if len(self.stack) > 0 and (fn.n in self.modular or fn.const and fn.n in self.modular_elem and this is not None and this[0] == 'c'
                                        and this[1] in st.heap and 'elem' in st.heap[this[1]].m):
                return self.opaque_call(st, fn, this, ops)
            if len(st.frames) > self.MAXDEPTH:
                raise Unsupported('call depth')
            lam = None
            if this is not None and this[0] == 'c' and st.heap[this[1]].kind == 'cell':
                v = st.heap[this[1]].f['v']
                if isinstance(v, tuple) and v and v[0] == 'lam':
                    lam = v
            return self.call(st, fn, this, ops, lam)
        if fn is not None and fn.body is None and c.get('repo') and c.get('dflt'):
            return self.defaulted(st, c, fn, this, ops, n)
        return self.external(st, c, q, this, ops, n)

    def defaulted(self, st, c, fn, this, ops, n):
        if c['n'] == 'operator=' and this is not None and ops:
            self.copy_into(st, this[1], self.as_loc(st, ops[0])[1])
            return [(st, ('L', this))]
        return [(st, None)]

    def recursive(self, st, fn, this, ops, n):
        h = self.summaries.get(fn.q)
        if h is not None:
            r = h(self, st, fn, this, ops, n)
            if r is not None:
                return r
        return self.opaque_call(st, fn, this, ops)

    PLAIN = ('at', 'stoi', 'stol', 'stoul', 'stoll', 'stod', 'stof', 'substr', 'compare', 'basic_regex', 'regex_match', 'regex_search', 'value')

    def can_throw(self, fn):
        """(errors, allocation failures) that may leave fn: least fixpoint over the call graph"""
        memo = self.__dict__.setdefault('_thrown', {})
        if not memo:
            from capi import ext_nothrow
            from astq import bodies, kids
            direct, calls = {}, {}
            for u, f in self.prog.fns.items():
                if f.body is None:
                    continue
                d, cs = [False, False], set()

                def go(n, cov):
                    if n is None or not isinstance(n, dict):
                        return
                    k = n.get('k')
                    if k == 'CXXTryStmt':
                        c2 = cov or any(h.get('all') for h in n['h'])
                        go(n['body'], c2)
                        for h in n['h']:
                            if h.get('body'):
                                go(h['body'], cov)
                        return
                    if not cov:
                        if k == 'CXXThrowExpr':
                            d[0] = True
                        elif k == 'CXXNewExpr':
                            d[1] = True
                        c = n.get('callee')
                        if c and not c.get('nx'):
                            g = self.prog.fns.get(c['usr'])
                            if g is not None and g.body is not None:
                                cs.add(c['usr'])
                            elif c.get('noret'):
                                d[0] = True
                            elif c['n'] in self.PLAIN or (not c['q'].startswith('std::') and not c['q'].startswith('__') and '::' in c['q'] and not c['n'].startswith('operator')):
                                d[0] = True
                            elif not ext_nothrow(c):
                                d[1] = True
                    for _, x in kids(n):
                        go(x, cov)
                for b in bodies(f):
                    go(b, False)
                direct[u], calls[u] = d, cs
            ch = True
            while ch:
                ch = False
                for u, cs in calls.items():
                    d = direct[u]
                    for v in cs:
                        g = self.prog.fns[v]
                        if g.nx or g.d.get('dtor'):
                            continue
                        e = direct.get(v)
                        if e is None:
                            continue
                        for i in (0, 1):
                            if e[i] and not d[i]:
                                d[i] = True
                                ch = True
            memo.update(direct)
            memo[None] = None
        if fn.nx or fn.d.get('dtor'):
            return False, False
        d = memo.get(fn.usr)
        return (True, True) if d is None else tuple(d)

    def opaque_call(self, st, fn, this, ops):
        """summary of a call already being analysed: touched containers become arbitrary valid ones"""
        plain, oom = self.can_throw(fn)
        if plain and not fn.noret:
            self.may_throw(st, 'callee exception')
        elif oom:
            self.may_oom(st)
        if this is not None and not fn.const:
            self.havoc_loc(st, this)
        for p, o in zip(fn.ptypes(), ops):
            if p.ref and not p.const and isinstance(o, tuple) and o and o[0] == 'L':
                self.havoc_loc(st, o[1])
            elif not p.ref and not p.pconst and isinstance(o, tuple) and o and o[0] == 'P':
                self.havoc_loc(st, o[1])
        return [(st, self.fresh_ret(st, fn.rt, ('ret', fn.n, self.uid())))]

    def fresh_ret(self, st, rt, name):
        if rt.cls == 'void':
            return None
        name = ('unk',) + name
        if rt.ref:
            return ('L', ('c', self.sym_obj(st, rt.base, name, {'unk': True})))
        if is_obj_type(rt.base):
            return ('O', self.sym_obj(st, rt.base, name, {'unk': True}))
        return self.mkatom(rt.base, name)

    def havoc_loc(self, st, loc):
        loc = self.resolve(st, loc)
        if loc[0] != 'c':
            if loc[0] in ('e', 'f', 'u'):
                try:
                    cur = self.read(st, loc)
                    if isnum(cur):
                        self.write(st, loc, self.unk('long'))
                    else:
                        self.write(st, loc, ('A', 'unk', self.uid()))
                except Unsupported:
                    st.inexact += ('havoc',)
            return
        oid = loc[1]
        o = st.heap[oid]
        if o.kind == 'gc':
            v = o.f.get('val')
            if isinstance(v, tuple) and v[0] == 'P' and v[1][0] == 'c':
                p = st.heap.get(v[1][1])
                if p is not None and p.alive and p.m.get('heap'):
                    st.heap[v[1][1]] = Obj(p.kind, p.f, p.t, p.alive, dict(p.m, unk=True))
                    self.destroy(st, v[1][1])
            nm = ('unk', self.uid())
            tag = from_atom(('tag', nm))
            st.heap[oid] = Obj('gc', {'tag': tag, 'mem': '?', 'val': None}, o.t, o.alive, dict(o.m, origin=nm, init=None))
        elif o.kind in ('vec', 'map'):
            for (p, k), kid in list(st.kids.items()):
                if p == oid:
                    st.kids.pop((p, k), None)
            nm = ('unk', self.uid())
            f = dict(o.f)
            f['base'] = nm
            f['upd'] = ()
            f['size'] = self.nat_atom(('unk', self.uid()))
            if 'known' in f:
                f['known'] = ()
            for k in f:
                if k not in ('base', 'upd', 'size', 'known'):
                    f[k] = self.nat_atom(('unk', self.uid()))
            st.heap[oid] = Obj(o.kind, f, o.t, o.alive, o.m)
        elif o.kind == 'cell':
            v = o.f['v']
            if isnum(v):
                st.heap[oid] = o.set(v=self.unk(o.t if o.t in INTS else 'long'))
            else:
                st.heap[oid] = o.set(v=('A', 'unk', self.uid()))
        elif o.kind == 'rec':
            for k, v in list(o.f.items()):
                if isinstance(v, tuple) and v and v[0] == 'O':
                    self.havoc_loc(st, ('c', v[1]))
                elif isnum(v):
                    st.heap[oid] = st.heap[oid].set(**{k: self.unk('long')})
                elif not (isinstance(v, tuple) and v and v[0] == 'ref'):
                    st.heap[oid] = st.heap[oid].set(**{k: ('A', 'unk', self.uid())})

    def call(self, st, fn, this, ops, lam=None):
        """inline a function of the repository: [(state, value)]"""
        self.count('calls')
        if not self.quiet:
            self.fnstats.add(fn.usr)
        before = self.uid()
        env = {}
        if lam is not None:
            env.update(dict(lam[2]))
            this = lam[3]
        scope = []
        for p, o in zip(fn.ps, ops):
            pt = fn.types[p['t']]
            if pt.ref:
                env[p['id']] = self.as_loc_val(st, o, pt)
            else:
                if isinstance(o, tuple) and o and o[0] == 'L':
                    o = self.copy_value(st, o[1], pt.base)
                if isinstance(o, tuple) and o and o[0] == 'O':
                    env[p['id']] = ('c', o[1])
                    scope.append(o[1])
                else:
                    oid = self.new_cell(st, o, pt.base)
                    env[p['id']] = ('c', oid)
                    scope.append(oid)
        st.frames = st.frames + (Frame(fn, env, this, (tuple(scope),), fn.types),)
        self.stack.append(fn.usr)
        depth = len(st.frames)
        self.collectors.append([])
        out = []
        saved_line = self.line
        try:
            states = [st]
            if fn.d.get('ctor'):
                states = self.run_inits(st, fn, this)
            rets = []
            for s in states:
                for kind, s2, v in self.ex(fn.body, s):
                    if kind == 'ret':
                        rets.append((s2, v))
                    elif kind == 'n':
                        rets.append((s2, None))
                    else:
                        raise Unsupported('stray ' + kind)
            for s, v in rets:
                # value results survive the end of the locals
                keep = None
                if isinstance(v, tuple) and v and v[0] == 'O':
                    keep = v[1]
                    f = s.frames[-1]
                    sc = tuple(tuple(x for x in g if x != keep) for g in f.scopes)
                    s.frames = s.frames[:-1] + (Frame(f.fn, f.env, f.this, sc, f.types),)
                for s2 in self.scope_pop(s, 0):
                    out.append((s2, v))
        finally:
            thrown = self.collectors.pop()
            self.stack.pop()
            self.line = saved_line
        for s, v in out:
            s.frames = s.frames[:depth - 1]
        deep = self.merging or (self.stack and self.merge_deep)
        if len(out) > (4 if deep else 24):
            out = self.merge_results(out, before)
        if len(thrown) > (8 if deep else 32):
            for s in thrown:
                s.frames = s.frames[:depth]
                self.forget(s, before)
            thrown = [s for s, _ in self.merge_results([(s, None) for s in thrown], before)]
        for s in thrown:
            self.collectors.append([])
            try:
                exc = s.exc
                fr = s.frames[:depth]
                s.frames = fr
                for s2 in self.scope_pop(s, 0):
                    s2.exc = exc
                    s2.frames = s2.frames[:depth - 1]
                    if not fn.nx and self.collectors[:-1]:
                        self.collectors[-2].append(s2)
            finally:
                self.collectors.pop()
        if fn.noret:
            return []
        return self.limit(out)

    def as_loc_val(self, st, o, pt):
        if isinstance(o, tuple) and o and o[0] == 'L':
            return o[1]
        if isinstance(o, tuple) and o and o[0] == 'O':
            return ('c', o[1])
        return ('c', self.new_cell(st, o, pt.base))

    def run_inits(self, st, fn, this):
        states = [st]
        oid = this[1]
        for i in fn.d.get('inits', ()):
            e = i.get('e')
            nxt = []
            for s in states:
                if e is None:
                    nxt.append(s)
                    continue
                if 'base' in i:
                    o = s.heap[oid]
                    bt = fn.types[i['base']].base
                    if o.kind == 'vec' and kind_of(bt) == 'vec':
                        for s2, v in self.ev(e, s):
                            if isinstance(v, tuple) and v and v[0] == 'O':
                                self.steal(s2, oid, v[1])
                            nxt.append(s2)
                    else:
                        for s2, v in self.ev(e, s):
                            if isinstance(v, tuple) and v and v[0] == 'O' and s2.heap[v[1]].kind == 'rec' and o.kind == 'rec':
                                f = dict(s2.heap[oid].f)
                                f.update(s2.heap[v[1]].f)
                                s2.heap[oid] = s2.heap[oid].set(**f)
                            nxt.append(s2)
                    continue
                if 'field' not in i:
                    # delegating constructor
                    for s2, v in self.ev(e, s):
                        if isinstance(v, tuple) and v and v[0] == 'O':
                            self.steal(s2, oid, v[1])
                        nxt.append(s2)
                    continue
                name = i['field']
                o = s.heap[oid]
                if o.kind == 'gc':
                    if name == self.F_TAG:
                        for s2, v in self.ev_rv(e, s):
                            self.write(s2, ('f', oid, 'tag'), v)
                            nxt.append(s2)
                    else:
                        nxt.append(s)
                    continue
                rec = self.prog.records.get(o.t)
                isref = False
                if rec:
                    for fd in rec['fields']:
                        if fd['name'] == name and rec['_types'][fd['t']].ref:
                            isref = True
                if isref:
                    for s2, loc in self.lv(e, s):
                        s2.heap[oid] = s2.heap[oid].set(**{name: ('ref', loc)})
                        nxt.append(s2)
                    continue
                for s2, v in self.ev_rv(e, s):
                    s2.heap[oid] = s2.heap[oid].set(**{name: v})
                    nxt.append(s2)
            states = nxt
        return states

    def steal(self, st, dst, src):
        """dst takes over the content of the temporary src"""
        so, do = st.heap[src], st.heap[dst]
        f = dict(do.f)
        for k, v in so.f.items():
            f[k] = v
        st.heap[dst] = Obj(do.kind, f, do.t, True, do.m)
        for (p, k), kid in list(st.kids.items()):
            if p == src:
                st.kids.pop((p, k))
                st.kids[(dst, k)] = kid

    def call_value(self, n, st):
        """call through a function value"""
        out = []
        for s, v in self.ev_rv(n['fn'], st):
            if isinstance(v, tuple) and v and v[0] == 'fn':
                fn = self.prog.fns.get(v[1])
                if fn is not None and fn.body is not None:
                    for s2, ops in self.eval_args(s, fn.d['pt'], fn.types, n['a']):
                        if fn.usr in self.stack:
                            out += self.recursive(s2, fn, None, ops, n)
                        else:
                            out += self.call(s2, fn, None, ops)
                    continue
            for s2, ops in self.eval_args(s, [], [], n['a']):
                self.may_throw(s2, 'unknown callee')
                for o in ops:
                    if isinstance(o, tuple) and o and o[0] == 'L':
                        self.havoc_loc(s2, o[1])
                out.append((s2, self.fresh_ret(s2, self.T(s2, n), ('callptr', self.uid()))))
        return out

    # ------------------------------------------------------------ statements
    def ex(self, n, st):
        """[(kind, state, value)], kind in n, br, ct, ret"""
        if n is None:
            return [('n', st, None)]
        k = n['k']
        if 'l' in n:
            self.line = n['l']
        self.nsteps += 1
        if self.nsteps > self.MAXSTEPS:
            raise Unsupported('budget of abstract steps')
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(n, st)
        return [('n', s, None) for s, _ in self.ev_any(n, st)]

    def ex_NullStmt(self, n, st):
        return [('n', st, None)]

    def ex_CompoundStmt(self, n, st):
        return self.ex_seq(n['c'], st)

    def ex_seq(self, stmts, st):
        depth = len(st.frames[-1].scopes)
        self.scope_push(st)
        states = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in states:
                for kind, s2, v in self.ex(x, s):
                    if kind == 'n':
                        nxt.append(s2)
                    else:
                        out.append((kind, s2, v))
            states = self.limit(nxt)
            if len(states) > 12:
                states = self.merge(states)
            if not states:
                break
        out += [('n', s, None) for s in states]
        res = []
        for kind, s, v in out:
            if kind == 'ret':
                # locals die when the frame is left; a returned local object survives
                res.append((kind, s, v))
                continue
            for s2 in self.scope_pop(s, depth):
                res.append((kind, s2, v))
        return res

    def merge(self, states):
        """join states that differ in nothing observable"""
        seen = {}
        for s in states:
            key = (frozenset((i, id(o)) for i, o in s.heap.items()), s.facts, frozenset(s.dom.items()), s.trace, s.frames)
            if key not in seen:
                seen[key] = s
            else:
                a = seen[key]
                if s.joined or a.bools != s.bools:
                    a.joined = True
                a.bools = {k: v for k, v in a.bools.items() if s.bools.get(k) == v}
                n = 0
                for x, y in zip(a.log, s.log):
                    if x != y:
                        break
                    n += 1
                a.log = a.log[:n]
        return list(seen.values())

    nsteps = 0
    MAXSTEPS = 1500000
    OIDTAGS = frozenset(('O', 'c', 'e', 'f', 'u', 'ud', 'mp', 'mi'))
    merging = False
    keep_alts = False
    merge_deep = False      # join the results of nested calls early
    modular_elem = ()
    modular = ()            # operations whose calls from other operations are replaced by the summary

    def inner_atoms(self, a):
        """the atoms the atom a is a function of"""
        memo = self.__dict__.setdefault('_inner', {})
        r = memo.get(a)
        if r is None:
            r = set()
            for t in walk_terms(atom_name(a)):
                if t[:1] not in (('pl',), ('arg',)):
                    for x in t:
                        if isinstance(x, Lin):
                            for b in atoms_of(x):
                                r.add(b)
                                r |= self.inner_atoms(b)
            r = memo[a] = frozenset(r)
        return r

    def canon(self, s, v, before):
        """what is observable in a result, new objects numbered in order of first use; (key, live atoms, reached objects)"""
        names, work, atoms = {}, [], set()

        def num(i):
            if i < before:
                return i
            k = names.get(i)
            if k is None:
                k = names[i] = ('n', len(names))
                work.append(i)
            return k

        def ren(x):
            if isinstance(x, Lin):
                for a in atoms_of(x):
                    if a not in atoms:
                        atoms.add(a)
                        ren(atom_name(a))
                return x
            if isinstance(x, tuple):
                if len(x) > 1 and x[0] in self.OIDTAGS and x[1].__class__ is int:
                    return (x[0], num(x[1])) + tuple(ren(y) for y in x[2:])
                return tuple([ren(y) for y in x])
            return x
        kids = {}
        for (p, k), kid in s.kids.items():
            kids.setdefault(p, []).append((k, kid))
        key = [ren(v)]
        old = sorted(i for i in s.heap if i < before)
        lost = sorted(i for i, o in s.heap.items() if i >= before and o.alive and (o.m.get('heap') or o.m.get('static')))

        def obj(i, tag):
            o = s.heap.get(i)
            if o is None:
                key.append((tag, None))
                return
            if not o.alive:
                key.append((tag, False, o.m.get('unk')))
                return
            key.append((tag, o.kind, tuple((a, ren(b)) for a, b in sorted(o.f.items())), o.t,
                        tuple((a, b) for a, b in sorted(o.m.items(), key=lambda z: str(z[0])) if a in ('heap', 'lazy', 'unk', 'absorbed', 'alloc', 'moved', 'static', 'param'))))
            if i in kids:
                key.append(tuple((ren(k), num(kid)) for k, kid in sorted(kids[i], key=lambda z: (z[1] >= before, str(z[0])))))
        for i in old:
            obj(i, i)
        for p in kids:
            if not isinstance(p, int):
                key.append((p, tuple((ren(k), num(kid)) for k, kid in sorted(kids[p], key=lambda z: str(z[0])))))
        for f in s.frames:
            for x in f.scopes:
                for i in x:
                    num(i)
            for l in f.env.values():
                ren(l)
        done = 0
        while True:
            while done < len(work):
                obj(work[done], names[work[done]])
                done += 1
            lost = [i for i in lost if i not in names]
            if not lost:
                break
            num(lost[0])
        key.append(ren(s.trace))
        facts = frozenset(f for f in s.facts if any(a in atoms or not atoms.isdisjoint(self.inner_atoms(a)) for a in atoms_of(f)))
        dom = frozenset((a, d) for a, d in s.dom.items() if a in atoms)
        e = s.exc
        return (tuple(key), facts, dom, (e.t, e.oom) if e is not None else None), names

    def forget(self, s, before):
        """containers whose stored type was looked at in this call, and nothing else, become undetermined again"""
        cand = {}
        for i, o in s.heap.items():
            w = o.m.get('was')
            if w is None or o.kind != 'gc' or not o.alive or (o.f['tag'], o.f['val']) != o.m['split']:
                continue
            v = o.f['val']
            pl = None
            if isinstance(v, tuple) and v and v[0] == 'P':
                pl = v[1][1]
                q = s.heap.get(pl)
                if pl < before or q is None or not q.alive or (q.f is not q.m.get('init') and q.f != q.m.get('init')):
                    continue
            elif i < before and not (w.f['tag'] in s.heap):
                # a payload by value: the split may be older than this call
                continue
            cand[i] = pl
        if not cand:
            return
        pls = {p for p in cand.values() if p is not None}
        used = set()
        for i, o in s.heap.items():
            if i in cand:
                continue
            for v in o.f.values():
                if isinstance(v, tuple):
                    used.update(x for x in self.oids_in(v) if x in pls)
        for (p, k), kid in s.kids.items():
            if p in pls:
                used.add(p)
        for i, p in cand.items():
            if p is None or p in used:
                continue
            w = s.heap[i].m['was']
            s.heap[i] = w
            del s.heap[p]
            t = w.f['tag']
            if isinstance(t, Lin):
                s.dom.pop(t.t[0][0][0], None)
                s.dom[t.t[0][0][0]] = self.alltags

    def merge_results(self, res, before):
        """states that differ only in what nothing can refer to any more become one"""
        seen, out = {}, []
        for s, v in res:
            try:
                key, names = self.canon(s, v, before)
                h = hash(key)
            except TypeError:
                out.append((s, v))
                continue
            a = seen.get(key)
            if a is None:
                for i in [i for i, o in s.heap.items() if i >= before and i not in names]:
                    if not s.heap[i].alive or not s.heap[i].m.get('heap'):
                        del s.heap[i]
                seen[key] = s
                s.facts = tuple(f for f in s.facts if f in key[1])
                keep = {x for x, _ in key[2]}
                s.dom = {x: d for x, d in s.dom.items() if x in keep}
                out.append((s, v))
                continue
            a.bools = {k: b for k, b in a.bools.items() if s.bools.get(k) == b}
            if a.uni != s.uni:
                a.uni = tuple(u for u in a.uni if u in s.uni or u[0] == 'lost') + tuple(u for u in s.uni if u[0] == 'lost' and u not in a.uni)
            n = 0
            for x, y in zip(a.log, s.log):
                if x != y:
                    break
                n += 1
            a.log = a.log[:n]
            a.joined = True
            if s.inexact and not a.inexact:
                a.inexact = s.inexact
        return out

    def ex_DeclStmt(self, n, st):
        states = [st]
        for d in n['d']:
            states = [s2 for s in states for s2 in self.declare(d, s)]
        return [('n', s, None) for s in states]

    def declare(self, d, st):
        t = st.frames[-1].types[d['t']]
        init = d.get('init')
        out = []
        if d.get('static'):
            key = ('static', (st.frames[-1].fn.usr, d['id']))
            oid = st.kids.get(key)
            if oid is None:
                if t.const and init is not None and not is_obj_type(t.base):
                    for s, v in self.ev_rv(init, st):
                        o = self.new_cell(s, v, t.base)
                        s.kids[key] = o
                        self.bind(s, d['id'], ('c', o))
                        out.append(s)
                    return out
                oid = self.sym_obj(st, t.base, ('static', d['name']), {'static': True})
                st.kids[key] = oid
            self.bind(st, d['id'], ('c', oid))
            return [st]
        if t.ref:
            for s, loc in self.lv(init, st):
                loc = self.resolve(s, loc)
                self.bind(s, d['id'], loc)
                out += self.bindings(d, s, loc)
            return out
        if init is None:
            if is_obj_type(t.base):
                oid = self.new_rec(st, t.base) if kind_of(t.base) == 'rec' else self.empty_obj(st, t.base)
            else:
                v = self.default_value(t.base) if kind_of(t.base) in ('str', 'sv', 'cx') else \
                    self.mkatom(t.base, ('uninit', self.uid()))
                oid = self.new_cell(st, v, t.base)
            self.bind(st, d['id'], ('c', oid))
            self.scope_add(st, oid)
            return [st]
        for s, v in self.ev(init, st):
            if isinstance(v, tuple) and v and v[0] == 'L':
                v = self.copy_value(s, v[1], t.base)
            if isinstance(v, tuple) and v and v[0] == 'O':
                oid = v[1]
                o = s.heap[oid]
                if o.m.get('static') or o.m.get('param') or 'elem' in o.m:
                    oid = self.clone(s, oid)
            elif t.cls == 'rec' and kind_of(t.base) == 'vec' and isinstance(v, tuple) and v and v[0] == 'A':
                oid = self.sym_obj(s, t.base, v, {'unk': True})
            else:
                if isinstance(v, tuple) and v and v[0] == 's' and kind_of(t.base) == 'arr':
                    oid = self.sym_obj(s, t.base, ('lit', v[1]), {'lit': v[1]})
                else:
                    oid = self.new_cell(s, v, t.base)
            self.bind(s, d['id'], ('c', oid))
            self.scope_add(s, oid)
            out += self.bindings(d, s, ('c', oid))
        return out

    def bindings(self, d, st, loc):
        """structured bindings"""
        if 'bind' not in d:
            return [st]
        for i, b in enumerate(d['bind']):
            part = 'first' if i == 0 else 'second'
            if loc[0] == 'mp' and len(loc) == 3:
                l2 = ('mp', loc[1], loc[2], 'first') if i == 0 else ('c', self.kid(st, loc[1], loc[2]))
            elif loc[0] == 'c' and st.heap[loc[1]].kind == 'cell' and isinstance(st.heap[loc[1]].f['v'], tuple) \
                    and st.heap[loc[1]].f['v'][0] == 'pair':
                l2 = self.member(st, loc, part, None)[0][1]
            elif loc[0] == 'c' and st.heap[loc[1]].kind == 'rec' and self.prog.records.get(st.heap[loc[1]].t):
                fd = self.prog.records[st.heap[loc[1]].t]['fields'][i]
                l2 = self.member(st, loc, fd['name'], b.get('e'))[0][1]
            else:
                bt = st.frames[-1].types[b['t']]
                l2 = ('c', self.sym_obj(st, bt.base, ('unk', self.uid()), {'unk': True}))
            self.bind(st, b['id'], l2)
            if 'hv' in b:
                self.bind(st, b['hv']['id'], l2)
        return [st]

    def ex_IfStmt(self, n, st):
        depth = len(st.frames[-1].scopes)
        self.scope_push(st)
        states = [st]
        for x in ('init', 'cvd'):
            if n.get(x):
                states = [s2 for s in states for _, s2, _ in self.ex(n[x], s)]
        out = []
        for s in states:
            for s2, b in self.cond(n['cond'], s):
                if b:
                    out += self.ex(n['then'], s2)
                else:
                    out += self.ex(n.get('else'), s2)
        res = []
        for kind, s, v in out:
            if kind == 'ret':
                res.append((kind, s, v))
            else:
                res += [(kind, s2, v) for s2 in self.scope_pop(s, depth)]
        return self.limit(res)

    def ex_ReturnStmt(self, n, st):
        e = n.get('e')
        if e is None:
            return [('ret', st, None)]
        rt = st.frames[-1].fn.rt
        if rt.ref:
            return [('ret', s, ('L', self.resolve(s, loc))) for s, loc in self.lv(e, st)]
        out = []
        for s, v in self.ev_any(e, st) if rt.cls == 'void' else self.ev(e, st):
            if isinstance(v, tuple) and v and v[0] == 'L':
                loc = v[1]
                v = self.read(s, loc)
                if isinstance(v, tuple) and v and v[0] == 'O' and self.is_local(s, v[1]):
                    pass
                elif isinstance(v, tuple) and v and v[0] == 'O':
                    v = ('O', self.clone(s, v[1]))
            out.append(('ret', s, v))
        return out

    def is_local(self, st, oid):
        return any(oid in sc for sc in st.frames[-1].scopes)

    def ex_BreakStmt(self, n, st):
        return [('br', st, None)]

    def ex_ContinueStmt(self, n, st):
        return [('ct', st, None)]

    def ex_LabelStmt(self, n, st):
        raise Unsupported('label')

    def ex_GotoStmt(self, n, st):
        raise Unsupported('goto')

    def ex_SwitchStmt(self, n, st):
        depth = len(st.frames[-1].scopes)
        self.scope_push(st)
        states = [st]
        for x in ('init', 'cvd'):
            if n.get(x):
                states = [s2 for s in states for _, s2, _ in self.ex(n[x], s)]
        body = n['body']
        stmts = body['c'] if body['k'] == 'CompoundStmt' else [body]
        flat = []       # (labels, stmt)
        labels = []
        for x in stmts:
            lab = []
            while x is not None and x['k'] in ('CaseStmt', 'DefaultStmt'):
                lab.append(x)
                x = x.get('sub')
            flat.append((lab, x))
        entry = {}
        default = None
        ranges = []
        for i, (lab, _) in enumerate(flat):
            for l in lab:
                if l['k'] == 'DefaultStmt':
                    default = i
                elif 'val2' in l:
                    ranges.append((int(l['val']), int(l['val2']), i))
                else:
                    entry.setdefault(int(l['val']), i)
        out = []
        for s in states:
            for s2, v in self.ev_rv(n['cond'], s):
                for s3, pos in self.dispatch(s2, v, entry, ranges, default):
                    if pos is None:
                        out.append(('n', s3, None))
                        continue
                    out += self.ex_seq([x for _, x in flat[pos:] if x is not None], s3)
        res = []
        for kind, s, v in out:
            if kind == 'br':
                kind = 'n'
            if kind == 'ret':
                res.append((kind, s, v))
            else:
                res += [(kind, s2, v) for s2 in self.scope_pop(s, depth)]
        return self.limit(res)

    def dispatch(self, st, v, entry, ranges, default):
        """[(state, position or None)]"""
        def pos_of(x):
            p = entry.get(x)
            if p is None:
                for lo, hi, i in ranges:
                    if lo <= x <= hi:
                        return i
                return default
            return p
        if isinstance(v, int):
            return [(st, pos_of(v))]
        if isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
            return [(s, pos_of(1 if b else 0)) for s, b in self.truth(st, v)]
        d = self.dom_of(st, v) if isinstance(v, Lin) else None
        if d is not None:
            a, c, dd = d
            groups = {}
            for x in dd:
                groups.setdefault(pos_of(x + c), set()).add(x)
            out = []
            items = sorted(groups.items(), key=lambda kv: min(kv[1]))
            for i, (p, xs) in enumerate(items):
                s = st if i == len(items) - 1 else st.copy()
                s.dom[a] = frozenset(xs)
                out.append((s, p))
            return out
        if isinstance(v, Lin):
            out = []
            cur = st
            for x, p in sorted(entry.items()):
                nxt = None
                for s, b in self.truth_cmp(cur, '==', v, x):
                    if b:
                        out.append((s, p))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            for lo, hi, i in ranges:
                s2 = cur.copy()
                if self.assume(s2, sub(v, lo)) and self.assume(s2, sub(hi, v)):
                    out.append((s2, i))
            out.append((cur, default))
            return out
        out = []
        for x, p in sorted(entry.items()):
            out.append((st.copy(), p))
        out.append((st, default))
        return out

    def ex_CXXTryStmt(self, n, st):
        depth_f = len(st.frames)
        depth_s = len(st.frames[-1].scopes)
        self.collectors.append([])
        nt, self.nothrow = self.nothrow, 0
        try:
            out = self.ex(n['body'], st)
        finally:
            thrown = self.collectors.pop()
            self.nothrow = nt
        res = list(out)
        for s in thrown:
            exc = s.exc
            s.frames = s.frames[:depth_f]
            for s2 in self.scope_pop(s, depth_s):
                s2.exc = exc
                self.count('handled')
                res += self.handle(n, s2, exc)
        return self.limit(res)

    def handle(self, n, st, exc):
        for h in n['h']:
            m = True if h.get('all') else self.catches(st, st.frames[-1].types[h['ct']].base, exc)
            if m is False:
                continue
            s = st
            if m is None:
                s = st.copy()
            depth = len(s.frames[-1].scopes)
            self.scope_push(s)
            if h.get('var') and 'id' in h['var']:
                t = s.frames[-1].types[h['var']['t']]
                oid = self.new_cell(s, ('A', 'exception', exc.t), t.base)
                self.bind(s, h['var']['id'], ('c', oid))
            saved = exc
            out = []
            for kind, s2, v in self.ex(h['body'], s):
                if kind == 'ret':
                    out.append((kind, s2, v))
                else:
                    out += [(kind, s3, v) for s3 in self.scope_pop(s2, depth)]
            for kind, s2, v in out:
                s2.log += (('caught', exc.t, exc.oom, True),)
            if m is None:
                return out + self.handle_rest(n, st, exc, h)
            return out
        self.throw(st, exc)
        return []

    def handle_rest(self, n, st, exc, h):
        i = n['h'].index(h)
        return self.handle({'h': n['h'][i + 1:]}, st, exc)

    STDEXC = {'std::exception': ('std::',), 'std::runtime_error': ('std::runtime_error', 'std::overflow_error', 'std::range_error', 'std::system_error', 'std::regex_error'),
              'std::logic_error': ('std::logic_error', 'std::out_of_range', 'std::length_error', 'std::invalid_argument')}

    def catches(self, st, t, exc):
        if exc.t in ('callee exception', 'unknown callee', 'rethrown'):
            return None
        if exc.t == t:
            return True
        p = self.STDEXC.get(t)
        if p:
            if t == 'std::exception' and exc.t.startswith('std::'):
                return True
            if exc.t in p:
                return True
            if not exc.t.startswith('std::'):
                rec = self.prog.records.get(exc.t)
                if rec and any(rec['_types'][b].base in p or (t == 'std::exception' and rec['_types'][b].base.startswith('std::')) for b in rec['bases']):
                    return True
                if '::' in exc.t and rec is None:
                    return None
        return False

    # ------------------------------------------------------------ loops
    def ex_ForStmt(self, n, st):
        depth = len(st.frames[-1].scopes)
        self.scope_push(st)
        out = []
        for _, s, _ in self.ex(n.get('init'), st):
            out += self.loop(s, n,
                             (lambda s: self.cond(n['cond'], s)) if n.get('cond') else (lambda s: [(s, True)]),
                             lambda s: self.ex(n['body'], s),
                             (lambda s: [x for x, _ in self.ev_any(n['inc'], s)]) if n.get('inc') else (lambda s: [s]))
        return self.close_scope(out, depth)

    def close_scope(self, out, depth):
        res = []
        for kind, s, v in out:
            if kind == 'ret':
                res.append((kind, s, v))
            else:
                res += [(kind, s2, v) for s2 in self.scope_pop(s, depth)]
        return res

    def ex_WhileStmt(self, n, st):
        def cnd(s):
            if n.get('cvd'):
                r = []
                for _, s2, _ in self.ex(n['cvd'], s):
                    r += self.cond(n['cond'], s2)
                return r
            return self.cond(n['cond'], s)
        return self.loop(st, n, cnd, lambda s: self.ex(n['body'], s), lambda s: [s])

    def ex_DoStmt(self, n, st):
        # body; while(cond) body
        out = []
        for kind, s, v in self.ex(n['body'], st):
            if kind == 'br':
                out.append(('n', s, None))
            elif kind == 'ret':
                out.append((kind, s, v))
            else:
                out += self.loop(s, n, lambda s: self.cond(n['cond'], s), lambda s: self.ex(n['body'], s), lambda s: [s])
        return out

    def ex_CXXForRangeStmt(self, n, st):
        depth = len(st.frames[-1].scopes)
        self.scope_push(st)
        out = []
        states = [st]
        if n.get('init'):
            states = [s2 for s in states for _, s2, _ in self.ex(n['init'], s)]
        for s in states:
            for s2, loc in self.lv(n['range'], s):
                out += self.range_loop(s2, n, self.resolve(s2, loc))
        return self.close_scope(out, depth)

    def range_loop(self, st, n, loc):
        var = n['var']
        if loc[0] in ('f', 'u', 'e', 'mp', 'lit', 'chr') or (loc[0] == 'c' and st.heap[loc[1]].kind == 'cell'):
            v = self.read(st, loc) if loc[0] != 'lit' else ('s', loc[1])
            if isinstance(v, tuple) and v and v[0] == 'il':
                # brace list: a sequence of known values
                oid = self.new_obj(st, 'vec', {'base': None, 'upd': tuple(('pt', i, x) for i, x in enumerate(v[1])), 'size': len(v[1])}, '')
                loc = ('c', oid)
            else:
                return self.range_string(st, n, v)
        if loc[0] != 'c':
            raise Unsupported('range ' + str(loc[0]))
        oid = loc[1]
        o = self.obj(st, oid)
        if o.kind not in ('vec', 'map'):
            return self.range_opaque(st, n)
        h = self.new_cell(st, 0, 'unsigned long', {'hidden': True})
        size0 = o.f['size']

        def cnd(s):
            i = s.heap[h].f['v']
            oo = self.obj(s, oid)
            return self.truth_cmp(s, '!=', i, oo.f['size'])

        def body(s):
            i = s.heap[h].f['v']
            f = s.frames[-1]
            depth = len(f.scopes)
            self.scope_push(s)
            el = ('mp', oid, i) if o.kind == 'map' else self.resolve(s, ('e', oid, i))
            t = f.types[var['t']]
            ss = [s]
            conv = self.element_conv(s, o, t)
            if conv and (t.ref or el[0] == 'e'):
                self.bind(s, var['id'], ('c', self.new_cell(s, conv(self.copy_value(s, el, t.base)), t.base)))
            elif t.ref:
                self.bind(s, var['id'], el)
                ss = self.bindings(var, s, el)
            else:
                if el[0] == 'mp':
                    v = ('pair', self.key_of(s, oid, i), ('O', self.clone(s, self.kid(s, oid, i))))
                else:
                    v = self.copy_value(s, el, t.base)
                if kind_of(t.base) == 'bitref':
                    v = ('bit', el)
                c = v[1] if isinstance(v, tuple) and v and v[0] == 'O' else self.new_cell(s, v, t.base)
                self.bind(s, var['id'], ('c', c))
                ss = self.bindings(var, s, ('c', c))
            res = []
            for s1 in ss:
                for kind, s2, v in self.ex(n['body'], s1):
                    if kind == 'ret':
                        res.append((kind, s2, v))
                    else:
                        res += [(kind, s3, v) for s3 in self.scope_pop(s2, depth)]
            return res

        def inc(s):
            i = s.heap[h].f['v']
            s.heap[h] = s.heap[h].set(v=add(i, 1))
            return [s]
        return self.loop(st, n, cnd, body, inc)

    def element_conv(self, st, o, t):
        """the conversion of an element to the type of the loop variable, or None"""
        if o.kind != 'vec' or not o.t:
            return None
        a, b = strip_const(elem_type(o.t)), strip_const(t.base)
        if a == b or kind_of(a) not in ('int', 'float') or kind_of(b) not in ('int', 'float'):
            return None
        return self.conv_fn(st, o.t, 'std::vector<%s>' % b)

    def range_string(self, st, n, v):
        """characters of a text"""
        var = n['var']
        h = self.new_cell(st, 0, 'unsigned long', {'hidden': True})
        ln = self.str_len(st, v)

        def cnd(s):
            return self.truth_cmp(s, '!=', s.heap[h].f['v'], ln)

        def body(s):
            i = s.heap[h].f['v']
            f = s.frames[-1]
            depth = len(f.scopes)
            self.scope_push(s)
            c = self.new_cell(s, self.mkatom('char', ('ch', v, i)), 'char')
            self.bind(s, var['id'], ('c', c))
            res = []
            for kind, s2, vv in self.ex(n['body'], s):
                if kind == 'ret':
                    res.append((kind, s2, vv))
                else:
                    res += [(kind, s3, vv) for s3 in self.scope_pop(s2, depth)]
            return res

        def inc(s):
            s.heap[h] = s.heap[h].set(v=add(s.heap[h].f['v'], 1))
            return [s]
        return self.loop(st, n, cnd, body, inc)

    def range_opaque(self, st, n):
        """iteration over a foreign sequence: arbitrary number of arbitrary elements"""
        var = n['var']
        h = self.new_cell(st, 0, 'unsigned long', {'hidden': True})
        ln = self.nat_atom(('unk', self.uid()))

        def cnd(s):
            return self.truth_cmp(s, '!=', s.heap[h].f['v'], ln)

        def body(s):
            f = s.frames[-1]
            depth = len(f.scopes)
            self.scope_push(s)
            t = f.types[var['t']]
            c = self.sym_obj(s, t.base, ('unk', self.uid()), {'unk': True})
            self.bind(s, var['id'], ('c', c))
            self.bindings(var, s, ('c', c))
            res = []
            for kind, s2, vv in self.ex(n['body'], s):
                if kind == 'ret':
                    res.append((kind, s2, vv))
                else:
                    res += [(kind, s3, vv) for s3 in self.scope_pop(s2, depth)]
            return res

        def inc(s):
            s.heap[h] = s.heap[h].set(v=add(s.heap[h].f['v'], 1))
            return [s]
        return self.loop(st, n, cnd, body, inc)

    def str_len(self, st, v):
        if isinstance(v, tuple):
            if v[0] == 's':
                return len(v[1].encode('utf-8', 'surrogateescape'))
            if v[0] == 'cat':
                return add(self.str_len(st, v[1]), self.str_len(st, v[2]))
            if v[0] == 'chr1':
                return 1
            if v[0] == 'trunc' and isnum(v[2]):
                return v[2]
            if v[0] == 'strof':
                L = self.nat_atom(('len', v))
                if not v[1]:
                    return 0
                if self.nonempty_trace(v[1]):
                    self.rng[L.t[0][0][0]] = (1, (1 << 31) - 1)
                return L
        if is_unk(v):
            return self.nat_atom(('len', v))
        return self.nat_atom(('len', v))
