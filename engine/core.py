import functools
from interp import *


def v_shl(n, val):
    r = val(n[1]) << max(0, min(64, val(n[2])))
    # the width of the operation is not recorded
    return r if 0 <= r < 1 << 31 else None


# meaning of the operations on bits, from the values of the operands
BITWISE = {
    'byte': lambda n, val: (val(n[2]) >> (8 * max(0, min(16, val(n[1]))))) & 255,
    'or': lambda n, val: functools.reduce(lambda x, y: x | y, [val(v) << max(0, min(64, val(sh))) for sh, v in n[1]], 0),
    'shl': v_shl,
    'shr': lambda n, val: val(n[1]) >> max(0, min(64, val(n[2]))),
    'and': lambda n, val: val(n[1]) & val(n[2]),
}


def operands(n):
    """the integer terms an atom is computed from"""
    if n[0] == 'conv':
        return [n[3]]
    if n[0] == 'byte':
        return [n[1], n[2]]
    if n[0] == 'or':
        return [y for p in n[1] for y in p]
    return [n[1], n[2]] if n[0] in ('shl', 'shr', 'and') else []


def bitwise(v):
    """the term is computed with operations on bits"""
    if isinstance(v, Lin):
        return any(atom_name(a)[0] in BITWISE or atom_name(a)[0] in ('bit^', 'bit|', 'bit&') or bitwise(atom_name(a)) for a in atoms_of(v))
    return isinstance(v, tuple) and any(bitwise(x) for x in v if isinstance(x, (tuple, Lin)))


class Event:
    __slots__ = ('prop', 'kind', 'msg', 'file', 'line', 'fn', 'ctx', 'verdict', 'stack')

    def __init__(self, prop, kind, msg, file, line, fn, ctx, verdict, stack=()):
        self.prop, self.kind, self.msg, self.file, self.line = prop, kind, msg, file, line
        self.fn, self.ctx, self.verdict, self.stack = fn, ctx, verdict, stack

    def key(self):
        return (self.prop, self.kind, self.file, self.line, self.msg)

    def __repr__(self):
        return '%s %s %s:%s in %s: %s [%s] via %s' % (self.verdict, self.prop, self.file, self.line, self.fn, self.msg,
                                                      self.ctx, ' < '.join(self.stack))


class Core:
    """state primitives: facts, memory, container typestate, sequences"""
    MAXSTATES = 600

    def __init__(self, prog):
        self.prog = prog
        self.events = {}
        self.quiet = 0
        self.counter = 0
        self.rng = {}
        self.collectors = []
        self.ctx = ''
        self.oom = True          # allocation may fail
        self.counts = {}
        self.stack = []
        self.hooks = {}
        self.loops = {}
        self.unsupported = {}
        self.init_layout()

    # -- layout of the container class, taken from the program ------------
    def init_layout(self):
        rec = self.prog.records.get(GC)
        uni = self.prog.records.get(GC + '::DataStorage')
        en = self.prog.enums.get(NS + 'GC_type')
        self.F_DATA = self.F_TAG = None
        if rec is None or en is None:
            return
        T = rec['_types']
        for f in rec['fields']:
            b = T[f['t']].base
            if b == NS + 'GC_type':
                self.F_TAG = f['name']
            else:
                self.F_DATA = f['name']
                ub = b
                u2 = self.prog.records.get(b)
                if u2 is not None:
                    uni = u2
        self.tagval = dict(en)
        self.tagname = {v: k for k, v in en.items()}
        self.alltags = frozenset(en.values())
        want = {'void *': 'POINTER', 'bool': 'BOOL', 'int': 'INTEGER', 'long': 'LONG', 'double': 'REAL'}
        el = {'void *': 'POINTER', 'bool': 'BOOL', 'int': 'INTEGER', 'long': 'LONG', 'double': 'REAL'}
        self.mem_type = {}
        self.tagmem = {'NOTYPE': None}
        if uni is None:
            return
        UT = uni['_types']
        for f in uni['fields']:
            b = UT[f['t']].base
            self.mem_type[f['name']] = b
            tag = None
            if b in want:
                tag = want[b]
            else:
                p = pointee(b)
                k = kind_of(p)
                if k == 'cx':
                    tag = 'COMPLEX'
                elif k == 'str':
                    tag = 'STRING'
                elif k == 'map':
                    tag = 'MAP'
                elif k == 'vec':
                    e = elem_type(p)
                    ek = kind_of(e)
                    nm = el.get(e) or {'cx': 'COMPLEX', 'str': 'STRING', 'gc': 'GC'}.get(ek)
                    if p.startswith(NS + 'mat_type'):
                        tag = 'MAT_' + nm
                    else:
                        tag = 'VECTOR' if nm == 'GC' else 'VEC_' + nm
            if tag:
                self.tagmem[tag] = f['name']
        for t in self.tagval:
            if t not in self.tagmem:
                self.tagmem[t] = None if t == 'NOTYPE' else '?missing'
        self.memtag = {m: t for t, m in self.tagmem.items() if m}

    # -- events -----------------------------------------------------------
    def count(self, k, n=1):
        if not self.quiet:
            self.counts[k] = self.counts.get(k, 0) + n

    def where(self, st):
        fr = st.frames[-1] if st.frames else None
        return (fr.fn.file if fr else '?'), self.line

    def event(self, st, prop, kind, msg, verdict='viol'):
        if self.quiet:
            return
        if verdict == 'viol' and st is not None and st.inexact:
            verdict = 'undec'
        f, l = self.where(st)
        fn = st.frames[-1].fn.q if st is not None and st.frames else '?'
        stack = tuple(fr.fn.q.replace(NS, '') for fr in reversed(st.frames)) if st is not None else ()
        e = Event(prop, kind, msg, f, l, fn, self.ctx, verdict, stack)
        k = e.key() + (verdict,)
        if k not in self.events:
            self.events[k] = e
        self.count('event.%s.%s.%s' % (prop, kind, verdict))

    def ok(self, prop, kind):
        self.count('event.%s.%s.ok' % (prop, kind))

    # -- fresh values -----------------------------------------------------
    def uid(self):
        self.counter += 1
        return self.counter

    def set_range(self, lin_or_id, lo, hi):
        a = lin_or_id if isinstance(lin_or_id, int) else atom_id(single_atom(lin_or_id))
        self.rng[a] = (lo, hi)

    def mkatom(self, base, name):
        """symbolic value of type base called name"""
        k = kind_of(base)
        if k in ('int', 'bool'):
            v = from_atom(name)
            aid = v.t[0][0][0]
            if aid not in self.rng:
                if base == NS + 'GC_type':
                    self.rng[aid] = (min(self.alltags), max(self.alltags))
                elif k == 'bool':
                    self.rng[aid] = (0, 1)
                else:
                    bits, sg = INTS.get(base, (32, True))
                    self.rng[aid] = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            return v
        return ('A',) + tuple(name)

    def unk(self, base):
        return self.mkatom(base, ('unk', self.uid()))

    def nat_atom(self, name, hi=(1 << 31) - 1):
        v = from_atom(name)
        aid = v.t[0][0][0]
        if aid not in self.rng:
            self.rng[aid] = (0, hi)
        return v

    def range_of_atom(self, aid):
        r = self.rng.get(aid)
        if r is None:
            n = atom_name(aid)
            if n[0] in ('size', 'len', 'k', 'msz', 'rows', 'cols'):
                r = (0, (1 << 31) - 1)
            elif n[0] == 'sum':
                r = (0, None)
            elif n[0] == 'byte':
                r = (0, 255)
            else:
                r = (None, None)
            self.rng[aid] = r
        return r

    # -- facts ------------------------------------------------------------
    def relevant(self, st, L):
        need = set(atoms_of(L)) if not isinstance(L, int) else set()
        facts = list(st.facts)
        out = []
        used = [False] * len(facts)
        fa = [atoms_of(f) for f in facts]
        ch = True
        while ch:
            ch = False
            for i, f in enumerate(facts):
                if not used[i] and (need & set(fa[i])):
                    used[i] = True
                    out.append(f)
                    n = len(need)
                    need |= set(fa[i])
                    ch = True
        for a in need:
            lo, hi = self.range_of_atom(a)
            d = st.dom.get(a)
            if d is not None:
                lo, hi = min(d), max(d)
            x = Lin((((a,), 1),), 0)
            if lo is not None:
                out.append(add(x, -lo))
            if hi is not None:
                out.append(sub(hi, x))
        return out

    def quick_bounds(self, st, L):
        """interval of L from atom ranges only"""
        lo = hi = L.c
        for m, k in L.t:
            if len(m) == 1:
                a, b = self.range_of_atom(m[0])
                d = st.dom.get(m[0])
                if d is not None:
                    a, b = min(d), max(d)
            else:
                a, b = 1, 1
                for x in m:
                    r = self.range_of_atom(x)
                    if r[0] is None or r[0] < 0:
                        a = None
                        b = None
                        break
                    a = a * r[0]
                    b = None if (b is None or r[1] is None) else b * r[1]
            if k > 0:
                lo = None if (lo is None or a is None) else lo + k * a
                hi = None if (hi is None or b is None) else hi + k * b
            else:
                lo = None if (lo is None or b is None) else lo + k * b
                hi = None if (hi is None or a is None) else hi + k * a
        return lo, hi

    def entails(self, st, L):
        """L >= 0 follows"""
        if isinstance(L, int):
            return L >= 0
        lo, hi = self.quick_bounds(st, L)
        if lo is not None and lo >= 0:
            return True
        if L in st.facts:
            return True
        neg1 = sub(-1, L)
        return infeasible(self.relevant(st, L) + [neg1])

    def contradicts(self, st, L):
        """L >= 0 is impossible"""
        if isinstance(L, int):
            return L < 0
        lo, hi = self.quick_bounds(st, L)
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        return infeasible(self.relevant(st, L) + [L])

    def assume(self, st, L):
        if isinstance(L, int):
            return L >= 0
        if L not in st.facts:
            if self.contradicts(st, L):
                return False
            st.facts = st.facts + (L,)
        return True

    def assume_eq(self, st, a, b):
        d = sub(a, b)
        return self.assume(st, d) and self.assume(st, neg(d))

    def equal(self, st, a, b):
        """provably equal numbers"""
        if a == b:
            return True
        if isnum(a) and isnum(b):
            d = sub(a, b)
            if isinstance(d, int):
                return d == 0
            return self.entails(st, d) and self.entails(st, neg(d))
        return False

    def distinct(self, st, a, b):
        d = sub(a, b)
        if isinstance(d, int):
            return d != 0
        key = ('eq', d)
        if st.bools.get(key) is False or st.bools.get(('eq', neg(d))) is False:
            return True
        return self.contradicts(st, d) or self.contradicts(st, neg(d))

    # -- truth of conditions -----------------------------------------------
    def truth(self, st, v):
        """[(state, bool)] : partition on the truth of v"""
        if isinstance(v, int):
            return [(st, v != 0)]
        if isinstance(v, Lin):
            return self.truth_cmp(st, '!=', v, 0)
        if v == NULL:
            return [(st, False)]
        if isinstance(v, tuple):
            if v[0] == 'not':
                return [(s, not b) for s, b in self.truth(st, v[1])]
            if v[0] == 'cmp':
                return self.truth_cmp(st, v[1], v[2], v[3])
            if v[0] in ('P', 'fn', 'lam', 'cs', 's', 'O'):
                return [(st, True)]
            if v[0] == 'A' or v[0] == 'fconst':
                if v[0] == 'fconst':
                    return [(st, v[1] != 0.0)]
                return self.truth_atom(st, ('nz', v))
        return self.truth_atom(st, v)

    def truth_atom(self, st, key):
        if key in st.bools:
            return [(st, st.bools[key])]
        s2 = st.copy()
        st.bools[key] = True
        s2.bools[key] = False
        st.log = st.log + (('b', key, None, True),)
        s2.log = s2.log + (('b', key, None, False),)
        return [(st, True), (s2, False)]

    def dom_of(self, st, L):
        """finite domain of the single atom L (+const), or None"""
        n = L.t
        if len(n) == 1 and len(n[0][0]) == 1 and n[0][1] == 1:
            a = n[0][0][0]
            d = st.dom.get(a)
            if d is None:
                nm = atom_name(a)
                if nm[0] == 'tag':
                    d = self.alltags
                elif self.range_of_atom(a) == (0, 1):
                    d = frozenset((0, 1))
            if d is not None:
                return a, L.c, d
        return None

    NEGOP = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}

    def truth_cmp(self, st, op, a, b):
        if not (isnum(a) and isnum(b)):
            return self.truth_gen(st, op, a, b)
        d = sub(a, b)
        if isinstance(d, int):
            r = {'<': d < 0, '>': d > 0, '<=': d <= 0, '>=': d >= 0, '==': d == 0, '!=': d != 0}[op]
            st.log = st.log + ((op, a, b, r),)
            return [(st, r)]
        dm = self.dom_of(st, d)
        if dm is None:
            dm2 = self.dom_of(st, neg(d))
            if dm2 is not None:
                aid, c, dd = dm2
                f = lambda x: -(x + c)
                dm = (aid, f, dd)
        else:
            aid, c, dd = dm
            dm = (aid, (lambda x, c=c: x + c), dd)
        if dm is not None:
            aid, f, dd = dm
            import operator
            o = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[op]
            yes = frozenset(x for x in dd if o(f(x), 0))
            no = dd - yes
            out = []
            if yes and no:
                s2 = st.copy()
                st.dom[aid] = yes
                s2.dom[aid] = no
                st.log += ((op, a, b, True),)
                s2.log += ((op, a, b, False),)
                if self.dom_ok(st, aid):
                    out.append((st, True))
                if self.dom_ok(s2, aid):
                    out.append((s2, False))
                return out
            r = bool(yes)
            st.log += ((op, a, b, r),)
            return [(st, r)]
        if op in ('==', '!='):
            key = ('eq', d)
            kn = ('eq', neg(d))
            known = st.bools.get(key, st.bools.get(kn))
            if known is None:
                if self.contradicts(st, d) or self.contradicts(st, neg(d)):
                    known = False
                elif self.entails(st, d) and self.entails(st, neg(d)):
                    known = True
            if known is not None:
                r = known if op == '==' else not known
                st.log += ((op, a, b, r),)
                return [(st, r)]
            s2 = st.copy()
            # st: equal
            out = []
            if self.assume(st, d) and self.assume(st, neg(d)):
                st.bools[key] = True
                st.log += ((op, a, b, op == '=='),)
                out.append((st, op == '=='))
            s2.bools[key] = False
            if self.entails(s2, d):
                self.assume(s2, add(d, -1))
            elif self.entails(s2, neg(d)):
                self.assume(s2, add(neg(d), -1))
            s2.log += ((op, a, b, op != '=='),)
            out.append((s2, op != '=='))
            return out
        # ordering
        if op == '<':
            L = sub(neg(d), 1)
        elif op == '>':
            L = sub(d, 1)
        elif op == '<=':
            L = neg(d)
        else:
            L = d
        if self.entails(st, L):
            st.log += ((op, a, b, True),)
            return [(st, True)]
        nl = sub(-1, L)
        if self.contradicts(st, L):
            st.log += ((op, a, b, False),)
            return [(st, False)]
        s2 = st.copy()
        out = []
        st.facts += (L,)
        s2.facts += (nl,)
        self.sharpen(st, d)
        self.sharpen(s2, d)
        st.log += ((op, a, b, True),)
        s2.log += ((op, a, b, False),)
        return [(st, True), (s2, False)]

    def dom_ok(self, st, aid):
        """numeric facts about aid are still satisfiable"""
        if not any(aid in atoms_of(f) for f in st.facts):
            return True
        return not infeasible(self.relevant(st, Lin((((aid,), 1),), 0)))

    def sharpen(self, st, d):
        """a known disequality next to a new inequality"""
        for k in (('eq', d), ('eq', neg(d))):
            if st.bools.get(k) is False:
                if self.entails(st, d):
                    self.assume(st, add(d, -1))
                elif self.entails(st, neg(d)):
                    self.assume(st, add(neg(d), -1))

    def truth_gen(self, st, op, a, b):
        """comparison of non-integer values"""
        if op in ('==', '!='):
            r = self.gen_equal(st, a, b)
            if r is None:
                ka, kb = (a, b) if repr(a) <= repr(b) else (b, a)
                out = []
                for s, t in self.truth_atom(st, ('eqv', ka, kb)):
                    v = t if op == '==' else not t
                    s.log += ((op, a, b, v),)
                    out.append((s, v))
                return out
            v = r if op == '==' else not r
            st.log += ((op, a, b, v),)
            return [(st, v)]
        # float ordering: canonical  a >= b  /  a > b
        neg_ = False
        x, y, o = a, b, op
        if o == '<':
            x, y, o = b, a, '>'
        elif o == '<=':
            x, y, o = b, a, '>='
        x = self.i2f(x)
        y = self.i2f(y)
        if x[0] == 'fconst' and y[0] == 'fconst':
            r = x[1] > y[1] if o == '>' else x[1] >= y[1]
            st.log += ((op, a, b, r),)
            return [(st, r)]
        r = self.float_decide(st, o, x, y)
        if r is not None:
            st.log += ((op, a, b, r),)
            return [(st, r)]
        out = []
        for s, t in self.truth_atom(st, ('f' + o, x, y)):
            s.log += ((op, a, b, t),)
            out.append((s, t))
        return out

    def float_bounds(self, st, x):
        """known constant bounds of float value x: (lo, lo_strict, hi, hi_strict, not_nan) """
        lo = hi = None
        los = his = False
        for k, t in st.bools.items():
            if not (isinstance(k, tuple) and k[0] in ('f>', 'f>=')):
                continue
            s = k[0] == 'f>'
            if k[1] == x and k[2][0] == 'fconst':
                c = k[2][1]
                if t:
                    if lo is None or c > lo or (c == lo and s):
                        lo, los = c, s
            elif k[2] == x and k[1][0] == 'fconst':
                c = k[1][1]
                if t:
                    if hi is None or c < hi or (c == hi and s):
                        hi, his = c, s
        if x[0] == 'i2f':
            L = x[1]
            if isinstance(L, int):
                return float(L), False, float(L), False
            a, b = self.quick_bounds(st, L)
            if a is not None and (lo is None or a > lo):
                lo, los = float(a), False
            if b is not None and (hi is None or b < hi):
                hi, his = float(b), False
        return lo, los, hi, his

    def float_decide(self, st, o, x, y):
        if y[0] == 'fconst':
            lo, los, hi, his = self.float_bounds(st, x)
            c = y[1]
            if o == '>':
                if lo is not None and (lo > c or (lo == c and los)):
                    return True
                if hi is not None and hi <= c:
                    return False
            else:
                if lo is not None and lo >= c:
                    return True
                if hi is not None and (hi < c or (hi == c and his)):
                    return False
        elif x[0] == 'fconst':
            lo, los, hi, his = self.float_bounds(st, y)
            c = x[1]
            if o == '>':
                if hi is not None and (hi < c or (hi == c and his)):
                    return True
                if lo is not None and lo >= c:
                    return False
            else:
                if hi is not None and hi <= c:
                    return True
                if lo is not None and (lo > c or (lo == c and los)):
                    return False
        return None

    def i2f(self, v):
        if isinstance(v, int):
            return ('fconst', float(v))
        if isinstance(v, Lin):
            return ('i2f', v)
        return v

    def gen_equal(self, st, a, b):
        if a == b:
            if isinstance(a, tuple) and a[0] in ('A', 'fop', 'i2f', 'f2f', 're', 'im', 'fconst', 'cx') and self.floaty(a):
                # x == x may be false only for NaN: treated as a real partition
                return True
            return True
        pa, pb = isinstance(a, tuple) and a[0] in ('P', 'N', 'mi'), isinstance(b, tuple) and b[0] in ('P', 'N', 'mi')
        if pa and pb:
            if a[0] == 'N' or b[0] == 'N':
                return False
            if a[0] == 'mi' and b[0] == 'mi':
                return None
            la, lb = a[1], b[1]
            if la[0] == 'e' and lb[0] == 'e' and la[1] == lb[1]:
                return None if not self.equal(st, la[2], lb[2]) and not self.distinct(st, la[2], lb[2]) else self.equal(st, la[2], lb[2])
            if la[:2] != lb[:2]:
                return False
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 's' and b[0] == 's':
                return a[1] == b[1]
            if a[0] == 'fconst' and b[0] == 'fconst':
                return a[1] == b[1]
            # a string known to be non-empty against the empty literal
            for x, y in ((a, b), (b, a)):
                if x == ('s', '') and y[0] == 'strof':
                    return None if not self.nonempty_trace(y[1]) else False
        return None

    def floaty(self, a):
        return False

    @staticmethod
    def nonempty_trace(tr):
        for e in tr:
            if e[0] == 'out' and isinstance(e[1], tuple) and e[1][0] == 's' and e[1][1]:
                return True
            if e[0] == 'out' and (isinstance(e[1], (int, Lin)) or isinstance(e[1], tuple) and e[1][0] == 'chr1'):
                return True
            if e[0] == 'out' and isinstance(e[1], tuple) and e[1][0] == 'strof' and Core.nonempty_trace(e[1][1]):
                return True
        return False

    # -- exceptions ---------------------------------------------------------
    nothrow = 0         # exceptions leave to where nobody looks at them

    def throw(self, st, exc):
        st.exc = exc
        if not self.collectors or self.nothrow:
            return
        self.collectors[-1].append(st)

    def may_oom(self, st):
        """an allocation happens here: record the state in which it fails"""
        if not self.oom or self.nothrow:
            return
        col = self.collectors[-1] if self.collectors else None
        if col is None:
            return
        sig = self.oom_sig(st)
        for s in col:
            if s.exc.oom and s.note and s.note[-1] == sig:
                return
        s = st.copy()
        s.exc = Exc('std::bad_alloc', True, self.where(st))
        s.note = (sig,)
        col.append(s)

    def oom_sig(self, st):
        return (len(st.frames), frozenset((i, id(o)) for i, o in st.heap.items()
                                          if o.kind in ('gc', 'vec', 'map') or not o.alive or o.m.get('heap')))

    def may_throw(self, st, what):
        if not self.collectors or self.nothrow:
            return
        s = st.copy()
        s.exc = Exc(what, False, self.where(st))
        self.collectors[-1].append(s)

    # -- objects -------------------------------------------------------------
    def new_obj(self, st, kind, f, t='', m=None):
        oid = self.uid()
        mm = dict(m or {})
        mm.setdefault('init', f)
        st.heap[oid] = Obj(kind, f, t, True, mm)
        return oid

    def obj(self, st, oid, what='use'):
        o = st.heap.get(oid)
        if o is None:
            raise Unsupported('dangling object')
        if not o.alive:
            self.event(st, 'C02', 'use-after-release', 'a %s released earlier on this path is used again' % self.describe(o),
                       'undec' if o.m.get('unk') else 'viol')
        return o

    def describe(self, o):
        return {'gc': 'container', 'vec': 'vector payload', 'map': 'map payload', 'cell': 'object'}.get(o.kind, o.kind)

    def new_cell(self, st, v, t='', m=None):
        return self.new_obj(st, 'cell', {'v': v}, t, m)

    def default_value(self, base):
        k = kind_of(base)
        if k in ('int', 'bool'):
            return 0
        if k == 'float':
            return ('fconst', 0.0)
        if k in ('str', 'sv'):
            return ('s', '')
        if k == 'cx':
            return ('cx', ('fconst', 0.0), ('fconst', 0.0))
        if k in ('ptr', 'fptr'):
            return NULL
        return ('A', 'default', base)

    def sym_obj(self, st, base, name, m=None):
        """object (or cell) of type base with symbolic content called name; returns oid"""
        k = kind_of(base)
        m = dict(m or {})
        m['origin'] = name
        if k == 'gc':
            tag = from_atom(('tag', name))
            self.rng.setdefault(tag.t[0][0][0], (min(self.alltags), max(self.alltags)))
            return self.new_obj(st, 'gc', {'tag': tag, 'mem': '?', 'val': None}, base, m)
        if k == 'vec':
            f = {'base': name, 'upd': ()}
            if base.startswith(NS + 'mat_type'):
                nr = self.nat_atom(('rows', name))
                nc = self.nat_atom(('cols', name))
                f['size'] = mul(nr, nc)
                self.assume(st, sub((1 << 31) - 1, f['size']))
                rec = self.prog.records.get(base)
                names = [x['name'] for x in rec['fields']] if rec else ['m_num_rows', 'm_num_cols']
                f[names[0]] = nr
                f[names[1]] = nc
            else:
                f['size'] = self.nat_atom(('size', name))
            return self.new_obj(st, 'vec', f, base, m)
        if k == 'map':
            return self.new_obj(st, 'map', {'base': name, 'upd': (), 'size': self.nat_atom(('size', name)), 'known': ()}, base, m)
        if k in ('stream', 'istream'):
            return self.new_obj(st, 'stream', {'tr': (), 'fmt': ()}, base, m)
        if k == 'arr':
            i, j = base.rfind('['), base.rfind(']')
            j = base.find('[')
            n = base[j + 1:base.find(']')]
            f = {'base': name, 'upd': (), 'size': int(n) if n.isdigit() else self.nat_atom(('size', name))}
            return self.new_obj(st, 'vec', f, base, m)
        if k == 'rec':
            rec = self.prog.records.get(base)
            f = {}
            if rec:
                for b in rec['bases']:
                    pass
                for fd in rec['fields']:
                    ft = rec['_types'][fd['t']].base
                    if rec['_types'][fd['t']].ref or not is_obj_type(ft):
                        if rec['_types'][fd['t']].ref:
                            o2 = self.sym_obj(st, ft, name + (fd['name'],), {'param': True})
                            f[fd['name']] = ('ref', ('c', o2))
                        else:
                            f[fd['name']] = self.mkatom(ft, name + (fd['name'],))
                    else:
                        f[fd['name']] = ('O', self.sym_obj(st, ft, name + (fd['name'],), {k2: v for k2, v in m.items() if k2 != 'origin'}))
            return self.new_obj(st, 'rec', f, base, m)
        if k in ('other', 'pair', 'lam', 'uptr'):
            return self.new_obj(st, 'cell', {'v': ('A',) + tuple(name)}, base, m)
        return self.new_obj(st, 'cell', {'v': self.mkatom(base, name)}, base, m)

    def empty_obj(self, st, base, m=None):
        """default constructed object; returns oid"""
        k = kind_of(base)
        m = dict(m or {})
        if k == 'gc':
            return self.new_obj(st, 'gc', {'tag': 0, 'mem': None, 'val': None}, base, m)
        if k == 'vec':
            f = {'base': None, 'upd': (), 'size': 0}
            if base.startswith(NS + 'mat_type'):
                rec = self.prog.records.get(base)
                for x in (rec['fields'] if rec else ()):
                    f[x['name']] = 0
            return self.new_obj(st, 'vec', f, base, m)
        if k == 'map':
            return self.new_obj(st, 'map', {'base': None, 'upd': (), 'size': 0, 'known': ()}, base, m)
        if k in ('stream', 'istream'):
            m.setdefault('local', True)
            return self.new_obj(st, 'stream', {'tr': (), 'fmt': ()}, base, m)
        if k == 'arr':
            n = base[base.find('[') + 1:base.find(']')]
            return self.new_obj(st, 'vec', {'base': ('uninit', self.uid()), 'upd': (), 'size': int(n) if n.isdigit() else self.nat_atom(('unk', self.uid()))}, base, m)
        if k == 'rec':
            return self.new_obj(st, 'rec', {}, base, m)
        return self.new_obj(st, 'cell', {'v': self.default_value(base)}, base, m)

    # -- containers ----------------------------------------------------------
    def gc_domain(self, st, oid):
        o = st.heap[oid]
        t = o.f['tag']
        if isinstance(t, int):
            return frozenset((t,))
        d = self.dom_of(st, t)
        if d:
            a, c, dd = d
            return frozenset(x + c for x in dd)
        return self.alltags

    def concretise(self, st, oid, tag):
        """the lazily known container oid has stored type `tag` (int): create its payload"""
        o = st.heap[oid]
        t = o.f['tag']
        if isinstance(t, Lin):
            a = t.t[0][0][0]
            st.dom[a] = frozenset((tag,))
        if o.f['mem'] != '?':
            return
        name = o.m.get('origin')
        tn = self.tagname.get(tag)
        mem = self.tagmem.get(tn)
        val = None
        if mem is not None:
            base = self.mem_type.get(mem, 'void *')
            pn = ('pl', name, mem)
            if kind_of(base) == 'ptr' and base != 'void *':
                pt = pointee(base)
                m = {'heap': True, 'payload': oid, 'lazy': True}
                if is_unk(name):
                    m['unk'] = True
                p = self.sym_obj(st, pt, pn, m)
                val = P(('c', p))
            else:
                val = self.mkatom(base, pn)
        n = Obj('gc', {'tag': tag, 'mem': mem, 'val': val}, o.t, o.alive, dict(o.m, split=(tag, val), was=o, init={'tag': tag, 'mem': mem, 'val': val}))
        st.heap[oid] = n

    def sync_gc(self, st, oid):
        """make the payload concrete when the stored type is already determined on this path"""
        o = st.heap[oid]
        if o.kind == 'gc' and o.f['mem'] == '?':
            d = self.gc_domain(st, oid)
            if len(d) == 1:
                self.concretise(st, oid, next(iter(d)))

    def unowned(self, st, oid):
        """no stored type the container may have owns a payload"""
        for t in self.gc_domain(st, oid):
            m = self.tagmem.get(self.tagname.get(t))
            if m is None:
                continue
            base = self.mem_type.get(m, 'void *')
            if kind_of(base) == 'ptr' and base != 'void *':
                return False
        return True

    def split_gc(self, st, oid):
        """[(state)] with the stored type of oid concrete"""
        o = st.heap[oid]
        if o.f['mem'] != '?':
            return [st]
        d = sorted(self.gc_domain(st, oid))
        out = []
        for i, t in enumerate(d):
            s = st if i == len(d) - 1 else st.copy()
            self.concretise(s, oid, t)
            out.append(s)
        return out

    def gc_modified(self, st, oid):
        """has the value of the container changed since it was first seen?"""
        return 'copyof' in st.heap[oid].m or self.gc_touched(st, oid)

    def gc_touched(self, st, oid):
        o = st.heap[oid]
        if o.f is o.m.get('init'):
            return self.payload_modified(st, o)
        if o.f == o.m.get('init'):
            return self.payload_modified(st, o)
        return True

    def payload_modified(self, st, o):
        v = o.f.get('val')
        if isinstance(v, tuple) and v[0] == 'P':
            p = st.heap.get(v[1][1])
            if p is None or not p.alive:
                return True
            return self.obj_modified(st, v[1][1])
        return False

    def obj_modified(self, st, oid):
        o = st.heap[oid]
        if o.kind == 'gc':
            return self.gc_modified(st, oid)
        if not o.alive:
            return True
        i = o.m.get('init')
        if o.f is not i and not self.same_fields(o.f, i):
            return True
        if o.kind in ('vec', 'map'):
            for (p, k), kid in st.kids.items():
                if p == oid and kid in st.heap and self.obj_modified(st, kid):
                    return True
        return False

    @staticmethod
    def same_fields(a, b):
        if b is None:
            return False
        for k in set(a) | set(b):
            if k == 'known':
                continue
            if a.get(k) != b.get(k):
                return False
        return True

    def gcterm(self, st, oid):
        """value of a container as a term"""
        o = st.heap[oid]
        if o.m.get('origin') is not None and not self.gc_touched(st, oid):
            return o.m['origin']
        t = o.f['tag']
        if not isinstance(t, int):
            return ('unk', self.uid())
        v = o.f['val']
        if isinstance(v, tuple) and v[0] == 'P':
            p = v[1][1]
            v = self.objterm(st, p)
        return ('gcv', t, v)

    def objterm(self, st, oid):
        o = st.heap.get(oid)
        if o is None:
            return ('unk', self.uid())
        if o.kind == 'gc':
            return self.gcterm(st, oid)
        if o.kind == 'vec':
            self.fold_kids(st, oid, drop=False)
            o = st.heap[oid]
            extra = tuple(sorted((k, v) for k, v in o.f.items() if k not in ('size', 'base', 'upd')))
            return ('vec', o.f['size'], o.f['base'], o.f['upd'], extra)
        if o.kind == 'map':
            self.fold_kids(st, oid, drop=False)
            o = st.heap[oid]
            return ('map', o.f['size'], o.f['base'], o.f['upd'])
        if o.kind == 'cell':
            return o.f['v']
        return ('unk', self.uid())

    def fold_kids(self, st, oid, drop=True, only=None):
        """write modified materialised elements back into the abstract content of their parent"""
        for (p, k), kid in list(st.kids.items()):
            if p != oid:
                continue
            if only is not None and not only(k):
                continue
            ko = st.heap.get(kid)
            if ko is None:
                st.kids.pop((p, k), None)
                continue
            if self.obj_modified(st, kid):
                term = self.objterm(st, kid)
                o = st.heap[oid]
                # replace a previous fold of the same position
                upd = tuple(u for u in o.f['upd'] if not (u[0] == 'pt' and u[1] == k and u[2] == ('kid', kid)))
                upd = tuple(u for u in upd if not (u[0] == 'kidpt' and u[1] == k))
                st.heap[oid] = o.set(upd=upd + (('pt' if drop else 'kidpt', k, term),))
            if drop:
                self.absorb(st, kid)
                st.kids.pop((p, k), None)

    def absorb(self, st, kid):
        """ownership of kid's payloads passes to the abstract content"""
        o = st.heap.get(kid)
        if o is None:
            return
        if o.kind == 'gc':
            v = o.f.get('val')
            if isinstance(v, tuple) and v[0] == 'P':
                p = st.heap.get(v[1][1])
                if p is not None and p.alive:
                    st.heap[v[1][1]] = Obj(p.kind, p.f, p.t, p.alive, dict(p.m, absorbed=True))

    # -- sequences -----------------------------------------------------------
    def kid(self, st, oid, key):
        """object element of a vector (key = index) or map (key = position or ('at', key term))"""
        k = st.kids.get((oid, key))
        if k is not None:
            return k
        for (p, kk), c in st.kids.items():
            if p == oid and isnum(kk) and isnum(key) and self.equal(st, kk, key):
                return c
        o = st.heap[oid]
        if o.kind == 'vec':
            et = strip_const(elem_type(o.t))
            term = self.seq_term(st, oid, key)
        else:
            et = template_args(o.t)[1] if o.t.startswith('std::map') else '?'
            term = self.map_term(st, oid, key)
        m = {'elem': (oid, key)}
        if o.m.get('unk'):
            m['unk'] = True
        k = self.materialise(st, et, term, m)
        st.kids[(oid, key)] = k
        return k

    def materialise(self, st, et, term, m):
        kd = kind_of(et)
        if kd == 'gc':
            if term == ('default',) or term == ('gcv', 0, None):
                oid = self.empty_obj(st, et, m)
                return oid
            if isinstance(term, tuple) and term[0] == 'gcv':
                tag, v = term[1], term[2]
                tn = self.tagname.get(tag)
                mem = self.tagmem.get(tn)
                base = self.mem_type.get(mem, 'void *') if mem else None
                if base and kind_of(base) == 'ptr' and base != 'void *':
                    p = self.from_term(st, pointee(base), v, {'heap': True})
                    v = P(('c', p))
                return self.new_obj(st, 'gc', {'tag': tag, 'mem': mem, 'val': v}, et, m)
            return self.sym_obj(st, et, term, m)
        return self.from_term(st, et, term, m)

    def from_term(self, st, base, term, m=None):
        """object of type base whose value is term"""
        m = dict(m or {})
        k = kind_of(base)
        if isinstance(term, tuple):
            if term == ('default',):
                return self.empty_obj(st, base, m)
            if k == 'vec' and term[0] == 'vec':
                f = {'size': term[1], 'base': term[2], 'upd': term[3]}
                f.update(dict(term[4]))
                return self.new_obj(st, 'vec', f, base, m)
            if k == 'map' and term[0] == 'map':
                return self.new_obj(st, 'map', {'size': term[1], 'base': term[2], 'upd': term[3], 'known': ()}, base, m)
        if k in ('vec', 'map', 'gc', 'rec', 'stream', 'istream', 'arr'):
            return self.sym_obj(st, base, term if isinstance(term, tuple) else ('unk', self.uid()), m)
        return self.new_obj(st, 'cell', {'v': term}, base, m)

    def default_elem(self, et):
        if is_obj_type(et):
            return ('default',)
        return self.default_value(et)

    def sel_base(self, et, base, idx):
        if base is None:
            return self.default_elem(et)
        if base[0] == 'unk' or base[0] == 'uninit':
            nm = ('sel', base, idx)
            return nm if is_obj_type(et) else self.mkatom(et, ('unk', base, idx))
        nm = ('sel', base, idx)
        return nm if is_obj_type(et) else self.mkatom(et, nm)

    def seq_term(self, st, oid, idx):
        """value of element idx (term; GC and other object elements as value terms)"""
        o = st.heap[oid]
        et = strip_const(elem_type(o.t)) if o.t else '?'
        return self.seq_read(st, et, o.f['base'], o.f['upd'], idx)

    def seq_read(self, st, et, base, upd, idx):
        for u in reversed(upd):
            r = self.upd_match(st, u, idx)
            if r is None:
                continue
            if r == 'amb':
                nm = ('unk', self.uid())
                return nm if is_obj_type(et) else self.mkatom(et, nm)
            return r[0]
        return self.sel_base(et, base, idx)

    def same_bits(self, o, name, v):
        """the bits last stored in a union of scalars, read as the member called name"""
        rec = self.prog.records.get(o.t)
        t = next((rec['_types'][fd['t']] for fd in rec['fields'] if fd['name'] == name), None) if rec else None
        if t is None or is_unk(v):
            return v
        k = kind_of(t.base)
        if k == 'int' and isinstance(v, tuple) and v and v[0] in ('A', 'fconst', 'i2f', 'fop', 'f2f') and INTS.get(t.base, (0, 0))[0] == 64:
            r = from_atom(('fbits', v))
            self.rng.setdefault(r.t[0][0][0], (0, (1 << 64) - 1))
            return r
        if k == 'float' and isnum(v):
            n = single_atom(v) if isinstance(v, Lin) else None
            if n and n[0] == 'fbits':
                return n[1]
            return ('A', 'bitsf', v)
        return v

    def upd_match(self, st, u, idx):
        """None = does not touch idx; 'amb' = may; (value,) = defines idx"""
        if u[0] in ('pt', 'kidpt'):
            if u[0] == 'kidpt' and isinstance(u[1], tuple) and u[1][:1] == ('at',):
                return self.key_match(st, u[1][1], idx, u[2]) if not isnum(idx) else 'amb'
            if self.equal(st, u[1], idx):
                return (u[2],)
            if not isnum(u[1]) or not isnum(idx) or not self.distinct(st, u[1], idx):
                if not isnum(u[1]) and not isnum(idx):
                    return self.key_match(st, u[1], idx, u[2])
                return 'amb'
            return None
        if u[0] == 'ge':
            d = sub(idx, u[1])
            if self.entails(st, d):
                v = u[2]
                return (v,)
            if self.contradicts(st, d):
                return None
            return 'amb'
        if u[0] == 'rng':      # ('rng', lo, n, fn) element lo+j := fn with bv j
            j = sub(idx, u[1])
            inr = self.in_range(st, j, u[2])
            if inr is True:
                return (self.inst_bv(u[3], j),)
            if inr is False:
                return None
            return 'amb'
        if u[0] in ('bytes', 'fld', 'blob') and isnum(u[1]) and isnum(u[2]):
            # a run of bytes written as one value
            j = sub(idx, u[1])
            if self.in_range(st, j, u[2]) is False:
                return None
            if u[0] == 'fld' and isinstance(j, int) and isinstance(u[2], int) and 0 <= j < u[2]:
                v = u[3]
                if isinstance(v, tuple) and v and v[0] in ('A', 'fconst', 'i2f', 'fop') and u[2] == 8 and not is_unk(v):
                    v = from_atom(('fbits', v))
                    self.rng.setdefault(v.t[0][0][0], (0, (1 << 64) - 1))
                if isnum(v) and not is_unk(v):
                    return (self.byte(j, v),)
            return 'amb'
        if u[0] == 'R':        # ('R', kid, hi, updates)
            kid, hi, us = u[1], u[2], u[3]
            hits = []
            for w in us:
                r = self.region_match(st, kid, hi, w, idx)
                if r == 'amb':
                    return 'amb'
                if r is not None:
                    hits.append(r)
            if not hits:
                return None
            if len(hits) == 1:
                return hits[0]
            return hits[-1]
        return 'amb'

    def key_match(self, st, a, b, v):
        if a == b:
            return (v,)
        r = st.bools.get(('eqv', a, b), st.bools.get(('eqv', b, a)))
        if r is True:
            return (v,)
        if r is False or self.key_distinct(st, a, b):
            return None
        return 'amb'

    def in_range(self, st, j, n):
        if self.contradicts(st, j) or self.entails(st, sub(j, n)):
            return False
        if self.entails(st, j) and self.entails(st, sub(sub(n, j), 1)):
            return True
        return None

    def region_match(self, st, kid, hi, w, idx):
        if w[0] in ('pt', 'kidpt'):
            if not isnum(w[1]):
                return self.region_key(st, kid, hi, w, idx)
            if not isnum(idx):
                return 'amb'
            c = coef(w[1], kid)
            if c is None or not isinstance(c[0], int) or c[0] not in (1, -1):
                # stride d: match residues only when idx - rest is a multiple syntactically
                if c is not None and isinstance(c[0], int) and c[0] != 0:
                    d = sub(idx, c[1])
                    q = self.divide(d, c[0])
                    if q is None:
                        return self.residue(st, d, c[0])
                    j = q
                elif c is not None and isinstance(c[0], Lin):
                    j = self.divide_poly(sub(idx, c[1]), c[0])
                    if j is None:
                        return 'amb'
                else:
                    return 'amb'
            else:
                j = sub(idx, c[1])
                if c[0] == -1:
                    j = neg(j)
            inr = self.in_range(st, j, hi)
            if inr is True:
                return (subst(w[2], {kid: j}),)
            if inr is False:
                return None
            return 'amb'
        if w[0] == 'R':
            # nested region: two parameters
            kid2, hi2, us = w[1], w[2], w[3]
            if len(us) != 1 or us[0][0] not in ('pt', 'kidpt'):
                return 'amb'
            e = us[0][1]
            if not isnum(e) or not isnum(idx):
                return 'amb'
            c1, c2 = coef(e, kid), coef(e, kid2)
            if c1 is None or c2 is None:
                return 'amb'
            for unit, other, uh, oh, uk, ok in ((c1[0], c2[0], hi, hi2, kid, kid2), (c2[0], c1[0], hi2, hi, kid2, kid)):
                if unit == 1 and not isinstance(other, int):
                    # idx = a + b*other
                    rest = subst(e, {kid: 0, kid2: 0})
                    d = sub(idx, rest)
                    sp = self.split_poly(d, other)
                    if sp is None:
                        continue
                    b, a = sp
                    if has_atom(uh, ok):
                        uh = subst(uh, {ok: b})
                    if has_atom(oh, uk):
                        oh = subst(oh, {uk: a})
                    if self.in_range(st, a, uh) is True and self.in_range(st, b, oh) is True:
                        return (subst(us[0][2], {uk: a, ok: b}),)
            return 'amb'
        return 'amb'

    def region_key(self, st, kid, hi, w, key):
        """map writes in a loop: key term depends on the loop index"""
        kt = w[1]
        # ('key', base, kid) against ('key', base, j) or ('at', ...)
        if isinstance(kt, tuple) and isinstance(key, tuple) and kt[:1] == key[:1] and len(kt) == len(key):
            for i in range(len(kt)):
                if isinstance(kt[i], Lin) and single_atom(kt[i]) == atom_name(kid) and isnum(key[i]):
                    if tuple(kt[:i]) + tuple(kt[i + 1:]) == tuple(key[:i]) + tuple(key[i + 1:]):
                        inr = self.in_range(st, key[i], hi)
                        if inr is True:
                            return (subst(w[2], {kid: key[i]}),)
                        if inr is False:
                            return None
        return 'amb'

    @staticmethod
    def divide(d, n):
        if isinstance(d, int):
            return d // n if d % n == 0 else None
        if d.c % n or any(k % n for _, k in d.t):
            return None
        return mk({m: k // n for m, k in d.t}, d.c // n)

    def residue(self, st, d, n):
        # all coefficients divisible but not the constant: never equal
        if isinstance(d, int):
            return None
        if all(k % n == 0 for _, k in d.t) and d.c % n:
            return None
        return 'amb'

    @staticmethod
    def divide_poly(d, p):
        sp = Core.split_poly(d, p)
        if sp and sp[1] == 0:
            return sp[0]
        return None

    @staticmethod
    def split_poly(d, p):
        """d = b*p + a for a single-monomial p: (b, a)"""
        if not isinstance(p, Lin) or p.c or len(p.t) != 1 or p.t[0][1] != 1:
            return None
        pm = list(p.t[0][0])
        b, a = {}, {}
        bc = 0
        if isinstance(d, int):
            return 0, d
        for m, k in d.t:
            mm = list(m)
            ok = True
            for x in pm:
                if x in mm:
                    mm.remove(x)
                else:
                    ok = False
                    break
            if ok:
                if mm:
                    b[tuple(mm)] = k
                else:
                    bc += k
            else:
                a[m] = k
        return mk(b, bc), mk(a, d.c)

    BV = atom_id(('bv', 0))

    def inst_bv(self, fn, j):
        return subst(fn, {self.BV: j})

    def map_term(self, st, oid, key):
        o = st.heap[oid]
        base, upd = o.f['base'], o.f['upd']
        k = self.key_of(st, oid, key)
        for u in reversed(upd):
            r = self.upd_match(st, u, k)
            if r is None:
                continue
            if r == 'amb':
                return ('unk', self.uid())
            return r[0]
        if base is None:
            return ('default',)
        if isnum(key):
            return ('val', base, key)
        return ('val', base, k)

    def key_of(self, st, oid, pos):
        if isnum(pos):
            b = st.heap[oid].f['base']
            if b is None or st.heap[oid].f['upd'] and any(u[0] != 'kidpt' for u in st.heap[oid].f['upd']):
                b = ('cur', b, st.heap[oid].f['upd'])
            return ('key', b, pos)
        return pos[1]

    # -- memory access -------------------------------------------------------
    def read(self, st, loc):
        k = loc[0]
        if k == 'c':
            o = self.obj(st, loc[1])
            if o.kind == 'cell':
                v = o.f['v']
                if isinstance(v, tuple) and v and v[0] == 'ref':
                    return self.read(st, v[1])
                return v
            return ('O', loc[1])
        if k == 'f':
            o = self.obj(st, loc[1])
            if o.kind == 'gc':
                return o.f['tag']
            if o.m.get('union'):
                return self.same_bits(o, loc[2], o.f.get('u', ('A', 'uninit', loc[1])))
            if loc[2] not in o.f:
                return ('A', 'unk', self.uid())
            v = o.f[loc[2]]
            return v
        if k == 'e':
            o = self.obj(st, loc[1])
            et = strip_const(elem_type(o.t)) if o.t else '?'
            if is_obj_type(et):
                return ('O', self.kid(st, loc[1], loc[2]))
            return self.seq_term(st, loc[1], loc[2])
        if k == 'u':
            return self.read_union(st, loc[1], loc[2])
        if k == 'ud':
            o = self.obj(st, loc[1])
            if o.f['mem'] == '?':
                raise Unsupported('raw copy of undetermined payload')
            return ('un', o.f['mem'], o.f['val'])
        if k == 'cxp':
            v = self.read(st, loc[1])
            return self.cx_part(v, loc[2])
        if k == 'chr':
            return self.mkatom('char', ('ch', loc[1], loc[2]))
        if k == 'mp':      # map node
            if loc[3] == 'first':
                return self.key_of(st, loc[1], loc[2])
            return ('O', self.kid(st, loc[1], loc[2]))
        if k == 'unkloc':
            return self.unk(loc[1])
        raise Unsupported('read ' + str(k))

    def read_union(self, st, oid, mem):
        o = self.obj(st, oid)
        if o.f['mem'] == '?':
            raise Unsupported('union read of undetermined payload')   # callers split first
        if o.f['mem'] != mem:
            tag = o.f['tag']
            tn = self.tagname.get(tag, '?') if isinstance(tag, int) else '?'
            if o.f['mem'] is None:
                # nothing stored: an uninitialised read
                self.event(st, 'C01', 'union', 'storage is read as member `%s` while the container holds nothing (%s)' % (mem, tn),
                           'undec' if is_unk(o.m.get('origin', ())) else 'viol')
            else:
                self.event(st, 'C01', 'union', 'storage is read as member `%s` while `%s` is stored (type %s)' % (mem, o.f['mem'], tn),
                           'undec' if is_unk(o.m.get('origin', ())) else 'viol')
            base = self.mem_type.get(mem, 'void *')
            if kind_of(base) == 'ptr' and base != 'void *':
                p = self.sym_obj(st, pointee(base), ('unk', self.uid()), {'unk': True, 'confused': True})
                return P(('c', p))
            v = o.f['val']
            if o.f['mem'] == 'l' and mem == 'i' and isnum(v) and not is_unk(v):
                return self.low_word(st, v)
            return self.mkatom(base, ('unk', 'other member', self.uid()))
        self.ok('C01', 'union')
        return o.f['val']

    def low_word(self, st, v):
        """the lower four bytes of a long read as an int"""
        lo, hi = -(1 << 31), (1 << 31) - 1
        if isinstance(v, int):
            v &= (1 << 32) - 1
            return v - (1 << 32) if v > hi else v
        if self.entails(st, sub(v, lo)) and self.entails(st, sub(hi, v)):
            return v
        r = from_atom(('conv', 32, True, v))
        self.rng.setdefault(r.t[0][0][0], (lo, hi))
        return r

    def cx_part(self, v, part):
        if isinstance(v, tuple):
            if v[0] == 'cx':
                return v[1] if part == 're' else v[2]
            return ('A', part) + v[1:] if v[0] == 'A' else (part, v)
        return ('A', 'unk', self.uid())

    def mk_cx(self, re, im):
        if isinstance(re, tuple) and isinstance(im, tuple) and re[:2] == ('A', 're') and im[:2] == ('A', 'im') and re[2:] == im[2:]:
            return ('A',) + re[2:]
        if isinstance(re, tuple) and isinstance(im, tuple) and re[0] == 're' and im[0] == 'im' and re[1:] == im[1:]:
            return re[1]
        return ('cx', re, im)

    def write(self, st, loc, v):
        k = loc[0]
        if k == 'c':
            o = self.obj(st, loc[1], 'write')
            if o.kind == 'cell':
                cur = o.f['v']
                if isinstance(cur, tuple) and cur and cur[0] == 'ref':
                    return self.write(st, cur[1], v)
                st.heap[loc[1]] = o.set(v=v)
                return
            raise Unsupported('whole-object write to ' + o.kind)
        if k == 'f':
            o = self.obj(st, loc[1], 'write')
            if o.kind == 'gc':
                if o.f['mem'] == '?' and o.f['tag'] != v:
                    # the scalar held before is left behind unidentified
                    if not self.unowned(st, loc[1]):
                        raise Unsupported('type overwritten while the payload is undetermined')
                    o = o.set(mem=None, val=None)
                st.heap[loc[1]] = o.set(tag=v)
                return
            if o.m.get('union'):
                st.heap[loc[1]] = o.set(u=v)
                return
            cur = o.f.get(loc[2])
            if isinstance(cur, tuple) and cur and cur[0] == 'ref':
                return self.write(st, cur[1], v)
            st.heap[loc[1]] = o.set(**{loc[2]: v})
            return
        if k == 'e':
            o = self.obj(st, loc[1], 'write')
            upd = o.f['upd']
            upd = tuple(u for u in upd if not (u[0] == 'pt' and u[1] == loc[2]))
            st.heap[loc[1]] = o.set(upd=upd + (('pt', loc[2], v),))
            return
        if k == 'u':
            o = self.obj(st, loc[1], 'write')
            if o.f['mem'] == '?':
                raise Unsupported('union write of undetermined payload')
            st.heap[loc[1]] = o.set(mem=loc[2], val=v)
            return
        if k == 'ud':
            o = self.obj(st, loc[1], 'write')
            if isinstance(v, tuple) and v[0] == 'un':
                st.heap[loc[1]] = o.set(mem=v[1], val=v[2])
                return
        if k == 'cxp':
            cur = self.read(st, loc[1])
            re = v if loc[2] == 're' else self.cx_part(cur, 're')
            im = v if loc[2] == 'im' else self.cx_part(cur, 'im')
            return self.write(st, loc[1], self.mk_cx(re, im))
        if k == 'chr':
            return
        if k == 'unkloc':
            st.inexact += ('write through unknown location',)
            return
        raise Unsupported('write ' + str(k))

    # -- element access obligations ---------------------------------------------
    def bounds(self, st, oid, idx, what, prop='C09', allow_end=False):
        """obligation 0 <= idx < size"""
        o = st.heap[oid]
        if o.m.get('nobounds'):
            return
        prop = o.m.get('boundprop', prop)
        if not isnum(idx):
            self.event(st, prop, 'bounds', what, 'undec')
            return
        size = o.f['size']
        up = sub(size, idx) if allow_end else sub(sub(size, idx), 1)
        ok1 = self.entails(st, up)
        ok2 = self.entails(st, idx)
        if ok1 and ok2:
            self.ok(prop, 'bounds')
            return
        verdict = 'viol'
        bad = up if not ok1 else idx
        if is_unk(bad) or o.m.get('unk') or is_unk(o.f['base'] or ()) or self.tainted(st, bad):
            verdict = 'undec'
        w = ''
        if verdict == 'viol' and not st.inexact:
            wit = self.witness(st, bad)
            if wit is None:
                verdict = 'undec'
            else:
                w = ' (for instance %s)' % ', '.join('%s = %d' % (show_atom(atom_name(a)), v) for a, v in sorted(wit.items()) if a in self.in_lin(idx) + self.in_lin(size))
        self.event(st, prop, 'bounds', what + ': index %s is not below %s%s' % (self.nice(idx), self.nice(size), w) if not ok1 else
                   what + ': index %s may be negative%s' % (self.nice(idx), w), verdict)

    @staticmethod
    def in_lin(L):
        return list(atoms_of(L)) if isinstance(L, Lin) else []

    def witness(self, st, L):
        """values of the atoms for which every fact holds and L < 0 (None: none found among small and extreme values)"""
        if isinstance(L, int):
            L = Lin((), L)
        cons = self.relevant(st, L) if L.t else list(st.facts)
        cons = [c for c in cons if not isinstance(c, int)]
        cons.append(sub(-1, L))
        if isinstance(cons[-1], int):
            if cons[-1] < 0:
                return None
            cons.pop()
        atoms, derived = set(), {}
        for c in cons:
            atoms.update(atoms_of(c))
        todo = list(atoms)
        while todo:
            a = todo.pop()
            n = atom_name(a)
            if n[0] in ('unk', 'sum'):
                return None
            if n[0] == 'conv' and isnum(n[3]) or n[0] in BITWISE:
                derived[a] = n
                for x in operands(n):
                    for b in atoms_of(x) if isinstance(x, Lin) else ():
                        if b not in atoms:
                            atoms.add(b)
                            todo.append(b)
            elif n[0] in ('le', 'les', 'bit^', 'bit|', 'bit&'):
                return None
        bitwise = any(n[0] in BITWISE for n in derived.values())
        free = sorted(atoms - set(derived))
        if len(free) > 9:
            return None
        cand = {}
        consts = set()
        for c in cons:
            consts.update((abs(c.c), abs(c.c) + 1))
        for a in free:
            lo, hi = self.range_of_atom(a)
            d = st.dom.get(a)
            if d is not None:
                cand[a] = sorted(d)[:40]
                continue
            vs = {0, 1, 2, 3, 4, 7} | consts
            if bitwise:
                vs |= {-1, 255, 256, 257, 0x01020304, 0x7fffffff}
            if lo is not None:
                vs.add(lo)
            if hi is not None:
                vs.update((hi, hi - 1))
            cand[a] = sorted((v for v in vs if (lo is None or v >= lo) and (hi is None or v <= hi)), key=abs)
        budget = [150000]
        free.sort(key=lambda a: len(cand[a]))
        order = {a: i for i, a in enumerate(free)}
        def need(c):
            r = 0
            for a in atoms_of(c):
                if a in derived:
                    return len(free)
                r = max(r, order[a] + 1)
            return r
        level = {}
        for c in cons:
            level.setdefault(need(c), []).append(c)
        def value(c, env):
            t = c.c
            for m, k in c.t:
                p = k
                for a in m:
                    p *= env[a]
                t += p
            return t
        def go(i, env):
            budget[0] -= 1
            if budget[0] < 0:
                return None
            if i == len(free):
                for a in derived:
                    if not fill(a, env):
                        return None
            for c in level.get(i, ()):
                if value(c, env) < 0:
                    return None
            if i == len(free):
                return dict(env)
            for v in cand[free[i]]:
                env[free[i]] = v
                r = go(i + 1, env)
                if r is not None:
                    return r
                if budget[0] < 0:
                    return None
            env.pop(free[i], None)
            return None
        def fill(a, env, d=0):
            n = derived[a]
            for x in operands(n):
                for b in atoms_of(x) if isinstance(x, Lin) else ():
                    if b in derived and d < 20 and not fill(b, env, d + 1):
                        return False
            if n[0] in BITWISE:
                x = BITWISE[n[0]](n, lambda y: value(y, env) if isinstance(y, Lin) else y)
                if x is None:
                    return False
                env[a] = x
                return True
            x = value(n[3], env) if isinstance(n[3], Lin) else n[3]
            bits, signed = n[1], n[2]
            x &= (1 << bits) - 1
            if signed and x >> (bits - 1):
                x -= 1 << bits
            env[a] = x
            return True
        return go(0, {})

    def nice_witness(self, w):
        return ', '.join('%s = %d' % (show_atom(atom_name(a)), v) for a, v in sorted(w.items()))

    def tainted(self, st, L=0):
        """the path depends on values that are only known approximately"""
        for f in st.facts:
            if is_unk(f):
                return True
        if any(u[0] == 'lost' and u[1] <= len(st.frames) for u in st.uni):
            return True
        return any(atom_name(a)[0] in ('sum', 'unk') for a in atoms_of(L)) if isinstance(L, Lin) else False

    def nice(self, v):
        return repr(v)[:120]

    def destroy(self, st, oid):
        """end of life of an object: its payloads are released"""
        o = st.heap.get(oid)
        if o is None or not o.alive:
            return
        if o.kind == 'gc':
            v = o.f.get('val')
            if o.f['mem'] not in (None, '?') and isinstance(v, tuple) and v[0] == 'P' and v[1][0] == 'c':
                t = o.f['tag']
                if isinstance(t, int) and self.tagmem.get(self.tagname.get(t)) == o.f['mem']:
                    self.release(st, v[1][1], 'destruction of the container')
        elif o.kind in ('vec', 'map'):
            for (p, k), kid in list(st.kids.items()):
                if p == oid:
                    self.destroy(st, kid)
        elif o.kind == 'cell' and kind_of(o.t) == 'uptr':
            v = o.f['v']
            if isinstance(v, tuple) and v[0] == 'P' and v[1][0] == 'c':
                self.release(st, v[1][1], 'destruction of the owning pointer')
        elif o.kind == 'rec':
            for fv in o.f.values():
                if isinstance(fv, tuple) and fv and fv[0] == 'O':
                    self.destroy(st, fv[1])
        o = st.heap[oid]
        st.heap[oid] = o.dead()

    def release(self, st, oid, how):
        o = st.heap.get(oid)
        if o is None:
            return
        if not o.alive:
            self.event(st, 'C02', 'double-release', '%s is released a second time (%s)' % (self.describe(o), how),
                       'undec' if o.m.get('unk') else 'viol')
            return
        if not o.m.get('heap'):
            self.event(st, 'C02', 'bad-release', '%s which is not heap storage is released (%s)' % (self.describe(o), how),
                       'undec' if (o.m.get('unk') or o.m.get('param')) else 'viol')
            return
        self.ok('C02', 'release')
        self.destroy(st, oid)
