"""Integer polynomials over interned atoms and a small relational numeric domain
(conjunctions of inequalities, projection by variable elimination)."""

_atoms = {}
_names = []


def atom_id(name):
    i = _atoms.get(name)
    if i is None:
        i = len(_names)
        _atoms[name] = i
        _names.append(name)
    return i


def atom_name(i):
    return _names[i]


class Lin:
    __slots__ = ('t', 'c', 'h')

    def __init__(self, t, c):
        self.t = t          # tuple of ((ids...), coef) sorted, all coef != 0
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        s = []
        for m, k in self.t:
            n = '*'.join(show_atom(_names[i]) for i in m)
            s.append(n if k == 1 else '%d*%s' % (k, n))
        if self.c or not s:
            s.append(str(self.c))
        return '+'.join(s).replace('+-', '-')


def show_atom(a):
    if isinstance(a, tuple):
        return str(a[0]) + '(' + ','.join(show_atom(x) if isinstance(x, tuple) else str(x) for x in a[1:]) + ')'
    return str(a)


def atom(*name):
    return Lin((((atom_id(name),), 1),), 0)


def from_atom(name):
    return Lin((((atom_id(name),), 1),), 0)


def mk(d, c):
    t = tuple(sorted((m, k) for m, k in d.items() if k))
    if not t:
        return c
    return Lin(t, c)


def isnum(v):
    return isinstance(v, Lin) or (isinstance(v, int))


def add(a, b):
    if isinstance(a, int):
        if isinstance(b, int):
            return a + b
        return Lin(b.t, b.c + a)
    if isinstance(b, int):
        return Lin(a.t, a.c + b)
    d = dict(a.t)
    for m, k in b.t:
        d[m] = d.get(m, 0) + k
    return mk(d, a.c + b.c)


def neg(a):
    if isinstance(a, int):
        return -a
    return Lin(tuple((m, -k) for m, k in a.t), -a.c)


def sub(a, b):
    return add(a, neg(b))


def scale(a, n):
    if isinstance(a, int):
        return a * n
    if n == 0:
        return 0
    return Lin(tuple((m, k * n) for m, k in a.t), a.c * n)


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    d = {}
    for m, k in a.t:
        for n, j in b.t:
            mm = tuple(sorted(m + n))
            d[mm] = d.get(mm, 0) + k * j
        if b.c:
            d[m] = d.get(m, 0) + k * b.c
    if a.c:
        for n, j in b.t:
            d[n] = d.get(n, 0) + j * a.c
    return mk(d, a.c * b.c)


def atoms_of(a):
    if isinstance(a, int):
        return ()
    s = set()
    for m, _ in a.t:
        s.update(m)
    return s


def coef(a, aid):
    """(coefficient polynomial of atom aid (degree one), rest) or None when not linear in it"""
    if isinstance(a, int):
        return 0, a
    d, r = {}, {}
    for m, k in a.t:
        n = m.count(aid)
        if n == 0:
            r[m] = k
        elif n == 1:
            mm = list(m)
            mm.remove(aid)
            d[tuple(mm)] = k
        else:
            return None
    c = d.pop((), 0)
    return mk(d, c), mk(r, a.c)


def single_atom(a):
    """the atom name when a is exactly one atom"""
    if isinstance(a, Lin) and a.c == 0 and len(a.t) == 1 and a.t[0][1] == 1 and len(a.t[0][0]) == 1:
        return _names[a.t[0][0][0]]
    return None


# --- decision: conjunction of (Lin >= 0) ------------------------------------

_fm_cache = {}
LIMIT = 400


def _norm(t, c):
    # t: dict mono->coef ; integer tightening
    from math import gcd
    g = 0
    for k in t.values():
        g = gcd(g, abs(k))
        if g == 1:
            break
    if g > 1:
        t = {m: k // g for m, k in t.items()}
        c = c // g          # floor: valid tightening for integers
    return frozenset(t.items()), c


def infeasible(facts):
    """True when no integer point satisfies all facts (each >= 0), by elimination; False = not shown"""
    key = frozenset(facts)
    r = _fm_cache.get(key)
    if r is None:
        r = _infeasible(key)
        if len(_fm_cache) > 200000:
            _fm_cache.clear()
        _fm_cache[key] = r
    return r


def _infeasible(facts):
    sys = {}
    for f in facts:
        if isinstance(f, int):
            if f < 0:
                return True
            continue
        k, c = _norm(dict(f.t), f.c)
        if k not in sys or sys[k] > c:
            sys[k] = c
    # products needed for nonlinear monomials
    monos = set()
    for k in sys:
        for m, _ in k:
            if len(m) > 1:
                monos.add(m)
    if monos:
        base = [(dict(k), c) for k, c in sys.items()]
        lin1 = [(t, c) for t, c in base if all(len(m) == 1 for m in t) and len(t) <= 3]
        extra = []
        want = set(monos)
        pr = [tuple(m) for m in monos if len(m) == 2]
        for x, y in pr:
            fx = [f for f in lin1 if (x,) in f[0]]
            fy = [f for f in lin1 if (y,) in f[0]]
            for t, c in fx[:8]:
                for u, d in fy[:8]:
                    # (t+c)*(u+d) >= 0
                    r = {}
                    for m, k in t.items():
                        for n, j in u.items():
                            mm = tuple(sorted(m + n))
                            r[mm] = r.get(mm, 0) + k * j
                        if d:
                            r[m] = r.get(m, 0) + k * d
                    if c:
                        for n, j in u.items():
                            r[n] = r.get(n, 0) + j * c
                    r = {m: k for m, k in r.items() if k}
                    if any(len(m) > 1 and m not in want for m in r):
                        continue
                    extra.append((r, c * d))
        for t, c in extra[:80]:
            if not t:
                if c < 0:
                    return True
                continue
            k, c = _norm(t, c)
            if k not in sys or sys[k] > c:
                sys[k] = c
    steps = 0
    while True:
        for k, c in sys.items():
            if not k and c < 0:
                return True
        occ = {}
        for k in sys:
            for m, v in k:
                p = occ.setdefault(m, [0, 0])
                p[0 if v > 0 else 1] += 1
        if not occ:
            return False
        # variables bounded on one side only: drop
        best = None
        for m, (p, n) in occ.items():
            cost = p * n - p - n
            if best is None or cost < best[0]:
                best = (cost, m)
        m = best[1]
        pos, ngs, rest = [], [], {}
        for k, c in sys.items():
            v = 0
            for mm, vv in k:
                if mm == m:
                    v = vv
                    break
            if v > 0:
                pos.append((v, k, c))
            elif v < 0:
                ngs.append((-v, k, c))
            else:
                rest[k] = c
        for pv, pk, pc in pos:
            for nv, nk, nc in ngs:
                t = {}
                for mm, vv in pk:
                    t[mm] = vv * nv
                for mm, vv in nk:
                    t[mm] = t.get(mm, 0) + vv * pv
                t = {mm: vv for mm, vv in t.items() if vv}
                c = pc * nv + nc * pv
                if not t:
                    if c < 0:
                        return True
                    continue
                k, c = _norm(t, c)
                if k not in rest or rest[k] > c:
                    rest[k] = c
        sys = rest
        steps += 1
        if len(sys) > LIMIT:
            return False
