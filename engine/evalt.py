"""Concrete meaning of the terms of the analysis: a report names values of the stored data for which the path is taken and
the result is wrong; without such values nothing is reported."""
import math, struct, itertools, random
from drive import *


class NoValue(Exception):
    pass


def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def wrap(v, bits, sg):
    v &= (1 << bits) - 1
    if sg and v >> (bits - 1):
        v -= 1 << bits
    return v


INTPOOL = [0, 1, 2, 3, 5, -1, -2, 100, 255, 256, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 7,
           (1 << 53) + 1, (1 << 63) - 1, -(1 << 63), (1 << 63), (1 << 64) - 1]
FLTPOOL = [0.0, 1.0, -1.0, 2.0, 7.0, -3.0, 0.5, -0.5, 1.25, -2.75, 100.0, 2147483647.0, 2147483646.5, 2147483647.5, 2147483648.0, -2147483648.0, -2147483648.5,
           -2147483649.0, 4294967295.0, 4294967295.5, 4294967296.0, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0,
           -9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 1e300, -1e300, math.inf, -math.inf, math.nan, 3.0000001]


class Env:
    """values of the root atoms; everything else is computed"""

    def __init__(self, D, roots):
        self.D, self.r = D, roots
        self.used = set()

    def root(self, key):
        if key in self.r:
            self.used.add(key)
            return self.r[key]
        raise NoValue(key)

    def num(self, v):
        """value of an integer or float term"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (int, float)):
            return v
        if isinstance(v, Lin):
            s = v.c
            for m, k in v.t:
                p = k
                for a in m:
                    p *= self.atom(a)
                s += p
            return s
        if not isinstance(v, tuple) or not v:
            raise NoValue(v)
        k = v[0]
        if k == 'fconst':
            return v[1]
        if k == 'i2f':
            return float(self.num(v[1]))
        if k == 'f2f':
            x = self.num(v[2])
            return f32(x) if v[1] == 32 else x
        if k == 'fop':
            return self.fop(v)
        if k in ('cmp', 'not'):
            return 1 if self.truth(v) else 0
        if k == 'un':
            return self.num(v[2])
        if k == 'A':
            return self.root(v)
        if k in ('re', 'im'):
            c = self.cpx(v[1])
            return c[0] if k == 're' else c[1]
        raise NoValue(v)

    def cpx(self, v):
        """(re, im)"""
        if isinstance(v, tuple) and v:
            if v[0] == 'cx':
                return self.num(v[1]), self.num(v[2])
            if v[0] == 'A' and v[1] not in ('re', 'im') and ('A', 're') + v[1:] in self.r:
                return self.root(('A', 're') + v[1:]), self.root(('A', 'im') + v[1:])
        return self.num(v), 0.0

    def fop(self, v):
        op, a = v[1], self.num(v[2])
        b = self.num(v[3]) if len(v) > 3 and v[3] is not None else None
        if b is None:
            if math.isnan(a):
                return a
            if op == '-':
                return -a
            if op in ('abs', 'fabs'):
                return abs(a)
            if math.isinf(a):
                if op in ('round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint'):
                    return a
                raise NoValue(v)
            if op == 'round':
                return math.copysign(math.floor(abs(a) + 0.5) if abs(a) < 2**52 else abs(a), a)
            if op == 'floor':
                return float(math.floor(a))
            if op == 'ceil':
                return float(math.ceil(a))
            if op == 'trunc':
                return float(math.trunc(a))
            if op in ('rint', 'nearbyint'):
                return float(round(a))
            raise NoValue(v)
        try:
            if op == '+':
                return a + b
            if op == '-':
                return a - b
            if op == '*':
                return a * b
            if op == '/':
                if b == 0:
                    return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
            if op == 'fmod':
                return math.fmod(a, b)
        except (OverflowError, ValueError):
            return math.nan
        raise NoValue(v)

    def atom(self, a):
        nm = atom_name(a)
        if nm in self.r:
            self.used.add(nm)
            return self.r[nm]
        k = nm[0]
        if k == 'f2i':
            x = self.num(nm[3])
            if math.isnan(x) or math.isinf(x):
                raise NoValue(nm)
            x = math.trunc(x)
            lo, hi = (-(1 << (nm[1] - 1)), (1 << (nm[1] - 1)) - 1) if nm[2] else (0, (1 << nm[1]) - 1)
            if not lo <= x <= hi:
                # undefined in C++: any value; what the hardware usually gives
                return lo if nm[2] else wrap(x, nm[1], False)
            return x
        if k == 'conv':
            return wrap(self.num(nm[3]), nm[1], nm[2])
        if k == 'fpc':
            x = self.num(nm[1])
            if math.isnan(x):
                return 0
            if math.isinf(x):
                return 1
            if x == 0:
                return 2
            return 3 if abs(x) < 2.2250738585072014e-308 else 4
        if k in ('isfinite', 'isnan', 'isinf'):
            x = self.num(nm[1])
            return int(getattr(math, k)(x))
        if k == 'abs':
            return abs(self.num(nm[1]))
        if k == 'byte':
            raise NoValue(nm)
        raise NoValue(nm)

    def truth(self, v):
        if isinstance(v, (int, Lin)):
            return self.num(v) != 0
        if v[0] == 'not':
            return not self.truth(v[1])
        if v[0] == 'cmp':
            a, b = self.num(v[2]), self.num(v[3])
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[v[1]]
        if v[0] == 'nz':
            return self.num(v[1]) != 0
        raise NoValue(v)

    def key(self, k):
        """truth of a recorded condition"""
        if k[0] == 'eq':
            return self.num(k[1]) == 0
        if k[0] == 'f>':
            return self.num(k[1]) > self.num(k[2])
        if k[0] == 'f>=':
            return self.num(k[1]) >= self.num(k[2])
        if k[0] == 'eqv':
            a, b = self.cpx(k[1]), self.cpx(k[2])
            return a == b
        return self.truth(k)

    def holds(self, st, roots):
        """True / False / None (a condition on the roots cannot be evaluated)"""
        unknown = False
        for f in st.facts:
            try:
                if self.num(f) < 0:
                    return False
            except NoValue:
                if mentions(f, roots):
                    unknown = True
        for k, t in st.bools.items():
            try:
                if bool(self.key(k)) != t:
                    return False
            except NoValue:
                if mentions(k, roots):
                    unknown = True
        for a, d in st.dom.items():
            try:
                if self.atom(a) not in d:
                    return False
            except NoValue:
                pass
        return None if unknown else True


def mentions(v, roots, d=0):
    if isinstance(v, Lin):
        return any(mentions(atom_name(a), roots, d + 1) for a in atoms_of(v))
    if isinstance(v, tuple):
        if v in roots:
            return True
        return d < 12 and any(mentions(x, roots, d + 1) for x in v if isinstance(x, (tuple, Lin)))
    return False


def roots_of(D, v, acc=None, d=0):
    """root atoms of a term: {name: 'int' | 'flt'}"""
    acc = {} if acc is None else acc
    if isinstance(v, Lin):
        for a in atoms_of(v):
            nm = atom_name(a)
            if isinstance(nm, tuple) and nm and nm[0] in ('f2i', 'conv', 'fpc', 'isfinite', 'isnan', 'isinf', 'abs'):
                roots_of(D, nm, acc, d + 1)
            else:
                acc[nm] = ('int', D.range_of_atom(a))
    elif isinstance(v, tuple) and v:
        if v[0] == 'A':
            acc[v] = ('flt', None)
        elif d < 14:
            for x in v[1:]:
                if isinstance(x, (tuple, Lin)):
                    roots_of(D, x, acc, d + 1)
    return acc
