"""Abstract interpreter over the resolved program (see DESIGN.md, 'The engine').

Abstract state: typestate of every container object (stored type, live union member, owned payload), value numbers for
scalars, inequality facts between index quantities, ordered effect traces.  Branches on unknown conditions are
partitioned; loops are closed by an inductive generalisation (start + step*k) checked for stability."""
import sys
from lin import *
import lin as LN

sys.setrecursionlimit(20000)

TAGS = ['NOTYPE', 'POINTER', 'BOOL', 'INTEGER', 'LONG', 'REAL', 'COMPLEX', 'STRING', 'VEC_POINTER', 'VEC_BOOL',
        'VEC_INTEGER', 'VEC_LONG', 'VEC_REAL', 'VEC_COMPLEX', 'VEC_STRING', 'MAT_INTEGER', 'MAT_LONG', 'MAT_REAL',
        'MAT_COMPLEX', 'VECTOR', 'MAP']
TAGMEM = {'NOTYPE': None, 'POINTER': 'p', 'BOOL': 'b', 'INTEGER': 'i', 'LONG': 'l', 'REAL': 'r', 'COMPLEX': 'c',
          'STRING': 's', 'VEC_POINTER': 'v_p', 'VEC_BOOL': 'v_b', 'VEC_INTEGER': 'v_i', 'VEC_LONG': 'v_l',
          'VEC_REAL': 'v_r', 'VEC_COMPLEX': 'v_c', 'VEC_STRING': 'v_s', 'MAT_INTEGER': 'm_i', 'MAT_LONG': 'm_l',
          'MAT_REAL': 'm_r', 'MAT_COMPLEX': 'm_c', 'VECTOR': 'v', 'MAP': 'm'}
SCALAR_MEM = {'p', 'b', 'i', 'l', 'r'}
NS = 'GC_namespace::'
GC = NS + 'GenericContainer'


class Unsupported(Exception):
    pass


class Obj:
    __slots__ = ('kind', 'f', 'alive', 't', 'm')

    def __init__(self, kind, f, t='', alive=True, m=None):
        self.kind = kind
        self.f = f
        self.t = t          # type string
        self.alive = alive
        self.m = m or {}    # immutable meta: 'heap' (allocated by new), 'origin', 'ext', 'param'

    def set(self, **kw):
        f = dict(self.f)
        f.update(kw)
        return Obj(self.kind, f, self.t, self.alive, self.m)

    def dead(self):
        return Obj(self.kind, self.f, self.t, False, self.m)


class Frame:
    __slots__ = ('fn', 'env', 'this', 'scopes', 'types', 'line')

    def __init__(self, fn, env, this, scopes, types):
        self.fn = fn
        self.env = env
        self.this = this
        self.scopes = scopes
        self.types = types


class St:
    __slots__ = ('heap', 'kids', 'facts', 'dom', 'bools', 'uni', 'frames', 'trace', 'inexact', 'log', 'exc', 'note', 'ks', 'joined')

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.kids = dict(self.kids)
        s.facts = self.facts
        s.dom = dict(self.dom)
        s.bools = dict(self.bools)
        s.uni = self.uni
        s.frames = self.frames
        s.trace = self.trace
        s.inexact = self.inexact
        s.joined = self.joined
        s.log = self.log
        s.exc = self.exc
        s.note = self.note
        s.ks = self.ks
        return s

    @staticmethod
    def new():
        s = St.__new__(St)
        s.heap = {}
        s.kids = {}
        s.facts = ()
        s.dom = {}
        s.bools = {}
        s.uni = ()
        s.frames = ()
        s.trace = ()
        s.inexact = ()
        s.joined = False
        s.log = ()
        s.exc = None
        s.note = ()
        s.ks = ()
        return s


class Exc:
    """a thrown exception: t = type string, oom = allocation failure"""
    __slots__ = ('t', 'oom', 'where', 'val')

    def __init__(self, t, oom=False, where=None, val=None):
        self.t, self.oom, self.where, self.val = t, oom, where, val

    def __repr__(self):
        return 'throw %s%s' % (self.t, ' (allocation failure)' if self.oom else '')


def template_args(s):
    """top-level template arguments of the outermost template of s"""
    i = s.find('<')
    if i < 0:
        return []
    d, cur, out = 0, '', []
    for ch in s[i:]:
        if ch == '<':
            d += 1
            if d == 1:
                continue
        elif ch == '>':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return out


_kind_cache = {}


def kind_of(base):
    """classification of a canonical type string"""
    k = _kind_cache.get(base)
    if k is None:
        k = _kind_cache[base] = _kind(base)
    return k


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'short': (16, True), 'unsigned short': (16, False), 'char': (8, True), 'signed char': (8, True),
        'unsigned char': (8, False), 'long long': (64, True), 'unsigned long long': (64, False), 'bool': (1, False),
        'wchar_t': (32, True)}


def _kind(b):
    if b in INTS:
        return 'bool' if b == 'bool' else 'int'
    if b.endswith(']') and not b.endswith('[]'):
        return 'arr'
    if b in ('double', 'float', 'long double'):
        return 'float'
    if b == 'void':
        return 'void'
    if b.endswith('*') or b == 'std::nullptr_t' or b == 'nullptr_t':
        return 'ptr'
    if '(' in b and ')' in b and not b.startswith('std::') and not b.startswith('(') and not b.startswith(NS) and '<' not in b:
        return 'fptr'
    if b.startswith('std::basic_string_view<'):
        return 'sv'
    if b.startswith('std::basic_string<') or b == 'std::string':
        return 'str'
    if b.startswith('std::complex<'):
        return 'cx'
    if b.startswith('std::vector<') or b.startswith(NS + 'mat_type<') or b.startswith('std::deque<') or b.startswith('std::initializer_list<'):
        if '::' in b.split('>')[-1]:
            return 'other'
        return 'vec'
    if b.startswith('std::map<'):
        return 'map'
    if b == GC:
        return 'gc'
    if b == GC + '::DataStorage':
        return 'gcu'
    if b == NS + 'GC_type':
        return 'int'
    if b.startswith('std::_Bit_reference'):
        return 'bitref'
    if b.startswith('__gnu_cxx::__normal_iterator<') or b.startswith('std::_Bit_iterator') or b.startswith('std::_Bit_const_iterator') \
            or b.startswith('std::_Deque_iterator') or b.startswith('std::reverse_iterator'):
        return 'iter'
    if b.startswith('std::_Rb_tree_iterator<') or b.startswith('std::_Rb_tree_const_iterator<'):
        return 'miter'
    if b.startswith('std::pair<'):
        return 'pair'
    if b.startswith('std::basic_ostream<') or b.startswith('std::basic_ostringstream<') or b.startswith('std::basic_ofstream<') \
            or b.startswith('std::basic_stringstream<') or b.startswith('std::basic_ios<') or b == 'std::ios_base' \
            or b.startswith('std::basic_iostream'):
        return 'stream'
    if b.startswith('std::basic_istream<') or b.startswith('std::basic_ifstream<') or b.startswith('std::basic_istringstream<'):
        return 'istream'
    if b.startswith('std::unique_ptr<'):
        return 'uptr'
    if b in SEQUENCES:
        return 'stream'
    if b.endswith(']'):
        return 'arr'
    if '(lambda at' in b:
        return 'lam'
    if b.startswith(NS) or b.startswith('yy::') or b in ('c_complex_type',) or not b.startswith('std::'):
        return 'rec'
    return 'other'


# foreign classes followed as the sequence of the items put in them
SEQUENCES = set()

OBJ_KINDS = {'gc', 'vec', 'map', 'stream', 'istream', 'rec', 'arr', 'other', 'pair', 'lam'}
# 'lam' values are terms but may be copied freely


def elem_type(base):
    if base.startswith('std::deque<') or base.startswith('std::vector<') or base.startswith('std::initializer_list<') or base.startswith(NS + 'mat_type<'):
        return template_args(base)[0]
    if base.endswith(']'):
        i = base.rfind('[')
        # multi-dimensional arrays: first dimension is outermost
        j = base.find('[')
        return (base[:j] + base[base.find(']') + 1:]).strip()
    return '?'


def strip_const(s):
    s = s.strip()
    if s.startswith('const '):
        s = s[6:]
    if s.endswith(' const'):
        s = s[:-6]
    if s.endswith('*const'):
        s = s[:-5]
    return s


def pointee(base):
    s = base
    if s.endswith('*'):
        s = s[:-1].strip()
    return strip_const(s)


def is_obj_type(base):
    return kind_of(base) in ('gc', 'vec', 'map', 'stream', 'istream', 'rec', 'arr', 'other', 'pair', 'uptr')


# ---------------------------------------------------------------- terms ------

def subst(v, m):
    """replace atoms (by id -> Lin/int) in any value"""
    if isinstance(v, Lin):
        r = v.c
        hit = False
        for mono, k in v.t:
            p = k
            for a in mono:
                if a in m:
                    p = mul(p, m[a])
                    hit = True
                else:
                    nm = atom_name(a)
                    nn = subst(nm, m)
                    if nn is not nm and nn != nm:
                        p = mul(p, norm_atom(nn))
                        hit = True
                    else:
                        p = mul(p, Lin((((a,), 1),), 0))
            r = add(r, p)
        return r if hit else v
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, (tuple, Lin)):
                y = subst(x, m)
                if y is not x:
                    ch = True
                out.append(y)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


def norm_atom(name):
    """Lin for an atom name after substitution (a sum with a constant body may now collapse)"""
    if name[0] == 'sum':
        hi, body = name[1], name[2]
        if hi == 0:
            return 0
        if not mentions_bv(body):
            return mul(hi, body)
    return from_atom(name)


def mentions_bv(v):
    return any(isinstance(x, tuple) and x and x[0] == 'bv' for x in walk_terms(v))


def walk_terms(v):
    if isinstance(v, Lin):
        for a in atoms_of(v):
            yield from walk_terms(atom_name(a))
    elif isinstance(v, tuple):
        yield v
        for x in v:
            if isinstance(x, (tuple, Lin)):
                yield from walk_terms(x)


def has_atom(v, aid):
    if isinstance(v, Lin):
        for a in atoms_of(v):
            if a == aid or has_atom(atom_name(a), aid):
                return True
        return False
    if isinstance(v, tuple):
        return any(has_atom(x, aid) for x in v if isinstance(x, (tuple, Lin)))
    return False


def is_unk(v):
    """the value contains an over-approximated (not exactly known) part"""
    if isinstance(v, Lin):
        for a in atoms_of(v):
            n = atom_name(a)
            if n[0] == 'unk' or is_unk(n):
                return True
        return False
    if isinstance(v, tuple):
        if v and (v[0] == 'unk' or (v[0] == 'A' and len(v) > 1 and v[1] == 'unk')):
            return True
        return any(is_unk(x) for x in v if isinstance(x, (tuple, Lin)))
    return False


NULL = ('N',)


def P(loc):
    return ('P', loc)
