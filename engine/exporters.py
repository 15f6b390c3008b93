"""C19: what an exporter writes is a text of its format made of every stored element, each once and in its place."""
from compare import *
import interp

WRITERS = ('to_json', 'to_yaml', 'dump')


class Shape(Exception):
    """the text is not of the format; sure: whatever the values are"""
    def __init__(self, msg, sure=True):
        Exception.__init__(self, msg)
        self.sure = sure


def exports(fn, names=WRITERS):
    return fn.rec == GC and fn.n in names and fn.body is not None and fn.const and any('ostream' in fn.types[p['t']].base for p in fn.ps)


def stream_arg(fn):
    return next(i for i, p in enumerate(fn.ps) if 'ostream' in fn.types[p['t']].base)


def prefix_arg(fn):
    return next((i for i, p in enumerate(fn.ps) if kind_of(fn.types[p['t']].base) in ('sv', 'str')), None)


def nested_export(D, st, fn, this, ops, n):
    """an element exports itself: one item of the text"""
    if not exports(fn):
        return None
    i, j = stream_arg(fn), prefix_arg(fn)
    sid = D.stream_of(st, ops[i])
    a = gc_oid(D, st, this)
    if sid is None or a is None:
        return None
    D.emit(st, sid, ('child', D.gcterm(st, a), D.sval(st, D.val(st, ops[j])) if j is not None and len(ops) > j else ('s', '')))
    return [(st, None)]


def escaped(D, st, c, fn, this, ops, n):
    """the quoting of a text (checked on its own)"""
    if len(ops) != 2:
        return None
    sid = D.stream_of(st, ops[0])
    if sid is None:
        return None
    D.emit(st, sid, ('esc', D.sval(st, D.val(st, ops[1]))))
    return [(st, None)]


def pattern(D, st, c, fn, this, ops, n):
    """the match of a key with the header pattern: none, or a text for each group"""
    if len(ops) != 2:
        return None
    v = D.val(st, ops[1])
    k = D.sval(st, D.val(st, ops[0]))
    out = [(st.copy(), 0)]
    if not (isinstance(v, tuple) and v[0] == 'P' and v[1][0] == 'e' and v[1][1] in st.heap and 'upd' in st.heap[v[1][1]].f):
        st.inexact += ('pattern',)
        return [(st, D.unk('int'))]
    for i in range(4):
        D.write(st, ('e', v[1][1], add(v[1][2], i)), ('A', 'match', i, k))
    return out + [(st, 4)]


# ---------------------------------------------------------------- TOML: a tree of nodes is built, the text is the library's

LIST, TABLE, LEAF, FORMAT = 'toml::array', 'toml::table', 'toml::value<', 'toml::toml_formatter'


def node_term(D, st, x, pt):
    """the node an operand of type pt stands for"""
    if isinstance(x, tuple) and x and x[0] == 'L' and x[1][0] == 'lit':
        return ('node', 'str', ('s', x[1][1]))
    oid = D.objof(st, x)
    if oid is not None:
        o = st.heap[oid]
        if o.kind == 'stream' and o.t in (LIST, TABLE):
            return ('node', 'arr' if o.t == LIST else 'tab', o.f['tr'])
        if o.kind == 'cell' and o.t.startswith('toml::'):
            return o.f['v']
    v = D.val(st, x)
    k = kind_of(pt.base)
    if k == 'bool' or pt.base == 'bool':
        return ('node', 'bool', v)
    if k == 'int' and isnum(v):
        return ('node', 'int', v)
    if k == 'float':
        return ('node', 'float', D.i2f(v))
    if k in ('str', 'sv') or pt.base.startswith('char'):
        return ('node', 'str', D.sval(st, v))
    if __import__("os").environ.get("TDBG"): print("NT", x, oid, oid and st.heap[oid].kind, oid and st.heap[oid].t, pt.base, v)
    return ("unk", D.uid())


class Export(Vals):
    def construct(self, st, n, base, k, c, ops):
        if base.startswith('toml::'):
            T = st.frames[-1].types
            pts = [T[x] for x in c['pt']]
            if base == LIST and not (len(ops) == 1 and pts[0].base == LIST):
                oid = self.empty_obj(st, base)
                for x, t in zip(ops, pts):
                    self.emit(st, oid, node_term(self, st, x, t))
                return [(st, ('O', oid))]
            if base in (LIST, TABLE):
                if not ops:
                    return [(st, ('O', self.empty_obj(st, base)))]
                x = self.objof(st, ops[0])
                if x is not None and st.heap[x].t == base:
                    return [(st, ('O', self.clone(st, x)))]
            if base.startswith(LEAF) and len(ops) == 1 and not pts[0].base.startswith('toml::'):
                v = node_term(self, st, ops[0], pts[0])
                arg = template_args(base)[0]
                if v[0] == 'node' and v[1] == 'int' and arg in ('double', 'float'):
                    v = ('node', 'float', self.i2f(v[2]))
                elif v[0] == 'node' and arg == 'bool' and v[1] != 'bool' or v[0] == 'node' and v[1] == 'float' and arg == 'long':
                    v = ('unk', self.uid())
                return [(st, ('O', self.new_cell(st, v, base)))]
            if base == FORMAT and ops:
                return [(st, ('O', self.new_cell(st, node_term(self, st, ops[0], pts[0]), base)))]
        return Vals.construct(self, st, n, base, k, c, ops)


def toml_new(D, st, c, fn, this, ops, n):
    t = template_args(D.T(st, n).base)[0]
    if not t.startswith('toml::') or len(ops) != 1:
        return None
    x = D.objof(st, ops[0])
    if x is None or st.heap[x].t != t:
        return None
    return [(st, P(('c', D.clone(st, x))))]


def toml_push(D, st, c, fn, this, ops, n):
    if this is None or this[0] != 'c' or st.heap[this[1]].kind != 'stream' or not ops:
        return None
    D.emit(st, this[1], node_term(D, st, ops[0], st.frames[-1].types[c['pt'][0]]))
    return [(st, None)]


def toml_insert(D, st, c, fn, this, ops, n):
    if this is None or this[0] != 'c' or st.heap[this[1]].kind != 'stream' or len(ops) < 2:
        return None
    T = st.frames[-1].types
    D.emit(st, this[1], ('node', 'entry', node_term(D, st, ops[0], T[c['pt'][0]]), node_term(D, st, ops[1], T[c['pt'][1]])))
    return [(st, ('A', 'unk', D.uid()))]


def toml_self(D, st, c, fn, this, ops, n):
    if this is None or this[0] != 'c':
        return None
    return [(st, P(this))]


def toml_write(D, st, c, fn, this, ops, n):
    sid = D.stream_of(st, ops[0]) if len(ops) == 2 else None
    x = D.objof(st, ops[1]) if sid is not None else None
    if x is None or st.heap[x].t != FORMAT:
        return None
    D.emit(st, sid, ('node', 'text', st.heap[x].f['v']))
    return [(st, ops[0])]


def toml_child(D, st, fn, this, ops, n):
    """the node of an element (by induction on the depth)"""
    a = next((x for x in (gc_oid(D, st, o[1]) if isinstance(o, tuple) and o and o[0] == 'L' else None for o in ops) if x is not None), None)
    if a is None:
        return None
    oid = D.new_cell(st, ('node', 'child', D.gcterm(st, a)), LEAF + 'child>')
    return [(st, P(('c', oid)))]


TOML_KIND = {'BOOL': 'bool', 'INTEGER': 'int', 'LONG': 'int', 'REAL': 'float', 'STRING': 'str', 'POINTER': 'str'}


def is_node(x, k=None):
    return isinstance(x, tuple) and x[:1] == ('node',) and (k is None or x[1] == k)


def toml_leaf(D, st, kind, node, want, where):
    def no(msg, sure=True):
        raise Shape(where + msg, sure and not D.blurred(st))
    if not is_node(node):
        no('the node is not determined', False)
    if kind is None:
        if node[1] != 'child':
            no('a node that is not the one of the element stands there')
        r = same_value(D, st, node[2], want)
        if r is not True:
            no('the element exported is not the one of this position', r is False)
        return
    if kind == 'COMPLEX':
        if node[1] != 'arr' or any(not is_node(x) for x in node[2]):
            no('a complex number is not a pair of numbers', node[1] != 'arr')
        if len(node[2]) != 2:
            no('a complex number is not a pair of numbers')
        for x, part in zip(node[2], ('re', 'im')):
            toml_leaf(D, st, 'REAL', x, D.cx_part(want, part), where + part + ': ')
        return
    if node[1] != TOML_KIND[kind]:
        no('the stored value is written as a %s' % node[1])
    v = node[2]
    if kind == 'POINTER':
        v = datum(D, st, ('g', tokens(D, st, v[1], [], []))) if isinstance(v, tuple) and v[0] == 'strof' else None
        if v is None:
            no('what is written is not recognised as the stored pointer', False)
    r = same_datum(D, st, kind, v, want)
    if r is not True:
        no('%s is written instead of %s' % (D.nice(v), D.nice(want)), r is False)


def toml_list(node, n, what):
    if not is_node(node) or any(not is_node(x) for x in node[2]):
        raise Shape('%s: the items are not determined' % what, False)
    if node[1] != 'arr':
        raise Shape('%s is not a list' % what)
    if len(node[2]) != n:
        raise Shape('%s has %d items where %d are stored' % (what, len(node[2]), n))
    return node[2]


def toml_entries(node, what):
    if not is_node(node) or node[1] == 'tab' and any(not is_node(x, 'entry') for x in node[2]):
        raise Shape('%s: the entries are not determined' % what, False)
    if node[1] != 'tab':
        raise Shape('%s is not a table' % what)
    return [(x[2], x[3]) for x in node[2]]


def toml_named(node, what):
    out = {}
    for k, v in toml_entries(node, what):
        if not is_node(k, 'str') or k[2][:1] != ('s',):
            raise Shape('%s: a key is not determined' % what, False)
        out.setdefault(k[2][1], v)
    return out


MATRIX_KEY = {'MAT_INTEGER': '$mat_integer', 'MAT_LONG': '$mat_long', 'MAT_REAL': '$mat_real', 'MAT_COMPLEX': '$mat_complex'}


def check_toml(D, st, tn, tr, c):
    if len(tr) != 1 or not is_node(tr[0], 'text') or not is_node(tr[0][2]):
        raise Shape('the text written is not the one of one node', False)
    node = tr[0][2]
    if c[0] == 'null':
        raise Shape('an empty container, which has no TOML representation, is written')
    if c[0] == 'one':
        return toml_leaf(D, st, c[1], node, c[2], '')
    if c[0] == 'seq':
        for q, (x, v) in enumerate(zip(toml_list(node, len(c[2]), 'the value'), c[2])):
            toml_leaf(D, st, c[1], x, v, 'position %d: ' % q)
        return
    if c[0] == 'map':
        es = toml_entries(node, 'the value')
        if len(es) != len(c[1]):
            raise Shape('%d entries are written for %d stored' % (len(es), len(c[1])))
        for q, ((k, x), (wk, wv)) in enumerate(zip(es, c[1])):
            toml_leaf(D, st, 'STRING', k, wk, 'key %d: ' % q)
            toml_leaf(D, st, None, x, wv, 'entry %d: ' % q)
        return
    nr, nc, vs = c[2:]
    top = toml_named(node, 'the value')
    if list(top) != [MATRIX_KEY[tn]]:
        raise Shape('a matrix is written under %s instead of %s' % (', '.join(map(repr, top)), MATRIX_KEY[tn]))
    m = toml_named(top[MATRIX_KEY[tn]], 'the matrix')
    for k, n in (('$nrows', nr), ('$ncols', nc)):
        if k not in m:
            raise Shape('the matrix has no %s' % k)
        toml_leaf(D, st, 'INTEGER', m[k], n, k + ': ')
    for k, f in (('$data_real', 're'), ('$data_imag', 'im')) if tn == 'MAT_COMPLEX' else (('$data', None),):
        if k not in m:
            raise Shape('the matrix has no %s' % k)
        for q, (x, v) in enumerate(zip(toml_list(m[k], nr * nc, k), vs)):
            toml_leaf(D, st, 'REAL' if f else c[1], x, D.cx_part(v, f) if f else v, '%s position %d: ' % (k, q))


def toml_generic(D, st, tn, tr, p, st0):
    """any number of elements: one repetition over all of them"""
    if len(tr) != 1 or not is_node(tr[0], 'text') or not is_node(tr[0][2]):
        return None
    node = tr[0][2]
    o = st0.heap[p[1]]
    n = o.f['size']

    def rep(x, k):
        if not is_node(x, k):
            return None
        if not x[2] and D.equal(st, n, 0):
            return ()
        if len(x[2]) != 1 or x[2][0][0] != 'rep' or not D.equal(st, x[2][0][2], n) or len(x[2][0][3]) != 1:
            return None
        return from_atom(atom_name(x[2][0][1])), x[2][0][3][0]

    def each(x, k, f):
        r = rep(x, k)
        if r is None:
            return False
        if r:
            f(*r)
        return True
    q_ = lambda q: D.seq_term(st0, p[1], q)
    kind = ELEM_OF.get(tn)
    if tn == 'MAP':
        def entry(q, x):
            if not is_node(x, 'entry'):
                raise Shape('an entry is not determined', False)
            toml_leaf(D, st, 'STRING', x[2], D.key_of(st0, p[1], q), 'key: ')
            toml_leaf(D, st, None, x[3], D.map_term(st0, p[1], q), 'entry: ')
        return each(node, 'tab', entry) or None
    if tn in MATS:
        m = toml_named(toml_named(node, 'the value').get(MATRIX_KEY[tn]), 'the matrix')
        toml_leaf(D, st, 'INTEGER', m.get('$nrows'), o.f['m_num_rows'], '$nrows: ')
        toml_leaf(D, st, 'INTEGER', m.get('$ncols'), o.f['m_num_cols'], '$ncols: ')
        if tn == 'MAT_COMPLEX':
            return all(each(m.get(k), 'arr', lambda q, x, f=f: toml_leaf(D, st, 'REAL', x, D.cx_part(q_(q), f), '')) for k, f in (('$data_real', 're'), ('$data_imag', 'im'))) or None
        return each(m.get('$data'), 'arr', lambda q, x: toml_leaf(D, st, kind, x, q_(q), '')) or None
    return each(node, 'arr', lambda q, x: toml_leaf(D, st, kind, x, q_(q), 'a position: ')) or None


def visit_toml(D, fn, tag, outs, this, objs):
    st0 = D.entry
    tn, p = D.payload(st0, this)
    if tn is None:
        return
    i = stream_arg(fn)
    what = '%s of a stored %s: ' % (fn.n, tn)
    for o in outs:
        st = o.st
        if o.kind == 'exc':
            if throws(o):
                D.at_exit(st, 'C19', 'export', what + 'an error is raised', 'undec' if D.blurred(st) else 'viol')
            continue
        if o.val == 0:
            if tn == 'NOTYPE':
                D.ok('C19', 'export')
            else:
                D.at_exit(st, 'C19', 'export', what + 'it is refused', 'undec' if D.blurred(st) else 'viol')
            continue
        tr = st.heap[objs[i]].f['tr']
        c = contents(D, st0, tn, p)
        try:
            if c is None:
                if toml_generic(D, st, tn, tr, p, st0):
                    D.ok('C19', 'export')
                else:
                    D.at_exit(st, 'C19', 'export', what + 'for any number of elements the text is not determined', 'undec')
                continue
            check_toml(D, st, tn, tr, c)
            D.ok('C19', 'export')
        except Shape as e:
            D.at_exit(st, 'C19', 'export', what + str(e), 'viol' if e.sure and not D.blurred(st) else 'undec')


# ---------------------------------------------------------------- the text

def tokens(D, st, tr, out, pre):
    for e in tr:
        k = e[0]
        if k == 'out':
            token(D, st, e[1], out, pre)
        elif k == 'child':
            out.append(('x', e[1], e[2]))
        elif k == 'esc':
            out.append(('q', e[1]))
        elif k == 'rep':
            t = []
            tokens(D, st, e[3], t, pre)
            out.append(('rep', e[1], e[2], t))
        elif k == 'alt':
            alts = []
            for b in e[1]:
                t = []
                tokens(D, st, b, t, pre)
                alts.append(t)
            out.append(('alt', alts))
        else:
            out.append(('?',))
    return out


def text(out, s):
    if s and out and out[-1][0] == 't':
        out[-1] = ('t', out[-1][1] + s)
    elif s:
        out.append(('t', s))


def token(D, st, v, out, pre):
    v = text_of(v)
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        text(out, str(v))
    elif isinstance(v, Lin):
        out.append(('?',) if is_unk(v) else ('v', v))
    elif not isinstance(v, tuple) or not v or is_unk(v):
        out.append(('?',))
    elif v[0] == 's':
        text(out, v[1])
    elif v[0] == 'chr1' and isinstance(v[1], int):
        text(out, chr(v[1] & 255))
    elif v[0] == 'cat':
        for x in v[1:]:
            token(D, st, x, out, pre)
    elif v[0] == 'strof':
        t = tokens(D, st, v[1], [], pre)
        if all(x[0] == 't' for x in t):
            for x in t:
                text(out, x[1])
        else:
            out.append(('g', t))
    elif v in pre:
        out.append(('p',))
    else:
        out.append(('v', v))


def read_complex(D, st, g):
    """the number written as re, re+imi or re-imi"""
    if not g or g[0][0] != 'v':
        return None
    re = g[0][1]
    if not (isinstance(re, tuple) and re[:2] == ('A', 're')):
        return None
    z = ('A',) + re[2:]
    im = ('A', 'im') + re[2:]
    rest = g[1:]
    zero = ('fconst', 0.0)
    if not rest:
        return z if st.bools.get(('f>', im, zero)) is False and st.bools.get(('f>', zero, im)) is False else None
    if len(rest) == 3 and rest[0] == ('t', '+') and rest[1] == ('v', im) and rest[2] == ('t', 'i'):
        return z
    if len(rest) == 3 and rest[0] == ('t', '-') and rest[1] == ('v', ('fop', 'neg', im, None)) and rest[2] == ('t', 'i'):
        return z
    return None


def datum(D, st, t):
    """the stored value a token of the text stands for, or None"""
    if t[0] == 'v':
        v = t[1]
        if isinstance(v, Lin):
            m = D.single_atom(v) if hasattr(D, 'single_atom') else None
            a = sorted(atoms_of(v))
            if len(a) == 1 and v == from_atom(atom_name(a[0])):
                nm = atom_name(a[0])
                if nm[0] == 'p2i':
                    return nm[1]
        return v
    if t[0] == 'q':
        return t[1]
    if t[0] == 'g':
        z = read_complex(D, st, t[1])
        if z is not None:
            return z
        if len(t[1]) == 1:
            return datum(D, st, t[1][0])
    return None


# ---------------------------------------------------------------- what is stored

def contents(D, st0, tn, p):
    """('one', kind, value) / ('seq', kind, [values]) / ('map', [(key, child)]) / ('mat', kind, rows, cols, [values]) / None (generic)"""
    if tn == 'NOTYPE':
        return ('null',)
    if tn in SCALARS:
        return ('one', tn, p)
    o = st0.heap[p[1]]
    n = o.f['size']
    if not isinstance(n, int):
        return None
    if tn == 'MAP':
        return ('map', [(D.key_of(st0, p[1], q), D.map_term(st0, p[1], q)) for q in range(n)])
    vs = [D.seq_term(st0, p[1], q) for q in range(n)]
    if tn in MATS:
        return ('mat', ELEM_OF[tn], o.f['m_num_rows'], o.f['m_num_cols'], vs)
    return ('seq', ELEM_OF.get(tn), vs)


def same_datum(D, st, kind, got, want):
    """True / False / None"""
    if got is None:
        return None
    return same_elem(D, st, kind, got, want)


def truth_word(D, st, v):
    if D.equal(st, v, 1):
        return 'true'
    if D.equal(st, v, 0):
        return 'false'
    return None


# ---------------------------------------------------------------- JSON

class Scan:
    """a list of tokens read as characters and data"""
    def __init__(self, toks):
        self.t = []
        for x in toks:
            if x[0] == 't':
                self.t += [('c', ch) for ch in x[1]]
            else:
                self.t.append(x)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end',)

    def next(self):
        x = self.peek()
        self.i += 1
        if x[0] == '?':
            raise Shape('not determined', False)
        if x[0] in ('rep', 'alt'):
            raise Shape('repeated', False)
        return x

    def blank(self, nl=True):
        while self.peek() in (('c', ' '), ('c', '\t'), ('p',)) or nl and self.peek() in (('c', '\n'), ('c', '\r')):
            self.i += 1

    def want(self, ch):
        x = self.next()
        if x != ('c', ch):
            raise Shape("'%s' is expected where %s stands" % (ch, show(x)))

    def word(self):
        w = ''
        while self.peek()[0] == 'c' and (self.peek()[1].isalnum() or self.peek()[1] in '_.+-'):
            w += self.next()[1]
        return w


def show(x):
    if x[0] == 'c':
        return "'%s'" % x[1]
    return {'end': 'the end of the text', 'v': 'a value', 'q': 'a quoted text', 'x': 'an element', 'g': 'a value', 'p': 'the indentation'}.get(x[0], x[0])


def json(s):
    s.blank()
    x = s.peek()
    if x == ('c', '['):
        s.next()
        out = []
        s.blank()
        if s.peek() == ('c', ']'):
            s.next()
            return ('arr', out)
        while True:
            out.append(json(s))
            s.blank()
            x = s.next()
            if x == ('c', ']'):
                return ('arr', out)
            if x != ('c', ','):
                raise Shape("elements are not separated by ',' (%s stands there)" % show(x))
    if x == ('c', '{'):
        s.next()
        out = []
        s.blank()
        if s.peek() == ('c', '}'):
            s.next()
            return ('obj', out)
        while True:
            s.blank()
            k = json(s)
            s.blank()
            s.want(':')
            out.append((k, json(s)))
            s.blank()
            x = s.next()
            if x == ('c', '}'):
                return ('obj', out)
            if x != ('c', ','):
                raise Shape("entries are not separated by ',' (%s stands there)" % show(x))
    if x == ('c', '"'):
        s.next()
        out = []
        while s.peek() != ('c', '"'):
            x = s.next()
            if x[0] == 'end':
                raise Shape('a quoted text is not closed')
            out.append(x)
        s.next()
        return ('str', out)
    if x[0] == 'c':
        w = s.word()
        if not w:
            raise Shape("%s stands where a value is expected" % show(x))
        return ('lit', w)
    s.next()
    if x[0] == 'end':
        raise Shape('the text ends where a value is expected')
    if x[0] == 'g':
        raise Shape('a text is written without quotes', False)
    return (x[0], x)


def joined(s):
    """consecutive characters and data of a quoted text as tokens"""
    out = []
    for x in s:
        if x[0] == 'c':
            text(out, x[1])
        else:
            out.append(x)
    return out


def one(D, st, kind, node, want, where, quoted):
    """a leaf of the text is the stored value; quoted: types that stand between quotes in this format"""
    def no(msg, sure=True):
        raise Shape(where + msg, sure and not D.blurred(st))
    if kind is None:
        if node[0] != 'x':
            no('%s stands where the element is expected' % show(node))
        r = same_value(D, st, node[1][1], want)
        if r is not True:
            no('the element exported is not the one of this position', r is False)
        return
    if kind == 'BOOL':
        w = truth_word(D, st, want)
        if node[0] != 'lit' or node[1] not in ('true', 'false'):
            no('neither true nor false is written for a boolean', node[0] == 'lit')
        elif w is None:
            no('%s is written whatever the boolean is' % node[1], D.ambiguous(st, want))
        elif w != node[1]:
            no('%s is written for a boolean that is %s' % (node[1], w))
        return
    if node[0] == 'str' and kind in ('COMPLEX', 'POINTER'):
        g = joined(node[1])
        v = datum(D, st, ('g', g)) if len(g) != 1 else datum(D, st, g[0])
        if v is None:
            no('what is written is not recognised as the stored value', False)
    elif kind == 'STRING':
        if node[0] not in ('q', 'v') or node[0] == 'v' and 'STRING' in quoted:
            no('the text is written without the quoting of its characters', node[0] == 'v' or node[0] == 'str' and any(x[0] == 'v' for x in node[1]))
        v = node[1][1]
    elif node[0] in ('v', 'g'):
        if kind in quoted:
            no('the value is written without quotes')
        v = datum(D, st, node[1])
    elif node[0] in ('str', 'lit', 'arr', 'obj'):
        no('%s is written instead of the stored value' % {'str': 'a text', 'lit': repr(node[1]), 'arr': 'a list', 'obj': 'a map'}[node[0]],
           node[0] != 'str' or all(x[0] == 'c' for x in node[1]))
    else:
        v = None
    r = same_datum(D, st, kind, v, want)
    if r is not True:
        no('%s is written instead of %s' % (D.nice(v), D.nice(want)), r is False)


def ambiguous(D, st, v):
    """the path leaves both values of a boolean possible"""
    return isinstance(v, Lin) and D.witness(st, sub(v, 1)) is not None and D.witness(st, neg(v)) is not None


Vals.ambiguous = ambiguous


def tree(D, st, tn, node, c, quoted, nul, keys=True):
    if c[0] == 'null':
        if node not in nul:
            raise Shape('an empty container is not written as null')
        return
    if c[0] == 'one':
        return one(D, st, c[1], node, c[2], '', quoted)
    if c[0] == 'map':
        if not c[1] and node in nul:
            return
        if node[0] != 'obj':
            raise Shape('a map is not written as one')
        if len(node[1]) != len(c[1]):
            raise Shape('%d entries are written for %d stored' % (len(node[1]), len(c[1])))
        for q, ((k, v), (wk, wv)) in enumerate(zip(node[1], c[1])):
            one(D, st, 'STRING', k, wk, 'key %d: ' % q, quoted if keys else ())
            one(D, st, None, v, wv, 'entry %d: ' % q, quoted)
        return
    if c[0] == 'mat':
        nr, nc, vs = c[2], c[3], c[4]
        if nr * nc == 0 and (node in nul or node[0] == 'arr'):
            return
        if node[0] != 'arr' or any(x[0] != 'arr' for x in node[1]):
            raise Shape('a matrix is not written as a list of columns')
        if len(node[1]) != nc or any(len(x[1]) != nr for x in node[1]):
            raise Shape('a matrix of %d rows and %d columns is written as %d lists of %s elements' % (
                nr, nc, len(node[1]), '/'.join(sorted({str(len(x[1])) for x in node[1]}))))
        for j in range(nc):
            for i in range(nr):
                one(D, st, c[1], node[1][j][1][i], vs[i + j * nr], 'row %d column %d: ' % (i, j), quoted)
        return
    vs = c[2]
    if not vs and node in nul:
        return
    if node[0] != 'arr':
        raise Shape('a list is not written as one')
    if len(node[1]) != len(vs):
        raise Shape('%d elements are written for %d stored' % (len(node[1]), len(vs)))
    for q, v in enumerate(vs):
        one(D, st, c[1], node[1][q], v, 'position %d: ' % q, quoted)


def check_json(D, st, fn, tn, toks, c):
    s = Scan(toks)
    t = json(s)
    s.blank()
    if s.peek()[0] != 'end':
        raise Shape('%s follows the value' % show(s.peek()))
    tree(D, st, tn, t, c, ('COMPLEX', 'POINTER', 'STRING'), (('lit', 'null'),))


# ---------------------------------------------------------------- YAML

def flow(s):
    """a scalar or a flow sequence on one line"""
    s.blank(False)
    x = s.peek()
    if x == ('c', '['):
        s.next()
        out = []
        s.blank(False)
        if s.peek() == ('c', ']'):
            s.next()
            return ('arr', out)
        while True:
            out.append(flow(s))
            s.blank(False)
            x = s.next()
            if x == ('c', ']'):
                return ('arr', out)
            if x != ('c', ','):
                raise Shape("elements are not separated by ',' (%s stands there)" % show(x))
    if x[0] == 'c':
        w = s.word()
        if not w:
            raise Shape('%s stands where a value is expected' % show(x))
        return ('lit', w)
    s.next()
    if x[0] == 'end':
        raise Shape('the text ends where a value is expected')
    return (x[0], x)


def yaml(D, s, pre):
    """the text up to the end of the value, which closes its line"""
    if s.peek() != ('c', '\n'):
        v = flow(s)
        if v[0] == 'x':
            return v
        s.blank(False)
        s.want('\n')
        return v
    s.next()
    items, obj = [], []
    while s.peek()[0] != 'end':
        n = 0
        while s.peek() in (('p',), ('c', ' ')):
            n += s.next() == ('p',)
        if n != 1:
            raise Shape('a line does not begin with the indentation of its container')
        if s.peek() == ('c', '-'):
            s.next()
            s.want(' ')
            items.append(block(D, s, pre))
        else:
            k = s.next()
            if k[0] == 'c' or k[0] == 'end':
                raise Shape('%s stands where a key is expected' % show(k))
            s.want(':')
            s.want(' ')
            obj.append(((k[0], k), block(D, s, pre)))
    if items and obj:
        raise Shape('a list and a map are mixed')
    return ('obj', obj) if obj else ('arr', items) if items else ('lit', 'null')


def block(D, s, pre):
    v = flow(s)
    if v[0] == 'x':
        q = v[1][2]
        inner = isinstance(q, tuple) and q[0] == 'cat' and q[1] in pre and q[2][0] == 's' and q[2][1] and not q[2][1].strip()
        if not inner:
            raise Shape('a nested element is not written with a deeper indentation', q in pre or q == ('s', ''))
        return v
    s.blank(False)
    s.want('\n')
    return v


def check_yaml(D, st, fn, tn, toks, c, pre):
    s = Scan(toks)
    t = yaml(D, s, pre)
    if s.peek()[0] != 'end':
        raise Shape('%s follows the value' % show(s.peek()))
    tree(D, st, tn, t, c, ('STRING',), (('lit', 'null'),), False)


# ---------------------------------------------------------------- dump: the data in order, told apart

def flat(toks):
    out = []
    for x in toks:
        if x[0] in ('rep', 'alt', '?'):
            raise Shape('repeated', False)
        else:
            out.append(x)
    return out


def check_dump(D, st, fn, tn, toks, c):
    toks = flat(toks)
    if c[0] == 'null':
        if not any(x[0] == 't' and x[1].strip() for x in toks):
            raise Shape('nothing is written for an empty container')
        return
    kinds = {'one': lambda: [(c[1], c[2])], 'seq': lambda: [(c[1], v) for v in c[2]], 'map': lambda: [(None, v) for _, v in c[1]],
             'mat': lambda: [(c[1], v) for v in c[4]]}
    want = kinds[c[0]]()
    if c[0] == 'mat':
        nr, nc = c[2], c[3]
        want = [want[i + j * nr] for i in range(nr) for j in range(nc)]
    kind = want[0][0] if want else None
    got = []
    sep = True
    if kind == 'BOOL':
        for x in toks:
            if x[0] == 't':
                for w in x[1].replace('[', ' ').replace(']', ' ').replace(',', ' ').split():
                    if w in ('true', 'false'):
                        got.append(('lit', w))
            elif x[0] != 'p':
                raise Shape('a boolean is not written as true or false', False)
    else:
        for x in toks:
            if x[0] in ('t', 'p'):
                sep = sep or bool(x[1]) if x[0] == 't' else sep
                continue
            if x[0] == 'v' and isinstance(x[1], Lin) and kind not in ('INTEGER', 'LONG', 'POINTER'):
                sep = True
                continue
            if c[0] == 'map' and x[0] in ('v', 'q'):
                sep = True
                continue
            if not sep:
                raise Shape('two elements are written with nothing between them')
            sep = x[0] == 'x'
            got.append((x[0], x))
    if len(got) != len(want):
        raise Shape('%d elements are written for %d stored' % (len(got), len(want)))
    for q, (g, (k, v)) in enumerate(zip(got, want)):
        if k == 'STRING' and g[0] == 'v':
            r = same_datum(D, st, k, g[1][1], v)
            if r is not True:
                raise Shape('position %d: %s is written instead of %s' % (q, D.nice(g[1][1]), D.nice(v)), r is False)
            continue
        one(D, st, k, g, v, 'position %d: ' % q, ())
    if c[0] == 'map':
        at = [i for i, x in enumerate(toks) if x[0] == 'x']
        for q, (k, _) in enumerate(c[1]):
            seg = toks[at[q - 1] + 1 if q else 0:at[q]]
            if not any(x[0] == 'v' and has_term(x[1], k) for x in seg):
                raise Shape('the key of entry %d is not written' % q, True)


def has_term(v, k):
    return any(t == k for t in walk_terms(v))


# ---------------------------------------------------------------- any number of elements

def generic(D, st, fn, tn, toks, p, st0, js):
    """sequences of unknown length: one repetition over all elements, each written once by every alternative of a pass"""
    o = st0.heap[p[1]]
    n = o.f['size']
    reps = [x for x in toks if x[0] == 'rep']
    rest = [x for x in toks if x[0] not in ('rep', 't', 'p')]
    if not reps and not rest:
        # a path for an empty container
        if D.equal(st, n, 0):
            return True
        if tn in MATS and (D.equal(st, o.f['m_num_rows'], 0) or D.equal(st, o.f['m_num_cols'], 0)):
            return True
        if any(x[0] == '?' for x in toks) or D.blurred(st):
            return None
        if D.witness(st, sub(1, n)) is None:
            return None
        raise Shape('nothing is written for a container that is not empty')
    if len(reps) != 1 or any(x[0] == '?' for x in rest) or tn in MATS or tn == 'VEC_BOOL':
        return None
    _, kb, cnt, body = reps[0]
    if not D.equal(st, cnt, n):
        if not D.blurred(st) and isnum(cnt) and not is_unk(cnt) and D.differ(st, cnt, n):
            raise Shape('%s elements are written for %s stored' % (D.nice(cnt), D.nice(n)))
        return None
    q = from_atom(atom_name(kb))
    if tn == 'MAP':
        want, kind = D.map_term(st0, p[1], q), None
    else:
        want, kind = D.seq_term(st0, p[1], q), ELEM_OF.get(tn)
    for alt in alternatives(body):
        data = []
        for x in alt:
            if x[0] in ('t', 'p') or x[0] == '?' and not js:
                continue
            if x[0] == '?':
                continue
            if kind is None and x[0] == 'x':
                data.append(x[1])
            elif kind is not None and x[0] in ('v', 'q', 'g'):
                v = datum(D, st, x)
                if isinstance(v, Lin) and v == q:
                    continue
                data.append(v)
        if len(data) != 1 or same_elem(D, st, kind, data[0], want) is not True and data[0] != want:
            return None
    return True


def alternatives(body):
    outs = [[]]
    for x in body:
        if x[0] == 'alt':
            outs = [o + y for o in outs for a in x[1] for y in alternatives(a)]
            if len(outs) > 64:
                return outs[:64]
        else:
            outs = [o + [x] for o in outs]
    return outs


def visit_c19(D, fn, tag, outs, this, objs):
    st0 = D.entry
    tn, p = D.payload(st0, this)
    if tn is None:
        return
    i, j = stream_arg(fn), prefix_arg(fn)
    pre = [text_of(D.val(st0, a)) for k, a in enumerate(D.args0) if kind_of(fn.types[fn.ps[k]['t']].base) in ('sv', 'str')][:1]
    what = '%s of a stored %s: ' % (fn.n, tn)
    for o in outs:
        st = o.st
        if o.kind == 'exc':
            if throws(o):
                D.at_exit(st, 'C19', 'export', what + 'an error is raised', 'undec' if D.blurred(st) else 'viol')
            continue
        toks = tokens(D, st, st.heap[objs[i]].f['tr'], [], pre)
        c = contents(D, st0, tn, p)
        try:
            if c is None:
                r = generic(D, st, fn, tn, toks, p, st0, fn.n == 'to_json')
                if r is True:
                    D.ok('C19', 'export')
                else:
                    D.at_exit(st, 'C19', 'export', what + 'for any number of elements the text is not determined', 'undec')
                continue
            if fn.n == 'to_json':
                check_json(D, st, fn, tn, toks, c)
            elif fn.n == 'to_yaml':
                check_yaml(D, st, fn, tn, toks, c, pre)
            else:
                check_dump(D, st, fn, tn, toks, c)
            D.ok('C19', 'export')
        except Shape as e:
            D.at_exit(st, 'C19', 'export', what + str(e), 'viol' if e.sure and not D.blurred(st) else 'undec')


# ---------------------------------------------------------------- the quoting of a text

def quotes(fn):
    return fn.n == 'string_escape' and fn.body is not None and len(fn.ps) == 2


def few_chars(D, k):
    def f(st, this, ops, objs):
        D.unfold = 6
        s = D.sval(st, D.val(st, ops[1]))
        L = sub(D.str_len(st, s), k)
        D.assume(st, L)
        D.assume(st, neg(L))
    return f


def char_value(L, s, v):
    """value of a character of the output when the characters of the text s are v"""
    if isinstance(L, int):
        return L
    t = 0
    for mono, c in L.t:
        for a in mono:
            x = char_atom(atom_name(a), s, v)
            if x is None:
                return None
            c *= x
        t += c
    return t + L.c


def char_atom(n, s, v):
    if n[0] == 'ch' and n[1] == s:
        i = char_value(n[2], s, v)
        return v[i] if i is not None and 0 <= i < len(v) else None
    if n[0] == 'ch' and n[1][0] == 's':
        i = char_value(n[2], s, v)
        return ord(n[1][1][i]) if i is not None and 0 <= i < len(n[1][1]) else None
    if n[0] == 'len' and n[1] == s:
        return len(v)
    if n[0] in ('div', 'mod') and isinstance(n[2], int) and n[2]:
        x = char_value(n[1], s, v)
        if x is None:
            return None
        q = abs(x) // abs(n[2]) * (1 if (x < 0) == (n[2] < 0) else -1)
        return q if n[0] == 'div' else x - q * n[2]
    if n[0] == 'conv':
        x = char_value(n[3], s, v)
        if x is None:
            return None
        x &= (1 << n[1]) - 1
        return x - (1 << n[1]) if n[2] and x >> (n[1] - 1) else x
    return None


# characters that stand for the classes told apart by the format, and their neighbours
SAMPLE = tuple(ord(c) for c in '\0\1\b\t\n\f\r\x1f "\\/au\x7f') + (-128, -56, -1)


def texts_of(k):
    if k == 0:
        return [()]
    if k == 1:
        return [(v,) for v in range(-128, 128)]
    return [(v,) + w for v in SAMPLE for w in texts_of(k - 1)] if k == 2 else [(v, w, v) for v in SAMPLE for w in SAMPLE]


def visit_quote(D, fn, tag, outs, this, objs):
    st0 = D.entry
    s = D.sval(st0, D.val(st0, D.args0[1]))
    ln = D.str_len(st0, s)
    n = next((k for k in range(4) if D.equal(st0, ln, k)), None)
    import json as J
    for o in outs:
        st = o.st
        if o.kind == 'exc':
            if throws(o):
                D.at_exit(st, 'C19', 'quote', 'an error is raised', 'undec' if D.blurred(st) else 'viol')
            continue
        if n is None:
            whole_text(D, st, tokens(D, st, st.heap[objs[0]].f['tr'], [], []), ln)
            continue
        toks = Scan(tokens(D, st, st.heap[objs[0]].f['tr'], [], [])).t
        for v in texts_of(n):
            if any(u is False for u in quick(D, st, s, v)):
                continue
            out = ''
            for t in toks:
                if t[0] == 'c':
                    out += t[1]
                elif t[0] == 'v' and isinstance(t[1], tuple) and t[1][0] == 'chr1':
                    y = char_value(t[1][1], s, v)
                    if y is None:
                        out = None
                        break
                    out += chr(y & 255)
                elif t == ('v', s):
                    out += ''.join(chr(x & 255) for x in v)
                else:
                    out = None
                    break
            if out is None:
                D.at_exit(st, 'C19', 'quote', 'the quoted text of a character is not determined', 'undec')
                break
            t = ''.join(chr(x & 255) for x in v)
            try:
                good = J.loads(out) == t
            except ValueError:
                good = False
            if good:
                D.ok('C19', 'quote')
            else:
                D.at_exit(st, 'C19', 'quote', 'the text made of the characters %s is quoted as %r, which is not that text' % (' '.join(str(x & 255) for x in v), out),
                          'undec' if D.blurred(st) else 'viol')
                break


def whole_text(D, st, toks, ln):
    """any number of characters: something is written for each, between two quotes"""
    def no(msg, sure):
        D.at_exit(st, 'C19', 'quote', msg, 'viol' if sure and not D.blurred(st) else 'undec')
    if any(t[0] == '?' for t in toks):
        return no('the quoted text is not determined', False)
    if toks == [('t', '""')] and D.equal(st, ln, 0):
        return D.ok('C19', 'quote')
    if len(toks) != 3 or toks[0] != ('t', '"') or toks[2] != ('t', '"') or toks[1][0] not in ('rep', 'v'):
        return no('the quoted text of any number of characters is not determined', False)
    if toks[1][0] == 'v':
        return no('the quoted text is not determined', False)
    if not D.equal(st, toks[1][2], ln):
        return no('%s characters are written for a text of %s' % (D.nice(toks[1][2]), D.nice(ln)),
                  isnum(toks[1][2]) and not is_unk(toks[1][2]) and D.differ(st, toks[1][2], ln))
    if any(not a for a in alternatives(toks[1][3])):
        return no('nothing is written for some characters', True)
    D.ok('C19', 'quote')


def quick(D, st, s, v):
    """the recorded conditions on the characters of the text s, for their values v"""
    for f in st.facts:
        g = char_value(f, s, v) if isinstance(f, Lin) else None
        if g is not None and g < 0:
            yield False
    for k, t in st.bools.items():
        if k[0] == 'eq' and isinstance(k[1], Lin):
            g = char_value(k[1], s, v)
            if g is not None and (g == 0) != t:
                yield False


def init_quote(D):
    init_vals(D)
    D.merging = False
    D.unfold_paths = 3000


def toml_functions(prog):
    """the recursive functions behind to_toml: those that return a node for a container"""
    return [f for f in prog.fns.values() if f.body is not None and 'rt' in f.d and 'toml::node' in f.types[f.d['rt']].base
            and any(f.types[q['t']].base == GC for q in f.ps)]


def init_toml(D):
    init_vals(D)
    D.unfold_paths = 400
    for f in toml_functions(D.prog):
        D.summaries[f.q] = toml_child
    D.hooks['std::make_unique'] = toml_new
    for q in ('push_back', 'emplace_back'):
        D.hooks[LIST + '::' + q] = toml_push
    for q in ('insert', 'insert_or_assign', 'emplace'):
        D.hooks[TABLE + '::' + q] = toml_insert
    for q in (LIST, TABLE):
        D.hooks[q + '::as_array'] = D.hooks[q + '::as_table'] = toml_self
    D.hooks['toml::operator<<'] = toml_write


def init_c19(D):
    init_vals(D)
    D.unfold_paths = 400
    for q in WRITERS:
        D.summaries[GC + '::' + q] = nested_export
    D.hooks[NS + 'string_escape'] = escaped
    D.hooks[NS + 'Pcre_for_GC::exec'] = pattern


def check_C19():
    rep = Report('C19')
    prog = P_.extract()
    fns = [f for f in operations(prog) if exports(f)]
    res = sweep_all(prog, visit_c19, init_c19, fns, False, Vals, ((0, 0, 0),) + SIZES + ((2, 3, 1), (2, 2, 3)))
    collect(rep, res, 'C19', ('export',), {
        'export': 'the text written parses as the format and its leaves are the stored elements, each once, in order'})
    tf = [f for f in operations(prog) if exports(f, ('to_toml',))]
    interp.SEQUENCES.update((LIST, TABLE))
    interp._kind_cache.clear()
    res = sweep_all(prog, visit_toml, init_toml, tf, False, Export, ((0, 0, 0),) + SIZES + ((2, 3, 1), (2, 2, 3)))
    collect(rep, res, 'C19', ('export',), {
        'export': 'the text written parses as the format and its leaves are the stored elements, each once, in order'})
    qs = [f for f in prog.fns.values() if quotes(f)]
    res2 = sweep_all(prog, visit_quote, init_quote, qs, False, Vals, False, lambda D, fn: [(fn, None, None, 'a text')] + [(fn, None, few_chars(D, k), 'a text of %d characters' % k) for k in range(4)])
    collect(rep, res2, 'C19', ('quote',), {
        'quote': 'the quoted text written denotes the text: for every character, for pairs and triples of characters of every class, and one piece per character for any length'})
    rep.cov['exporters'] = [f.sig().replace(NS, '') for f in fns + tf]
    return rep.finish('other', HOW + ' The text an exporter leaves in its stream is a sequence of literal pieces and stored values; it is parsed with the grammar of the format and the '
                      'tree obtained is compared with the stored elements at the entry.', ASSUME)
