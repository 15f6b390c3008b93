"""Models of the C++ standard library operations the repository uses, as transfer functions of the abstract state."""
from loops import *

OOR = 'std::out_of_range'


class Engine(Loops):
    view_owner = {}

    # ------------------------------------------------------------ operands
    def val(self, st, o):
        """rvalue of an operand"""
        if isinstance(o, tuple) and o:
            if o[0] == 'L':
                if o[1][0] == 'lit':
                    return ('cs', ('s', o[1][1]), True, 0)
                return self.val(st, self.read(st, self.resolve(st, o[1])))
            if o[0] == 'bit':
                return self.read(st, o[1])
            if o[0] == 'O':
                ob = st.heap.get(o[1])
                if ob is not None and ob.kind == 'cell':
                    return self.val(st, self.obj(st, o[1]).f['v'])
        return o

    def sval(self, st, o):
        """text value"""
        v = self.val(st, o)
        if isinstance(v, tuple) and v:
            if v[0] == 'cs':
                if len(v) > 3 and v[3] != 0:
                    return ('A', 'strat', v[1], v[3])
                v = v[1]
            ow = self.view_owner.get(v)
            if ow is not None:
                oo = st.heap.get(ow[0])
                if oo is not None and (not oo.alive or oo.f.get('v') != ow[1]):
                    if oo.alive:
                        self.event(st, 'C02', 'use-after-change', 'text that lives inside the container is used after the container changed it')
                    else:
                        self.event(st, 'C02', 'use-after-release', 'text that lives inside the container is used after its storage was released')
                return ow[1]
            return v
        if isinstance(v, int):
            return ('A', 'unk', self.uid())
        return ('A', 'unk', self.uid())

    def num(self, st, o, t='long'):
        v = self.val(st, o)
        if isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
            return v
        return v if isnum(v) else self.unk(t)

    def objof(self, st, o):
        if isinstance(o, tuple) and o:
            if o[0] == 'L':
                l = self.resolve(st, o[1])
                if l[0] == 'c':
                    return l[1]
                v = self.read(st, l)
                if isinstance(v, tuple) and v and v[0] == 'O':
                    return v[1]
                return None
            if o[0] == 'O':
                return o[1]
        return None

    # ------------------------------------------------------------ dispatch
    def external(self, st, c, q, this, ops, n):
        name = c['n']
        self.count('external')
        if this is not None:
            this = self.resolve(st, this)
            k = None
            if this[0] == 'c':
                o = self.obj(st, this[1])
                if o.kind in ('vec', 'map', 'stream'):
                    k = o.kind
                elif o.kind == 'cell':
                    k = kind_of(o.t)
                    v = o.f['v']
                    if isinstance(v, tuple) and v and v[0] == 'ref':
                        return self.external(st, c, q, v[1], ops, n)
                else:
                    k = o.kind
            cls = q.rsplit('::', 1)[0]
            ck = self.class_kind(cls, q)
            if ck is not None:
                k = ck
            m = getattr(self, 'm_' + str(k), None)
            if m is not None:
                r = m(st, c, name, this, ops, n)
                if r is not None:
                    return r
            return self.unknown(st, c, this, ops, n)
        m = self.FREE.get(q)
        if m is None and q.startswith('std::operator'):
            m = 'op'
        if m is None and q.startswith('__gnu_cxx::operator'):
            m = 'op'
        if m is not None:
            r = getattr(self, 'x_' + m)(st, c, name, ops, n)
            if r is not None:
                return r
        if q.startswith('lua'):
            r = self.lua_call(st, c, name, ops, n)
            if r is not None:
                return r
        return self.unknown(st, c, None, ops, n)

    _ck = {}

    def class_kind(self, cls, q):
        r = self._ck.get(q)
        if r is None:
            # the qualified name ends in the method; conversion operators contain spaces and types
            d = 0
            cut = None
            i = 0
            while i < len(q):
                ch = q[i]
                if ch == '<' and not q.startswith('operator<', i - 8):
                    d += 1
                elif ch == '>' and d > 0:
                    d -= 1
                elif d == 0 and q.startswith('::', i):
                    nxt = q[i + 2:]
                    cut = i
                    if nxt.startswith('operator'):
                        break
                i += 1
            b = q[:cut] if cut else ''
            k = kind_of(b) if b else 'other'
            r = self._ck[q] = k if k in ('vec', 'map', 'str', 'sv', 'cx', 'stream', 'istream', 'iter', 'miter', 'bitref', 'uptr') else 'none'
            if b.startswith('std::ios_base') or b.startswith('std::basic_ios'):
                self._ck[q] = r = 'stream'
        return None if r == 'none' else r

    def unknown(self, st, c, this, ops, n):
        """an external operation without a model: may fail, may change what it can reach, arbitrary result"""
        self.count('opaque')
        if not c.get('nx'):
            self.may_throw(st, 'callee exception')
        T = st.frames[-1].types
        for i, o in enumerate(ops):
            pt = T[c['pt'][i]] if i < len(c['pt']) else None
            if isinstance(o, tuple) and o and o[0] == 'bi':
                self.havoc_loc(st, ('c', o[1]))
            if isinstance(o, tuple) and o and o[0] == 'L' and pt is not None and pt.ref and not pt.const:
                self.havoc_loc(st, o[1])
            if isinstance(o, tuple) and o and o[0] == 'P' and pt is not None and not pt.pconst:
                if o[1][0] in ('c',):
                    self.havoc_loc(st, o[1])
                elif o[1][0] == 'e':
                    self.havoc_loc(st, ('c', o[1][1]))
        if this is not None and not c.get('const') and this[0] == 'c' and st.heap[this[1]].kind not in ('stream',):
            self.havoc_loc(st, this)
        rt = T[c['rt']] if 'rt' in c else self.T(st, n)
        name = ('ext', c['n'], self.uid())
        if c.get('const') and this is not None and this[0] == 'c' and st.heap[this[1]].kind == 'cell':
            # a query of an unchanged object answers the same each time
            vals = tuple(self.val(st, o) for o in ops)
            if all(isnum(v) or (isinstance(v, tuple) and v and v[0] in ('s', 'A', 'cs')) for v in vals):
                name = ('ext', c['q'], st.heap[this[1]].f['v']) + vals
        return [(st, self.fresh_ret(st, rt, name))]

    # ------------------------------------------------------------ vectors
    def size_set(self, st, oid, size, more=()):
        o = st.heap[oid]
        st.heap[oid] = o.set(size=size, upd=o.f['upd'] + tuple(more))

    def drop_kids(self, st, oid, keep=None):
        for (p, k), kid in [x for x in st.kids.items() if len(x[0]) == 2]:
            if p != oid:
                continue
            if keep is not None and keep(k):
                continue
            self.destroy(st, kid)
            st.kids.pop((p, k), None)

    def relocate(self, st, oid):
        """elements may move: element objects get new identities, old references dangle"""
        for (p, k), kid in [x for x in st.kids.items() if len(x[0]) == 2]:
            if p != oid or not isnum(k):
                continue
            o = st.heap[kid]
            if not o.alive:
                continue
            new = self.uid()
            m = dict(o.m)
            st.heap[new] = Obj(o.kind, o.f, o.t, True, m)
            st.heap[kid] = Obj(o.kind, o.f, o.t, False, dict(o.m, moved=True))
            st.kids[(p, k)] = new
            if o.kind == 'gc':
                v = o.f.get('val')
                if isinstance(v, tuple) and v[0] == 'P':
                    po = st.heap.get(v[1][1])
                    if po is not None and po.alive and not self.gc_moves():
                        # elements are copied, the old ones destroyed: the payload is a new one
                        np = self.uid()
                        pm = dict(po.m)
                        if 'payload' in pm:
                            pm['payload'] = new
                        st.heap[np] = Obj(po.kind, po.f, po.t, True, pm)
                        st.heap[v[1][1]] = Obj(po.kind, po.f, po.t, False, dict(po.m, moved=True))
                        for (p3, k3), y in list(st.kids.items()):
                            if p3 == v[1][1]:
                                st.kids.pop((p3, k3))
                                st.kids[(np, k3)] = y
                        st.heap[new] = st.heap[new].set(val=P(('c', np)))
                    elif po is not None and po.m.get('payload') == kid:
                        st.heap[v[1][1]] = Obj(po.kind, po.f, po.t, po.alive, dict(po.m, payload=new))
            for (p2, k2), x in list(st.kids.items()):
                if p2 == kid:
                    st.kids.pop((p2, k2))
                    st.kids[(new, k2)] = x

    def gc_moves(self):
        r = self.__dict__.get('_gcmoves')
        if r is None:
            rec = self.prog.records.get(GC)
            r = self._gcmoves = any(f.rec == GC and f.d.get('ctor') and len(f.ps) == 1 and f.types[f.ps[0]['t']].s.endswith('&&')
                                    for f in self.prog.fns.values())
        return r

    def elem_val(self, st, oid, o):
        """operand -> element value term"""
        et = strip_const(elem_type(st.heap[oid].t)) if st.heap[oid].t else '?'
        if is_obj_type(et):
            x = self.objof(st, o)
            if x is None:
                return ('unk', self.uid())
            return self.objterm(st, x)
        if kind_of(et) in ('str', 'sv'):
            return self.sval(st, o)
        v = self.val(st, o)
        if kind_of(et) == 'cx' and isinstance(v, tuple) and v[0] in ('fconst', 'fop', 'i2f') or (kind_of(et) == 'cx' and isnum(v)):
            v = self.mk_cx(self.i2f(v), ('fconst', 0.0))
        return v

    def elem_coerce(self, st, oid, v, n, argn):
        """emplace_back converts its argument to the element type"""
        et = strip_const(elem_type(st.heap[oid].t)) if st.heap[oid].t else '?'
        k = kind_of(et)
        if k == 'float' and isnum(v):
            return self.i2f(v)
        if k == 'float' and isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
            return v
        if k == 'cx' and (isnum(v)):
            return self.mk_cx(self.i2f(v), ('fconst', 0.0))
        if k == 'int' and isnum(v) and argn is not None:
            ft = self.T(st, argn)
            if ft.cls == 'int':
                bits, sg = INTS.get(et, (32, True))

                class TT:
                    pass
                t = TT()
                t.cls, t.bits, t.signed, t.base = 'int', bits, sg, et
                return self.intcast(st, v, ft, t)
        if k == 'int' and isinstance(v, tuple) and v and v[0] in ('A', 'fop', 'f2f', 're', 'im') and argn is not None \
                and self.T(st, argn).cls == 'float':
            bits, sg = INTS.get(et, (32, True))

            class TT2:
                pass
            t = TT2()
            t.cls, t.bits, t.signed, t.base = 'int', bits, sg, et
            return self.f2i(st, v, t)
        return v

    def m_vec(self, st, c, name, this, ops, n):
        if this[0] != 'c':
            return None
        oid = this[1]
        o = self.obj(st, oid)
        if o.kind != 'vec':
            return None
        isbool = kind_of(strip_const(elem_type(o.t))) == 'bool' if o.t else False
        size = o.f['size']
        if name in ('size', 'length'):
            return [(st, size)]
        if name == 'capacity' or name == 'max_size':
            return [(st, self.unk('unsigned long'))]
        if name == 'empty':
            return [(st, ('cmp', '==', size, 0))]
        if name in ('data', 'begin', 'cbegin'):
            return [(st, P(('e', oid, 0)))]
        if name in ('end', 'cend'):
            return [(st, P(('e', oid, size)))]
        if name in ('front', 'back'):
            idx = 0 if name == 'front' else sub(size, 1)
            self.bounds(st, oid, idx, '%s() of a vector' % name)
            return self.elem_ref(st, c, oid, idx, isbool, n)
        if name == 'operator[]':
            i = self.num(st, ops[0])
            self.bounds(st, oid, i, 'vector element')
            return self.elem_ref(st, c, oid, i, isbool, n)
        if name == 'at':
            i = self.num(st, ops[0])
            out = []
            for s, b in self.truth_cmp(st, '<', i, size):
                if b:
                    for s2, b2 in self.truth_cmp(s, '>=', i, 0):
                        if b2:
                            out += self.elem_ref(s2, c, oid, i, isbool, n)
                        else:
                            self.throw(s2, Exc(OOR, False, self.where(s2)))
                else:
                    self.throw(s, Exc(OOR, False, self.where(s)))
            return out
        if name == 'clear':
            self.drop_kids(st, oid)
            st.heap[oid] = st.heap[oid].set(size=0, base=None, upd=())
            return [(st, None)]
        if name == 'reserve':
            self.may_oom(st)
            self.relocate(st, oid)
            return [(st, None)]
        if name == 'shrink_to_fit':
            return [(st, None)]
        if name == 'resize':
            ns = self.num(st, ops[0], 'unsigned long')
            fill = self.elem_val(st, oid, ops[1]) if len(ops) > 1 else self.default_elem(strip_const(elem_type(o.t)))
            grow = sub(ns, size)
            if not (isnum(grow) and self.entails(st, neg(grow))):
                self.may_oom(st)
                self.relocate(st, oid)
            if not self.entails(st, grow):
                for (p, k), kid in [x for x in st.kids.items() if len(x[0]) == 2 and x[0][0] == oid]:
                    if isnum(k) and self.entails(st, sub(sub(ns, k), 1)):
                        continue
                    if isnum(k) and self.entails(st, sub(k, ns)):
                        self.destroy(st, kid)
                        st.kids.pop((p, k))
                    else:
                        self.fold_kids(st, oid, drop=True, only=lambda kk, k=k: kk == k)
            o = st.heap[oid]
            if ns == 0:
                st.heap[oid] = o.set(size=0, base=None, upd=())
            elif size == 0 and (fill == ('default',) or fill == self.default_elem(strip_const(elem_type(o.t)))):
                st.heap[oid] = o.set(size=ns, base=None, upd=())
            elif self.equal(st, ns, size):
                pass
            else:
                self.size_set(st, oid, ns, (('ge', size, fill),))
            return [(st, None)]
        if name in ('push_back', 'emplace_back'):
            et = strip_const(elem_type(o.t))
            if name == 'emplace_back' and len(ops) == 0:
                v = self.default_elem(et)
            elif name == 'emplace_back' and len(ops) == 2 and kind_of(et) == 'cx':
                v = self.mk_cx(self.i2f(self.val(st, ops[0])), self.i2f(self.val(st, ops[1])))
            elif name == 'emplace_back' and len(ops) > 1:
                v = ('unk', self.uid()) if is_obj_type(et) else self.mkatom(et, ('unk', self.uid()))
            else:
                v = self.elem_val(st, oid, ops[0])
            res = []
            vs = [(st, v)]
            if isinstance(v, tuple) and v and v[0] in ('cmp', 'not'):
                vs = [(s, 1 if b else 0) for s, b in self.truth(st, v)]
            for s, v in vs:
                if name == 'emplace_back' and len(ops) == 1:
                    an = n['a'][-1] if n.get('a') else None
                    v = self.elem_coerce(s, oid, v, n, an)
                self.may_oom(s)
                self.relocate(s, oid)
                self.size_set(s, oid, add(size, 1), (('pt', size, v),))
                res += [(s, None)] if name == 'push_back' else self.elem_ref(s, c, oid, size, isbool, n)
            return res
        if name == 'pop_back':
            self.bounds(st, oid, sub(size, 1), 'pop_back() of a vector')
            last = sub(size, 1)
            for (p, k), kid in [x for x in st.kids.items() if len(x[0]) == 2 and x[0][0] == oid]:
                if isnum(k) and self.equal(st, k, last):
                    self.destroy(st, kid)
                    st.kids.pop((p, k))
            st.heap[oid] = st.heap[oid].set(size=last)
            return [(st, None)]
        if name == 'swap':
            x = self.objof(st, ops[0])
            if x is not None:
                self.swap_objs(st, oid, x)
                return [(st, None)]
        if name in ('operator=',):
            x = self.objof(st, ops[0])
            if x is not None and st.heap[x].kind == 'vec':
                pt = st.frames[-1].types[c['pt'][0]]
                if pt.s.endswith('&&') and x != oid:
                    self.drop_kids(st, oid)
                    self.move_into(st, oid, x)
                else:
                    self.copy_into(st, oid, x)
                return [(st, ('L', this))]
            v = self.val(st, ops[0])
            if isinstance(v, tuple) and v and v[0] == 'il':
                self.drop_kids(st, oid)
                self.may_oom(st)
                st.heap[oid] = st.heap[oid].set(size=len(v[1]), base=None, upd=tuple(('pt', i, y) for i, y in enumerate(v[1])))
                return [(st, ('L', this))]
        if name == 'assign':
            return self.vec_assign(st, oid, ops)
        if name == 'erase' or name == 'insert' or name == 'emplace':
            # only the general shape: content becomes arbitrary, size moves accordingly
            self.may_oom(st)
            self.havoc_loc(st, this)
            return [(st, P(('e', oid, self.unk('long'))))]
        return None

    def vec_assign(self, st, oid, ops):
        self.may_oom(st)
        a = self.val(st, ops[0])
        b = self.val(st, ops[1]) if len(ops) > 1 else None
        self.drop_kids(st, oid)
        if isinstance(a, tuple) and a and a[0] == 'P' and isinstance(b, tuple) and b and b[0] == 'P' and a[1][0] == 'e' and b[1][0] == 'e' \
                and a[1][1] == b[1][1]:
            src = a[1][1]
            cnt = sub(b[1][2], a[1][2])
            self.copy_region(st, src, a[1][2], cnt, oid, 0, reset=True)
            return [(st, None)]
        if isnum(a):
            v = self.elem_val(st, oid, ops[1])
            st.heap[oid] = st.heap[oid].set(size=a, base=None, upd=(('ge', 0, v),))
            return [(st, None)]
        self.havoc_loc(st, ('c', oid))
        return [(st, None)]

    def elem_ref(self, st, c, oid, idx, isbool, n):
        if isbool:
            if not c.get('const') and not (n.get('obj') is not None and self.T(st, n).cls == 'bool'):
                if st.frames[-1].types[c['rt']].cls != 'bool' if 'rt' in c else True:
                    return [(st, ('bit', ('e', oid, idx)))]
            return [(st, self.read(st, ('e', oid, idx)))]
        loc = self.resolve(st, ('e', oid, idx))
        return [(st, ('L', loc))]

    def swap_objs(self, st, a, b):
        if a == b:
            return
        oa, ob = self.obj(st, a), self.obj(st, b)
        st.heap[a] = Obj(oa.kind, ob.f, oa.t, True, dict(oa.m, init=None))
        st.heap[b] = Obj(ob.kind, oa.f, ob.t, True, dict(ob.m, init=None))
        ka = [(k, v) for k, v in st.kids.items() if len(k) == 2 and k[0] == a]
        kb = [(k, v) for k, v in st.kids.items() if len(k) == 2 and k[0] == b]
        for k, _ in ka + kb:
            st.kids.pop(k)
        for k, v in ka:
            st.kids[(b, k[1])] = v
        for k, v in kb:
            st.kids[(a, k[1])] = v

    def move_into(self, st, dst, src):
        self.steal(st, dst, src)
        so = st.heap[src]
        f = dict(so.f)
        f.update(size=0, base=None, upd=())
        st.heap[src] = Obj(so.kind, f, so.t, so.alive, so.m)

    # ------------------------------------------------------------ maps
    def has_key(self, st, oid, key):
        """[(state, present)]"""
        o = st.heap[oid]
        for k, p in o.f.get('known', ()):
            if k == key:
                return [(st, p)]
        if o.f['size'] == 0:
            return [(st, False)]
        p = self.key_from_upd(st, o, key)
        if p is None and isinstance(key, tuple) and key[0] == 'key' and key[1] == o.f['base'] and not o.f['upd'] and isnum(key[2]):
            p = True
        if p is not None:
            st.heap[oid] = o.set(known=o.f.get('known', ()) + ((key, p),))
            return [(st, p)]
        out = []
        vkey = ('has', o.f['base'], tuple(u for u in o.f['upd'] if u[0] != 'kidpt'), key)
        for s, b in self.truth_atom(st, vkey):
            oo = s.heap[oid]
            s.heap[oid] = oo.set(known=oo.f.get('known', ()) + ((key, b),))
            if b:
                self.assume(s, sub(oo.f['size'], 1))
            out.append((s, b))
        return out

    def key_from_upd(self, st, o, key):
        """presence decided from the recorded insertions alone"""
        alldis = o.f['base'] is None
        for u in reversed(o.f['upd']):
            r = self.upd_match(st, u, key)
            if r == 'amb':
                d = self.keys_distinct(st, u, key)
                if d:
                    continue
                return None
            if r is not None:
                return r[0] != ('absent',)
        return False if alldis else None

    def keys_distinct(self, st, u, key):
        """the update certainly concerns another key"""
        if u[0] in ('pt', 'kidpt'):
            k = u[1][1] if isinstance(u[1], tuple) and u[1][:1] == ('at',) else u[1]
            return self.key_distinct(st, k, key)
        if u[0] == 'R':
            for w in u[3]:
                if w[0] not in ('pt', 'kidpt'):
                    return False
                kt = w[1]
                if isinstance(kt, tuple) and isinstance(key, tuple) and kt[0] == 'key' and key[0] == 'key' and kt[1] == key[1] \
                        and isinstance(kt[2], Lin) and single_atom(kt[2]) == atom_name(u[1]) and isnum(key[2]):
                    if self.in_range(st, key[2], u[2]) is False:
                        continue
                return False
            return True
        return False

    def key_distinct(self, st, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if a[0] == 's' and b[0] == 's':
                return a[1] != b[1]
            if a[0] == 'key' and b[0] == 'key' and a[1] == b[1] and isnum(a[2]) and isnum(b[2]):
                return self.distinct(st, a[2], b[2])
        return st.bools.get(('eqv', a, b), st.bools.get(('eqv', b, a))) is False

    def m_map(self, st, c, name, this, ops, n):
        if this[0] != 'c':
            return None
        oid = this[1]
        o = self.obj(st, oid)
        if o.kind != 'map':
            return None
        size = o.f['size']
        if name == 'size':
            return [(st, size)]
        if name == 'empty':
            return [(st, ('cmp', '==', size, 0))]
        if name in ('begin', 'cbegin'):
            return [(st, ('mi', oid, 0))]
        if name in ('end', 'cend'):
            return [(st, ('mi', oid, size))]
        if name in ('find', 'count', 'contains'):
            key = self.sval(st, ops[0])
            out = []
            for s, b in self.has_key(st, oid, key):
                if name == 'find':
                    out.append((s, ('mi', oid, ('at', key)) if b else ('mi', oid, s.heap[oid].f['size'])))
                else:
                    out.append((s, 1 if b else 0))
            return out
        if name == 'at':
            key = self.sval(st, ops[0])
            out = []
            for s, b in self.has_key(st, oid, key):
                if b:
                    out.append((s, ('L', ('c', self.kid(s, oid, ('at', key))))))
                else:
                    self.throw(s, Exc(OOR, False, self.where(s)))
            return out
        if name == 'operator[]':
            key = self.sval(st, ops[0])
            out = []
            for s, b in self.has_key(st, oid, key):
                if not b:
                    self.insert_key(s, oid, key, ('default',))
                out.append((s, ('L', ('c', self.kid(s, oid, ('at', key))))))
            return out
        if name == 'clear':
            self.drop_kids(st, oid)
            st.heap[oid] = st.heap[oid].set(size=0, base=None, upd=(), known=())
            return [(st, None)]
        if name == 'erase':
            a = self.val(st, ops[0])
            if isinstance(a, tuple) and a and a[0] == 'mi':
                if isnum(a[2]):
                    if self.equal(st, a[2], size):
                        self.event(st, 'C09', 'erase-end', 'erase() of the end iterator')
                        return [(st, None)]
                    self.havoc_loc(st, this)
                    if len(ops) == 1:
                        st.heap[oid] = st.heap[oid].set(size=sub(size, 1))
                    return [(st, ('mi', oid, self.unk('long')))]
                if len(ops) > 1:
                    self.havoc_loc(st, this)
                    return [(st, ('mi', oid, self.unk('long')))]
                self.erase_key(st, oid, a[2][1])
                return [(st, ('mi', oid, ('at', ('A', 'unk', self.uid()))))]
            key = self.sval(st, ops[0])
            out = []
            for s, b in self.has_key(st, oid, key):
                if b:
                    self.erase_key(s, oid, key)
                out.append((s, 1 if b else 0))
            return out
        if name == 'swap':
            x = self.objof(st, ops[0])
            if x is not None:
                self.swap_objs(st, oid, x)
                return [(st, None)]
        if name == 'operator=':
            x = self.objof(st, ops[0])
            if x is not None:
                pt = st.frames[-1].types[c['pt'][0]]
                if pt.s.endswith('&&') and x != oid:
                    self.drop_kids(st, oid)
                    self.move_into(st, oid, x)
                else:
                    self.copy_into(st, oid, x)
                return [(st, ('L', this))]
        if name == 'lower_bound' and not st.heap[oid].m.get('unk'):
            key = self.sval(st, ops[0])
            out = []
            for s, b in self.has_key(st, oid, key):
                if b:
                    out.append((s, ('mi', oid, ('at', key))))
                else:
                    u = from_atom(('first not less', self.objterm(s, oid), key))
                    s.facts = s.facts + (u, sub(size, u))
                    out.append((s, ('mi', oid, u)))
            return out
        if name in ('upper_bound', 'lower_bound'):
            u = self.unk('long')
            st.facts = st.facts + (u, sub(size, u))
            return [(st, ('mi', oid, u))]
        if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
            self.may_oom(st)
            if len(ops) == 2 and not (isinstance(self.val(st, ops[0]), tuple) and self.val(st, ops[0])[0] == 'mi'):
                key = self.sval(st, ops[0])
                out = []
                for s, b in self.has_key(st, oid, key):
                    if not b:
                        x = self.objof(s, ops[1])
                        self.insert_key(s, oid, key, self.objterm(s, x) if x is not None else ('unk', self.uid()))
                    elif name == 'insert_or_assign':
                        x = self.objof(s, ops[1])
                        oo = s.heap[oid]
                        self.drop_kids(s, oid, lambda k: k != ('at', key))
                        s.heap[oid] = oo.set(upd=oo.f['upd'] + (('pt', key, self.objterm(s, x) if x is not None else ('unk', self.uid())),))
                    out.append((s, ('pair', ('mi', oid, ('at', key)), 0 if b else 1)))
                return out
            v = self.val(st, ops[0])
            if isinstance(v, tuple) and v and v[0] == 'pair':
                key = self.sval(st, v[1])
                out = []
                for s, b in self.has_key(st, oid, key):
                    if not b:
                        x = v[2][1] if isinstance(v[2], tuple) and v[2][0] == 'O' else None
                        self.insert_key(s, oid, key, self.objterm(s, x) if x is not None else ('unk', self.uid()))
                    out.append((s, ('pair', ('mi', oid, ('at', key)), 0 if b else 1)))
                return out
            self.havoc_loc(st, this)
            return [(st, ('pair', ('mi', oid, ('at', ('A', 'unk', self.uid()))), self.unk('bool')))]
        return None

    def insert_key(self, st, oid, key, term):
        self.may_oom(st)
        o = st.heap[oid]
        kn = tuple((k, p) for k, p in o.f.get('known', ()) if k != key) + ((key, True),)
        kept = tuple(kk for kk in kn)
        st.heap[oid] = o.set(size=add(o.f['size'], 1), upd=o.f['upd'] + (('pt', key, term),), known=kept)

    def erase_key(self, st, oid, key):
        k = st.kids.pop((oid, ('at', key)), None)
        if k is not None:
            self.destroy(st, k)
        o = st.heap[oid]
        kn = tuple((x, p) for x, p in o.f.get('known', ()) if x != key) + ((key, False),)
        st.heap[oid] = o.set(size=sub(o.f['size'], 1), upd=o.f['upd'] + (('pt', key, ('absent',)),), known=kn)

    # ------------------------------------------------------------ texts
    def setstr(self, st, this, v):
        if this[0] == 'mp':
            return
        self.write(st, this, v)

    def m_str(self, st, c, name, this, ops, n):
        v = self.sval(st, ('L', this))
        if name in ('size', 'length'):
            return [(st, self.str_len(st, v))]
        if name == 'empty':
            return [(st, ('cmp', '==', self.str_len(st, v), 0))]
        if name in ('c_str', 'data'):
            return [(st, ('cs', v, True, 0))]
        if name.startswith('operator basic_string_view') or name.startswith('operator std::basic_string_view'):
            return [(st, v)]
        if name in ('operator=', 'assign') and len(ops) == 1:
            w = self.val(st, ops[0])
            if isnum(w):
                w = ('chr1', w)
            else:
                w = self.sval(st, ops[0])
            self.may_oom(st)
            self.setstr(st, this, w)
            return [(st, ('L', this))]
        if name == 'assign':
            self.may_oom(st)
            w = self.substring(st, ops)
            self.setstr(st, this, w)
            return [(st, ('L', this))]
        if name in ('operator+=', 'append', 'push_back'):
            w = self.val(st, ops[0])
            if isnum(w):
                w = ('chr1', w) if len(ops) == 1 else ('A', 'unk', self.uid())
            else:
                w = self.sval(st, ops[0]) if len(ops) == 1 else self.substring(st, ops)
            self.may_oom(st)
            self.setstr(st, this, ('cat', v, w))
            return [(st, ('L', this))]
        if name == 'clear':
            self.setstr(st, this, ('s', ''))
            return [(st, None)]
        if name == 'swap':
            w = self.sval(st, ops[0])
            self.setstr(st, this, w)
            if isinstance(ops[0], tuple) and ops[0][0] == 'L':
                self.setstr(st, ops[0][1], v)
            return [(st, None)]
        if name in ('pop_back', 'resize', 'erase', 'insert', 'replace', 'reserve'):
            if name != 'reserve':
                self.setstr(st, this, ('A', 'unk', self.uid()))
            if name not in ('pop_back',):
                self.may_oom(st)
            return [(st, ('L', this))]
        return self.sv_common(st, c, name, v, ops, n)

    def substring(self, st, ops):
        """(pointer, count)"""
        p = self.val(st, ops[0])
        cnt = self.val(st, ops[1])
        if isinstance(p, tuple) and p and p[0] == 'cs':
            off = p[3] if len(p) > 3 else 0
            if off == 0 and isnum(cnt) and self.equal(st, cnt, self.str_len(st, p[1])):
                return p[1]
            return ('A', 'substr', p[1], off, cnt)
        if isinstance(p, tuple) and p and p[0] == 'P' and p[1][0] == 'e':
            self.span(st, p[1][1], p[1][2], cnt, 'text copied from a buffer')
            v = self.text_in(st, p[1][1], p[1][2], cnt)
            if v is not None:
                return v
            return ('A', 'bytes', st.heap[p[1][1]].f['base'], p[1][2], cnt)
        return ('A', 'unk', self.uid())

    def text_in(self, st, oid, off, cnt):
        """the text copied as a whole to this position, when these are its characters"""
        if not isnum(off) or not isnum(cnt):
            return None
        for u in reversed(st.heap[oid].f['upd']):
            if u[0] == 'bytes' and self.equal(st, u[1], off):
                v = u[3]
                if not is_unk(v) and self.equal(st, self.str_len(st, v), cnt) and self.entails(st, sub(u[2], cnt)):
                    return v
                return None
            n = 1 if u[0] == 'pt' else u[2] if u[0] in ('bytes', 'fld', 'blob') else None
            if n is None or not isnum(u[1]) or not isnum(n):
                return None
            if not self.entails(st, sub(u[1], add(off, cnt))) and not self.entails(st, sub(off, add(u[1], n))):
                return None
        return None

    def span(self, st, oid, lo, cnt, what):
        """obligation: [lo, lo+cnt) inside"""
        if not isnum(cnt) or not isnum(lo):
            return
        self.bounds(st, oid, add(lo, cnt), what, allow_end=True)
        if not self.entails(st, lo):
            self.bounds(st, oid, lo, what, allow_end=True)

    def m_sv(self, st, c, name, this, ops, n):
        v = self.sval(st, ('L', this))
        if name in ('size', 'length'):
            return [(st, self.str_len(st, v))]
        if name == 'empty':
            return [(st, ('cmp', '==', self.str_len(st, v), 0))]
        if name == 'data':
            return [(st, ('cs', v, False, 0))]
        if name == 'operator=':
            self.write(st, this, self.sval(st, ops[0]))
            return [(st, ('L', this))]
        if name in ('remove_prefix', 'remove_suffix'):
            self.write(st, this, ('A', 'unk', self.uid()))
            return [(st, None)]
        return self.sv_common(st, c, name, v, ops, n)

    def sv_common(self, st, c, name, v, ops, n):
        if name in ('operator[]', 'at', 'front', 'back'):
            i = self.num(st, ops[0]) if ops else (0 if name == 'front' else sub(self.str_len(st, v), 1))
            return [(st, ('L', ('chr', v, i)))]
        if name.startswith('find') or name.startswith('rfind'):
            a = self.val(st, ops[0])
            if isinstance(a, tuple) and a and a[0] == 'cs':
                a = a[1]
            r = from_atom(('strfind', name, v, a, tuple(self.val(st, x) for x in ops[1:])))
            self.rng.setdefault(r.t[0][0][0], (0, (1 << 64) - 1))
            return [(st, r)]
        if name == 'substr':
            self.may_oom(st)
            self.may_throw(st, OOR)
            return [(st, ('A', 'substr', v) + tuple(self.val(st, x) for x in ops))]
        if name == 'compare':
            if len(ops) == 1:
                w = self.sval(st, ops[0])
            else:
                w = self.sval(st, ops[2])
                at, cnt = self.val(st, ops[0]), self.val(st, ops[1])
                if at != 0:
                    self.may_throw(st, OOR)
                if len(ops) > 3:
                    w = ('A', 'substr', w) + tuple(self.val(st, x) for x in ops[3:])
                if not (at == 0 and v == w and isnum(cnt) and self.equal(st, cnt, self.str_len(st, v))):
                    v = ('A', 'substr', v, at, cnt)
            o = self.key_order(v, w)
            return [(st, o if o is not None else from_atom(('strcmp', v, w)))]
        if name in ('begin', 'cbegin'):
            return [(st, ('cs', v, False, 0))]
        if name in ('end', 'cend'):
            return [(st, ('cs', v, False, self.str_len(st, v)))]
        if name == 'copy':
            return [(st, self.unk('unsigned long'))]
        return None

    # ------------------------------------------------------------ complex
    def m_cx(self, st, c, name, this, ops, n):
        if name in ('real', 'imag'):
            part = 're' if name == 'real' else 'im'
            if ops:
                self.write(st, ('cxp', this, part), self.i2f(self.val(st, ops[0])))
                return [(st, None)]
            return [(st, self.cx_part(self.val(st, ('L', this)), part))]
        if name == 'operator=':
            v = self.val(st, ops[0])
            pt = st.frames[-1].types[c['pt'][0]]
            if kind_of(pt.base) != 'cx':
                v = self.mk_cx(self.i2f(v), ('fconst', 0.0))
            self.write(st, this, v)
            return [(st, ('L', this))]
        if name.startswith('operator'):
            cur = self.val(st, ('L', this))
            self.write(st, this, ('fop', name[8:], cur, self.val(st, ops[0])))
            return [(st, ('L', this))]
        return None

    # ------------------------------------------------------------ iterators
    def m_iter(self, st, c, name, this, ops, n):
        v = self.val(st, ('L', this))
        if name == 'operator*' or name == 'operator->':
            if name == 'operator->':
                if isinstance(v, tuple) and v and v[0] == 'P':
                    return [(st, v)]
                return [(st, ('A', 'unk', self.uid()))]
            if isinstance(v, tuple) and v and v[0] == 'cs':
                return [(st, ('L', ('chr', v[1], v[3])))]
            base = strip_const(pointee(template_args(q_class(c))[0])) if template_args(q_class(c)) else '?'
            loc = self.deref(st, v, base)
            if loc[0] == 'e' and '_Bit' in c['q']:
                if 'const' in c['q'].split('::')[-2]:
                    return [(st, self.read(st, loc))]
                return [(st, ('bit', loc))]
            return [(st, ('L', loc))]
        if name in ('operator++', 'operator--'):
            d = 1 if name == 'operator++' else -1
            nv = self.advance(st, v, d)
            self.write(st, this, nv)
            return [(st, v if ops else ('L', this))]
        if name in ('operator+', 'operator-') and ops:
            o = self.val(st, ops[0])
            if isnum(o):
                return [(st, self.advance(st, v, o if name == 'operator+' else neg(o)))]
            if isinstance(o, tuple) and isinstance(v, tuple) and o[0] == 'P' and v[0] == 'P' and o[1][0] == 'e' and v[1][0] == 'e' and o[1][1] == v[1][1]:
                return [(st, sub(v[1][2], o[1][2]))]
            return [(st, self.unk('long'))]
        if name in ('operator+=', 'operator-='):
            o = self.val(st, ops[0])
            self.write(st, this, self.advance(st, v, (o if name == 'operator+=' else neg(o)) if isnum(o) else self.unk('long')))
            return [(st, ('L', this))]
        if name == 'operator=':
            self.write(st, this, self.val(st, ops[0]))
            return [(st, ('L', this))]
        if name == 'operator[]':
            o = self.num(st, ops[0])
            w = self.advance(st, v, o)
            return [(st, ('L', self.deref(st, w, '?')))]
        if name == 'base':
            return [(st, v)]
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            return [(st, self.compare(st, name[8:], v, self.val(st, ops[0])))]
        return None

    def m_miter(self, st, c, name, this, ops, n):
        v = self.val(st, ('L', this))
        if not (isinstance(v, tuple) and v and v[0] == 'mi'):
            return None
        if name in ('operator*', 'operator->'):
            self.miter_deref(st, v)
            loc = ('mp', v[1], v[2])
            return [(st, ('L', loc) if name == 'operator*' else ('P', loc))]
        if name in ('operator++', 'operator--'):
            nv = self.advance(st, v, 1 if name == 'operator++' else -1)
            self.write(st, this, nv)
            return [(st, v if ops else ('L', this))]
        if name == 'operator=':
            self.write(st, this, self.val(st, ops[0]))
            return [(st, ('L', this))]
        if name in ('operator==', 'operator!='):
            return [(st, self.compare(st, name[8:], v, self.val(st, ops[0])))]
        return None

    def miter_deref(self, st, v):
        o = self.obj(st, v[1])
        if isnum(v[2]):
            self.bounds(st, v[1], v[2], 'map iterator dereferenced')
        else:
            self.ok('C09', 'bounds')

    def m_bitref(self, st, c, name, this, ops, n):
        v = self.read(st, this) if this[0] == 'c' and st.heap[this[1]].kind == 'cell' else ('bit', this)
        loc = v[1] if isinstance(v, tuple) and v and v[0] == 'bit' else this
        if name.startswith('operator bool'):
            return [(st, self.read(st, loc))]
        if name == 'operator=':
            w = self.val(st, ops[0])
            return [(s, ('L', loc)) for s in self.assign(st, loc, w, None)]
        return None

    def m_uptr(self, st, c, name, this, ops, n):
        v = self.val(st, ('L', this))
        if name in ('get',):
            return [(st, v)]
        if name == 'operator->':
            return [(st, v)]
        if name == 'operator*':
            return [(st, ('L', self.deref(st, v, template_args(q_class(c))[0])))]
        if name == 'release':
            self.write(st, this, NULL)
            return [(st, v)]
        if name in ('reset', 'operator='):
            w = self.val(st, ops[0]) if ops else NULL
            if isinstance(v, tuple) and v and v[0] == 'P' and v[1][0] == 'c':
                self.release(st, v[1][1], 'replaced in its owning pointer')
            self.write(st, this, w)
            return [(st, ('L', this))]
        if name.startswith('operator bool'):
            return [(st, self.ptr_bool(v))]
        return None

    # ------------------------------------------------------------ streams
    def stream_of(self, st, o):
        x = self.objof(st, o)
        if x is not None and st.heap[x].kind == 'stream':
            return x
        return None

    def emit(self, st, sid, item):
        o = st.heap[sid]
        st.heap[sid] = o.set(tr=o.f['tr'] + (item,))

    def m_stream(self, st, c, name, this, ops, n):
        if this[0] != 'c' or st.heap[this[1]].kind != 'stream':
            return None
        sid = this[1]
        if name == 'operator<<':
            return self.put(st, sid, ops[0], this, c)
        if name == 'str' and not ops:
            return [(st, ('strof', st.heap[sid].f['tr']))]
        if name == 'str':
            st.heap[sid] = st.heap[sid].set(tr=())
            return [(st, None)]
        if name in ('flags', 'precision', 'width', 'fill', 'setf', 'unsetf', 'copyfmt'):
            return self.stream_fmt(st, sid, name, [self.val(st, x) if not isinstance(self.val(st, x), tuple) or self.val(st, x)[0] != 'O' else x for x in ops])
        if name in ('good', 'fail', 'bad', 'eof', 'operator bool', 'operator!', 'rdstate'):
            return [(st, self.unk('bool'))]
        if name in ('flush', 'close', 'put', 'write', 'open', 'clear'):
            return [(st, ('L', this))]
        return None

    FMTDEF = {'base': 'dec', 'float': 'general', 'adjust': 'left?', 'precision': 6, 'fill': ' '}

    def fmt_get(self, st, sid):
        return dict(st.heap[sid].f['fmt'])

    def fmt_set(self, st, sid, **kw):
        f = self.fmt_get(st, sid)
        for k, v in kw.items():
            if v == ('init', k):
                f.pop(k, None)
            else:
                f[k] = v
        st.heap[sid] = st.heap[sid].set(fmt=tuple(sorted(f.items(), key=repr)))

    FLAGK = ('base', 'floatf', 'adjust', 'showbase', 'showpos', 'uppercase', 'boolalpha', 'showpoint', 'unitbuf', 'skipws', 'setf')

    def stream_fmt(self, st, sid, name, vals):
        f = self.fmt_get(st, sid)
        if name in ('precision', 'width', 'fill'):
            cur = f.get(name, ('init', name))
            if vals:
                self.fmt_set(st, sid, **{name: vals[0]})
            if isinstance(cur, int):
                return [(st, cur)]
            return [(st, cur)]
        if name == 'flags':
            cur = ('flags', tuple((k, f.get(k, ('init', k))) for k in self.FLAGK))
            if vals:
                v = vals[0]
                if isinstance(v, tuple) and v and v[0] == 'flags':
                    self.fmt_set(st, sid, **dict(v[1]))
                else:
                    self.fmt_set(st, sid, **{k: ('unk', self.uid()) for k in self.FLAGK})
            return [(st, cur)]
        if name in ('setf', 'unsetf'):
            cur = ('flags', tuple((k, f.get(k, ('init', k))) for k in self.FLAGK))
            self.fmt_set(st, sid, setf='changed')
            return [(st, cur)]
        if name == 'copyfmt':
            x = self.objof(st, vals[0])
            if x is not None and st.heap[x].kind == 'stream':
                st.heap[sid] = st.heap[sid].set(fmt=st.heap[x].f['fmt'])
            return [(st, ('O', sid))]
        return None

    MANIP = {'hex': ('base', 'hex'), 'dec': ('base', 'dec'), 'oct': ('base', 'oct'), 'fixed': ('floatf', 'fixed'),
             'scientific': ('floatf', 'sci'), 'defaultfloat': ('floatf', 'gen'), 'left': ('adjust', 'left'),
             'right': ('adjust', 'right'), 'internal': ('adjust', 'internal'), 'showbase': ('showbase', 1), 'noshowbase': ('showbase', 0),
             'showpos': ('showpos', 1), 'noshowpos': ('showpos', 0), 'uppercase': ('uppercase', 1), 'nouppercase': ('uppercase', 0),
             'boolalpha': ('boolalpha', 1), 'noboolalpha': ('boolalpha', 0), 'showpoint': ('showpoint', 1), 'noshowpoint': ('showpoint', 0)}

    def put(self, st, sid, o, this, c):
        v = self.val(st, o)
        if isinstance(v, tuple) and v:
            if v[0] == 'fn':
                nm = v[2].split('::')[-1]
                nm = nm.split('<')[0]
                if nm in self.MANIP:
                    a, b = self.MANIP[nm]
                    self.fmt_set(st, sid, **{a: b})
                elif nm == 'endl':
                    self.emit(st, sid, ('out', ('s', '\n'), ()))
                return [(st, ('L', this))]
            if v[0] == 'manip':
                if v[1] in ('precision', 'fill', 'width'):
                    self.fmt_set(st, sid, **{v[1]: v[2]})
                elif v[1] == 'flags':
                    self.stream_fmt(st, sid, 'setf', [])
                return [(st, ('L', this))]
            if v[0] == 'cs':
                v = self.sval(st, v)
            elif v[0] in ('cmp', 'not'):
                pass
        if isnum(v) and c.get('pt') and st.frames[-1].types[c['pt'][-1]].base in ('char', 'signed char', 'unsigned char'):
            v = ('chr1', v)
        f = dict(st.heap[sid].f['fmt'])
        w = f.pop('width', None)
        # the width is consumed by every formatted output
        if w is not None or ('width' in dict(st.heap[sid].f['fmt'])):
            self.fmt_set(st, sid, width=('init', 'width'))
        self.emit(st, sid, ('out', v, tuple(sorted(f.items(), key=repr)) if not isinstance(v, tuple) or v[0] not in ('s',) else ()))
        return [(st, ('L', this))]

    # ------------------------------------------------------------ free functions
    FREE = {'std::move': 'ident', 'std::forward': 'ident', 'std::as_const': 'ident', 'std::addressof': 'addr', 'std::swap': 'swap',
            'std::get': 'get', 'memcpy': 'memcpy', 'std::memcpy': 'memcpy', 'memmove': 'memcpy', 'std::memmove': 'memcpy',
            'std::back_inserter': 'back_inserter', 'std::copy': 'copy', 'std::copy_n': 'copy_n', 'std::fill': 'fill', 'std::fill_n': 'fill_n', 'std::transform': 'transform',
            'std::any_of': 'any_of', 'std::all_of': 'any_of', 'std::none_of': 'any_of', 'std::find_if': 'any_of', 'std::find_if_not': 'any_of', 'std::find': 'any_of', 'std::for_each': 'for_each',
            'std::setw': 'manip', 'std::setprecision': 'manip', 'std::setfill': 'manip', 'std::setiosflags': 'manip', 'std::resetiosflags': 'manip',
            'std::make_unique': 'make_unique', 'std::make_pair': 'make_pair', 'std::max': 'minmax', 'std::min': 'minmax',
            'round': 'fmath', 'std::round': 'fmath', 'floor': 'fmath', 'std::floor': 'fmath', 'ceil': 'fmath', 'std::ceil': 'fmath',
            'trunc': 'fmath', 'std::trunc': 'fmath', 'fabs': 'fmath', 'std::fabs': 'fmath', 'std::abs': 'fmath', 'abs': 'fmath', 'std::rint': 'fmath',
            'rint': 'fmath', 'nearbyint': 'fmath', 'std::nearbyint': 'fmath',
            'std::fpclassify': 'fpc', 'std::isfinite': 'fpc', 'std::isnan': 'fpc', 'std::isinf': 'fpc', 'std::size': 'size', 'std::begin': 'beg',
            'std::end': 'beg', 'std::hex': 'smanip', 'std::dec': 'smanip', 'std::next': 'next', 'std::prev': 'next', 'std::distance': 'distance', 'std::advance': 'adv',
            'std::real': 'reim', 'std::imag': 'reim', 'std::strlen': 'strlen', 'strlen': 'strlen', 'std::equal': 'equal', 'std::to_string': 'to_string'}

    def x_ident(self, st, c, name, ops, n):
        return [(st, ops[0])]

    def x_addr(self, st, c, name, ops, n):
        return [(st, P(self.as_elem(st, self.as_loc(st, ops[0]))))]

    def x_strlen(self, st, c, name, ops, n):
        return [(st, self.str_len(st, self.sval(st, ops[0])))]

    def x_to_string(self, st, c, name, ops, n):
        self.may_oom(st)
        return [(st, ('A', 'to_string', self.val(st, ops[0])))]

    def x_reim(self, st, c, name, ops, n):
        return [(st, self.cx_part(self.val(st, ops[0]), 're' if name == 'real' else 'im'))]

    def x_size(self, st, c, name, ops, n):
        x = self.objof(st, ops[0])
        if x is not None and st.heap[x].kind in ('vec', 'map'):
            return [(st, st.heap[x].f['size'])]
        return None

    def x_beg(self, st, c, name, ops, n):
        x = self.objof(st, ops[0])
        if x is not None and st.heap[x].kind == 'vec':
            return [(st, P(('e', x, 0 if name == 'begin' else st.heap[x].f['size'])))]
        if x is not None and st.heap[x].kind == 'map':
            return [(st, ('mi', x, 0 if name == 'begin' else st.heap[x].f['size']))]
        return None

    def x_next(self, st, c, name, ops, n):
        d = self.num(st, ops[1]) if len(ops) > 1 else 1
        return [(st, self.advance(st, self.val(st, ops[0]), d if name == 'next' else neg(d)))]

    def x_adv(self, st, c, name, ops, n):
        self.write(st, ops[0][1], self.advance(st, self.val(st, ops[0]), self.num(st, ops[1])))
        return [(st, None)]

    def x_distance(self, st, c, name, ops, n):
        d = self.delta(self.val(st, ops[0]), self.val(st, ops[1]))
        return [(st, d if d is not None else self.unk('long'))]

    def x_swap(self, st, c, name, ops, n):
        la, lb = self.resolve(st, self.as_loc(st, ops[0])), self.resolve(st, self.as_loc(st, ops[1]))
        if la[0] == 'c' and lb[0] == 'c' and st.heap[la[1]].kind in ('vec', 'map'):
            self.swap_objs(st, la[1], lb[1])
            return [(st, None)]
        if la[0] == 'c' and st.heap[la[1]].kind not in ('cell',):
            return None
        if la[0] == 'ud' or lb[0] == 'ud':
            res = []
            for s in self.split_gc(st, la[1]):
                for s2 in self.split_gc(s, lb[1]):
                    a, b = self.read(s2, la), self.read(s2, lb)
                    self.write(s2, la, b)
                    self.write(s2, lb, a)
                    res.append((s2, None))
            return res
        if la[0] == 'f' and st.heap[la[1]].kind == 'gc':
            self.sync_gc(st, la[1])
        a, b = self.read(st, la), self.read(st, lb)
        self.write(st, la, b)
        self.write(st, lb, a)
        return [(st, None)]

    def x_get(self, st, c, name, ops, n):
        loc = self.resolve(st, self.as_loc(st, ops[0]))
        ta = c.get('ta') or ()
        i = ta[0] if ta and isinstance(ta[0], int) else None
        if i is None:
            return None
        if loc[0] == 'mp' or (loc[0] == 'c' and st.heap[loc[1]].kind == 'cell'):
            return [(s, ('L', l)) for s, l in self.member(st, loc, 'first' if i == 0 else 'second', None)]
        return None

    def x_memcpy(self, st, c, name, ops, n):
        d, s_, cnt = self.val(st, ops[0]), self.val(st, ops[1]), self.val(st, ops[2])
        return self.memcpy(st, d, s_, cnt)

    def memcpy(self, st, d, s_, cnt):
        """byte copy between a scalar and a byte buffer, or between buffers"""
        db = isinstance(d, tuple) and d and d[0] == 'P' and d[1][0] == 'e'
        sb = isinstance(s_, tuple) and s_ and s_[0] == 'P' and s_[1][0] == 'e'
        if db:
            self.span(st, d[1][1], d[1][2], cnt, 'bytes written to a buffer')
        if sb:
            self.span(st, s_[1][1], s_[1][2], cnt, 'bytes read from a buffer')
        if db and isinstance(cnt, int):
            # an object of cnt bytes into the buffer
            if isinstance(s_, tuple) and s_ and s_[0] == 'P' and s_[1][0] in ('c', 'f', 'e', 'u', 'cxp') and not sb:
                v = self.read(st, s_[1])
                self.put_bytes(st, d[1][1], d[1][2], cnt, v)
                return [(st, d)]
            if sb:
                v = self.get_bytes(st, s_[1][1], s_[1][2], cnt)
                self.put_bytes(st, d[1][1], d[1][2], cnt, v)
                return [(st, d)]
        if sb and isinstance(cnt, int) and isinstance(d, tuple) and d and d[0] == 'P' and not db:
            self.write(st, d[1], self.get_bytes(st, s_[1][1], s_[1][2], cnt))
            return [(st, d)]
        if db and isinstance(s_, tuple) and s_ and s_[0] == 'cs' and isnum(cnt):
            o = st.heap[d[1][1]]
            st.heap[d[1][1]] = o.set(upd=o.f['upd'] + (('bytes', d[1][2], cnt, s_[1]),))
            return [(st, d)]
        if isinstance(d, tuple) and d and d[0] == 'P':
            if db:
                o = st.heap[d[1][1]]
                st.heap[d[1][1]] = o.set(upd=o.f['upd'] + (('bytes', d[1][2], cnt, ('unk', self.uid())),))
            else:
                self.havoc_loc(st, d[1])
        return [(st, d)]

    def put_bytes(self, st, oid, off, cnt, v):
        o = st.heap[oid]
        st.heap[oid] = o.set(upd=o.f['upd'] + (('fld', off, cnt, v),))

    def get_bytes(self, st, oid, off, cnt):
        o = st.heap[oid]
        for u in reversed(o.f['upd']):
            if u[0] == 'fld' and u[2] == cnt and self.equal(st, u[1], off):
                return u[3]
            n = 1 if u[0] == 'pt' else u[2] if u[0] in ('bytes', 'fld', 'blob') else None
            if n is None or not isnum(u[1]) or not isnum(n) or not isnum(off) \
                    or not self.entails(st, sub(u[1], add(off, cnt))) and not self.entails(st, sub(off, add(u[1], n))):
                return ('unk', self.uid())
        return ('A', 'rd', o.f['base'], off, cnt)

    # element copies
    def copy_region(self, st, src, soff, cnt, dst, doff, reset=False, fn=None):
        so = st.heap[src]
        et = strip_const(elem_type(so.t)) if so.t else '?'
        self.fold_kids(st, src, drop=False)
        so = st.heap[src]
        do = st.heap[dst]
        if reset and soff == 0 and self.equal(st, cnt, so.f['size']) and fn is None:
            st.heap[dst] = do.set(size=cnt, base=so.f['base'], upd=tuple(('pt',) + u[1:] if u[0] == 'kidpt' else u for u in so.f['upd']))
            return
        bv = from_atom(('bv', 0))
        body = self.seq_read_sym(st, et, so, add(soff, bv), cnt)
        if fn is not None:
            body = fn(body)
        if reset:
            st.heap[dst] = do.set(size=cnt, base=None, upd=(('rng', 0, cnt, body),))
        else:
            st.heap[dst] = do.set(upd=do.f['upd'] + (('rng', doff, cnt, body),))

    def seq_read_sym(self, st, et, o, idx, cnt):
        """element at a bound position: exact only for sequences not changed since they were first seen"""
        s2 = st.copy()
        s2.facts = s2.facts + (from_atom(('bv', 0)), sub(sub(cnt, from_atom(('bv', 0))), 1)) if isnum(cnt) else s2.facts
        self.rng.setdefault(self.BV, (0, (1 << 31) - 1))
        return self.seq_read(s2, et, o.f['base'], o.f['upd'], idx)

    def it(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'P' and v[1][0] == 'e':
            return v[1][1], v[1][2]
        return None

    def x_copy(self, st, c, name, ops, n):
        a, b, d = (self.val(st, x) for x in ops[:3])
        ia, ib, idd = self.it(st, a), self.it(st, b), self.it(st, d)
        if ia and ib and ia[0] == ib[0]:
            return self.copy_elems(st, ia, sub(ib[1], ia[1]), d, idd)
        return self.copy_fallback(st, d, idd)

    def copy_fallback(self, st, d, idd):
        if idd:
            self.havoc_content(st, idd[0])
        elif isinstance(d, tuple) and d and d[0] == 'P':
            self.havoc_loc(st, d[1])
        elif isinstance(d, tuple) and d and d[0] == 'bi':
            self.may_oom(st)
            self.havoc_loc(st, ('c', d[1]))
        return [(st, ('A', 'unk', self.uid()))]

    def havoc_content(self, st, oid):
        o = st.heap[oid]
        st.heap[oid] = o.set(base=('unk', self.uid()), upd=())

    def x_back_inserter(self, st, c, name, ops, n):
        oid = self.objof(st, ops[0])
        if oid is None or st.heap[oid].kind != 'vec':
            return self.unknown(st, c, None, ops, n)
        return [(st, ('bi', oid))]

    def copy_elems(self, st, ia, cnt, d, idd):
        self.span(st, ia[0], ia[1], cnt, 'elements copied out')
        if isinstance(d, tuple) and d and d[0] == 'bi' and d[1] != ia[0]:
            oid = d[1]
            size = st.heap[oid].f['size']
            self.may_oom(st)
            self.relocate(st, oid)
            conv = self.conv_fn(st, st.heap[ia[0]].t, st.heap[oid].t)
            self.size_set(st, oid, add(size, cnt), ())
            self.copy_region(st, ia[0], ia[1], cnt, oid, size, fn=conv)
            return [(st, d)]
        if idd is None and isinstance(d, tuple) and d and d[0] == 'A':
            loc = self.deref(st, d, '?') if False else None
        if idd:
            self.span(st, idd[0], idd[1], cnt, 'elements copied in')
            conv = self.conv_fn(st, st.heap[ia[0]].t, st.heap[idd[0]].t)
            self.copy_region(st, ia[0], ia[1], cnt, idd[0], idd[1], fn=conv)
            return [(st, P(('e', idd[0], add(idd[1], cnt))))]
        return [(st, ('A', 'unk', self.uid()))]

    def conv_fn(self, st, ta, tb):
        ea, eb = strip_const(elem_type(ta)) if ta else '?', strip_const(elem_type(tb)) if tb else '?'
        ka, kb = kind_of(ea), kind_of(eb)
        if ea == eb:
            return None
        if kb == 'float' and ka in ('int', 'bool'):
            return lambda v: self.i2f(v) if isnum(v) else v
        if kb == 'cx' and ka in ('int', 'bool', 'float'):
            return lambda v: self.mk_cx(self.i2f(v) if isnum(v) else v, ('fconst', 0.0))
        if ka == 'float' and kb == 'float':
            return lambda v: ('f2f', eb, v) if eb == 'float' else v
        if ka in ('int', 'bool') and kb in ('int', 'bool'):
            (ba, sa), (bb, sb) = INTS.get(ea, (32, True)), INTS.get(eb, (32, True))
            if (sa == sb and ba <= bb) or (not sa and sb and ba < bb):
                return None
            def conv(v):
                if not isnum(v):
                    return v
                r = from_atom(('conv', bb, sb, v))
                self.rng.setdefault(r.t[0][0][0], (-(1 << (bb - 1)), (1 << (bb - 1)) - 1) if sb else (0, (1 << bb) - 1))
                return r
            return conv
        return lambda v: ('unk', 'conv')

    def x_copy_n(self, st, c, name, ops, n):
        a, cnt, d = (self.val(st, x) for x in ops[:3])
        ia, idd = self.it(st, a), self.it(st, d)
        if isinstance(a, tuple) and a and a[0] == 'A':
            loc = self.ext_array(st, a, n, 0)
            ia = loc
        if ia and isnum(cnt):
            return self.copy_n_split(st, ia, cnt, d, idd)
        return self.copy_fallback(st, d, idd)

    def copy_n_split(self, st, ia, cnt, d, idd):
        if self.entails(st, cnt):
            return self.copy_elems(st, ia, cnt, d, idd)
        out = []
        for s, b in self.truth_cmp(st, '>=', cnt, 0):
            out += self.copy_elems(s, ia, cnt, d, idd) if b else [(s, d)]
        return out

    def ext_array(self, st, v, n, argi):
        t = self.T(st, n['a'][argi])
        loc = self.deref(st, v, pointee(t.base))
        return (loc[1], loc[2]) if loc[0] == 'e' else None

    def x_fill(self, st, c, name, ops, n):
        a, b = self.val(st, ops[0]), self.val(st, ops[1])
        ia, ib = self.it(st, a), self.it(st, b)
        if ia and ib and ia[0] == ib[0]:
            v = self.elem_val(st, ia[0], ops[2])
            cnt = sub(ib[1], ia[1])
            self.span(st, ia[0], ia[1], cnt, 'elements filled')
            o = st.heap[ia[0]]
            if ia[1] == 0 and self.equal(st, cnt, o.f['size']):
                self.drop_kids(st, ia[0])
                st.heap[ia[0]] = o.set(base=None, upd=(('ge', 0, v),))
            else:
                st.heap[ia[0]] = o.set(upd=o.f['upd'] + (('rng', ia[1], cnt, v),))
            return [(st, None)]
        return None

    def x_fill_n(self, st, c, name, ops, n):
        ia, cnt = self.it(st, self.val(st, ops[0])), self.val(st, ops[1])
        if ia and isnum(cnt):
            v = self.elem_val(st, ia[0], ops[2])
            self.span(st, ia[0], ia[1], cnt, 'elements filled')
            o = st.heap[ia[0]]
            st.heap[ia[0]] = o.set(upd=o.f['upd'] + (('rng', ia[1], cnt, v),))
            return [(st, P(('e', ia[0], add(ia[1], cnt))))]
        return None

    def x_equal(self, st, c, name, ops, n):
        return [(st, self.unk('bool'))]

    def call_lambda(self, st, f, ops):
        """apply a function value: [(state, value)] or None"""
        if isinstance(f, tuple) and f and f[0] == 'O':
            f = self.val(st, f)
        if not (isinstance(f, tuple) and f and f[0] in ('lam', 'fn')):
            return None
        if f[0] == 'lam':
            fn = self.prog.fns.get(f[1])
            if (fn is None or fn.body is None) and f[4]:
                fn = self.prog.fns.get(f[4][0])
            if fn is None or fn.body is None:
                return None
            return self.call(st, fn, None, ops, f)
        fn = self.prog.fns.get(f[1])
        if fn is None or fn.body is None or fn.usr in self.stack:
            return None
        return self.call(st, fn, None, ops)

    def x_any_of(self, st, c, name, ops, n):
        """std::any_of / all_of / none_of / find / find_if / find_if_not as a loop over the range"""
        a, b = self.val(st, ops[0]), self.val(st, ops[1])
        f = self.val(st, ops[2])
        h = self.new_cell(st, a, '', {'hidden': True})
        r = self.new_cell(st, 0, 'bool', {'hidden': True})

        def cnd(s):
            return self.truth(s, self.compare(s, '!=', s.heap[h].f['v'], b))

        def body(s):
            cur = s.heap[h].f['v']
            if isinstance(cur, tuple) and cur[0] == 'mi':
                arg = ('L', ('mp', cur[1], cur[2]))
            elif isinstance(cur, tuple) and cur[0] == 'P':
                arg = ('L', self.deref(s, cur, '?'))
            elif isinstance(cur, tuple) and cur[0] == 'cs':
                arg = self.read(s, ('chr', cur[1], cur[3]))
            else:
                arg = ('A', 'unk', self.uid())
            if name == 'find':
                x, y = self.val(s, arg), self.val(s, ops[2])
                if not (isnum(x) and isnum(y)):
                    x, y = self.sval(s, arg), self.sval(s, ops[2])
                rs = [(s, 1 if x == y and not is_unk(x) else self.unk('bool') if is_unk(x) or is_unk(y) else self.compare(s, '==', x, y))]
            else:
                rs = self.call_lambda(s, f, [arg])
            if rs is None:
                rs = [(s, self.unk('bool'))]
            out = []
            for s2, v in rs:
                for s3, t in self.truth(s2, self.val(s2, v)):
                    hit = t if name in ('any_of', 'none_of', 'find_if', 'find') else not t
                    if hit:
                        s3.heap[r] = s3.heap[r].set(v=1)
                        out.append(('br', s3, None))
                    else:
                        out.append(('n', s3, None))
            return out

        def inc(s):
            s.heap[h] = s.heap[h].set(v=self.advance(s, s.heap[h].f['v'], 1))
            return [s]
        out = []
        for kind, s, v in self.loop(st, n, cnd, body, inc):
            hit = s.heap[r].f['v']
            if name in ('find', 'find_if', 'find_if_not'):
                out.append((s, s.heap[h].f['v']))
            elif isinstance(hit, int):
                out.append((s, hit if name == 'any_of' else 1 - hit))
            else:
                out.append((s, self.unk('bool')))
        return out

    def x_for_each(self, st, c, name, ops, n):
        a, b = self.val(st, ops[0]), self.val(st, ops[1])
        f = self.val(st, ops[2])
        h = self.new_cell(st, a, '', {'hidden': True})

        def cnd(s):
            return self.truth(s, self.compare(s, '!=', s.heap[h].f['v'], b))

        def body(s):
            cur = s.heap[h].f['v']
            arg = ('L', self.deref(s, cur, '?'))
            rs = self.call_lambda(s, f, [arg])
            if rs is None:
                self.may_throw(s, 'unknown callee')
                rs = [(s, None)]
            return [('n', s2, None) for s2, _ in rs]

        def inc(s):
            s.heap[h] = s.heap[h].set(v=self.advance(s, s.heap[h].f['v'], 1))
            return [s]
        return [(s, f) for _, s, _ in self.loop(st, n, cnd, body, inc)]

    def x_transform(self, st, c, name, ops, n):
        a, b, d = (self.val(st, x) for x in ops[:3])
        if len(ops) != 4:
            return None
        f = self.val(st, ops[3])
        h = self.new_cell(st, a, '', {'hidden': True})
        g = self.new_cell(st, d, '', {'hidden': True})

        def cnd(s):
            return self.truth(s, self.compare(s, '!=', s.heap[h].f['v'], b))

        def body(s):
            arg = ('L', self.deref(s, s.heap[h].f['v'], '?'))
            rs = self.call_lambda(s, f, [arg])
            out = []
            for s2, v in (rs if rs is not None else [(s, ('A', 'unk', self.uid()))]):
                if isinstance(d, tuple) and d and d[0] == 'bi':
                    e = self.elem_val(s2, d[1], v)
                    for s3, e2 in [(s3, 1 if b2 else 0) for s3, b2 in self.truth(s2, e)] if isinstance(e, tuple) and e and e[0] in ('cmp', 'not') else [(s2, e)]:
                        self.may_oom(s3)
                        self.relocate(s3, d[1])
                        size = s3.heap[d[1]].f['size']
                        self.size_set(s3, d[1], add(size, 1), (('pt', size, e2),))
                        out.append(('n', s3, None))
                    continue
                loc = self.deref(s2, s2.heap[g].f['v'], '?')
                for s3 in self.assign(s2, loc, self.val(s2, v), None):
                    out.append(('n', s3, None))
            return out

        def inc(s):
            s.heap[h] = s.heap[h].set(v=self.advance(s, s.heap[h].f['v'], 1))
            if not (isinstance(d, tuple) and d and d[0] == 'bi'):
                s.heap[g] = s.heap[g].set(v=self.advance(s, s.heap[g].f['v'], 1))
            return [s]
        return [(s, s.heap[g].f['v']) for _, s, _ in self.loop(st, n, cnd, body, inc)]

    def x_manip(self, st, c, name, ops, n):
        k = {'setw': 'width', 'setprecision': 'precision', 'setfill': 'fill'}.get(name, 'flags')
        return [(st, ('manip', k, self.val(st, ops[0])))]

    def x_smanip(self, st, c, name, ops, n):
        sid = self.stream_of(st, ops[0])
        if sid is not None and name in self.MANIP:
            a, b = self.MANIP[name]
            self.fmt_set(st, sid, **{a: b})
        return [(st, ops[0])]

    def x_make_unique(self, st, c, name, ops, n):
        self.may_oom(st)
        rt = self.T(st, n)
        t = template_args(rt.base)[0] if template_args(rt.base) else '?'
        if kind_of(t) == 'rec' and self.prog.records.get(t) and not ops:
            oid = self.new_rec(st, t)
            o = st.heap[oid]
            st.heap[oid] = Obj(o.kind, o.f, o.t, True, dict(o.m, heap=True, alloc=self.where(st)))
            ctor = [f for f in self.prog.fns.values() if f.d.get('ctor') and f.rec == t and not f.ps and f.body is not None]
            if ctor:
                return [(s, P(('c', oid))) for s, _ in self.call(st, ctor[0], ('c', oid), [])]
            return [(st, P(('c', oid)))]
        k = kind_of(t)
        if k in ('str', 'cx', 'map') or k == 'vec' and (len(ops) < 2 or t.startswith('std::')):
            out = []
            if k == 'cx' and not ops or k == 'str' and not ops:
                made = [(st, self.default_value(t))]
            else:
                made = self.construct(st, n, t, k, c, ops)
            for s, v in made:
                if isinstance(v, tuple) and v and v[0] == 'O':
                    o = s.heap[v[1]]
                    s.heap[v[1]] = Obj(o.kind, o.f, o.t, o.alive, dict(o.m, heap=True, alloc=self.where(s)))
                    out.append((s, P(('c', v[1]))))
                else:
                    out.append((s, P(('c', self.new_cell(s, v, t, {'heap': True, 'alloc': self.where(s)})))))
            return out
        oid = self.sym_obj(st, t, ('unk', self.uid()), {'unk': True, 'heap': True})
        return [(st, P(('c', oid)))]

    def x_make_pair(self, st, c, name, ops, n):
        return [(st, ('pair', self.val(st, ops[0]), self.val(st, ops[1])))]

    def x_minmax(self, st, c, name, ops, n):
        a, b = self.val(st, ops[0]), self.val(st, ops[1])
        if isnum(a) and isnum(b):
            out = []
            for s, t in self.truth_cmp(st, '>=', a, b):
                out.append((s, (a if t else b) if name == 'max' else (b if t else a)))
            return out
        return [(st, ('A', 'unk', self.uid()))]

    def x_fmath(self, st, c, name, ops, n):
        v = self.val(st, ops[0])
        if isnum(v) and self.T(st, n).cls == 'int':
            if name == 'abs':
                if self.entails(st, v):
                    return [(st, v)]
                r = from_atom(('abs', v))
                self.rng.setdefault(r.t[0][0][0], (0, (1 << 63)))
                return [(st, r)]
            return None
        v = self.i2f(v)
        if v[0] == 'i2f' and name in ('round', 'floor', 'ceil', 'trunc', 'rint', 'nearbyint'):
            return [(st, v)]
        if kind_of(st.frames[-1].types[c['pt'][0]].base) == 'cx':
            return [(st, ('fop', 'cabs', v, None))]
        return [(st, ('fop', name, v, None))]

    def x_fpc(self, st, c, name, ops, n):
        v = self.val(st, ops[0])
        r = from_atom(('fpc' if name == 'fpclassify' else name, v))
        self.rng.setdefault(r.t[0][0][0], (0, 4) if name == 'fpclassify' else (0, 1))
        return [(st, r)]

    @staticmethod
    def key_order(a, b):
        """sign of the comparison of two texts when known: the same text, or a key that is not in a map and the first key not less than it"""
        if a == b and not is_unk(a):
            return 0
        for x, y, s in ((a, b, -1), (b, a, 1)):
            if isinstance(y, tuple) and y[:1] == ('key',) and len(y) == 3 and isinstance(y[2], Lin):
                n = single_atom(y[2])
                if isinstance(n, tuple) and n[:1] == ('first not less',) and n[2] == x:
                    return s
        return None

    def x_op(self, st, c, name, ops, n):
        if name == 'operator<<':
            sid = self.stream_of(st, ops[0])
            if sid is not None:
                return self.put(st, sid, ops[1], ('c', sid), c)
            x = self.objof(st, ops[0])
            return [(st, ops[0])]
        if name in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>='):
            op = name[8:]
            T = st.frames[-1].types
            ka = kind_of(T[c['pt'][0]].base) if c['pt'] else None
            a, b = self.val(st, ops[0]), self.val(st, ops[1])
            if ka in ('str', 'sv') or (isinstance(a, tuple) and a and a[0] == 'cs') or (isinstance(b, tuple) and b and b[0] == 'cs' and ka != 'iter'):
                a, b = self.sval(st, ops[0]), self.sval(st, ops[1])
                o = self.key_order(a, b)
                if o is not None:
                    return [(st, int({'<': o < 0, '<=': o <= 0, '>': o > 0, '>=': o >= 0, '==': o == 0, '!=': o != 0}[op]))]
                if op not in ('==', '!='):
                    return [(st, ('cmp', op, from_atom(('strcmp', a, b)), 0))]
            xa, xb = self.objof(st, ops[0]), self.objof(st, ops[1])
            if xa is not None and xb is not None and st.heap[xa].kind in ('vec', 'map'):
                return [(st, ('cmp', op, ('A', 'objval', self.objterm(st, xa)), ('A', 'objval', self.objterm(st, xb))))]
            if ka == 'cx' or kind_of(T[c['pt'][1]].base) == 'cx':
                kb = kind_of(T[c['pt'][1]].base)
                if ka != 'cx':
                    a = self.mk_cx(self.i2f(a), ('fconst', 0.0))
                if kb != 'cx':
                    b = self.mk_cx(self.i2f(b), ('fconst', 0.0))
            return [(st, self.compare(st, op, a, b))]
        if name == 'operator+':
            T = self.T(st, n)
            k = kind_of(T.base)
            if k == 'str':
                self.may_oom(st)
                vs = []
                for o in ops:
                    v = self.val(st, o)
                    vs.append(('chr1', v) if isnum(v) else self.sval(st, o))
                return [(st, ('cat', vs[0], vs[1]))]
            if k == 'iter':
                a, b = self.val(st, ops[0]), self.val(st, ops[1])
                if isnum(a):
                    a, b = b, a
                return [(st, self.advance(st, a, b) if isnum(b) else ('A', 'unk', self.uid()))]
        if name == 'operator-':
            d = self.delta(self.val(st, ops[1]), self.val(st, ops[0]))
            if d is not None and self.T(st, n).cls == 'int':
                return [(st, d)]
        if name in ('operator+', 'operator-', 'operator*', 'operator/') and kind_of(self.T(st, n).base) == 'cx':
            return [(st, ('fop', name[8:], self.val(st, ops[0]), self.val(st, ops[1]) if len(ops) > 1 else None))]
        if name in ('operator|', 'operator&'):
            return [(st, ('A', 'unk', self.uid()))]
        return None

    def lua_call(self, st, c, name, ops, n):
        return None

    # ------------------------------------------------------------ constructors
    def construct_model(self, n, st, base, k, c, a):
        out = []
        for s, ops in self.eval_args(st, c['pt'], st.frames[-1].types, a):
            self.line = n.get('l', self.line)
            out += self.construct(s, n, base, k, c, ops)
        return out

    def construct(self, st, n, base, k, c, ops):
        if k == 'str':
            if not ops:
                return [(st, ('s', ''))]
            self.may_oom(st)
            v0 = self.val(st, ops[0])
            if len(ops) >= 2 and isnum(v0):
                return [(st, ('A', 'repeat', v0, self.val(st, ops[1])))]
            if len(ops) >= 2 and isnum(self.val(st, ops[1])) and isinstance(v0, tuple) and v0 and v0[0] in ('cs', 'P'):
                return [(st, self.substring(st, ops))]
            if isinstance(v0, tuple) and v0 and v0[0] == 'P' and v0[1][0] == 'e':
                return [(st, ('A', 'cstrof', st.heap[v0[1][1]].f['base'], v0[1][2]))]
            if isinstance(v0, tuple) and v0 and v0[0] == 'il':
                return [(st, ('A', 'unk', self.uid()))]
            if len(ops) == 2 and isinstance(v0, tuple) and v0 and v0[0] in ('cs', 'P'):
                v1 = self.val(st, ops[1])
                if isinstance(v1, tuple) and v1 and v1[0] == v0[0]:
                    return [(st, ('A', 'unk', self.uid()))]
            pt = st.frames[-1].types[c['pt'][0]]
            v = self.sval(st, ops[0])
            if pt.s.endswith('&&') and isinstance(ops[0], tuple) and ops[0][0] == 'L':
                pass
            return [(st, v)]
        if k == 'sv':
            if not ops:
                return [(st, ('s', ''))]
            if len(ops) == 2:
                return [(st, self.substring(st, ops))]
            return [(st, self.sval(st, ops[0]))]
        if k == 'cx':
            if len(ops) == 1 and kind_of(st.frames[-1].types[c['pt'][0]].base) == 'cx':
                return [(st, self.val(st, ops[0]))]
            z = ('fconst', 0.0)
            re = self.i2f(self.val(st, ops[0])) if ops else z
            im = self.i2f(self.val(st, ops[1])) if len(ops) > 1 else z
            return [(st, self.mk_cx(re, im))]
        if k == 'vec':
            if not ops or (len(ops) == 1 and kind_of(st.frames[-1].types[c['pt'][0]].base) == 'other' and 'allocator' in st.frames[-1].types[c['pt'][0]].base):
                return [(st, ('O', self.empty_obj(st, base)))]
            x = self.objof(st, ops[0])
            if x is not None and st.heap[x].kind == 'vec':
                pt = st.frames[-1].types[c['pt'][0]]
                if pt.s.endswith('&&'):
                    oid = self.empty_obj(st, base)
                    self.move_into(st, oid, x)
                    return [(st, ('O', oid))]
                oid = self.clone(st, x)
                o = st.heap[oid]
                st.heap[oid] = Obj(o.kind, o.f, base, o.alive, o.m)
                return [(st, ('O', oid))]
            v = self.val(st, ops[0])
            self.may_oom(st)
            oid = self.empty_obj(st, base)
            if isnum(v):
                o = st.heap[oid]
                two = len(ops) > 1 and 'allocator' not in st.frames[-1].types[c['pt'][1]].base
                fill = self.elem_val(st, oid, ops[1]) if two else self.default_elem(strip_const(elem_type(base)))
                st.heap[oid] = o.set(size=v, upd=(('ge', 0, fill),) if two else ())
                return [(st, ('O', oid))]
            if isinstance(v, tuple) and v and v[0] == 'il':
                st.heap[oid] = st.heap[oid].set(size=len(v[1]), upd=tuple(('pt', i, self.term_of(st, y)) for i, y in enumerate(v[1])))
                return [(st, ('O', oid))]
            if len(ops) >= 2:
                ia, ib = self.it(st, v), self.it(st, self.val(st, ops[1]))
                if ia and ib and ia[0] == ib[0]:
                    cnt = sub(ib[1], ia[1])
                    self.span(st, ia[0], ia[1], cnt, 'elements copied out')
                    self.copy_region(st, ia[0], ia[1], cnt, oid, 0, reset=True, fn=self.conv_fn(st, st.heap[ia[0]].t, base))
                    return [(st, ('O', oid))]
            self.havoc_loc(st, ('c', oid))
            return [(st, ('O', oid))]
        if k == 'map':
            if not ops:
                return [(st, ('O', self.empty_obj(st, base)))]
            x = self.objof(st, ops[0])
            if x is not None and st.heap[x].kind == 'map':
                pt = st.frames[-1].types[c['pt'][0]]
                if pt.s.endswith('&&'):
                    oid = self.empty_obj(st, base)
                    self.move_into(st, oid, x)
                    return [(st, ('O', oid))]
                return [(st, ('O', self.clone(st, x)))]
            self.may_oom(st)
            oid = self.empty_obj(st, base)
            self.havoc_loc(st, ('c', oid))
            return [(st, ('O', oid))]
        if k in ('stream', 'istream'):
            return [(st, ('O', self.empty_obj(st, base)))]
        if k in ('iter', 'miter', 'bitref', 'ptr', 'fptr', 'int', 'bool', 'float'):
            if ops:
                return [(st, self.val(st, ops[0]))]
            return [(st, ('A', 'unk', self.uid()))]
        if k == 'uptr':
            if ops:
                v = self.val(st, ops[0])
                if isinstance(ops[0], tuple) and ops[0][0] == 'L':
                    self.write(st, ops[0][1], NULL)
                return [(st, v)]
            return [(st, NULL)]
        if k == 'pair':
            if len(ops) == 2:
                return [(st, ('pair', self.val(st, ops[0]), self.val(st, ops[1])))]
            if ops:
                return [(st, self.val(st, ops[0]))]
        if k == 'rec' and c.get('repo') and len(ops) == 1:
            x = self.objof(st, ops[0])
            if x is not None and st.heap[x].kind == 'rec':
                return [(st, ('O', self.clone(st, x)))]
        if k == 'rec' and c.get('repo') and not ops:
            return [(st, ('O', self.new_rec(st, base)))]
        if k == 'gc':
            x = self.objof(st, ops[0]) if ops else None
            if x is None and not ops:
                return [(st, ('O', self.empty_obj(st, base)))]
        if k == 'lam':
            return [(st, self.val(st, ops[0]))] if ops else [(st, ('A', 'unk', self.uid()))]
        # foreign object
        self.count('opaque')
        if not c.get('nx'):
            self.may_throw(st, 'callee exception')
        return [(st, ('O', self.new_cell(st, ('A', 'unk', self.uid()), base)))]

    def term_of(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'O':
            return self.objterm(st, v[1])
        if isinstance(v, tuple) and v and v[0] == 'cs':
            return v[1]
        return v


def q_class(c):
    return c['q'].replace('std::__cxx11::', 'std::').rsplit('::operator', 1)[0]
