"""Loops: an inductive generalisation of the state at the loop head (start + step*k, regions written so far), iterated
until it is stable, then one reporting pass.  Sequences of a known small length (D.unfold) are followed pass by pass;
that is used for witnesses only, the generic case covers every length."""
from machine import *


def norm_unk(v):
    """forget the identity of over-approximated values"""
    if isinstance(v, Lin):
        m = {}
        for a in atoms_of(v):
            n = atom_name(a)
            nn = norm_unk(n)
            if nn != n:
                m[a] = from_atom(nn)
        return subst(v, m) if m else v
    if isinstance(v, tuple):
        if v and v[0] == 'unk':
            return ('unk', '*')
        if len(v) > 1 and v[0] == 'A' and v[1] in ('unk', 'uninit'):
            return ('A', v[1], '*')
        ch = False
        out = []
        for x in v:
            y = norm_unk(x) if isinstance(x, (tuple, Lin)) else x
            if y is not x:
                ch = True
            out.append(y)
        return tuple(out) if ch else v
    return v


def about_elements(v, kid, d=0):
    """v speaks of a container that is the element at an index depending on kid"""
    if isinstance(v, Lin):
        return any(about_elements(atom_name(a), kid, d + 1) for a in atoms_of(v))
    if isinstance(v, tuple) and v:
        if v[0] in ('pl', 'tag') and len(v) > 1 and isinstance(v[1], tuple) and v[1] and v[1][0] in ('sel', 'mkey', 'mval') and has_atom(v[1], kid):
            return True
        return d < 12 and any(about_elements(x, kid, d + 1) for x in v if isinstance(x, (tuple, Lin)))
    return False


class Loops(Machine):
    MAXPASS = 7

    def subst_state(self, st, m):
        """replace atoms throughout the state; False when the facts become contradictory"""
        for oid, o in list(st.heap.items()):
            ch = None
            for k, v in o.f.items():
                if isinstance(v, (tuple, Lin)):
                    w = subst(v, m)
                    if w is not v and w != v:
                        if ch is None:
                            ch = dict(o.f)
                        ch[k] = w
            mm = o.m
            og = mm.get('origin')
            el = mm.get('elem')
            if isinstance(og, tuple):
                w = subst(og, m)
                if w is not og and w != og:
                    mm = dict(mm, origin=w)
            if isinstance(el, tuple):
                w = subst(el, m)
                if w is not el and w != el:
                    mm = dict(mm, elem=w)
            if ch is not None or mm is not o.m:
                init = mm.get('init')
                f = ch if ch is not None else o.f
                if init is not None and ch is not None and (o.f is init or o.f == init):
                    mm = dict(mm, init=f)
                st.heap[oid] = Obj(o.kind, f, o.t, o.alive, mm)
        kids = {}
        for k, v in st.kids.items():
            kids[subst(k, m)] = v
        st.kids = kids
        st.dom = {(atom_id(self.atom_subst(a, m)) if self.atom_subst(a, m) is not None else a): d for a, d in st.dom.items()}
        st.bools = {subst(k, m): v for k, v in st.bools.items()}
        st.uni = subst(st.uni, m)
        st.trace = subst(st.trace, m)
        st.log = subst(st.log, m)
        fr = []
        for f in st.frames:
            env = f.env
            ne = None
            for k, loc in env.items():
                w = subst(loc, m)
                if w is not loc and w != loc:
                    if ne is None:
                        ne = dict(env)
                    ne[k] = w
            fr.append(f if ne is None else Frame(f.fn, ne, f.this, f.scopes, f.types))
        st.frames = tuple(fr)
        out = []
        for f in st.facts:
            g = subst(f, m)
            if isinstance(g, int):
                if g < 0:
                    return False
                continue
            out.append(g)
        st.facts = tuple(out)
        return True

    @staticmethod
    def atom_subst(a, m):
        nm = atom_name(a)
        if not isinstance(nm, tuple):
            return None
        w = subst(nm, m)
        return w if w is not nm and w != nm else None

    # -------------------------------------------------------------- diff
    def close_back(self, s, g):
        """at the back edge: elements touched in this pass go back into their sequence"""
        todo = {}
        for key, kid in list(s.kids.items()):
            if key in g.kids or len(key) != 2 or not isinstance(key[0], int):
                continue
            todo.setdefault(key[0], []).append(key[1])
        # innermost first: children created later have larger ids
        for oid in sorted(todo, reverse=True):
            ks = todo[oid]
            o = s.heap.get(oid)
            if o is None or o.kind not in ('vec', 'map'):
                for k in ks:
                    s.kids.pop((oid, k), None)
                continue
            self.fold_kids(s, oid, drop=True, only=lambda k: k in ks)

    def leak_in_loop(self, s, g):
        """payloads acquired in this pass and no longer reachable"""
        new = [i for i, o in s.heap.items() if i not in g.heap and o.alive and o.m.get('heap') and not o.m.get('absorbed')
               and not o.m.get('lazy')]
        if not new:
            return
        reach = self.reachable(s, [i for i, o in s.heap.items() if not (o.m.get('heap') and i not in g.heap)])
        for i in new:
            if i not in reach:
                o = s.heap[i]
                self.event(s, 'C02', 'leak', 'a %s acquired in one pass of the loop is lost (allocated at %s:%s)' % (
                    (self.describe(o),) + tuple(o.m.get('alloc', ('?', '?')))), 'undec' if o.m.get('unk') else 'viol')

    def reachable(self, st, roots):
        seen = set()
        work = list(roots)
        own = {}
        for key, kid in st.kids.items():
            if len(key) == 2 and isinstance(key[0], int):
                own.setdefault(key[0], []).append(kid)
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            o = st.heap.get(i)
            if o is None:
                continue
            for v in o.f.values():
                work += self.oids_in(v)
            work += own.get(i, ())
        return seen

    def oids_in(self, v, d=0):
        if isinstance(v, tuple) and v and d < 6:
            if v[0] == 'O' and len(v) == 2 and isinstance(v[1], int):
                return [v[1]]
            if v[0] in ('P', 'ref') and len(v) == 2 and isinstance(v[1], tuple) and len(v[1]) > 1 and isinstance(v[1][1], int):
                return [v[1][1]]
            if v[0] in ('mi', 'c', 'e') and len(v) > 1 and isinstance(v[1], int):
                return [v[1]]
            r = []
            for x in v:
                if isinstance(x, tuple):
                    r += self.oids_in(x, d + 1)
            return r
        return []

    # -------------------------------------------------------------- main
    def loop(self, st, n, cond, body, inc):
        line = n.get('l', self.line)
        # entered at all?
        probe = st.copy()
        self.quiet += 1
        self.collectors.append([])
        try:
            pr = cond(probe)
        finally:
            thrown = self.collectors.pop()
            self.quiet -= 1
        if not thrown and not any(b for _, b in pr):
            return [('n', s, None) for s, b in cond(st)]
        if self.unfold:
            r = self.unfolded(st, cond, body, inc)
            if r is not None:
                return r
        H = {}
        self.quiet += 1
        npass = 0
        prev = None
        stable = False
        try:
            while npass < self.MAXPASS:
                g, kid = self.generic(st, H, npass)
                back, _, dinfo = self.one_pass(g, kid, cond, body, inc, None)
                newH = self.specs(st, g, kid, back, H, npass)
                if newH == prev and npass > 0 and self.same_specs(newH, H):
                    stable = True
                    break
                if self.same_specs(newH, H) and npass > 0:
                    stable = True
                    H = newH
                    break
                prev = newH
                H = newH
                npass += 1
            if not stable:
                # widen everything that still moves
                for rnd in range(4):
                    H = {k: ('havoc',) for k in H}
                    g, kid = self.generic(st, H, 9)
                    back, _, _ = self.one_pass(g, kid, cond, body, inc, None)
                    newH = self.specs(st, g, kid, back, H, 9)
                    if set(newH) <= set(H):
                        break
                    H.update({k: ('havoc',) for k in newH})
        finally:
            self.quiet -= 1
        self.relations(st, H, cond, body, inc)
        if not self.quiet and self.peeled < 3 and any(sp[0] in ('havoc', 'sum', 'mono', 'ph', 'updph', 'setto') for sp in H.values()):
            self.peel(st, cond, body, inc)
        # invariant of the condition
        g, kid = self.generic(st, H, 99)
        k = Lin((((kid,), 1),), 0)
        D = self.distance(g, kid, cond)
        out = []
        inv = []
        for d, c, strict in D:
            d0 = subst(d, {kid: 0})
            lowest = 1 - c
            need = add(d0, -lowest) if lowest < 0 else d0
            if self.entails(st, need):
                inv.append((d, c, kid))
            else:
                # both sides of d0 >= 0 are analysed separately
                s2 = st.copy()
                if self.assume(s2, sub(-1, need)):
                    out += self.loop_fixed(s2, n, cond, body, inc, H, [], line, npass) if not strict else self.not_entered(s2, cond, n, body, inc, H, line, npass)
                if not self.assume(st, need):
                    return out
                inv.append((d, c, kid))
        out += self.loop_fixed(st, n, cond, body, inc, H, inv, line, npass)
        return self.limit(out)

    unfold = 0     # passes evaluated one by one when the number of passes is known

    unfold_paths = 48

    def unfolded(self, st, cond, body, inc):
        """exits of a loop over a sequence of known length, or None when the length is not known"""
        self.collectors.append([])
        out, todo = [], [st.copy()]
        ok = False
        try:
            for _ in range(self.unfold + 1):
                nxt = []
                for s in todo:
                    rs = cond(s)
                    if len({b for _, b in rs}) > 1:
                        return None
                    for s1, b in rs:
                        if not b:
                            out.append(('n', s1, None))
                            continue
                        for kind, s2, v in body(s1):
                            if kind in ('n', 'ct'):
                                nxt += inc(s2)
                            elif kind == 'br':
                                out.append(('n', s2, None))
                            else:
                                out.append((kind, s2, v))
                if len(nxt) + len(out) > self.unfold_paths:
                    return None
                todo = nxt
                if not todo:
                    ok = True
                    return self.limit(out)
            return None
        finally:
            thrown = self.collectors.pop()
            if ok:
                self.collectors[-1] += thrown

    peeled = 0

    def peel(self, st, cond, body, inc):
        """the first pass from the state at entry, where no generalisation has lost anything"""
        s0 = st.copy()
        self.collectors.append([])
        self.nothrow += 1
        self.peeled += 1
        try:
            for s, b in cond(s0):
                if b:
                    body(s)
        finally:
            self.collectors.pop()
            self.nothrow -= 1
            self.peeled -= 1

    def relations(self, st, H, cond, body, inc):
        """sums and differences of two moving quantities that every pass keeps"""
        mv = []
        for key, sp in sorted(H.items(), key=repr):
            if key[0] in ('trace', 'rel') or sp[0] not in ('havoc', 'sum', 'ind'):
                continue
            o = st.heap.get(key[0])
            v = o.f.get(key[1]) if o is not None and key[1] != '*gc' else None
            if isnum(v) or isinstance(v, tuple) and v and (v[0] == 'P' and v[1][0] == 'e' and isnum(v[1][2])):
                mv.append((key, 'down' if sp[0] == 'sum' or sp[0] == 'ind' and sp[1] < 0 else sp[0]))
        if not any(k in ('havoc', 'down') for _, k in mv) or len(mv) > 6:
            return
        rel = set()
        for i in range(len(mv)):
            for j in range(i + 1, len(mv)):
                if 'havoc' in (mv[i][1], mv[j][1]):
                    for sg in (1, -1):
                        rel.add((mv[i][0], mv[j][0], sg))
        for key, k in mv:
            if k in ('havoc', 'down'):
                rel.add((key, None, 1))
        self.quiet += 1
        try:
            for rnd in range(6):
                H[('rel', 0)] = ('rel', tuple(sorted(rel, key=repr)))
                g, kid = self.generic(st, H, 99)
                back, _, _ = self.one_pass(g, kid, cond, body, inc, None)
                keep = set()
                for r in rel:
                    ok = True
                    for s in back:
                        for f in self.rel_facts(st, s, r):
                            if not self.entails(s, f):
                                ok = False
                                break
                        if not ok:
                            break
                    if ok:
                        keep.add(r)
                if keep == rel:
                    break
                rel = keep
                if not rel:
                    break
            else:
                rel = set()
        except Unsupported:
            rel = set()
        finally:
            self.quiet -= 1
        if rel:
            H[('rel', 0)] = ('rel', tuple(sorted(rel, key=repr)))
        else:
            H.pop(('rel', 0), None)

    def rel_facts(self, st, g, r):
        def b(s, key):
            return self.shift_base(s.heap[key[0]].f[key[1]])
        ka, kb, sg = r
        try:
            if kb is None:
                # stays non-negative
                return [b(g, ka)] if self.entails(st, b(st, ka)) else [-1]
            x0 = add(b(st, ka), scale(b(st, kb), sg))
            x1 = add(b(g, ka), scale(b(g, kb), sg))
        except (KeyError, TypeError, IndexError):
            return [-1]
        if not (isnum(x0) and isnum(x1)):
            return [-1]
        return [sub(x1, x0), sub(x0, x1)]

    def not_entered(self, st, cond, n, body, inc, H, line, npass):
        """distance negative at entry: the condition is false at once"""
        out = []
        for s, b in cond(st):
            if b:
                out += self.loop_fixed(s, n, cond, body, inc, H, [], line, npass)
            else:
                out.append(('n', s, None))
        return out

    def loop_fixed(self, st, n, cond, body, inc, H, inv, line, npass):
        """reporting pass with the final generalisation"""
        g, kid = self.generic(st, H, 99, inv)
        self.count('loops')
        self.line = line
        where = (g.frames[-1].fn.file, line)
        base = len(g.log)
        snap = g.copy()
        back, exits, dinfo = self.one_pass(g, kid, cond, body, inc, snap)
        self.progress(snap, kid, back, exits, line, inv, n)
        # facts established by every completed pass
        b = ('kb', self.uid())
        bl = from_atom(b)
        common = None
        for s in back:
            es = {e for e in s.log[base:] if e[0] in ('==', '!=', '<', '>', '<=', '>=', 'b')}
            common = es if common is None else common & es
        uni = ()
        if common:
            uni = tuple(('all', atom_id(b), None, subst(e, {kid: bl})) for e in sorted(common, key=repr) if has_atom(e, kid))
        if self.keep_alts:
            # what each completed pass established, one set of conditions per path through the body
            alts = []
            for s in back:
                es = sorted({e for e in s.log[base:] if e[0] in ('==', '!=', '<', '>', '<=', '>=', 'b')}, key=repr)
                alts.append((bool(s.joined or s.uni != snap.uni), tuple(es)))
            uni += (('alt', atom_id(b), None, subst(tuple(sorted(set(alts), key=repr)), {kid: bl})),)
        # what the passes established about element containers is not kept for later accesses to them
        lost = ()
        for s in back:
            if any(about_elements(e, kid) for e in s.log[base:]) or any(
                    (o, kk) not in snap.kids and has_atom((kk,), kid) and s.heap[c].kind == 'gc' for (o, kk), c in s.kids.items() if isinstance(o, int) and c in s.heap):
                lost = (('lost', len(s.frames), None, None),)
                break
        k = Lin((((kid,), 1),), 0)
        out = []
        for kind, s, v in exits:
            if lost and lost[0] not in s.uni:
                s.uni = s.uni + lost
            if uni:
                s.uni = s.uni + tuple((u[0], u[1], k, u[3]) for u in uni)
            if kind == 'exit':
                done = False
                for d, c, _ in inv:
                    if c == 1 and self.entails(s, neg(d)):
                        # distance is exactly zero: k is known
                        k0 = subst(d, {kid: 0})
                        if not has_atom(k0, kid):
                            done = True
                            if self.subst_state(s, {kid: k0}):
                                out.append(('n', s, None))
                            break
                if not done:
                    out.append(('n', s, None))
            elif kind == 'br':
                out.append(('n', s, None))
            else:
                out.append((kind, s, v))
        return out

    def progress(self, g, kid, back, exits, line, inv, n):
        """hook for the termination property"""
        pass

    def one_pass(self, g, kid, cond, body, inc, final):
        """(back-edge states, exits, info)"""
        if final is None:
            # the pass works on a copy: what the caller holds stays the state at the loop head
            ref, g = g, g.copy()
        else:
            ref = final
        back, exits = [], []
        if final is None:
            self.collectors.append([])
            self.nothrow += 1
        try:
            for s, b in cond(g):
                if not b:
                    exits.append(('exit', s, None))
                    continue
                for kind, s2, v in body(s):
                    if kind in ('n', 'ct'):
                        for s3 in inc(s2):
                            back.append(s3)
                    else:
                        exits.append((kind, s2, v))
        finally:
            if final is None:
                self.collectors.pop()
                self.nothrow -= 1
        for s in back:
            self.close_back(s, ref)
            if final is not None:
                self.leak_in_loop(s, ref)
        self.limit(back)
        return back, exits, None

    def distance(self, g, kid, cond):
        """[(d, c, strict)]: d = d0 - c*k, the loop continues only while d >= 1 (or d != 0)"""
        self.quiet += 1
        self.collectors.append([])
        try:
            base = len(g.log)
            r = cond(g)
        finally:
            self.collectors.pop()
            self.quiet -= 1
        cand = None
        for s, b in r:
            if not b:
                continue
            es = set(e for e in s.log[base:] if e[0] in ('<', '>', '<=', '>=', '!=', '=='))
            cand = es if cand is None else cand & es
        out = []
        for e in sorted(cand or (), key=repr):
            op, a, b, r = e
            if not (isnum(a) and isnum(b)):
                continue
            if not r:
                op = self.NEGOP[op]
            if op == '<':
                d, strict = sub(b, a), True
            elif op == '>':
                d, strict = sub(a, b), True
            elif op == '<=':
                d, strict = add(sub(b, a), 1), True
            elif op == '>=':
                d, strict = add(sub(a, b), 1), True
            elif op == '!=':
                d, strict = sub(b, a), False
            else:
                continue
            if isinstance(d, int):
                continue
            c = coef(d, kid)
            if c is None or not isinstance(c[0], int) or c[0] == 0:
                continue
            cc = c[0]
            if not strict and cc > 0:
                d, cc = neg(d), -cc
            if cc < 0 and (strict or cc == -1) and not has_atom(c[1], kid):
                out.append((d, -cc, strict))
        return out

    # -------------------------------------------------------------- generalisation
    def generic(self, st, H, npass, inv=()):
        g = st.copy()
        name = ('k', self.uid())
        kl = self.nat_atom(name)
        kid = kl.t[0][0][0]
        for key in sorted(H, key=repr):
            sp = H[key]
            if key[0] == 'rel':
                continue
            if key == ('trace', None):
                if sp[0] == 'rep':
                    b = from_atom(('kb', sp[2]))
                    g.trace = g.trace + (('rep', atom_id(('kb', sp[2])), kl, sp[1]),)
                else:
                    g.trace = g.trace + (('unk', self.uid()),)
                continue
            oid, fld = key
            o = g.heap.get(oid)
            if o is None:
                continue
            if fld == '*gc':
                self.havoc_loc(g, ('c', oid))
                continue
            v0 = o.f.get(fld)
            g.heap[oid] = o.set(**{fld: self.gen_value(g, o, fld, v0, sp, kl)})
            if o.kind == 'map' and fld in ('size', 'upd'):
                g.heap[oid] = g.heap[oid].set(known=())
        if ('rel', 0) in H:
            for r in H[('rel', 0)][1]:
                fs = self.rel_facts(st, g, r)
                if -1 in fs:
                    continue
                for f in fs:
                    if not isinstance(f, int) and f not in g.facts:
                        g.facts = g.facts + (f,)
        for i, (d, c, old) in enumerate(inv):
            dd = subst(d, {old: kl})
            low = 1 - c
            g.facts = g.facts + (add(dd, -low) if low < 0 else dd,)
            inv[i] = (dd, c, kid)
        return g, kid

    def gen_value(self, g, o, fld, v0, sp, kl):
        kind = sp[0]
        if kind == 'ind':
            return self.shift(v0, scale(kl, sp[1]))
        if kind == 'sum':
            d = sp[1]
            if isinstance(d, Lin) and d.t and d.t[0][1] < 0:
                return self.shift(v0, neg(from_atom(('sum', kl, neg(d)))))
            return self.shift(v0, from_atom(('sum', kl, d)))
        if kind == 'updR':
            return v0 + (('R', atom_id(('kb', sp[2])), kl, sp[1]),)
        if kind == 'updph':
            return v0 + (('ph',),)
        if kind == 'rep':
            return v0 + (('rep', atom_id(('kb', sp[2])), kl, sp[1]),)
        if kind == 'mono':
            u = self.unk('long')
            b = self.shift_base(v0)
            g.facts = g.facts + (sub(u, b),)
            if sp[1] is not None:
                g.facts = g.facts + (sub(add(b, scale(kl, sp[1])), u),)
            return self.rebase(v0, u)
        # havoc
        if fld in ('upd',):
            return ()
        if fld == 'base':
            return ('unk', self.uid())
        if fld == 'tr':
            return v0 + (('unk', self.uid()),)
        if kind == 'setto':
            return sp[1]
        if fld == 'fmt':
            return (('?', ('unk', self.uid())),)
        if fld == 'known':
            return ()
        if isnum(v0):
            if fld == 'size':
                return self.nat_atom(('unk', self.uid()))
            t = o.t if o.kind == 'cell' and o.t in INTS else 'long'
            return self.unk(t)
        if isinstance(v0, tuple) and v0 and v0[0] == 'P' and v0[1][0] == 'e':
            return P(('e', v0[1][1], self.unk('long')))
        if isinstance(v0, tuple) and v0 and v0[0] == 'mi':
            return ('mi', v0[1], self.unk('long') if isnum(v0[2]) else ('at', ('A', 'unk', self.uid())))
        if isinstance(v0, tuple) and v0 and v0[0] == 'cs':
            return ('cs', v0[1], v0[2], self.unk('long'))
        if isinstance(v0, tuple) and v0 and v0[0] in ('cmp', 'not'):
            return self.unk('bool')
        return ('A', 'unk', self.uid())

    def shift_base(self, v0):
        if isnum(v0):
            return v0
        if v0[0] == 'P':
            return v0[1][2]
        if v0[0] == 'mi':
            return v0[2]
        return v0[3]

    def rebase(self, v0, u):
        if isnum(v0):
            return u
        if v0[0] == 'P':
            return P(('e', v0[1][1], u))
        if v0[0] == 'mi':
            return ('mi', v0[1], u)
        return ('cs', v0[1], v0[2], u)

    def shift(self, v0, d):
        return self.rebase(v0, add(self.shift_base(v0), d))

    def delta(self, a, b):
        """numeric difference b - a of two values of one shape, or None"""
        if isnum(a) and isnum(b):
            return sub(b, a)
        if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
            if a[0] == 'P' and a[1][0] == 'e' and b[1][0] == 'e' and a[1][1] == b[1][1] and isnum(a[1][2]) and isnum(b[1][2]):
                return sub(b[1][2], a[1][2])
            if a[0] == 'mi' and a[1] == b[1] and isnum(a[2]) and isnum(b[2]):
                return sub(b[2], a[2])
            if a[0] == 'cs' and a[1:3] == b[1:3] and isnum(a[3]) and isnum(b[3]):
                return sub(b[3], a[3])
        return None

    def same_specs(self, A, B):
        if set(A) != set(B):
            return False
        for k in A:
            a, b = A[k], B[k]
            if a[0] != b[0]:
                return False
            if a[0] in ('updR', 'rep'):
                x = norm_unk(subst(a[1], {atom_id(('kb', a[2])): from_atom(('kb', 0))}))
                y = norm_unk(subst(b[1], {atom_id(('kb', b[2])): from_atom(('kb', 0))}))
                if x != y:
                    return False
            elif a != b:
                return False
        return True

    def specs(self, st, g, kid, back, H, npass):
        """how each changed location moves in one pass"""
        ch = {}
        for s in back:
            for oid, go in g.heap.items():
                so = s.heap.get(oid)
                if so is None or so is go:
                    continue
                if go.kind == 'gc':
                    if so.f is not go.f and so.f != go.f:
                        # a lazily known container that was only looked at
                        if go.f['mem'] == '?' and so.m.get('split') and so.f['tag'] == so.m['split'][0] and so.f['val'] == so.m['split'][1]:
                            continue
                        ch.setdefault((oid, '*gc'), [])
                    continue
                for f in set(go.f) | set(so.f):
                    if f == 'known':
                        continue
                    if go.f.get(f) != so.f.get(f):
                        ch.setdefault((oid, f), [])
            if s.trace != g.trace:
                ch.setdefault(('trace', None), [])
        out = {}
        for key in ch:
            out[key] = self.spec_of(st, g, kid, back, key, H.get(key), npass)
        for key, sp in H.items():
            if key not in out:
                # no longer seen to change under the generalisation
                if sp[0] in ('havoc', 'setto') or npass >= 9:
                    out[key] = sp
        # content that is unknown makes the base unknown as well
        for (oid, f), sp in list(out.items()):
            if f == 'upd' and sp[0] == 'havoc' and oid != 'trace':
                out[(oid, 'base')] = ('havoc',)
        return out

    def spec_of(self, st, g, kid, back, key, old, npass):
        if old == ('havoc',):
            return old
        if key == ('trace', None):
            gv = g.trace
            vals = [s.trace for s in back]
            return self.suffix_spec(gv, vals, kid, 'rep')
        oid, f = key
        if f == '*gc':
            return ('havoc',)
        go = g.heap[oid]
        gv = go.f.get(f)
        vals = [s.heap[oid].f.get(f) for s in back if oid in s.heap]
        if f == 'upd':
            r = self.suffix_spec(gv, vals, kid, 'updR')
            if r == ('havoc',) and npass == 0:
                return ('updph',)
            return r
        if f == 'tr':
            return self.suffix_spec(gv, vals, kid, 'rep')
        if f == 'fmt':
            # the format that a completed pass leaves; the first pass is examined by peel()
            if len(set(vals)) == 1 and not is_unk(vals[0]) and not (old and old[0] == 'setto' and old[1] != vals[0]):
                return ('setto', vals[0])
            return ('havoc',)
        ds = [self.delta(gv, v) for v in vals]
        if any(d is None for d in ds):
            return ('havoc',)
        dn = [d for d in ds]
        if all(isinstance(d, int) for d in dn):
            if len(set(dn)) == 1:
                return ('ind', dn[0])
            if min(dn) >= 0:
                return ('mono', max(dn))
            return ('havoc',)
        if npass >= 1 and len(set(dn)) == 1 and not is_unk(dn[0]):
            d = dn[0]
            gl = self.shift_base(gv)
            if not any(atom_name(a)[0] == 'sum' and False for a in atoms_of(d)):
                return ('sum', subst(d, {kid: from_atom(('bv', 0))}))
        if npass == 0:
            return ('mono', None) if False else ('ph',)
        return ('havoc',)

    def suffix_spec(self, gv, vals, kid, name):
        sufs = []
        for v in vals:
            if not isinstance(v, tuple) or not isinstance(gv, tuple) or v[:len(gv)] != gv:
                return ('havoc',)
            sufs.append(v[len(gv):])
        u = self.uid()
        b = from_atom(('kb', u))
        sufs = [tuple(('pt',) + x[1:] if x[0] == 'kidpt' else x for x in s) for s in sufs]
        sufs = [subst(s, {kid: b}) for s in sufs]
        if len(set(norm_unk(s) for s in sufs)) != 1:
            if name == 'rep':
                al = tuple(sorted(set(sufs), key=repr))
                return ('rep', (('alt', al),), u)
            return ('havoc',)
        return (name, sufs[0], u)
