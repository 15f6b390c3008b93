"""C21: every loop advances towards its exit; no operation calls itself on unchanged operands."""
from bounds import *


class Term(Buf):
    def visible(self, s, g):
        """does a pass from g to s change anything that existed before it?"""
        for i, go in g.heap.items():
            so = s.heap.get(i)
            if so is None:
                if go.alive:
                    return True
                continue
            if so.alive != go.alive:
                return True
            if so.f is not go.f and not (go.kind == 'gc' and so.m.get('split') and go.f['mem'] == '?' and so.f['tag'] == so.m['split'][0]
                                         and so.f['val'] == so.m['split'][1]):
                if any(so.f.get(k) != go.f.get(k) for k in set(so.f) | set(go.f) if k not in ('known',)):
                    return True
        return s.trace != g.trace

    def loop(self, st, n, cond, body, inc):
        if not self.quiet:
            self.first_pass(st, n, cond, body, inc)
            self.wraps(st, n, cond, body, inc)
        return Buf.loop(self, st, n, cond, body, inc)

    def first_pass(self, st, n, cond, body, inc):
        s0 = st.copy()
        ref = st.copy()
        self.collectors.append([])
        self.quiet += 1
        stuck = False
        try:
            nx = self.ext_effects
            for s, b in cond(s0):
                if not b:
                    continue
                for kind, s2, v in body(s):
                    if kind in ('n', 'ct'):
                        for s3 in inc(s2):
                            self.close_back(s3, ref)
                            if not self.visible(s3, ref) and self.ext_effects == nx and not self.tainted(s3):
                                stuck = s3
        finally:
            self.collectors.pop()
            self.quiet -= 1
        self.line = n.get('l', self.line)
        if stuck:
            self.event(ref, 'C21', 'progress', 'a pass through the loop leaves everything as it was, so it repeats for ever', 'viol' if not stuck.inexact else 'undec')
        else:
            self.ok('C21', 'progress')

    NARROW = {'unsigned char': (0, 255), 'unsigned short': (0, 65535), 'signed char': (-128, 127), 'char': (-128, 127), 'short': (-32768, 32767)}

    def wraps(self, st, n, cond, body, inc):
        """a counter of less than 32 bits that returns to its least value while the condition still holds"""
        for oid in sorted(set(l[1] for l in st.frames[-1].env.values() if l and l[0] == 'c')):
            o = st.heap.get(oid)
            if o is None or o.kind != 'cell' or o.t not in self.NARROW or not o.alive:
                continue
            lo, hi = self.NARROW[o.t]
            if not isinstance(o.f['v'], int) or not self.steps(st, oid, o.f['v'] + 1, cond, body, inc):
                continue
            s = st.copy()
            s.heap[oid] = Obj('cell', {'v': hi}, o.t, True, o.m)
            bad = self.steps(s, oid, lo, cond, body, inc)
            self.line = n.get('l', self.line)
            if bad:
                w = self.witness(bad, -1)
                if w is not None and not bad.inexact:
                    self.event(st, 'C21', 'wrap', 'the counter of type %s goes from %d to %d while the condition of the loop holds (for instance %s): the loop does not end' % (
                        o.t, hi, lo, self.nice_witness(w)))
                    continue
            self.ok('C21', 'wrap')

    def steps(self, st, oid, v, cond, body, inc):
        """the state after a pass that leaves the value v in the cell, when no pass leaves the loop by a jump"""
        self.collectors.append([])
        self.quiet += 1
        r = None
        try:
            for s, b in cond(st.copy()):
                if not b:
                    continue
                for kind, s2, _ in body(s):
                    if kind not in ('n', 'ct'):
                        return None
                    for s3 in inc(s2):
                        if s3.heap[oid].f['v'] == v:
                            r = s3
            return r
        finally:
            self.collectors.pop()
            self.quiet -= 1

    ext_effects = 0

    def unknown(self, st, c, this, ops, n):
        self.ext_effects += 1
        return Buf.unknown(self, st, c, this, ops, n)

    def opaque_call(self, st, fn, this, ops):
        self.ext_effects += 1
        return Buf.opaque_call(self, st, fn, this, ops)

    def lua_call(self, st, c, name, ops, n):
        self.ext_effects += 1
        return Buf.lua_call(self, st, c, name, ops, n)

    def cond_terms(self, cond, s):
        self.quiet += 1
        self.collectors.append([])
        try:
            base = len(s.log)
            s = s.copy()
            return frozenset(e[:3] for r, _ in cond(s) for e in r.log[base:])
        finally:
            self.collectors.pop()
            self.quiet -= 1

    def one_pass(self, g, kid, cond, body, inc, final):
        if final is None or self.quiet:
            return Buf.one_pass(self, g, kid, cond, body, inc, final)
        n0 = len(self.collectors[-1]) if self.collectors else 0
        ref = g.copy()
        back, exits, x = Buf.one_pass(self, g, kid, cond, body, inc, final)
        thrown = (len(self.collectors[-1]) if self.collectors else 0) - n0
        self.last = (ref, thrown, cond)
        return back, exits, x

    def progress(self, g, kid, back, exits, line, inv, n):
        if self.quiet:
            return
        ref, thrown, cond = self.last
        self.line = line
        if inv:
            self.ok('C21', 'advance')
            return
        if not back:
            self.ok('C21', 'advance')
            return
        if not exits and not thrown:
            self.event(ref, 'C21', 'advance', 'the loop has no way out', 'undec' if self.tainted(ref) else 'viol')
            return
        if thrown or any(k != 'exit' for k, _, _ in exits):
            self.ok('C21', 'advance')
            return
        # the only way out is the condition: does it ever see a different value?
        t0 = self.cond_terms(cond, ref)
        if not t0 or is_unk(tuple(t0)):
            self.count('event.C21.advance.ok')
            return
        for s in back:
            if self.cond_terms(cond, s) != t0:
                self.ok('C21', 'advance')
                return
        self.event(ref, 'C21', 'advance', 'no pass through the loop changes what its condition depends on', 'viol')

    def call(self, st, fn, this, ops, lam=None):
        self.entries.append((fn.usr, this, tuple(repr(o) for o in ops), self.snap(st)))
        try:
            return Buf.call(self, st, fn, this, ops, lam)
        finally:
            self.entries.pop()

    entries = []

    def snap(self, st):
        return {i: o.f for i, o in st.heap.items() if o.kind in ('gc', 'vec', 'map')}

    def recursive(self, st, fn, this, ops, n):
        for usr, th, args, heap in self.entries:
            if usr == fn.usr and th == this:
                now = self.snap(st)
                same = all(now.get(i) == f for i, f in heap.items()) if True else False
                def norm(o):
                    return repr(self.deep(st, o))
                if same and args == tuple(repr(o) for o in ops):
                    self.event(st, 'C21', 'recursion', 'the operation calls itself on the same operands', 'undec' if is_unk(ops) else 'viol')
                    break
        else:
            self.ok('C21', 'recursion')
        return Buf.recursive(self, st, fn, this, ops, n)


def check_C21():
    rep = Report('C21')
    prog = P_.extract()
    fns = operations(prog) + helpers(prog) + others(prog)
    def init(D):
        D.entries = []
    res = sweep_all(prog, lambda *a: None, init, fns, False, Term)
    collect(rep, res, 'C21', ('advance', 'progress', 'recursion', 'wrap'), {
        'advance': 'the loop has an exit, and either a distance to its bound that shrinks on every pass or a condition that does not see the same values again',
        'wrap': 'no counter narrower than int returns to its least value while the loop goes on',
        'progress': 'no path through the body leaves everything as it was',
        'recursion': 'no operation calls itself on unchanged operands'})
    rep.cov['operations'] = len(fns)
    return rep.finish('other', HOW, ASSUME + ['reading from a stream or through the bundled parsers makes progress'])
