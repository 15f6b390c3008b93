"""Entry points: every operation is analysed for each stored type of the container it is applied to."""
from models import *


class Outcome:
    __slots__ = ('kind', 'st', 'val', 'exc')

    def __init__(self, kind, st, val=None, exc=None):
        self.kind, self.st, self.val, self.exc = kind, st, val, exc


class Driver(Engine):
    def entry_state(self):
        st = St.new()
        return st

    def make_this(self, st, tag, name=('this',)):
        oid = self.sym_obj(st, GC, name, {'param': True})
        if tag is not None:
            self.concretise(st, oid, tag)
        return oid

    def make_args(self, st, fn, tags=None):
        """symbolic operands for the parameters of fn; {index: oid} of containers among them"""
        ops, objs = [], {}
        for i, p in enumerate(fn.ps):
            pt = fn.types[p['t']]
            nm = ('arg', i, fn.types[p['t']].base)
            k = kind_of(pt.base)
            if pt.ref and (is_obj_type(pt.base)):
                oid = self.sym_obj(st, pt.base, nm, {'param': True})
                if k == 'gc' and tags and tags.get(i) is not None:
                    self.concretise(st, oid, tags[i])
                objs[i] = oid
                ops.append(('L', ('c', oid)))
            elif pt.ref:
                v = self.mkatom(pt.base, nm)
                oid = self.new_cell(st, v, pt.base, {'param': True})
                objs[i] = oid
                ops.append(('L', ('c', oid)))
            elif is_obj_type(pt.base):
                oid = self.sym_obj(st, pt.base, nm, {'param': True})
                objs[i] = oid
                ops.append(('O', oid))
            elif k == 'ptr':
                pe = pointee(pt.base)
                ek = kind_of(pe)
                if ek == 'gc':
                    oid = self.sym_obj(st, pe, nm, {'param': True})
                    objs[i] = oid
                    ops.append(P(('c', oid)))
                elif ek == 'int' and pe == 'char' and pt.pconst:
                    ops.append(('cs', ('A',) + nm, True, 0))
                elif is_obj_type(pe) and ek not in ('other',):
                    oid = self.sym_obj(st, pe, nm, {'param': True})
                    objs[i] = oid
                    ops.append(P(('c', oid)))
                else:
                    ops.append(('A',) + nm)
            else:
                ops.append(self.mkatom(pt.base, nm))
        return ops, objs

    def run(self, fn, tag=None, setup=None, tags=None):
        """[(Outcome)], this oid, operand objects"""
        st = self.entry_state()
        this = None
        if fn.rec == GC and not fn.static:
            if fn.d.get('ctor'):
                this = self.new_obj(st, 'gc', {'tag': from_atom(('unk', 'rawtag', self.uid())), 'mem': None, 'val': None}, GC, {'raw': True, 'param': True})
            else:
                this = self.make_this(st, tag)
        elif fn.rec and not fn.static and fn.d.get('m'):
            this = self.sym_obj(st, fn.rec, ('this',), {'param': True})
        ops, objs = self.make_args(st, fn, tags)
        self.unfold = 0
        if setup:
            r = setup(st, this, ops, objs)
            if r is not None:
                this, ops, objs = r
        self.entry = st.copy()
        self.args0 = list(ops)
        self.base_oids = set(st.heap)
        self.collectors = [[]]
        self.stack = []
        self.nsteps = 0
        outs = []
        try:
            res = self.call(st, fn, ('c', this) if this is not None else None, ops)
            for s, v in res:
                outs.append(Outcome('ret', s, v))
            for s in self.collectors[0]:
                outs.append(Outcome('exc', s, None, s.exc))
        finally:
            self.collectors = []
        return outs, this, objs
