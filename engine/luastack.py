"""C15: stack effects of the calls of the Lua API along every path."""
from memory import *

LUA = 'lua_State'
LO, HI = -4, 14            # stack positions followed one by one, relative to the depth at entry
REGISTRY = -1000000
MINSTACK = 20
TYPES = 9                  # nil, boolean, light userdata, number, string, table, function, userdata, thread
# calls that push (+) or pop (-) a fixed number of values; what is pushed is not followed
NET = {'pushthread': 1, 'getglobal': 1, 'getfield': 1, 'geti': 1, 'rawgeti': 1, 'rawgetp': 1,
       'getiuservalue': 1, 'newuserdatauv': 1, 'pushvfstring': 1, 'len': 1, 'newthread': 1, 'setglobal': -1, 'setfield': -1, 'rawsetp': -1,
       'setmetatable': -1, 'setiuservalue': -1, 'getsubtable': 1, 'tolstring_': 1, 'traceback': 1, 'ref': -1, 'gsub': 1}
LOADS = ('loadfilex', 'loadbufferx', 'loadstring', 'load')
NEUTRAL = ('rawlen', 'tocfunction', 'touserdata', 'tothread', 'topointer', 'rawequal', 'compare', 'gc', 'atpanic', 'version', 'typename',
           'isnumber', 'isstring', 'iscfunction', 'isinteger', 'isuserdata', 'tonumberx', 'tointegerx', 'toboolean', 'status', 'close', 'openlibs',
           'sethook', 'checkversion_', 'setwarnf', 'warning', 'checktype', 'checkany', 'unref')
PUSHES = ('pushnil', 'pushboolean', 'pushnumber', 'pushinteger', 'pushlstring', 'pushstring', 'pushfstring', 'pushlightuserdata')


def uses_state(fn):
    return any(LUA in fn.types[p['t']].base for p in fn.ps)


class Lua(Exits):
    nets = {}              # usr -> {(net, returned constant)}, for the functions that take part in a recursion
    cycle = frozenset()    # functions of the recursion
    bottom = False         # first round: recursive calls are not followed
    checked = frozenset()

    # ------------------------------------------------------------ the stack
    def entry_state(self):
        st = Exits.entry_state(self)
        f = {'d': 0, 'room': self.room0}
        for p in range(LO, HI + 1):
            f['s%d' % p] = None if p > 0 else ('A', 'lua', 'slot', p)
        self.lua = self.new_obj(st, 'rec', f, LUA, {'ext': True})
        return st

    room0 = MINSTACK
    is_entry = True

    def lf(self, st):
        return st.heap[self.lua].f

    def lset(self, st, **kw):
        st.heap[self.lua] = st.heap[self.lua].set(**kw)

    def push(self, st, v=None):
        f = self.lf(st)
        d = f['d']
        if v is None:
            v = ('A', 'lua', 'val', self.uid())
        room = f['room']
        if isinstance(room, int):
            if room <= 0:
                self.event(st, 'C15', 'room', 'a value is pushed where no room on the stack was asked for', 'viol')
            else:
                self.ok('C15', 'room')
            self.lset(st, room=room - 1)
        if not isinstance(d, int):
            self.lset(st, d=add(d, 1))
            return
        if d + 1 > HI:
            raise Unsupported('deep Lua stack')
        self.lset(st, d=d + 1, **{'s%d' % (d + 1): v})

    def pop(self, st, n=1):
        """values removed, deepest first"""
        out = []
        for _ in range(n):
            f = self.lf(st)
            d = f['d']
            if isinstance(f['room'], int):
                self.lset(st, room=f['room'] + 1)
            if not isinstance(d, int):
                self.lset(st, d=sub(d, 1))
                out.append(None)
                continue
            if d <= 0 and self.is_entry:
                self.event(st, 'C15', 'slot', 'a value is removed that was there before the call', 'viol')
                raise Unsupported('stack underflow')
            if d < LO:
                raise Unsupported('deep Lua stack')
            self.ok('C15', 'slot')
            out.append(f['s%d' % d])
            self.lset(st, d=d - 1, **{'s%d' % d: None})
        return out[::-1]

    def at(self, st, idx):
        """(position, value) of an index; None: not a followed position"""
        f = self.lf(st)
        d = f['d']
        if isinstance(idx, int) and idx <= REGISTRY:
            return None
        if isinstance(idx, int) and idx < 0:
            p = add(d, idx + 1)
        else:
            p = sub(idx, self.base())
        if not isinstance(p, int) or not isinstance(d, int):
            return None
        if p > d:
            return None
        if p <= 0 and self.is_entry:
            self.event(st, 'C15', 'slot', 'position %s of the stack was not filled by this operation' % idx, 'viol')
            return None
        if not LO <= p <= HI:
            return None
        self.ok('C15', 'slot')
        return p, f['s%d' % p]

    def base(self):
        return self.nat_atom(('luatop',))

    def lose(self, st):
        self.lset(st, d=self.unk('long'), room='?', **{'s%d' % p: ('A', 'unk', self.uid()) for p in range(LO, HI + 1)})

    def ltype(self, st, v):
        """the type of a stack value: constant or quantity"""
        if v is None or is_unk(v):
            return None
        k = v[0]
        if k in ('lnil', 'lbool', 'lnum', 'lstr', 'ltab'):
            return {'lnil': 0, 'lbool': 1, 'lnum': 3, 'lstr': 4, 'ltab': 5}[k]
        a = from_atom(('luat', v))
        i = single_atom(a)
        self.rng.setdefault(i, (0, TYPES - 1))
        if v[1:2] == ('lua',) and v[2] == 'key':
            self.rng[i] = (1, TYPES - 1)
        return a

    # ------------------------------------------------------------ effects of the API
    def lua_call(self, st, c, name, ops, n):
        nm = name[len('luaL_'):] if name.startswith('luaL_') else name[len('lua_'):] if name.startswith('lua_') else None
        if nm is None:
            return None
        self.count('lua.calls')
        if name == 'luaL_tolstring':
            nm = 'tolstring_'
        if name == 'luaL_newstate':
            self.lset(st, d=0)
            s2 = st.copy()
            return [(st, ('A', 'lua', 'state')), (s2, NULL)]
        A = [self.val(st, o) for o in ops]

        def num(i):
            v = A[i] if i < len(A) else None
            return v if isnum(v) else None
        if nm in PUSHES:
            v = A[1] if len(A) > 1 else None
            t = {'pushnil': ('lnil',), 'pushboolean': ('lbool', v), 'pushnumber': ('lnum', v), 'pushinteger': ('lnum', v)}.get(nm)
            if nm in ('pushlstring', 'pushstring', 'pushfstring'):
                t = ('lstr', ('A', 'lua', 'text', self.uid()))
            self.push(st, t)
            return self.ret(st, n)
        if nm == 'pushvalue':
            x = self.at(st, num(1)) if num(1) is not None else None
            self.push(st, x[1] if x else None)
            return self.ret(st, n)
        if nm == 'createtable':
            self.push(st, ('ltab', ('A', 'lua', 'table', self.uid())))
            return self.ret(st, n)
        if nm == 'pushcclosure' and num(2) is not None:
            if isinstance(num(2), int):
                self.pop(st, num(2))
                self.push(st)
                return self.ret(st, n)
        if nm in ('settable', 'rawset', 'rawseti', 'seti'):
            k = {'settable': 2, 'rawset': 2}.get(nm, 1)
            x = self.at(st, num(1)) if num(1) is not None else None
            self.target(st, x)
            self.pop(st, k)
            return self.ret(st, n)
        if nm in ('gettable', 'rawget'):
            if num(1) is not None:
                self.at(st, num(1))
            self.pop(st, 1)
            self.push(st)
            return self.ret(st, n)
        if nm == 'settop':
            return self.settop(st, num(1), n)
        if nm == 'gettop':
            d = self.lf(st)['d']
            return [(st, add(self.base(), d))]
        if nm == 'absindex' and num(1) is not None:
            i = num(1)
            if isinstance(i, int) and i < 0 and i > REGISTRY:
                return [(st, add(add(self.base(), self.lf(st)['d']), i + 1))]
            return [(st, i)]
        if nm == 'type':
            x = self.at(st, num(1)) if num(1) is not None else None
            t = self.ltype(st, x[1]) if x else None
            if t is None:
                t = self.unk('int')
            return [(st, t)]
        if nm == 'isinteger' and num(1) is not None:
            self.at(st, num(1))
            return self.ret(st, n)
        if nm == 'next':
            x = self.at(st, num(1)) if num(1) is not None else None
            self.target(st, x)
            for k in self.pop(st, 1):
                self.resumes(st, k)
            s2 = st.copy()
            self.push(s2, ('A', 'lua', 'key', self.uid()))
            self.push(s2, ('A', 'lua', 'val', self.uid()))
            return [(st, 0), (s2, 1)]
        if nm == 'tolstring':
            x = self.at(st, num(1)) if num(1) is not None else None
            if x is not None and isinstance(x[1], tuple) and x[1][:3] == ('A', 'lua', 'key'):
                t = self.ltype(st, x[1])
                if self.may_be(st, t, 3):
                    self.event(st, 'C15', 'key', 'a key that may be a number is turned into text in place: the traversal of the table loses its way', 'viol')
                else:
                    self.ok('C15', 'key')
            if len(ops) > 2 and isinstance(A[2], tuple) and A[2][:1] == ('P',):
                self.write(st, A[2][1], self.nat_atom(('unk', self.uid())))
            return [(st, ('A', 'unk', self.uid()))]
        if nm in ('tonumberx', 'tointegerx', 'toboolean') and num(1) is not None:
            self.at(st, num(1))
            return self.ret(st, n)
        if nm == 'checkstack':
            k = num(1)
            s2 = st.copy()
            r = self.lf(st)['room']
            if isinstance(k, int) and isinstance(r, int):
                self.lset(st, room=max(r, k))
            else:
                self.lset(st, room='?')
            if name.startswith('luaL_'):
                return [(st, None)]
            return [(st, 1), (s2, 0)]
        if nm in ('pcallk', 'callk') and isinstance(num(1), int) and num(2) is not None:
            self.pop(st, num(1) + 1)
            s2 = st.copy()
            if isinstance(num(2), int) and num(2) >= 0:
                for _ in range(num(2)):
                    self.push(st)
            else:
                self.lose(st)
            if nm == 'callk':
                return [(st, None)]
            self.push(s2)
            return [(st, 0), (s2, 2)]
        if nm in LOADS:
            self.push(st)
            s2 = st.copy()
            return [(st, 0), (s2, 3)]
        if nm in ('getmetatable', 'getmetafield', 'newmetatable'):
            s2 = st.copy()
            self.push(st)
            return [(st, 1), (s2, 0)]
        if nm == 'concat' and isinstance(num(1), int):
            self.pop(st, num(1))
            self.push(st)
            return self.ret(st, n)
        if nm in ('rotate', 'copy'):
            f = self.lf(st)
            if nm == 'copy':
                a, b = (self.at(st, num(i)) if num(i) is not None else None for i in (1, 2))
                if b is None:
                    self.lset(st, **{'s%d' % p: ('A', 'unk', self.uid()) for p in range(LO, HI + 1) if f['s%d' % p] is not None})
                else:
                    self.lset(st, **{'s%d' % b[0]: a[1] if a else ('A', 'unk', self.uid())})
                return self.ret(st, n)
            x, k = (self.at(st, num(1)) if num(1) is not None else None), num(2)
            d = f['d']
            if x is None or not isinstance(k, int) or not isinstance(d, int):
                self.lset(st, **{'s%d' % p: ('A', 'unk', self.uid()) for p in range(LO, HI + 1) if f['s%d' % p] is not None})
                return self.ret(st, n)
            vs = [f['s%d' % p] for p in range(x[0], d + 1)]
            m = len(vs)
            vs = [vs[(i - k) % m] for i in range(m)]
            self.lset(st, **{'s%d' % (x[0] + i): v for i, v in enumerate(vs)})
            return self.ret(st, n)
        if nm == 'error' or c.get('noret'):
            return []
        if nm in NEUTRAL:
            return self.ret(st, n)
        if nm in NET:
            k = NET[nm]
            if k > 0:
                self.push(st)
            else:
                self.pop(st, -k)
            return self.ret(st, n)
        self.lose(st)
        return self.ret(st, n)

    def ret(self, st, n):
        t = self.T(st, n)
        if t.cls == 'void':
            return [(st, None)]
        return [(st, self.fresh_ret(st, t, ('lua', self.uid())))]

    def may_be(self, st, t, k):
        if isinstance(t, int):
            return t == k
        s = st.copy()
        return t is not None and self.assume(s, sub(t, k)) and self.assume(s, sub(k, t)) and k in self.dom_of_type(s, t)

    def dom_of_type(self, st, t):
        d = self.dom_of(st, t) if not isinstance(t, int) else None
        return d if d is not None else range(TYPES)

    def target(self, st, x):
        """an access to a table meets a table"""
        if x is None:
            return
        t = self.ltype(st, x[1])
        if isinstance(t, int) and t not in (5, 7):
            self.event(st, 'C15', 'slot', 'the position accessed as a table holds a value that is not one', 'viol')
        else:
            self.ok('C15', 'slot')

    def resumes(self, st, k):
        """a traversal starts with nil and goes on from the last key"""
        if k is None or is_unk(k):
            return
        if k[0] in ('lbool', 'ltab') or k[:3] == ('A', 'lua', 'val'):
            self.event(st, 'C15', 'key', 'the traversal of a table goes on from a value that is not the last key', 'viol')
        else:
            self.ok('C15', 'key')

    def peel(self, st, cond, body, inc):
        # what the first pass leaves is what the condition of the second one finds
        s0 = st.copy()
        self.collectors.append([])
        self.nothrow += 1
        self.peeled += 1
        try:
            for s, b in cond(s0):
                if b:
                    for kind, s2, _ in body(s):
                        if kind in ('n', 'ct'):
                            for s3 in inc(s2):
                                cond(s3)
        finally:
            self.collectors.pop()
            self.nothrow -= 1
            self.peeled -= 1

    def settop(self, st, i, n):
        f = self.lf(st)
        d = f['d']
        if i is None:
            self.lose(st)
            return [(st, None)]
        if isinstance(i, int) and i < 0:
            if isinstance(d, int):
                if i + 1 < -24:
                    raise Unsupported('deep Lua stack')
                self.pop(st, -(i + 1))
            else:
                self.lset(st, d=add(d, i + 1))
            return [(st, None)]
        to = sub(i, self.base()) if not isinstance(i, int) else None
        if i == 0 and self.empty_base(st):
            to = 0
        if isinstance(to, int):
            kw = {'d': to}
            if isinstance(d, int) and to > HI:
                raise Unsupported('deep Lua stack')
            for p in range(LO, HI + 1):
                if p > to:
                    kw['s%d' % p] = None
                elif not isinstance(d, int):
                    kw['s%d' % p] = ('A', 'unk', self.uid())
                elif p > d:
                    kw['s%d' % p] = ('lnil',)
            if isinstance(d, int) and isinstance(f['room'], int):
                kw['room'] = f['room'] + d - to
            elif not isinstance(d, int):
                kw['room'] = self.room0 - to if isinstance(self.room0, int) else '?'
            self.lset(st, **kw)
        else:
            self.lset(st, d=sub(i, self.base()), room='?')
        return [(st, None)]

    def empty_base(self, st):
        return False

    # ------------------------------------------------------------ recursion
    def recursive(self, st, fn, this, ops, n):
        if uses_state(fn):
            return self.summary(st, fn, this, ops)
        return Exits.recursive(self, st, fn, this, ops, n)

    def invoke(self, st, c, fn, this, ops, n):
        if self.is_entry and fn is not None and fn.usr in self.cycle and self.nets.get(fn.usr):
            # analysed on its own
            return self.summary(st, fn, this, ops)
        if fn is not None and fn.body is not None and fn.rec == GC and self.stack and not fn.const and fn.n != 'exception' and not uses_state(fn):
            return self.opaque_call(st, fn, this, ops)
        return Exits.invoke(self, st, c, fn, this, ops, n)

    def summary(self, st, fn, this, ops):
        if self.bottom and fn.usr not in self.nets:
            return []
        f0 = dict(self.lf(st))
        # an error may leave any number of values behind
        self.lose(st)
        out = []
        for s, v in self.opaque_call(st, fn, this, ops):
            for net, val in sorted(self.nets.get(fn.usr) or (), key=repr):
                s2 = s.copy()
                self.lset(s2, **f0)
                if not isinstance(net, int):
                    self.lose(s2)
                elif net >= 0:
                    # the callee asks for the room it needs
                    if isinstance(f0['room'], int):
                        self.lset(s2, room=max(f0['room'], net))
                    for _ in range(net):
                        self.push(s2)
                    if isinstance(f0['room'], int):
                        self.lset(s2, room=max(0, f0['room'] - net))
                else:
                    self.pop(s2, -net)
                out.append((s2, val if val is not None else v))
            if fn.usr not in self.nets:
                self.lose(s)
                out.append((s, v))
        return out


def callees(fn):
    from astq import bodies, walk
    for b in bodies(fn):
        for x in walk(b):
            c = x.get('callee') if isinstance(x, dict) else None
            if c:
                yield c


def lua_files(prog):
    """functions of the library that call the Lua API or are given a Lua state"""
    out = []
    for f in prog.fns.values():
        if f.body is None or f.file.startswith('/') or 'lua-5' in f.file or f.d.get('implicit') or '(lambda' in f.q:
            continue
        if uses_state(f) or any(c['n'].startswith(('lua_', 'luaL_')) and not c.get('m') for c in callees(f)):
            out.append(f)
    return sorted(out, key=lambda f: (f.file, f.l))


def cycles(fns):
    """usr of the functions that may call themselves -> those they call and that call them"""
    g = {f.usr: {c['usr'] for c in callees(f)} for f in fns}
    reach = {}
    for u in g:
        seen, todo = set(), list(g[u])
        while todo:
            x = todo.pop()
            if x in seen or x not in g:
                continue
            seen.add(x)
            todo += g[x]
        reach[u] = seen
    return {u: {v for v in reach[u] if u in reach.get(v, ())} for u in g if u in reach[u]}


def const_ret(v):
    return v if isinstance(v, int) else None


def cases_of(D, fn):
    if fn.rec == GC or not any(fn.types[p['t']].ref and fn.types[p['t']].base == GC for p in fn.ps):
        return [(fn, None, None, '')]
    i = next(i for i, p in enumerate(fn.ps) if fn.types[p['t']].ref and fn.types[p['t']].base == GC)
    if not fn.types[fn.ps[i]['t']].const:
        return [(fn, None, None, '')]
    c = [(fn, None, typed_arg(D, i, t), 'argument %d holding %s' % (i + 1, D.tagname[t])) for t in sorted(D.alltags)]
    seq = [x for x in c if D.tagname[sorted(D.alltags)[c.index(x)]][:3] in ('VEC', 'MAT', 'MAP')]
    return c + short_cases(D, fn, seq, ((1, 1, 1), (2, 1, 2)))


def check_C15():
    rep = Report('C15')
    prog = P_.extract()
    fns = [f for f in lua_files(prog) if 'Pmain' not in f.file]
    cyc = cycles(fns)
    asks = {f.usr for f in fns if any(c['n'].endswith('checkstack') for c in callees(f))}
    results = []
    nets = {}

    def engine(f, bottom, entry):
        D = Lua(prog)
        D.cycle, D.nets, D.bottom = frozenset(cyc), nets, bottom
        D.is_entry, D.room0 = entry, MINSTACK if entry else 0
        if not entry and f.usr not in asks and cyc[f.usr] & asks:
            D.room0 = '?'      # examined where the functions that ask for room call it
        D.merging = True
        D.merge_deep = True
        return D

    def effects(fn, bottom):
        D = engine(fn, bottom, False)
        got = {}

        def visit(D, fn, tag, outs, this, objs):
            for o in outs:
                if o.kind == 'ret':
                    d = D.lf(o.st)['d']
                    got.setdefault((d if isinstance(d, int) else None, const_ret(o.val)), D.ctx or 'some path')
        r = job(prog, lambda p: D, cases_of(D, fn), visit)
        return got, r
    members = [f for f in fns if f.usr in cyc]
    # the effect of a function of a recursion: first without the recursive calls, then with them, until nothing new is found
    for rnd in range(4):
        new = {}
        for f in members:
            got, _ = effects(f, True)
            if got:
                new[f.usr] = got
        if new == nets:
            break
        nets.clear()
        nets.update(new)
    for f, x in zip(members, parallel(lambda f: effects(f, False), members)):
        if x[0] == 'crash':
            results.append(x)
            continue
        got, r = x
        results.append(r)
        byval = {}
        for (d, v), how in got.items():
            byval.setdefault(v, {})[d] = how
        where = '%s:%s' % (f.file, f.l)
        rep.rule('effect', '')
        if r.fail or not got:
            continue
        for v, ds in byval.items():
            if None in ds:
                if set(ds) == {None}:
                    rep.skip('effect', '%s: the effect of %s is not determined' % (where, f.n))
                    continue
            ks = {d: h for d, h in ds.items() if d is not None}
            if len(ks) > 1:
                rep.bad('effect', where, '%s: leaves %s' % (f.q.replace(NS, ''), ' but '.join(
                    '%+d values (%s)' % (d, h) for d, h in sorted(ks.items()))))
            elif None in ds:
                rep.skip('effect', '%s: the effect of %s is not determined for %s' % (where, f.n, ds[None]))
            else:
                rep.ok('effect', 1, '%s leaves %+d values on every path' % (f.q.replace(NS, ''), next(iter(ks))))
    entries = [f for f in fns if not f.d.get('internal') and f.usr not in cyc and not f.d.get('dtor') and not uses_state(f)
               and (f.rec or '') and f.rec.endswith('LuaInterpreter') or not f.rec and not f.d.get('internal') and f.usr not in cyc]

    def visit(D, fn, tag, outs, this, objs):
        for o in outs:
            if o.exc is not None and o.exc.oom and D.lf(o.st)['d'] == 0:
                pass
            d = D.lf(o.st)['d']
            how = 'on return' if o.kind == 'ret' else 'after an exception'
            if o.kind != 'ret' and o.exc.where:
                how += ' at %s:%s' % tuple(o.exc.where)
            if fn.d.get('ctor') and o.kind == 'exc':
                continue
            if not isinstance(d, int):
                D.at_exit(o.st, 'C15', 'balance', '%s: the depth of the stack is not determined' % how, 'undec')
            elif d != 0:
                D.at_exit(o.st, 'C15', 'balance', '%s: the stack holds %d %s than before the call' % (how, abs(d), 'more' if d > 0 else 'fewer'))
            else:
                D.ok('C15', 'balance')

    def one(f):
        D = engine(f, False, True)
        return job(prog, lambda p: D, cases_of(D, f), visit)
    results += parallel(one, entries)
    collect(rep, results, 'C15', ('balance', 'slot', 'room', 'key'), {
        'balance': 'at every exit of an operation, normal or by an exception, the stack is as deep as at its start',
        'slot': 'every position read, written or removed was filled by the operation, and tables are where a table is accessed',
        'room': 'values are pushed only where room was asked for (20 places are given to every operation, none to a nested call)',
        'key': 'no key of a traversal that may be a number is turned into text in place'})
    rep.text['effect'] = 'a function of a recursion leaves the same number of values on every path (induction on the depth)'
    rep.cov['operations'] = [f.q.replace(NS, '') for f in entries]
    rep.cov['recursive'] = {f.q.replace(NS, ''): sorted(str(d) for d, _ in nets.get(f.usr, ())) for f in members}
    return rep.finish('other', HOW_LUA, ['the calls of the Lua API change the stack as its manual says', 'errors that Lua raises outside a protected call (memory, '
                                         'metamethods of the table of globals) end the program and are not considered',
                                         'the stack is entered with the 20 free places the manual guarantees'])


HOW_LUA = ('Abstract interpretation of the resolved program with the Lua stack as part of the state: its depth relative to the entry, the room asked for '
           'and what is known of the type of each value. Every call of the API is a transfer function; calls that can fail have both successors, '
           'loops are generalised to an inductive state, exceptions unwind through the destructors of the frames they leave. The effect of the functions '
           'that call themselves is found as the least set closed under their own calls and must be one number.')
