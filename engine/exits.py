"""Conditions a state must satisfy where an operation ends (normally or by an exception)."""
from drive import *


class Exits(Driver):
    def roots(self, st, out, extra=()):
        r = [i for i in self.base_oids if i in st.heap]
        r += [i for i, o in st.heap.items() if o.m.get('static') or o.m.get('global')]
        r += self.oids_in(out.val) if out is not None and out.val is not None else []
        r += list(extra)
        return r

    def at_exit(self, st, prop, kind, msg, verdict='viol'):
        """event located at the operation analysed"""
        if self.quiet:
            return
        if verdict == 'viol' and st.inexact:
            verdict = 'undec'
        if verdict == 'undec' and self.unfold:
            return
        f = self.cur
        e = Event(prop, kind, msg, f.file, f.l, f.q, self.ctx, verdict, (f.q.replace(NS, ''),))
        k = e.key() + (verdict, msg)
        if k not in self.events:
            self.events[k] = e
        self.count('event.%s.%s.%s' % (prop, kind, verdict))

    def consistent(self, out, prop, how):
        """type and payload agree for every reachable container; every payload is live and owned exactly once"""
        st = out.st
        reach = self.reachable(st, self.roots(st, out))
        owners = {}
        n = 0
        for i in reach:
            o = st.heap.get(i)
            if o is None or o.kind != 'gc' or not o.alive:
                continue
            n += 1
            unk = is_unk(o.m.get('origin', ())) or bool(o.m.get('unk'))
            bad = 'undec' if unk else 'viol'
            who = self.who(st, i)
            mem, tag, val = o.f['mem'], o.f['tag'], o.f['val']
            if mem == '?':
                continue
            if not isinstance(tag, int):
                d = self.gc_domain(st, i)
                if len(d) == 1:
                    tag = next(iter(d))
                else:
                    # written type not determined on this path
                    self.at_exit(st, prop, 'agree', '%s: %s keeps an undetermined reported type' % (how, who), 'undec')
                    continue
            want = self.tagmem.get(self.tagname.get(tag))
            live = isinstance(val, tuple) and val[0] == 'P' and val[1][0] == 'c' and mem not in (None, 'p')
            if want is None:
                if live:
                    p = st.heap.get(val[1][1])
                    if p is not None and p.alive and p.m.get('heap') and val[1][1] not in owners:
                        pass     # a leak, reported below, unless somebody else owns it
                self.ok(prop, 'agree')
                continue
            if want != mem:
                self.at_exit(st, prop, 'agree', '%s: %s reports type %s while the storage was last set as `%s`' % (
                    how, who, self.tagname.get(tag), mem or 'nothing'), bad)
                continue
            base = self.mem_type.get(mem, '')
            if kind_of(base) == 'ptr' and base != 'void *':
                if not live:
                    v = 'undec' if not (val == NULL or val is None) or unk else 'viol'
                    self.at_exit(st, prop, 'agree', '%s: %s reports type %s and has no payload' % (how, who, self.tagname.get(tag)), v)
                    continue
                pid = val[1][1]
                p = st.heap.get(pid)
                if p is None or not p.alive:
                    self.at_exit(st, prop, 'agree', '%s: %s reports type %s whose payload has been released' % (how, who, self.tagname.get(tag)),
                                 'undec' if (p is None or p.m.get('unk') or unk) else 'viol')
                    continue
                owners.setdefault(pid, []).append(i)
            elif isinstance(val, tuple) and val and val[0] == 'uninit':
                self.at_exit(st, prop, 'agree', '%s: %s reports type %s and its value was never set' % (how, who, self.tagname.get(tag)), bad)
                continue
            self.ok(prop, 'agree')
        for pid, l in owners.items():
            if len(l) > 1:
                self.at_exit(st, prop, 'owner', '%s: one payload is owned by %s' % (how, ' and by '.join(self.who(st, x) for x in l)),
                             'undec' if st.heap[pid].m.get('unk') else 'viol')
            else:
                self.ok(prop, 'owner')
        return reach, owners

    def leaks(self, out, prop, how, reach=None, owners=None):
        st = out.st
        if reach is None:
            reach = self.reachable(st, self.roots(st, out))
        held = set()
        for i in reach:
            o = st.heap.get(i)
            if o is None or not o.alive:
                continue
            if o.kind == 'gc':
                m, t = o.f['mem'], o.f['tag']
                if m not in (None, '?') and isinstance(t, int) and self.tagmem.get(self.tagname.get(t)) == m:
                    held.update(self.oids_in(o.f['val']))
            else:
                for v in o.f.values():
                    held.update(self.oids_in(v))
        if out.val is not None:
            held.update(self.oids_in(out.val))
        for i, o in st.heap.items():
            if not o.alive or not o.m.get('heap') or o.m.get('absorbed'):
                continue
            if o.m.get('lazy'):
                own = st.heap.get(o.m.get('payload'))
                if own is None or not own.alive:
                    # payload of an object whose life ended: destroy() released it if it was owned
                    if own is not None and i not in held:
                        self.at_exit(st, prop, 'leak', '%s: the %s of a destroyed container is never released' % (how, self.describe(o)),
                                     'undec' if o.m.get('unk') else 'undec')
                    continue
                if own.f.get('mem') == '?':
                    continue
                if o.m['payload'] not in reach:
                    self.at_exit(st, prop, 'leak', '%s: a lazily known %s whose container is out of sight' % (how, self.describe(o)), 'undec')
                    continue
            if i in held:
                self.ok(prop, 'leak')
                continue
            w = o.m.get('alloc')
            self.at_exit(st, prop, 'leak', '%s: a %s %s is no longer owned by anything and was not released' % (
                how, self.describe(o), 'allocated at %s:%s' % tuple(w) if w else 'held before the call'),
                'undec' if o.m.get('unk') or is_unk(o.m.get('origin', ())) else 'viol')

    def who(self, st, oid):
        o = st.heap[oid]
        n = o.m.get('origin')
        if n == ('this',) or oid == getattr(self, 'this_oid', None):
            return 'the container itself'
        if isinstance(n, tuple) and n and n[0] == 'arg':
            return 'argument %d' % (n[1] + 1)
        return 'a container (%s)' % (str(n)[:60] if n else 'created by the operation')
