"""C16: keys and texts passed as views are used in full (provenance analysis of text values)."""
import os
from prog import *
from astq import *
import prog as PR
from report import Report
from simple import GC, NS, loc, ASSUME

STR = ('std::basic_string<char>', 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>')
VIEW = ('std::basic_string_view<char>', 'std::basic_string_view<char, std::char_traits<char>>')
# functions that take a pointer together with a length (index of the pointer, index of the length)
SIZED = {'memcpy': (1, 2), 'std::memcpy': (1, 2), 'memmove': (1, 2), 'std::memmove': (1, 2), 'memcmp': (0, 2), 'std::memcmp': (0, 2),
         'std::copy_n': (0, 1), 'lua_pushlstring': (1, 2), 'std::fwrite': (0, 2), 'fwrite': (0, 2)}
MAPKEY = ('find', 'operator[]', 'at', 'count', 'erase', 'emplace', 'insert', 'try_emplace', 'insert_or_assign', 'lower_bound', 'upper_bound',
          'equal_range', 'contains')


def tkind(t):
    b = t.base
    if b.startswith('std::basic_string_view<char'):
        return 'view'
    if b.startswith('std::basic_string<char'):
        return 'str'
    if b in ('const char *', 'char const *', 'char *'):
        return 'cptr'
    return None


class Prov:
    """abstract text values: ('whole', p) the full text of parameter p; ('cut', p) something else made of it;
    ('ptr', p) pointer to its first character, length lost; ('len', p) its length; None anything else"""

    def __init__(self, fn):
        self.fn = fn
        self.T = fn.types
        self.env = {}
        self.alias = {}
        for p, t in zip(fn.ps, fn.ptypes()):
            k = tkind(t)
            if k == 'view' or (k == 'str' and t.const and t.ref):
                self.env[p['id']] = ('whole', p['name'])
        self.params = dict(self.env)
        for rnd in range(5):
            ch = False
            for b in bodies(fn):
                for n in walk(b):
                    if n.get('k') == 'DeclStmt':
                        for d in n['d']:
                            if d.get('init') is None or d['id'] in self.params:
                                continue
                            t = self.T[d['t']]
                            v = self.val(d['init'])
                            if v is not None and v != self.env.get(d['id']):
                                if self.env.get(d['id']) in (None,):
                                    self.env[d['id']] = v
                                    ch = True
                    if n.get('k') == 'BinaryOperator' and n['op'] == '=':
                        l = strip(n['lhs'])
                        if l is not None and l.get('k') == 'DeclRefExpr' and 'id' in l and l['id'] not in self.env:
                            v = self.val(n['rhs'])
                            if v is not None:
                                self.env[l['id']] = v
                                ch = True
            if not ch:
                break
        # locals changed after their definition no longer hold the whole text
        for b in bodies(fn):
            for n in walk(b):
                if n.get('k') == 'CXXMemberCallExpr' and not n['callee'].get('const'):
                    o = strip(n.get('obj'))
                    if o is not None and o.get('id') in self.env and self.env[o['id']][0] == 'whole' and \
                            n['callee']['n'] in ('remove_prefix', 'remove_suffix', 'resize', 'erase', 'pop_back', 'append', 'push_back', 'insert', 'replace', 'clear', 'assign'):
                        if n['callee']['n'] in ('remove_prefix', 'remove_suffix') or o['id'] not in self.params:
                            ext = n['callee']['n'] in ('append', 'push_back', 'insert')
                            self.env[o['id']] = ('ext' if ext else 'cut', self.env[o['id']][1])
                if n.get('k') == 'CXXOperatorCallExpr' and n['callee']['n'] in ('operator=', 'operator+=') and n.get('a'):
                    o = strip(n['a'][0])
                    if o is not None and o.get('k') == 'DeclRefExpr' and o.get('id') in self.env and self.env[o['id']][0] == 'whole':
                        v = self.val(n['a'][1])
                        if n['callee']['n'] == 'operator+=' or (v is not None and v != self.env[o['id']]):
                            self.env[o['id']] = ('ext' if n['callee']['n'] == 'operator+=' else 'cut', self.env[o['id']][1])

    def val(self, n):
        n = strip(n)
        if n is None:
            return None
        k = n.get('k')
        if k == 'DeclRefExpr':
            return self.env.get(n.get('id'))
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'InitListExpr'):
            args = [a for a in (n.get('a') or n.get('c') or ()) if a.get('k') != 'CXXDefaultArgExpr']
            vs = [self.val(a) for a in args]
            # allocator arguments do not matter
            while len(vs) > 1 and vs[-1] is None and 'allocator' in self.T[args[-1]['t']].s:
                vs.pop()
                args.pop()
            if not vs or vs[0] is None:
                return None
            if len(vs) == 1:
                return vs[0] if vs[0][0] in ('whole', 'cut', 'ptr', 'len', 'it') else None
            if vs[0][0] == 'ptr':
                if vs[1] == ('len', vs[0][1]):
                    return ('whole', vs[0][1])
                return ('cut', vs[0][1])
            if vs[0][0] == 'it' and vs[0][2] == 'begin' and vs[1] is not None and vs[1][0] == 'it' and vs[1][2] == 'end':
                return ('whole', vs[0][1])
            if vs[0][0] == 'it':
                return ('cut', vs[0][1])
            if vs[0][0] == 'whole' and len(vs) >= 2:
                return ('cut', vs[0][1])
            return None
        c = n.get('callee')
        if k == 'CXXMemberCallExpr' and c:
            o = self.val(n.get('obj'))
            if o is None:
                return None
            if o[0] in ('whole', 'cut'):
                if c['n'] in ('data', 'c_str'):
                    # the characters of a std::string are terminated
                    if c['n'] == 'c_str' or tkind(self.T[n['obj']['t']]) == 'str':
                        return ('zptr', o[1]) if o[0] == 'whole' else ('cut', o[1])
                    return ('ptr', o[1]) if o[0] == 'whole' else ('cut', o[1])
                if c['n'] in ('size', 'length'):
                    return ('len', o[1]) if o[0] == 'whole' else None
                if c['n'] in ('begin', 'cbegin'):
                    return ('it', o[1], 'begin')
                if c['n'] in ('end', 'cend'):
                    return ('it', o[1], 'end')
                if c['n'] == 'substr':
                    a = n.get('a') or []
                    if o[0] == 'whole' and len([x for x in a if x.get('k') != 'CXXDefaultArgExpr']) <= 1 and (not a or strip(a[0]).get('cv') == '0'):
                        return o
                    return ('cut', o[1])
                if c['n'].startswith('operator basic_string') or c['n'].startswith('operator'):
                    return o
            return None
        if k == 'CallExpr' and c:
            if c['q'] in ('std::move', 'std::forward', 'std::as_const') and n.get('a'):
                return self.val(n['a'][0])
            return None
        if k == 'ConditionalOperator':
            a, b = self.val(n['a']), self.val(n['b'])
            return a if a == b else None
        if k == 'UnaryOperator' and n['op'] == '&':
            e = strip(n['e'])
            if e is not None and e.get('k') == 'CXXOperatorCallExpr' and e['callee']['n'] == 'operator[]':
                o = self.val(e['a'][0])
                if o is not None and o[0] == 'whole':
                    return ('ptr', o[1])
        return None


def run(p, r, fns):
    r.rule('sized-use', 'a pointer to the characters of a view is used only together with the length of that view')
    r.rule('view-forwarded', 'a view parameter reaches its uses as a view or a full copy', 60)
    r.rule('key-in-full', 'the key handed to a map operation is the full text of the parameter it comes from', 20)
    r.rule('compare-in-full', 'no comparison looks only at a part of a key parameter', 0)
    nf = 0
    for fn in fns:
        if fn.body is None:
            continue
        pv = Prov(fn)
        if not pv.params:
            continue
        nf += 1
        for b in bodies(fn):
            for n in walk(b):
                c = n.get('callee')
                if not c:
                    continue
                w = loc(fn, n)
                args = n.get('a') or []
                off = 1 if n['k'] == 'CXXOperatorCallExpr' and c.get('m') else 0
                vals = [pv.val(a) for a in args]
                for i, (a, v) in enumerate(zip(args, vals)):
                    if v is None:
                        continue
                    if v[0] == 'whole':
                        r.ok('view-forwarded', sample='%s: %s -> %s' % (w, v[1], c['q'].split('::')[-1]))
                    if v[0] == 'ptr':
                        ok = False
                        later = vals[i + 1:i + 2] if c['q'] not in SIZED else [vals[SIZED[c['q']][1]]]
                        if c['q'] in SIZED and i == SIZED[c['q']][0] or c['q'] not in SIZED:
                            ok = any(x == ('len', v[1]) for x in later)
                        pt = c.get('pt') or []
                        t = pv.T[pt[i - off]] if 0 <= i - off < len(pt) else None
                        iscptr = t is not None and t.base.replace('const', '').replace(' ', '') == 'char*'
                        if ok:
                            r.ok('sized-use', sample=w)
                        elif iscptr and len(args) - off == 1 or c['q'] in ('std::strlen', 'strlen', 'strcmp', 'std::strcmp', 'strtod', 'strtol', 'atof', 'atoi') or \
                                (c['q'].startswith('std::operator<<') and iscptr):
                            r.bad('sized-use', w, 'the characters of view `%s` are passed to %s without their length: they are read up to the next zero byte' % (v[1], c['q'].split('::')[-1]))
                        elif iscptr and c['n'] in ('basic_ifstream', 'basic_ofstream', 'open', 'basic_string', 'basic_string_view', 'basic_regex', 'compare', 'find', 'append', 'operator=', 'operator+=', 'operator==') \
                                and not any(cls_int(pv.T[x['t']]) for x in args[i + 1:i + 2] if 't' in x and x.get('k') != 'CXXDefaultArgExpr'):
                            r.bad('sized-use', w, 'the characters of view `%s` are passed to %s without their length: they are read up to the next zero byte' % (v[1], c['q'].split('::')[-1]))
                        elif iscptr and c.get('repo') and not any(cls_int(pv.T[x]) for x in pt[i - off + 1:i - off + 2]):
                            r.bad('sized-use', w, 'the characters of view `%s` are passed to %s without their length' % (v[1], c['q']))
                        else:
                            r.skip('sized-use', '%s: pointer of `%s` passed to %s' % (w, v[1], c['q']))
                if 'std::map<' in c['q'] + (c.get('rec') or '') and c['n'] in MAPKEY or c['q'].startswith('std::map::') and c['n'] in MAPKEY:
                    ka = args[1] if n['k'] == 'CXXOperatorCallExpr' and len(args) > 1 else (args[0] if args and n['k'] != 'CXXOperatorCallExpr' else None)
                    kv = pv.val(ka) if ka is not None else None
                    if kv is None:
                        continue
                    if kv[0] == 'whole':
                        r.ok('key-in-full', sample='%s: %s' % (w, kv[1]))
                    elif kv[0] in ('cut',):
                        r.bad('key-in-full', w, 'the key used is not the full text of `%s`' % kv[1])
                    elif kv[0] in ('zptr',):
                        r.bad('key-in-full', w, 'the key used is the text of `%s` up to its first zero byte' % kv[1])
                    elif kv[0] == 'ptr':
                        r.bad('key-in-full', w, 'the key used is read from `%s` up to the next zero byte' % kv[1])
                # forwarding of a part of a key to another lookup of the library
                if c.get('repo') and (c.get('rec') or '') == GC:
                    for i, (a, v) in enumerate(zip(args[off:], vals[off:])):
                        pts = c.get('pt') or []
                        if v is not None and i < len(pts) and tkind(pv.T[pts[i]]) in ('view', 'str'):
                            if v[0] == 'cut':
                                r.bad('key-in-full', w, 'only a part of `%s` is passed on to %s' % (v[1], c['n']))
                            elif v[0] == 'zptr':
                                r.bad('key-in-full', w, '`%s` is passed on to %s only up to its first zero byte' % (v[1], c['n']))
                            elif v[0] == 'whole':
                                r.ok('key-in-full')
                if c['n'] == 'compare' and n['k'] == 'CXXMemberCallExpr' and len(args) >= 3:
                    vs = [pv.val(n.get('obj'))] + vals
                    hit = [x for x in vs if x is not None and x[0] in ('whole', 'ptr', 'zptr')]
                    if hit:
                        r.bad('compare-in-full', w, 'the comparison looks at a part of the texts only (`%s`)' % hit[0][1])
                if c['q'] in ('strncmp', 'std::strncmp', 'std::equal') and any(x is not None for x in vals):
                    if c['q'] == 'std::equal' and len(args) >= 4:
                        r.ok('compare-in-full')
                    else:
                        r.bad('compare-in-full', w, 'the comparison looks at a part of the texts only')
                if c['n'] in ('operator==', 'operator!=', 'compare') and any(x is not None and x[0] == 'whole' for x in vals):
                    r.ok('compare-in-full')
                    if any(x is not None and x[0] in ('cut', 'ptr') for x in vals):
                        r.bad('compare-in-full', w, 'compares with a part of a key')
    r.cov['functions_with_text_parameters'] = nf
    return nf


def cls_int(t):
    return t.cls == 'int'


def check_C16():
    r = Report('C16')
    p = PR.extract()
    fns = [f for f in p.repo_fns() if f.body is not None and not f.d.get('implicit')]
    n = run(p, r, fns)
    if n < 40:
        raise AnalysisError('only %d functions with text parameters found' % n)
    fx = PR.extract(fixture=os.path.join(PR.VERIF, 'fixtures', 'c16.cc'))
    t = Report('C16')
    run(fx, t, [f for f in fx.fns.values()])
    got = {w.split(' in ')[1].split('::')[-1] for w, _, _ in t.viol}
    want = {f.n for f in fx.fns.values() if f.n.startswith('bad_')}
    if got != want:
        raise AnalysisError('self test of the rules failed: expected %s, got %s' % (sorted(want), sorted(got)))
    return r.finish('other', 'Provenance analysis of text values in every function with a text parameter: each use of a view (or of a copy, pointer, iterator or '
                    'length derived from it) is classified; pointers must travel with the length of the same view, and keys handed to map operations or to '
                    'other container operations must be the full parameter text.',
                    ASSUME + ['texts read from files and tokens cut out of them are not parameters and are outside the property'])
