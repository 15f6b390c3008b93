"""Checks decided by queries over the resolved program (no value analysis)."""
import os, re
from prog import *
from astq import *
import prog as PR
from report import Report

NS = 'GC_namespace::'
GC = NS + 'GenericContainer'
ASSUME = ['clang resolves the program as the compiler used for the build does', 'the standard library behaves as specified']


def loc(fn, n):
    return '%s:%s in %s' % (fn.file, n.get('l', fn.l), fn.q)


# ----------------------------------------------------------------- C22 -----
FFI = {':int': ('int', 32), ':uint': ('uint', 32), ':long': ('int', 64), ':ulong': ('uint', 64), ':int32': ('int', 32), ':int64': ('int', 64),
       ':int16': ('int', 16), ':short': ('int', 16), ':char': ('int', 8), ':int8': ('int', 8), ':uint8': ('uint', 8),
       ':uint32': ('uint', 32), ':uint64': ('uint', 64), ':size_t': ('uint', 64), ':long_long': ('int', 64),
       ':double': ('float', 64), ':float': ('float', 32), ':string': ('cstr', 0), ':pointer': ('ptr', 0), ':void': ('void', 0),
       ':bool': ('bool', 8), ':buffer_in': ('ptr', 0), ':buffer_out': ('ptr', 0)}


def ckind(t):
    if t.cls == 'int' or t.cls == 'enum':
        return ('int' if t.signed else 'uint', t.bits)
    if t.cls == 'bool':
        return ('bool', 8)
    if t.cls == 'float':
        return ('float', t.bits)
    if t.cls == 'void':
        return ('void', 0)
    if t.base.endswith('*'):
        p = t.base[:-1].strip()
        return ('cstr', 0) if p in ('const char', 'char const', 'char') else ('ptr', 0)
    return ('rec', 0)


def ruby_tokens(src):
    """ruby source without comments and =begin/=end blocks, strings kept"""
    out = []
    block = False
    for l in src.split('\n'):
        if l.startswith('=begin'):
            block = True
        if not block:
            m = re.match(r'''((?:[^#"'/]|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|/(?:[^/\\\n]|\\.)*/|/)*)''', l)
            out.append(m.group(1))
        else:
            out.append('')
        if l.startswith('=end'):
            block = False
    return '\n'.join(out)


def typedef_table(src):
    """typedef :int, :GC_code"""
    t = dict(FFI)
    for m in re.finditer(r'typedef\s*\(?\s*(:\w+)\s*,\s*(:\w+)', src):
        if m.group(1) in t:
            t[m.group(2)] = t[m.group(1)]
    return t


def check_C22():
    r = Report('C22')
    r.rule('ruby-signature', 'every function attached by the Ruby binding exists in the C interface with the same parameters and result', 30)
    r.rule('ruby-type-name', 'every type name the binding dispatches on is the name the library reports for a type, and the function used to read it reads that type', 10)
    r.rule('ruby-error-code', 'the error codes of the binding equal those of the C header', 4)
    r.rule('ruby-error-text', 'the message table of the binding lists one message per code, in order of the codes', 1)
    p = PR.extract(['src/GenericContainerInterface_C.cc', 'src/GenericContainer.cc'])
    path = os.path.join(PR.REPO, 'src_ruby_interface', 'GenericContainer_ffi.rb')
    if not os.path.exists(path):
        raise AnalysisError('the Ruby binding has vanished')
    src = ruby_tokens(open(path, encoding='utf-8').read())
    ft = typedef_table(src)
    decls = dict(p.cdecls)
    seen = {}
    for m in re.finditer(r'attach_function\s*\(?\s*:(\w+)\s*,\s*(?::(\w+)\s*,\s*)?\[([^\]]*)\]\s*,\s*(:\w+)', src):
        name, cname, args, ret = m.group(1), m.group(2), m.group(3), m.group(4)
        line = src[:m.start()].count('\n') + 1
        where = 'src_ruby_interface/GenericContainer_ffi.rb:%d' % line
        c = decls.get(cname or name)
        seen[name] = cname or name
        if c is None:
            r.bad('ruby-signature', where, '%s is attached but the C interface has no such function' % (cname or name))
            continue
        T = c['_types']
        want = [ckind(T[x]) for x in c['pt']]
        got = [ft.get(a.strip()) for a in args.split(',') if a.strip()]
        names = [a.strip() for a in args.split(',') if a.strip()]
        bad = None
        if len(want) != len(got):
            bad = '%s is attached with %d arguments, the C function takes %d' % (name, len(got), len(want))
        else:
            for i, (w, g, nm) in enumerate(zip(want, got, names)):
                if g is None:
                    r.skip('ruby-signature', 'unknown FFI type %s' % nm)
                elif not compatible(w, g):
                    bad = 'argument %d of %s is declared %s, the C function takes %s' % (i + 1, name, nm, T[c['pt'][i]].s)
            g = ft.get(ret)
            if g is None:
                r.skip('ruby-signature', 'unknown FFI type %s' % ret)
            elif not compatible(ckind(T[c['rt']]), g, True):
                bad = 'the result of %s is declared %s, the C function returns %s' % (name, ret, T[c['rt']].s)
        if bad:
            r.bad('ruby-signature', where, bad)
        else:
            r.ok('ruby-signature', sample='%s(%s) -> %s' % (name, args.strip(), ret))
    # calls of GC_ functions that were never attached, or with the wrong number of arguments
    r.rule('ruby-call', 'every C function the binding calls is attached', 20)
    defs = set(re.findall(r'def\s+(?:self\.)?(\w+)', src))
    for m in re.finditer(r'(?:self|::GenericContainer|GenericContainer)\.(GC_\w+)', src):
        if m.group(1) in seen or m.group(1) in defs:
            r.ok('ruby-call')
        else:
            line = src[:m.start()].count('\n') + 1
            r.bad('ruby-call', 'src_ruby_interface/GenericContainer_ffi.rb:%d' % line, '%s is called but not attached' % m.group(1))
    # type names the library reports
    names = type_names(p)
    # dispatch: when /^xxx$/ -> functions called
    reads = {'bool_type': {'BOOL'}, }
    disp = list(re.finditer(r'when\s*/\^?([A-Za-z_]+)\$?/\s*(?:then)?', src))
    for i, m in enumerate(disp):
        line = src[:m.start()].count('\n') + 1
        where = 'src_ruby_interface/GenericContainer_ffi.rb:%d' % line
        if m.group(1) in ('mac', 'linux', 'mswin', 'darwin'):
            continue
        nm = m.group(1)
        if not names:
            r.skip('ruby-type-name', 'type name table not found')
            continue
        if nm not in names:
            r.bad('ruby-type-name', where, 'the binding dispatches on type name `%s`, which the library never reports' % nm)
            continue
        end = disp[i + 1].start() if i + 1 < len(disp) else src.find('else', m.end())
        body = src[m.end():end]
        fam = family(src, body, defs)
        tag = names[nm]
        exp = EXPECT.get(tag)
        if exp is None or not fam:
            r.ok('ruby-type-name', sample=nm)
            continue
        if fam & exp:
            r.ok('ruby-type-name', sample='%s (%s) read through %s' % (nm, tag, ', '.join(sorted(fam))))
        else:
            r.bad('ruby-type-name', where, 'values of type `%s` are read through %s, which reads another type' % (nm, ', '.join(sorted(fam))))
    # codes
    codes = c_codes(p)
    rb = {}
    for m in re.finditer(r'@(GENERIC_CONTAINER_\w+)\s*=\s*(-?\d+)', src):
        line = src[:m.start()].count('\n') + 1
        rb[m.group(1)] = int(m.group(2))
        where = 'src_ruby_interface/GenericContainer_ffi.rb:%d' % line
        if m.group(1) not in codes:
            r.bad('ruby-error-code', where, '%s is not a code of the C interface' % m.group(1))
        elif codes[m.group(1)] != int(m.group(2)):
            r.bad('ruby-error-code', where, '%s is %s in the binding and %d in the C interface' % (m.group(1), m.group(2), codes[m.group(1)]))
        else:
            r.ok('ruby-error-code', sample='%s = %s' % (m.group(1), m.group(2)))
    for q, e in p.enums.items():
        for k, v in e.items():
            if k in codes and 'Interface_C.h' not in q:
                if v == codes[k]:
                    r.ok('ruby-error-code')
                else:
                    r.bad('ruby-error-code', q, '%s has value %d inside the implementation and %d in the C header' % (k, v, codes[k]))
    m = re.search(r'@error_messages\s*=\s*\[(.*?)\]', src, re.S)
    if m:
        msgs = re.findall(r'"([^"]*)"', m.group(1))
        line = src[:m.start()].count('\n') + 1
        where = 'src_ruby_interface/GenericContainer_ffi.rb:%d' % line
        if len(msgs) <= max(codes.values()):
            r.bad('ruby-error-text', where, 'the message table has %d entries, code %d has none' % (len(msgs), max(codes.values())))
        else:
            bad = None
            for nme, v in codes.items():
                words = nme.replace('GENERIC_CONTAINER_', '').lower().split('_')
                own = all(w in msgs[v].lower() for w in words)
                other = [i for i, x in enumerate(msgs) if i != v and all(w in x.lower() for w in words)]
                if not own and other:
                    bad = 'code %d (%s) is reported as "%s"' % (v, nme, msgs[v])
            if bad:
                r.bad('ruby-error-text', where, bad)
            else:
                r.ok('ruby-error-text', sample=repr(msgs))
    r.cov['c_functions'] = len(decls)
    r.cov['attached'] = len(seen)
    return r.finish('other', 'Agreement of the Ruby FFI declarations (parsed from the .rb file of the tree) with the prototypes of the C interface '
                    '(resolved by clang from the tree), of the type names dispatched on with the type-name table of the library, and of the error codes. '
                    'Every attach_function line, every dispatch arm and every code is one obligation.', ASSUME + [
                        'Ruby FFI type symbols have the sizes of the x86-64 Linux ABI'])


EXPECT = {
    'BOOL': {'GC_get_bool'}, 'INTEGER': {'GC_get_int', 'GC_get_long'}, 'LONG': {'GC_get_long'}, 'REAL': {'GC_get_real'},
    'COMPLEX': {'GC_get_complex_re', 'GC_get_complex_im', 'GC_get_complex'}, 'STRING': {'GC_get_string'},
    'VEC_BOOL': {'GC_get_bool_at_pos'}, 'VEC_INTEGER': {'GC_get_int_at_pos'}, 'VEC_REAL': {'GC_get_real_at_pos'},
    'VEC_COMPLEX': {'GC_get_complex_real_at_pos', 'GC_get_complex_at_pos'}, 'VEC_STRING': {'GC_get_string_at_pos'},
    'MAT_REAL': {'GC_get_real_at_coor'}, 'MAT_COMPLEX': {'GC_get_complex_real_at_coor', 'GC_get_complex_at_coor'},
    'VECTOR': {'GC_push_vector_position'}, 'MAP': {'GC_push_map_position', 'GC_init_map_key'},
}


def family(src, body, defs, depth=0):
    out = set(re.findall(r'\bGC_\w+', body))
    for f in re.findall(r'(?:self\.)(\w+)', body):
        if f in defs and depth < 2 and not f.startswith('GC_'):
            m = re.search(r'def\s+(?:self\.)?%s\b(.*?)\n  end' % re.escape(f), src, re.S)
            if m:
                out |= family(src, m.group(1), defs, depth + 1)
    out -= {'GC_to_hash', 'GC_get_vector_size', 'GC_pop_head', 'GC_get_type_name', 'GC_get_matrix_num_rows', 'GC_get_matrix_num_cols', 'GC_get_next_key'}
    return out


def compatible(w, g, result=False):
    if w == g:
        return True
    if {w[0], g[0]} == {'int', 'bool'} or {w[0], g[0]} == {'uint', 'bool'}:
        return True if not result else w[1] == g[1]
    if w[0] in ('cstr', 'ptr') and g[0] in ('cstr', 'ptr'):
        return w[0] == g[0] or w[0] == 'cstr'
    if w[0] in ('int', 'uint') and g[0] in ('int', 'uint'):
        return w[1] == g[1] and w[0] == g[0]
    return False


def c_codes(p):
    """the codes are macros or an enum of the C header"""
    out = {}
    for q, e in p.enums.items():
        for k, v in e.items():
            if k.startswith('GENERIC_CONTAINER_') and 'GenericContainerInterface_C.h' in q:
                out[k] = v
    if not out:
        raise AnalysisError('error codes not found in the C header')
    return out


def type_names(p):
    """type name -> stored type, from the function that maps a type to its name"""
    best = {}
    en = p.enums.get(NS + 'GC_type')
    if not en:
        raise AnalysisError('GC_type has vanished')
    for f in p.fns.values():
        if f.n not in ('to_string', 'get_type_name', 'type_name') or f.body is None:
            continue
        got = {}
        cur = []
        order = []

        def visit(n):
            nonlocal cur
            k = n.get('k')
            if k == 'CaseStmt':
                cur = cur + [int(n['val'])] if cur and visit.prev_case else [int(n['val'])]
                visit.prev_case = True
                if n.get('sub') is not None:
                    visit(n['sub'])
                return
            if k == 'StringLiteral' and cur:
                for c in cur:
                    got.setdefault(c, n.get('v'))
            if k not in ('CompoundStmt', 'SwitchStmt'):
                visit.prev_case = False
            for _, c in kids(n):
                visit(c)
        visit.prev_case = False
        visit(f.body)
        inv = {v: k for k, v in en.items()}
        m = {nm: inv[c] for c, nm in got.items() if c in inv and nm}
        if len(m) > len(best):
            best = m
    return best


# ----------------------------------------------------------------- C11 -----
ATOMIC = ('std::atomic<', 'std::mutex', 'std::once_flag', 'std::shared_mutex', 'std::recursive_mutex')
NONREENTRANT = {'strtok', 'localtime', 'gmtime', 'ctime', 'asctime', 'setlocale', 'rand', 'srand', 'strerror', 'tmpnam', 'setenv', 'putenv',
                'unsetenv', 'localeconv', 'std::locale::global', 'getenv_s', 'drand48', 'lrand48', 'std::rand', 'std::srand', 'std::setlocale',
                'std::strtok', 'std::localtime', 'std::gmtime', 'std::asctime', 'std::ctime'}


def is_shared_ref(n):
    return n.get('k') == 'DeclRefExpr' and n.get('ref') in ('global', 'static') and not n.get('tls')


def use_kind(fn, types, path, n):
    """how the static-storage object n is used: read / write / escape, following the enclosing expressions"""
    t = types[n['t']]
    cur_const = t.const or n.get('cst')
    for i in range(len(path) - 1, -1, -1):
        par, edge = path[i]
        k = par.get('k')
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            continue
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXConstCastExpr', 'CXXReinterpretCastExpr'):
            ck = par.get('ck')
            pt = types[par['t']]
            if ck == 'LValueToRValue':
                # a pointer value: what it points to may still be written
                if pt.cls == 'ptr' and not pt.base.startswith('const '):
                    return ptr_use(fn, types, path[:i])
                return 'read'
            if ck == 'ArrayToPointerDecay':
                if pt.base.startswith('const ') or cur_const:
                    return 'read'
                return ptr_use(fn, types, path[:i])
            if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived'):
                if k == 'CXXConstCastExpr':
                    cur_const = pt.const
                elif pt.const:
                    return 'read'
                continue
            if ck == 'ToVoid':
                return 'read'
            return 'unknown'
        if k == 'MemberExpr':
            if edge == 'b':
                continue
            return 'read'
        if k == 'ArraySubscriptExpr':
            if edge == 'b':
                continue
            return 'read'
        if k in ('CXXMemberCallExpr',):
            if edge == 'obj':
                c = par['callee']
                if c.get('const') or cur_const:
                    return 'read'
                if c.get('n') in ('begin', 'end', 'find', 'data', 'at', 'front', 'back', 'size', 'empty', 'count', 'lower_bound', 'upper_bound', 'c_str', 'cbegin', 'cend'):
                    return 'read' if i == 0 else result_use(fn, types, path[:i], par)
                return 'write'
            return arg_use(types, par, edge, n)
        if k == 'CXXOperatorCallExpr':
            c = par['callee']
            op = c.get('n', '')
            first = par['a'] and any(x is path_child(path, i, n) for x in par['a'][:1])
            if c.get('m') and first:
                if c.get('const') or cur_const:
                    return 'read'
                if op in ('operator[]', 'operator*', 'operator->'):
                    rec = c.get('rec') or c['q']
                    if 'map' in rec and op == 'operator[]':
                        return 'write'
                    return result_use(fn, types, path[:i], par)
                return 'write'
            return arg_use(types, par, edge, n, path_child(path, i, n))
        if k in ('CallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            return arg_use(types, par, edge, n, path_child(path, i, n))
        if k in ('BinaryOperator', 'CompoundAssignOperator'):
            op = par.get('op')
            if edge == 'lhs' and (op == '=' or k == 'CompoundAssignOperator'):
                return 'write'
            if op == ',' and edge == 'rhs':
                continue
            return 'read'
        if k == 'UnaryOperator':
            op = par.get('op')
            if op in ('++', '--'):
                return 'write'
            if op == '&':
                return ptr_use(fn, types, path[:i])
            return 'read'
        if k == 'ConditionalOperator':
            if edge in ('a', 'b'):
                continue
            return 'read'
        if k == 'CXXForRangeStmt':
            v = par['var']
            vt = types[v['t']]
            return 'write?' if vt.ref and not vt.const else 'read'
        if 'init' == edge and 'name' in par:      # variable initialiser
            vt = types[par['t']]
            if vt.ref and not vt.const and not cur_const:
                return 'alias'
            return 'read'
        if k == 'ReturnStmt':
            if fn.rt.ref and not fn.rt.const and not cur_const:
                return 'escape'
            return 'read'
        if k in ('LambdaExpr',):
            return 'unknown'
        if k in ('CompoundStmt', 'IfStmt', 'SwitchStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CaseStmt', 'DefaultStmt', 'InitListExpr'):
            return 'read'
        return 'unknown'
    return 'read'


def path_child(path, i, n):
    return path[i + 1][0] if i + 1 < len(path) else n


def ptr_use(fn, types, path):
    """a pointer to the shared object: written through?"""
    for i in range(len(path) - 1, -1, -1):
        par, edge = path[i]
        k = par.get('k')
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'ConstantExpr'):
            continue
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr'):
            if types[par['t']].base.startswith('const '):
                return 'read'
            if par.get('ck') in ('PointerToBoolean', 'LValueToRValue'):
                return 'read'
            continue
        if k == 'BinaryOperator':
            if par.get('op') in ('==', '!=', '<', '>', '<=', '>='):
                return 'read'
            if par.get('op') == '=' and edge == 'rhs':
                return 'unknown'
            continue
        if k == 'UnaryOperator' and par.get('op') == '*':
            return use_kind(fn, types, path[:i], {'t': par['t']})
        if k == 'ArraySubscriptExpr' and edge == 'b':
            return use_kind(fn, types, path[:i], {'t': par['t']})
        if k == 'MemberExpr' and par.get('arrow'):
            return use_kind(fn, types, path[:i], {'t': par['t']})
        if k == 'CXXMemberCallExpr' and edge == 'obj':
            return 'read' if par['callee'].get('const') else 'write'
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr'):
            r = arg_use(types, par, edge, None, path_child(path, i, None))
            return 'unknown' if r == 'write' else r
        return 'unknown'
    return 'unknown'


def result_use(fn, types, path, call):
    return use_kind(fn, types, path, {'t': call['t'], 'k': 'x'})


def arg_use(types, par, edge, n, child=None):
    c = par.get('callee')
    if c is None:
        return 'unknown'
    args = par.get('a') or []
    idx = None
    for i, a in enumerate(args):
        if a is child or a is n:
            idx = i
    if idx is None:
        return 'unknown'
    if par['k'] == 'CXXOperatorCallExpr' and c.get('m'):
        idx -= 1
    pts = c.get('pt') or []
    if idx < 0 or idx >= len(pts):
        return 'unknown'
    pt = types[pts[idx]]
    if pt.ref and not pt.const:
        if c.get('q', '').startswith('std::operator') or c.get('q', '') in ('std::swap', 'std::getline', 'std::regex_match', 'std::regex_search') or True:
            return 'write'
    return 'read'


def locked(fn, path):
    """is a lock object declared before, in an enclosing block?"""
    for i, (par, edge) in enumerate(path):
        if par.get('k') == 'CompoundStmt':
            child = path_child(path, i, None)
            for s in par.get('c', ()):
                if s is child:
                    break
                if s.get('k') == 'DeclStmt':
                    for d in s['d']:
                        ts = fn.types[d['t']].s
                        if any(x in ts for x in ('lock_guard<', 'unique_lock<', 'scoped_lock<', 'shared_lock<')):
                            return True
        if par.get('k') == 'LambdaExpr' and any('call_once' in (q.get('callee') or {}).get('q', '') for q, _ in path[:i] if q.get('k') == 'CallExpr'):
            return True
    return False


def shared_writes(p, fns):
    """(fn, node, variable, kind) for every non-read use of mutable static storage"""
    nread = 0
    out = []
    for fn in fns:
        if fn.body is None:
            continue
        aliases = {}
        base_out, base_read = list(out), nread
        for rnd in range(4):
            grown = False
            out, nread = list(base_out), base_read
            for b in bodies(fn):
                for n, path in walkp(b):
                    shared = is_shared_ref(n) and not n.get('cst')
                    al = n.get('k') == 'DeclRefExpr' and n.get('ref') == 'local' and n.get('id') in aliases
                    if not shared and not al:
                        continue
                    if shared and any(a in fn.types[n['t']].s for a in ATOMIC):
                        continue
                    if shared and n.get('q', '').startswith('std::'):
                        continue
                    u = use_kind(fn, fn.types, path, n)
                    if u == 'alias':
                        for par, e in reversed(path):
                            if 'name' in par and 'id' in par and par.get('k') is None:
                                if par['id'] not in aliases:
                                    aliases[par['id']] = n.get('name')
                                    grown = True
                                break
                        continue
                    if u == 'read':
                        nread += 1
                        continue
                    out.append((fn, n, n.get('name') if shared else aliases[n['id']], u, locked(fn, path)))
            if not grown:
                break
    return out, nread


def mutable_writes(p, fns):
    """writes to mutable members inside const methods"""
    mut = {}
    for r in p.records.values():
        for f in r.get('fields', ()):
            if f.get('mutable') and not any(a in r['_types'][f['t']].s for a in ATOMIC):
                mut[(r['_types'][r['t']].base, f['name'])] = True
    out = []
    n_m = 0
    for fn in fns:
        if fn.body is None or not fn.const:
            continue
        for n, path in walkp(fn.body):
            if n.get('k') == 'MemberExpr' and n.get('mk') == 'field' and any(k[1] == n.get('name') for k in mut):
                if not any(k == ((n.get('rec') or '').replace('std::__cxx11::', 'std::'), n['name']) or (n.get('rec') or '') in k[0] for k in mut):
                    continue
                n_m += 1
                u = use_kind(fn, fn.types, path, {'t': n['t'], 'k': 'x'})
                if u not in ('read',):
                    out.append((fn, n, n['name'], u, locked(fn, path)))
    return out, n_m, len(mut)


def run_C11(p, r, selftest=False):
    cfile = 'src/GenericContainerInterface_C.cc'
    roots = [f for f in p.repo_fns() if f.body is not None and f.file != cfile and not f.d.get('externC')]
    pred = reach(p, roots)
    fns = [p.fns[u] for u in pred if p.fns[u].body is not None and p.fns[u].file != cfile]
    hits, nread = shared_writes(p, fns)
    mh, nm, nmut = mutable_writes(p, fns)
    r.rule('shared-write', 'no function reachable from the C++ interface writes mutable storage shared between threads')
    r.rule('mutable-member', 'no const method writes an unsynchronised mutable member')
    r.rule('non-reentrant', 'no function calls a non-reentrant C library function')
    r.ok('shared-write', nread)
    for fn, n, name, u, lk in hits:
        w = loc(fn, n)
        if lk:
            r.ok('shared-write', sample='%s: %s written under a lock' % (w, name))
        elif u in ('write',):
            r.bad('shared-write', w, 'static-storage object `%s` is modified (reached via %s)' % (name, ' > '.join(x.replace(NS, '') for x in chain(p, pred, fn.usr)[-4:])))
        else:
            r.skip('shared-write', '%s: use of `%s` (%s)' % (w, name, u))
    r.ok('mutable-member', max(nm - len(mh), 0))
    for fn, n, name, u, lk in mh:
        if lk:
            r.ok('mutable-member')
        elif u == 'write':
            r.bad('mutable-member', loc(fn, n), 'mutable member `%s` is modified by a const method' % name)
        else:
            r.skip('mutable-member', '%s %s' % (loc(fn, n), name))
    ncalls = 0
    for fn in fns:
        for c, n in callees(fn):
            ncalls += 1
            if c['q'] in NONREENTRANT and not c.get('repo'):
                r.bad('non-reentrant', loc(fn, n), '%s uses storage shared between threads' % c['q'])
    r.ok('non-reentrant', ncalls)
    r.cov['functions_analysed'] = len(fns)
    r.cov['static_objects'] = len(p.globals)
    return len(fns)


def check_C11():
    r = Report('C11')
    p = PR.extract()
    n = run_C11(p, r)
    if n < 300:
        raise AnalysisError('only %d functions found' % n)
    # positive examples: the rules must fire on them
    fx = PR.extract(fixture=os.path.join(PR.VERIF, 'fixtures', 'c11.cc'))
    t = Report('C11')
    run_C11(fx, t)
    want = {'counter_global', 'counter_local', 'match_local', 'alias_local', 'mutable_cache', 'strtok_user'}
    got = {w.split(' in ')[1].split('::')[-1] for w, _, _ in t.viol}
    if got != want:
        raise AnalysisError('self test of the rules failed: expected %s, got %s' % (sorted(want), sorted(got)))
    r.ok('shared-write', 0, sample='self test: fires on %s and on nothing else in fixtures/c11.cc' % ', '.join(sorted(want)))
    return r.finish('other', 'Effect analysis over the resolved program: every function reachable through resolved calls from the C++ interface (the whole '
                    'library except the C handle functions, whose selected handle is shared by design) is scanned for uses of objects with static storage '
                    'duration; each use is classified as read or write through casts, members, elements, const and non-const member calls and reference '
                    'parameters. Writes not under a lock, writes of mutable members in const methods and calls of non-reentrant C functions are violations.',
                    ASSUME + ['writes through a const container itself are decided by C10', 'the header-only parsers (RapidJSON, toml++, fkYAML) and Lua are trusted'])
