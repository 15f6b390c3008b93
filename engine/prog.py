"""Extraction of the resolved program from /repo's working tree (runs tool/gcx on every translation unit)."""
import json, os, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GC_REPO', '/repo')
GCX = os.path.join(VERIF, 'build', 'gcx')
LIBDIRS = ['src', 'src_json_interface', 'src_yaml_interface', 'src_toml_interface', 'src_lua_interface']
FLAGS = ['-std=c++17', '-I%s/include' % REPO] + ['-I%s/%s' % (REPO, d) for d in LIBDIRS] + ['-w']


class AnalysisError(Exception):
    pass


class Type:
    __slots__ = ('s', 'cls', 'ref', 'const', 'pconst', 'bits', 'signed', 'rec', 'base', 'raw')

    def __init__(self, d):
        self.s = d['s'].replace('std::__cxx11::', 'std::')
        self.cls = d.get('cls', '?')
        self.ref = d.get('ref', False)
        self.const = d.get('const', False)
        self.pconst = d.get('pconst', False)
        self.bits = d.get('bits', 0)
        self.signed = d.get('signed', False)
        self.rec = d.get('rec', '').replace('std::__cxx11::', 'std::')
        s = self.s
        if s.endswith('&'):
            s = s.rstrip('&').rstrip()
        if s.startswith('const '):
            s = s[6:]
        if s.endswith(' const') and not s.endswith('* const'):
            s = s[:-6]
        if s.endswith('*const'):
            s = s[:-5]
        if s.endswith('* const'):
            s = s[:-6].rstrip()
        self.base = s

    def __repr__(self):
        return self.s


class Fn:
    __slots__ = ('d', 'types', 'usr', 'q', 'n', 'file', 'l', 'ps', 'body', 'rec', 'const', 'static', 'tu', 'rt', 'noret', 'nx', '_weight')

    def __init__(self, d, types, tu):
        self.d = d
        self.types = types
        self.tu = tu
        self.usr = d['usr']
        self.q = d['q'].replace('std::__cxx11::', 'std::')
        self.n = d['n']
        self.file = d['file']
        self.l = d['l']
        self.ps = d['ps']
        self.body = d.get('body')
        self.rec = d.get('rec', '').replace('std::__cxx11::', 'std::')
        self.const = d.get('const', False)
        self.static = d.get('static', False)
        self.rt = types[d['rt']]
        self.noret = d.get('noret', False)
        self.nx = d.get('nx', False)

    def ptypes(self):
        return [self.types[p['t']] for p in self.ps]

    def sig(self):
        return self.q + '(' + ', '.join(t.base + (' const' if t.const and not t.ref else '') +
                                        ('&' if t.ref else '') for t in self.ptypes()) + ')' + (' const' if self.const else '')

    def where(self):
        return '%s:%d' % (self.file, self.l)

    def __repr__(self):
        return self.sig()


class Program:
    def __init__(self):
        self.fns = {}      # usr -> Fn
        self.records = {}  # type string -> record
        self.enums = {}
        self.globals = {}
        self.cdecls = {}
        self.tus = []
        self.tutypes = {}

    def add(self, tu, data):
        types = [Type(t) for t in data['types']]
        self.tus.append(tu)
        self.tutypes[tu] = types
        for f in data['functions']:
            usr = f['usr']
            if f.get('internal'):
                pass
            if usr in self.fns:
                continue
            self.fns[usr] = Fn(f, types, tu)
        for r in data['records']:
            r['_types'] = types
            self.records.setdefault(types[r['t']].base, r)
        for e in data['enums']:
            self.enums.setdefault(e['q'], {c['name']: int(c['v']) for c in e['c']})
        for g in data['globals']:
            g['_types'] = types
            self.globals.setdefault(g['usr'], g)
        for c in data['cdecls']:
            c['_types'] = types
            if c['n'] not in self.cdecls or c.get('def'):
                self.cdecls[c['n']] = c

    def by_q(self, q):
        return [f for f in self.fns.values() if f.q == q]

    def repo_fns(self):
        return [f for f in self.fns.values() if not f.file.startswith('/')]


def sources(repo=None):
    repo = repo or REPO
    out = []
    for d in LIBDIRS:
        p = os.path.join(repo, d)
        if not os.path.isdir(p):
            raise AnalysisError('source directory %s has vanished' % d)
        for f in sorted(os.listdir(p)):
            if f.endswith('.cc'):
                out.append(os.path.join(d, f))
    return out


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisError('extractor does not build:\n' + r.stdout.decode(errors='replace')[-2000:])


def extract(srcs=None, repo=None, fixture=None):
    """every TU is parsed afresh from the working tree (or one positive example of /verif)"""
    repo = repo or REPO
    root = repo
    build_tool()
    allsrc = sources(repo)
    if srcs is None:
        use = [s for s in allsrc if not s.endswith('LuaPmain.cc')]
    else:
        use = []
        for s in srcs:
            if s.endswith('/'):
                use += [x for x in allsrc if x.startswith(s) and not x.endswith('LuaPmain.cc')]
            elif s in allsrc:
                use.append(s)
            else:
                raise AnalysisError('source file %s has vanished' % s)
    if srcs is None:
        use.append(os.path.join(VERIF, 'tool', 'headers.cc'))
    if fixture is not None:
        use = [fixture]
        root = os.path.dirname(fixture)
    flags = [f.replace(REPO, repo) for f in FLAGS]
    tmp = tempfile.mkdtemp(prefix='gcx.')
    try:
        def one(s):
            out = os.path.join(tmp, s.replace('/', '__') + '.json')
            r = subprocess.run([GCX, root, out, os.path.join(repo, s), '--'] + flags,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                return s, None, r.stdout.decode(errors='replace')[-3000:]
            with open(out) as fp:
                return s, json.load(fp), ''
        prog = Program()
        with ThreadPoolExecutor(8) as ex:
            for s, data, err in ex.map(one, use):
                if data is None:
                    raise AnalysisError('cannot parse %s:\n%s' % (s, err))
                prog.add(s, data)
        return prog
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
