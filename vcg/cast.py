"""Mechanical extraction of /repo's C++ functions: clang's own AST, dumped as JSON on every run.

Nothing here knows about particular functions.  A translation unit is parsed by clang++ with the
flags the repository's own build uses for it, the declarations of namespace cornerstone are kept,
and any function outside that namespace that kept code refers to (static helpers, anonymous
namespace) is fetched in a second pass by name.
"""
import json, os, subprocess, re, sys, hashlib
sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'
FLAGS = ['-std=gnu++17', '-I%s/include' % REPO, '-fsyntax-only', '-w',
         '-Xclang', '-ast-dump=json']
TU_FLAGS = {'asio_service.cxx': ['-DASIO_STANDALONE=1', '-DASIO_HAS_STD_CHRONO=1']}
_dec = json.JSONDecoder()


class ExtractError(Exception):
    pass


def _dump(src, filt, extra=()):
    cmd = [CLANG] + FLAGS + list(extra) + TU_FLAGS.get(os.path.basename(src), [])
    cmd += ['-Xclang', '-ast-dump-filter=' + filt, src]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractError('clang failed on %s: %s' % (src, r.stderr.decode()[-2000:]))
    s = r.stdout.decode()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        if s.startswith('Dumping ', i):       # "Dumping x:" headers in some clang versions
            i = s.index('\n', i)
            continue
        o, i = _dec.raw_decode(s, i)
        out.append(o)
    return out


FUNC_KINDS = ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl', 'CXXConversionDecl')


class Func:
    __slots__ = ('node', 'name', 'cls', 'params', 'body', 'inits', 'rtype', 'static', 'const', 'kind',
                 'tu', 'qual', 'type', 'file', 'line', 'virtual', 'pure', 'access')

    def __repr__(self):
        return '<Func %s>' % self.qual


class Record:
    def __init__(self, name):
        self.name = name
        self.fields = []      # (name, type string, has_init, init node)
        self.bases = []
        self.methods = []
        self.node = None
        self.kind = 'class'

    def __repr__(self):
        return '<Record %s>' % self.name


class TU:
    """One parsed translation unit, indexed."""

    def __init__(self, path, filt='cornerstone'):
        self.path = path
        self.decls = {}        # clang id -> node
        self.funcs = {}        # clang id -> Func
        self.by_qual = {}      # 'raft_server::commit' -> [Func] (with a body)
        self.records = {}      # name -> Record
        self.enums = {}        # enum name -> {const: value}
        self.enum_under = {}
        self.enum_consts = {}  # clang id -> (value, enum name)
        self.typedefs = {}     # name -> type string
        self.globals = {}
        self.lambdas = []      # (Func, LambdaExpr node)
        self._missing = set()
        for o in _dump(path, filt):
            self._index(o, [], None)
        self._link()

    # -- indexing ------------------------------------------------------------------------------
    def _index(self, n, scope, cls, access=None):
        if not isinstance(n, dict):
            return
        k = n.get('kind')
        i = n.get('id')
        if i and k:
            self.decls.setdefault(i, n)
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            sc = scope + ([n['name']] if n.get('name') else [])
            for c in n.get('inner', []):
                self._index(c, sc, None)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            nm = n.get('name')
            if nm is None:
                nm = '__anon_' + i
            if k == 'ClassTemplateSpecializationDecl':
                args = [c for c in n.get('inner', []) if c.get('kind') == 'TemplateArgument']
                nm += '<' + ', '.join((a.get('type') or {}).get('qualType', '?') for a in args) + '>'
            full = (cls + '::' if cls else '') + nm
            n['_rec'] = full
            if n.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in n.get('inner', [])) or n.get('bases'):
                r = self.records.get(full)
                if r is None:
                    r = self.records[full] = Record(full)
                r.node = n
                r.bases = [b['type'].get('desugaredQualType', b['type']['qualType']) for b in n.get('bases', [])]
                acc = 'private' if n.get('tagUsed') == 'class' else 'public'
                for c in n.get('inner', []):
                    if c.get('kind') == 'AccessSpecDecl':
                        acc = c.get('access', acc)
                    if c.get('kind') == 'FieldDecl':
                        c['_rec'] = full
                        self.decls[c['id']] = c
                        r.fields.append((c.get('name'), c['type'], c.get('hasInClassInitializer', False), c))
                    else:
                        self._index(c, scope, full, acc)
            else:
                for c in n.get('inner', []):
                    self._index(c, scope, full)
        elif k == 'ClassTemplateDecl':
            for c in n.get('inner', []):
                if c.get('kind') == 'CXXRecordDecl':
                    c['_template'] = True
                self._index(c, scope, cls)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in n.get('inner', []):
                if c.get('kind') in FUNC_KINDS:
                    c['_pattern'] = first
                    c['_ftempl'] = n.get('name')
                    first = False
                    self._index(c, scope, cls, access)
        elif k in FUNC_KINDS:
            n['_cls'] = cls
            n['_access'] = access
            n['_scope'] = scope
            self._walk_expr(n)
        elif k == 'EnumDecl':
            v = -1
            vals = {}
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                x = self._const(c)
                v = x if x is not None else v + 1
                vals[c['name']] = v
                self.enum_consts[c['id']] = (v, n.get('name'))
            if n.get('name'):
                self.enums[n['name']] = vals
                u = n.get('fixedUnderlyingType')
                self.enum_under[n['name']] = (u.get('desugaredQualType') or u.get('qualType')) if u else 'unsigned int'
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            t = n['type']
            self.typedefs[(cls + '::' if cls else '') + n['name']] = t.get('desugaredQualType', t['qualType'])
        elif k == 'VarDecl':
            self.globals[i] = n
            self._walk_expr(n)
        elif k in ('UsingDirectiveDecl', 'UsingDecl', 'FriendDecl', 'AccessSpecDecl', 'FullComment'):
            pass
        else:
            for c in n.get('inner', []):
                self._index(c, scope, cls, access)

    def _const(self, n):
        for c in n.get('inner', []):
            if 'value' in c:
                try:
                    return int(c['value'])
                except ValueError:
                    return None
            r = self._const(c)
            if r is not None:
                return r
        return None

    def _walk_expr(self, n):
        """register every declaration inside a function body"""
        stack = [n]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict):
                continue
            i = x.get('id')
            k = x.get('kind')
            if i and k and (k.endswith('Decl')):
                self.decls.setdefault(i, x)
                if k in ('TypedefDecl', 'TypeAliasDecl'):
                    t = x['type']
                    self.typedefs.setdefault(x['name'], t.get('desugaredQualType', t['qualType']))
                if k == 'CXXRecordDecl' and x is not n:
                    # local class / closure type
                    for c in x.get('inner', []):
                        if c.get('kind') == 'FieldDecl':
                            c['_rec'] = x.get('name') or ('__anon_' + i)
            stack.extend(x.get('inner', []))

    def _link(self):
        for i, n in list(self.decls.items()):
            if n.get('kind') in FUNC_KINDS and i not in self.funcs:
                self._mkfunc(n)

    def _mkfunc(self, n):
        body = None
        inits = []
        params = []
        for c in n.get('inner', []):
            k = c.get('kind')
            if k == 'ParmVarDecl':
                params.append(c)
            elif k in ('CompoundStmt', 'CXXTryStmt'):
                body = c
            elif k == 'CXXCtorInitializer':
                inits.append(c)
        f = Func()
        f.node = n
        f.name = n.get('name', '')
        f.kind = n['kind']
        cls = n.get('_cls')
        if cls is None and n.get('parentDeclContextId'):
            p = self.decls.get(n['parentDeclContextId'])
            if p is not None and p.get('_rec'):
                cls = p['_rec']
        if cls is None and n.get('previousDecl'):
            p = self.decls.get(n['previousDecl'])
            if p is not None:
                cls = p.get('_cls')
                if f.node.get('_access') is None:
                    n['_access'] = p.get('_access')
        f.cls = cls
        n['_cls'] = cls
        f.access = n.get('_access')
        f.params = params
        f.body = body
        f.inits = inits
        f.type = n.get('type', {}).get('qualType', '')
        f.rtype = f.type.split('(')[0].strip() if '(' in f.type else ''
        m = re.match(r'^auto \(.*\)(?: const)? -> (.*)$', f.type)
        if m:
            f.rtype = m.group(1)
        f.static = n.get('storageClass') == 'static'
        prev = self.decls.get(n.get('previousDecl'))
        if prev is not None and prev.get('storageClass') == 'static':
            f.static = True
        f.virtual = bool(n.get('virtual'))
        f.pure = bool(n.get('pure'))
        f.const = f.type.rstrip().endswith('const')
        f.tu = self
        f.qual = (cls + '::' if cls else '') + f.name
        f.file = (n.get('loc', {}).get('file') or n.get('range', {}).get('begin', {}).get('file') or '')
        f.line = n.get('loc', {}).get('line')
        self.funcs[n['id']] = f
        if body is not None and not n.get('_pattern'):
            self.by_qual.setdefault(f.qual, []).append(f)
        return f

    # -- lookup --------------------------------------------------------------------------------
    def definition(self, ident):
        """Func with a body for a (possibly declaration-only) clang id"""
        f = self.funcs.get(ident)
        if f is None:
            return None
        if f.body is not None:
            return f
        mn = f.node.get('mangledName')
        for g in self.by_qual.get(f.qual, []):
            if g.node.get('previousDecl') == ident or (mn and g.node.get('mangledName') == mn):
                return g
        for g in self.by_qual.get(f.qual, []):
            if len(g.params) == len(f.params) and g.type == f.type:
                return g
        return f

    def fetch_named(self, name):
        """second pass: functions outside the namespace, by name"""
        if name in self._missing:
            return
        self._missing.add(name)
        try:
            for o in _dump(self.path, name):
                if o.get('kind') in FUNC_KINDS or o.get('kind') == 'FunctionTemplateDecl' or o.get('kind') == 'VarDecl':
                    self._index(o, [], o.get('_cls'))
        except ExtractError:
            return
        self._link()


_cache = {}


def load(name):
    path = name if name.startswith('/') else os.path.join(REPO, 'src', name)
    if path not in _cache:
        _cache[path] = TU(path)
    return _cache[path]


def source_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]


if __name__ == '__main__':
    import time
    t = time.time()
    for f in sys.argv[1:]:
        tu = load(f)
        print(f, len(tu.funcs), sorted(k for k in tu.by_qual if k)[:400])
        print({k: [x[0] for x in r.fields] for k, r in tu.records.items()})
        print(tu.enums, tu.enum_under)
        print(tu.typedefs)
    print(time.time() - t)
