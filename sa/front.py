"""Front end: parse /repo's current sources with clang and index what the rules need.

clang (-ast-dump=json, type-checked AST, nothing is executed) is run on every library
translation unit of /repo/src (tests and the checked-in protobuf output excluded) against
headers freshly generated by protoc from /repo/src/raftpb/raft.proto.
"""
import json, os, re, shutil, subprocess, sys, tempfile, gc
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SA_REPO', '/repo')


class FrontError(Exception):
    pass


class N:
    """AST node."""
    __slots__ = ('k', 'i', 'd', 'line', 'file', 'id', 'x')

    def __init__(self, k, i, d, line, file):
        self.k, self.i, self.d, self.line, self.file = k, i, d, line, file
        self.id = d.get('id')
        self.x = None

    def __repr__(self):
        return '<%s %s %s:%s>' % (self.k, self.d.get('name', ''), os.path.basename(self.file or '?'), self.line)

    @property
    def name(self):
        return self.d.get('name')

    @property
    def qt(self):
        t = self.d.get('type')
        if not t:
            return ''
        q = t.get('desugaredQualType') or t.get('qualType') or ''
        if ' &[' in q:                      # how clang prints `auto &` bound to an array
            q = q.replace(' &[', ' (&)[')
        if 'element_type' in q and self.k in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'ImplicitCastExpr', 'ParenExpr',
                                              'UnaryOperator'):
            q = self._element_type(q)
        return q

    def _element_type(self, q):
        # operator-> / operator* / get() of a smart pointer print as the typedef element_type
        for c in self.walk():
            if c is self:
                continue
            t = c.d.get('type') or {}
            x = t.get('desugaredQualType') or t.get('qualType') or ''
            m = re.search(r'(?:shared_ptr|unique_ptr|__shared_ptr_access|__shared_ptr|weak_ptr)<(.*)>', x)
            if m and '(*)' not in x:
                a, depth, cur = m.group(1), 0, ''
                for ch in a:
                    if ch in '<(':
                        depth += 1
                    elif ch in '>)':
                        depth -= 1
                    if ch == ',' and depth == 0:
                        break
                    cur += ch
                if '_NonArray' in cur or 'element_type' in cur:
                    continue
                return re.sub(r'(?:[\w:<>, ]*::)?\belement_type\b', cur.strip(), q)
        return q

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            st.extend(reversed(n.i))


_DROP = ('loc', 'range', 'inner', 'array_filler')


def _convert(root):
    """dict tree -> N tree, undoing clang's delta-compressed locations."""
    cur = ['?', 0]

    def loc(d):
        # returns (file,line) of the location, keeping the running state in print order
        if not d:
            return None
        if 'spellingLoc' in d or 'expansionLoc' in d:
            r = None
            for key in d:
                if key == 'spellingLoc':
                    loc(d[key])
                elif key == 'expansionLoc':
                    r = loc(d[key])
            return r or (cur[0], cur[1])
        if 'offset' not in d:
            return None
        if 'file' in d:
            cur[0] = d['file']
        if 'line' in d:
            cur[1] = d['line']
        return (cur[0], cur[1])

    sys.setrecursionlimit(20000)

    def conv(d):
        p = loc(d.get('loc'))
        r = d.get('range')
        if r:
            b = loc(r.get('begin'))
            loc(r.get('end'))
            p = p or b
        if p is None:
            p = (cur[0], cur[1])
        kids = d.get('inner')
        if d.get('array_filler'):
            kids = list(d['array_filler']) + list(kids or [])
        if kids:
            kids = [conv(c) for c in kids]
        return N(d.get('kind'), kids or [], d, p[1], p[0])

    return conv(root)


def lib_sources(repo=None):
    repo = repo or REPO
    out = []
    for dp, dn, fn in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fn):
            if not f.endswith(('.cc', '.cpp', '.cxx')):
                continue
            if f.endswith(('.pb.cc', '_test.cc', '_test_util.cc')) or 'test' in f:
                continue
            out.append(os.path.join(dp, f))
    return sorted(out)


class Prog:
    """The analysed program."""

    def __init__(self):
        self.funcs = {}     # qualified name -> list of Func (definitions)
        self.records = {}   # qualified record name -> Rec
        self.enums = {}     # constant name (qualified and plain) -> int
        self.enum_of = {}   # constant plain name -> enum name
        self.globals = {}   # qualified name -> N (VarDecl)
        self.decl = {}      # (tu, id) -> declaration info (kind, qualified name, node)
        self.protos = {}
        self.files = []
        self.tus = 0
        self.aliases = {}
        self.access = {}    # qualified member name -> public / protected / private

    def fn(self, q, nparams=None):
        l = self.funcs.get(q, [])
        if nparams is not None:
            l = [f for f in l if len(f.params) == nparams]
        return l[0] if l else None


class Func:
    __slots__ = ('q', 'name', 'cls', 'node', 'params', 'body', 'tu', 'kind', 'inits', 'sig', 'static', 'file', 'line', 'virtual', 'const')

    def __repr__(self):
        return 'Func(%s)' % self.q


class Rec:
    __slots__ = ('q', 'fields', 'bases', 'node', 'tu', 'methods')


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def load(repo=None, quiet=True):
    repo = repo or REPO
    tmp = tempfile.mkdtemp(prefix='sa_')
    try:
        gen = os.path.join(tmp, 'gen')
        os.mkdir(gen)
        proto = os.path.join(repo, 'src/raftpb/raft.proto')
        r = _run(['protoc', '-I' + repo, '--cpp_out=' + gen, proto])
        if r.returncode:
            raise FrontError('protoc failed: ' + r.stderr.decode()[:2000])
        srcs = lib_sources(repo)
        cl = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
        base = [cl, '-std=gnu++17', '-w', '-I' + gen, '-I' + repo, '-fsyntax-only', '-fno-color-diagnostics']
        # precompile the protobuf header once
        pch = os.path.join(tmp, 'pb.pch')
        _run(base[:-2] + ['-x', 'c++-header', os.path.join(gen, 'src/raftpb/raft.pb.h'), '-o', pch])
        dump = ['-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=craft']

        def groups():
            # group TUs to limit parsing; a group that does not compile is split
            n = 4
            gs = [[] for _ in range(n)]
            w = [0] * n
            for s in sorted(srcs, key=lambda s: -os.path.getsize(s)):
                k = w.index(min(w))
                gs[k].append(s)
                w[k] += os.path.getsize(s) + 8000
            return [sorted(g) for g in gs if g]

        def one(g):
            f = os.path.join(tmp, 'g%d.cc' % (abs(hash(tuple(g))) % 10**9))
            with open(f, 'w') as fh:
                for s in g:
                    fh.write('#include "%s"\n' % s)
            r = _run(base + dump + [f])
            if r.returncode:
                if len(g) > 1:
                    h = len(g) // 2
                    return one(g[:h]) + one(g[h:])
                raise FrontError('clang rejects %s:\n%s' % (g[0], r.stderr.decode()[:3000]))
            return [(g, r.stdout)]

        with ThreadPoolExecutor(4) as ex:
            outs = [x for l in ex.map(one, groups()) for x in l]
        P = Prog()
        P.files = srcs
        P.protos = parse_proto(open(proto).read())
        for e, vals in P.protos['enums'].items():
            for nm, v in vals.items():
                P.enums[nm] = v
                P.enum_of[nm] = e
        gc.disable()
        dec = json.JSONDecoder()
        for tu, (g, text) in enumerate(outs):
            text = text.decode().replace('(anonymous namespace)::', '')
            i = 0
            L = len(text)
            while True:
                while i < L and text[i].isspace():
                    i += 1
                if i >= L:
                    break
                if text.startswith('Dumping ', i):
                    i = text.index('\n', i)
                    continue
                o, i = dec.raw_decode(text, i)
                _index(P, tu, _convert(o), '')
            P.tus += 1
        gc.enable()
        _link(P)
        return P
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _index(P, tu, n, scope, cls=None):
    k = n.k
    if k == 'NamespaceDecl':
        nm = n.name or ''
        sc = scope + nm + '::' if nm else scope
        for c in n.i:
            _index(P, tu, c, sc, None)
    elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
        q = scope + (n.name or '(anon)')
        P.decl[(tu, n.id)] = ('rec', q, n)
        if n.d.get('completeDefinition') and not (n.d.get('isImplicit')):
            if q not in P.records:
                R = Rec()
                R.q, R.node, R.tu = q, n, tu
                R.fields = []
                R.bases = [b.get('type', {}).get('desugaredQualType') or b.get('type', {}).get('qualType') for b in n.d.get('bases', [])]
                R.methods = {}
                P.records[q] = R
            R = P.records[q]
            first = R.tu == tu
            for c in n.i:
                if c.k == 'FieldDecl':
                    P.decl[(tu, c.id)] = ('field', q + '::' + (c.name or ''), c)
                    if first and R.node is n:
                        R.fields.append(c)
            acc = 'public' if n.d.get('tagUsed') == 'struct' else 'private'
            for c in n.i:
                if c.d.get('isImplicit') and c.k != 'AccessSpecDecl':
                    _index(P, tu, c, q + '::', q)
                elif c.k == 'AccessSpecDecl':
                    acc = c.d.get('access', acc)
                elif c.k == 'FieldDecl':
                    P.access[q + '::' + (c.name or '')] = acc
                else:
                    if c.k == 'FunctionTemplateDecl' or c.name:
                        P.access.setdefault(q + '::' + (c.name or ''), acc)
                    _index(P, tu, c, q + '::', q)
    elif k in ('CXXMethodDecl', 'FunctionDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
        _addfn(P, tu, n, scope, cls)
    elif k == 'FunctionTemplateDecl':
        for c in n.i:
            if c.k == 'FunctionDecl' or c.k == 'CXXMethodDecl':
                _addfn(P, tu, c, scope, cls)
    elif k == 'EnumDecl':
        v = -1
        for c in n.i:
            if c.k == 'EnumConstantDecl':
                v += 1
                for e in c.i:
                    if e.d.get('value') is not None:
                        try:
                            v = int(e.d['value'])
                        except ValueError:
                            pass
                P.enums[(scope + c.name)] = v
                P.enums.setdefault(c.name, v)
                P.enum_of[c.name] = n.name or ''
                P.decl[(tu, c.id)] = ('enumc', scope + c.name, c, v)
    elif k == 'VarDecl':
        P.decl[(tu, n.id)] = ('var', scope + (n.name or ''), n)
        q = scope + (n.name or '')
        if q not in P.globals or n.i:
            P.globals[q] = n
            n.x = tu
    elif k in ('LinkageSpecDecl',):
        for c in n.i:
            _index(P, tu, c, scope, cls)
    elif k in ('TypeAliasDecl', 'TypedefDecl'):
        P.aliases[scope + n.name] = n.qt


def _addfn(P, tu, n, scope, cls):
    # out-of-line definitions are printed in the namespace, their class is found later
    P.decl[(tu, n.id)] = ['fn', None, n, scope, cls]
    for c in n.i:
        if c.k == 'CompoundStmt':
            for r in c.walk():
                if r.k == 'CXXRecordDecl' and r.name and r.d.get('completeDefinition') and not r.d.get('isImplicit'):
                    _index(P, tu, r, '')


def _link(P):
    # qualify functions: prefer the previous declaration (in class) for out-of-line definitions
    def qual(tu, ent):
        if ent[1]:
            return ent[1]
        n = ent[2]
        par = n.d.get('parentDeclContextId')
        sc = ent[3]
        if par and (tu, par) in P.decl and P.decl[(tu, par)][0] == 'rec':
            sc = P.decl[(tu, par)][1] + '::'
            ent[4] = P.decl[(tu, par)][1]
        else:
            pv = n.d.get('previousDecl')
            if pv and (tu, pv) in P.decl and P.decl[(tu, pv)][0] == 'fn':
                pe = P.decl[(tu, pv)]
                q = qual(tu, pe)
                sc = q[:len(q) - len(n.name)]
                ent[4] = pe[4]
        ent[1] = sc + n.name
        return ent[1]

    seen = {}
    for key, ent in list(P.decl.items()):
        if ent[0] != 'fn':
            continue
        tu, _ = key
        q = qual(tu, ent)
        n = ent[2]
        body = None
        for c in n.i:
            if c.k in ('CompoundStmt', 'CXXTryStmt'):
                body = c
        sig = (n.d.get('type') or {}).get('qualType', '')
        mang = n.d.get('mangledName') or (q + sig)
        if n.d.get('isImplicit') or (n.d.get('explicitlyDefaulted') and body is None):
            continue
        if body is None:
            # remember virtual-ness of declarations
            continue
        if mang in seen and n.d.get('storageClass') != 'static':
            continue
        # static functions with the same name in different TUs of one group cannot coexist;
        # in different groups they are told apart by file
        mk = (mang, n.file, n.line)
        if mk in seen:
            continue
        seen[mang] = seen[mk] = True
        f = Func()
        f.q, f.name, f.cls, f.node, f.tu, f.body = q, n.name, ent[4], n, tu, body
        f.params = [c for c in n.i if c.k == 'ParmVarDecl']
        f.inits = [c for c in n.i if c.k == 'CXXCtorInitializer']
        f.kind = n.k
        f.sig = sig
        f.static = n.d.get('storageClass') == 'static'
        pv = n.d.get('previousDecl')
        if ent[4] and pv and (tu, pv) in P.decl and P.decl[(tu, pv)][2].d.get('storageClass') == 'static':
            f.static = True
        f.virtual = bool(n.d.get('virtual'))
        f.const = sig.rstrip().endswith('const')
        f.file, f.line = n.file, n.line
        P.funcs.setdefault(q, []).append(f)
    P.by_decl = {}


def callee(P, tu, declid):
    """Resolve a referenced declaration id to a Func definition (or None)."""
    key = (tu, declid)
    if key in P.by_decl:
        return P.by_decl[key]
    ent = P.decl.get(key)
    r = None
    if ent and ent[0] == 'fn':
        cands = P.funcs.get(ent[1], [])
        sig = (ent[2].d.get('type') or {}).get('qualType', '')
        m = ent[2].d.get('mangledName')
        best = [f for f in cands if m and f.node.d.get('mangledName') == m]
        if not best:
            best = [f for f in cands if f.sig == sig]
        if not best and len(cands) == 1:
            best = cands
        if len(best) > 1:
            b2 = [f for f in best if f.tu == tu]
            best = b2 or best
        r = best[0] if best else None
    P.by_decl[key] = r
    return r


def parse_proto(text):
    text = re.sub(r'//[^\n]*', '', text)
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    res = {'enums': {}, 'messages': {}}
    for m in re.finditer(r'\benum\s+(\w+)\s*\{(.*?)\}', text, re.S):
        vals = {}
        for a in re.finditer(r'(\w+)\s*=\s*(-?\d+)\s*;', m.group(2)):
            vals[a.group(1)] = int(a.group(2))
        res['enums'][m.group(1)] = vals
    for m in re.finditer(r'\bmessage\s+(\w+)\s*\{(.*?)\n\}', text, re.S):
        fl = {}
        for a in re.finditer(r'(?:(repeated|optional|required)\s+)?([\w.]+)\s+(\w+)\s*=\s*(\d+)\s*(\[[^\]]*\])?\s*;', m.group(2)):
            fl[a.group(3)] = (a.group(1) or '', a.group(2), int(a.group(4)), (a.group(5) or '').replace(' ', ''))
        res['messages'][m.group(1)] = fl
    return res


if __name__ == '__main__':
    import time
    t = time.time()
    P = load()
    print('time', time.time() - t, 'tus', P.tus, 'funcs', sum(len(v) for v in P.funcs.values()), 'recs', len(P.records))
    for q, v in sorted(P.funcs.items()):
        print(q, [(f.file.replace(REPO, ''), f.line, len(f.params)) for f in v])
