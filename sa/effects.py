"""Field-level effect analysis: which fields a function (transitively) may read and write.

Flow-insensitive, computed on the typed AST.  Used to give calls that are kept opaque the right
inputs (versions of the fields they read) and to forget the fields they write.
"""
import re
from . import front

MUT = {'push_back', 'emplace_back', 'push_front', 'emplace_front', 'insert', 'emplace', 'erase', 'clear', 'resize', 'reserve', 'pop_front',
       'pop_back', 'swap', 'assign', 'reset', 'try_emplace', 'insert_or_assign', 'append', 'shrink_to_fit', 'emplace_hint', 'merge', 'extract'}
PASS = ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXStaticCastExpr',
        'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr')


def strip(n):
    while n.k in PASS and n.i:
        n = n.i[0]
    return n


READS = {'find', 'begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'count', 'lower_bound', 'upper_bound', 'length', 'c_str', 'rbegin', 'rend'}
THROUGH = {'at', 'front', 'back', 'get', 'operator[]', 'operator*', 'operator->', 'second', 'first'}


def changing_use(par, n):
    """may this use of a non-const variable change it? climbs from the reference to the first construct that decides"""
    x = n
    for _ in range(30):
        p = par.get(id(x))
        if p is None:
            return None
        if p.k == 'ImplicitCastExpr':
            ck = p.d.get('castKind')
            if ck == 'LValueToRValue':
                if p.qt.rstrip().endswith('*') and '_M_' not in p.qt:
                    return None
                return None
            if ck == 'NoOp' and p.qt.startswith('const '):
                return None
            x = p
            continue
        if p.k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr'):
            x = p
            continue
        if p.k == 'MemberExpr':
            g = par.get(id(p))
            if g is not None and g.k == 'CXXMemberCallExpr' and g.i[0] is p:
                if p.name in READS:
                    return None
                if p.name in THROUGH:
                    x = g
                    continue
                return 'calls %s on it' % p.name
            x = p
            continue
        if p.k == 'ArraySubscriptExpr':
            x = p
            continue
        if p.k == 'CXXOperatorCallExpr':
            c = strip(p.i[0])
            nm = c.d.get('referencedDecl', {}).get('name', '') if c.k == 'DeclRefExpr' else ''
            if nm in ('operator[]', 'operator*', 'operator->') and len(p.i) > 1 and p.i[1] is x:
                if nm == 'operator[]' and ('map<' in x.qt):
                    return 'may insert into it'
                x = p
                continue
            if nm in ('operator==', 'operator!=', 'operator<', 'operator+'):
                return None
            if nm == 'operator()' and (c.d['referencedDecl'].get('type') or {}).get('qualType', '').endswith('const'):
                return None
            return 'applies %s to it' % nm
        if p.k == 'BinaryOperator':
            return 'assigns it' if p.d.get('opcode') == '=' and p.i[0] is x else None
        if p.k == 'CompoundAssignOperator':
            return 'assigns it' if p.i[0] is x else None
        if p.k == 'UnaryOperator':
            o = p.d.get('opcode')
            if o in ('++', '--'):
                return 'changes it'
            if o == '&':
                return 'takes its address'
            x = p
            continue
        if p.k in ('CallExpr', 'CXXMemberCallExpr', 'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
            if p.k == 'CallExpr' and p.i and strip(p.i[0]).d.get('referencedDecl', {}).get('name') in ('get', 'begin', 'end', 'size'):
                return None
            return 'passes it on as changeable'
        if p.k == 'ReturnStmt':
            return 'hands it out as changeable'
        if p.k in ('VarDecl',):
            q = (p.d.get('type') or {}).get('qualType', '')
            return 'binds a changeable reference to it' if q.rstrip().endswith('&') and not q.startswith('const') else None
        if p.k == 'CXXForRangeStmt' or p.k.endswith('Stmt'):
            return None
        if p.k == 'ConditionalOperator':
            x = p
            continue
        return None
    return None


def parents(root):
    par = {}
    for x in root.walk():
        for c in x.i:
            par[id(c)] = x
    return par


class Effects:
    def __init__(self, P, I):
        self.P, self.I = P, I
        self.local = {}
        self.closed = {}
        self._targets = None
        self._gw = None
        self._whole = {}
        self._sl = {}

    def key(self, tu, n):
        ent = self.P.decl.get((tu, n.d.get('referencedMemberDecl')))
        if ent and ent[0] == 'field':
            return ent[1][7:] if ent[1].startswith('craft::') else ent[1]
        return None

    def sub(self, phi, qt):
        """phi plus, for struct-valued fields, every field inside"""
        out = {phi}
        if self.I.ty.cat(qt) == 'struct':
            for k, t in self.I.ty.fields(qt) or []:
                out |= self.sub(k, t)
        return out

    def lhs(self, tu, n, refs, w, depth=0, top=False):
        """fields written by assigning to lvalue n"""
        if depth > 30:
            return
        k = n.k
        if k == 'MemberExpr':
            key = self.key(tu, n)
            if key:
                w |= self.sub(key, n.qt)
            elif n.name in ('first', 'second', ''):
                if n.i:
                    self.lhs(tu, n.i[0], refs, w, depth + 1)
            return
        if k == 'DeclRefExpr':
            i = n.d['referencedDecl'].get('id')
            if i in refs:
                e, kind = refs[i]
                if kind == 'copy' or kind == 'ptr' and top:
                    return      # a local of its own
                refs = {a: b for a, b in refs.items() if a != i}
                self.lhs(tu, e, refs, w, depth + 1)
            elif n.d['referencedDecl'].get('kind') == 'ParmVarDecl':
                w.add(('param', i))
            return
        if k in PASS or k == 'UnaryOperator' or k == 'ArraySubscriptExpr' or k == 'ConditionalOperator':
            for c in n.i:
                self.lhs(tu, c, refs, w, depth + 1, top and k in PASS)
            return
        if k == 'CXXOperatorCallExpr' and len(n.i) > 1:
            self.lhs(tu, n.i[1], refs, w, depth + 1)
            if self.I.ty.cat(n.qt) == 'struct' and self.I.ty.norm(n.qt).startswith(('craft::', 'raftpb::')):
                for kk, t in self.I.ty.fields(n.qt) or []:
                    w |= self.sub(kk, t)
            return
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            m = n.i[0]
            while m.k in PASS and m.i:
                m = m.i[0]
            if m.k == 'MemberExpr' and m.i:
                f = front.callee(self.P, tu, m.d.get('referencedMemberDecl'))
                if f is not None:
                    # accessor returning a reference/pointer: fields it mentions in its returns
                    for x in f.body.walk():
                        if x.k == 'ReturnStmt' and x.i:
                            self.lhs(f.tu, x.i[0], {}, w, depth + 1)
                else:
                    self.lhs(tu, m.i[0], refs, w, depth + 1)
            elif k == 'CallExpr' and n.d.get('valueCategory') == 'lvalue':
                for a in n.i[1:]:
                    if a.d.get('valueCategory') == 'lvalue':
                        self.lhs(tu, a, refs, w, depth + 1)

    def analyse(self, f):
        if f.node.id in self.local and self.local[f.node.id][0] is f:
            return self.local[f.node.id][1]
        self.local[f.node.id] = (f, None)       # in progress
        P, tu = self.P, f.tu
        r, w, calls = set(), set(), []
        refs = {}
        body = [f.body] + list(f.inits)
        for b in body:
            for n in b.walk():
                if n.k == 'VarDecl' and n.i:
                    q = (n.d.get('type') or {}).get('qualType', '')
                    if q.rstrip().endswith(('&', '*')) or 'iterator' in n.qt.lower() or q.startswith('auto'):
                        kind = 'ref' if q.rstrip().endswith('&') else 'ptr'
                        if kind == 'ptr' and not n.qt.rstrip().endswith('*') and not re.search(r'[iI]terator|_ptr<|optional<', n.qt):
                            kind = 'copy'
                        refs[n.id] = (n.i[-1], kind)
                elif n.k == 'DecompositionDecl' and n.i:
                    for x in n.i:
                        if x.k == 'BindingDecl':
                            refs[x.id] = (n.i[-1] if n.i[-1].k != 'BindingDecl' else n.i[0], 'ref')
        for ini in f.inits:
            a = ini.d.get('anyInit')
            if a:
                ent = P.decl.get((tu, a['id']))
                if ent and ent[0] == 'field' and False:     # initialises a fresh object
                    w |= self.sub(ent[1][7:] if ent[1].startswith('craft::') else ent[1], ent[2].qt)
        for b in body:
            for n in b.walk():
                k = n.k
                if k == 'MemberExpr':
                    key = self.key(tu, n)
                    if key:
                        r.add(key)
                elif k == 'BinaryOperator' and n.d.get('opcode') == '=' or k == 'CompoundAssignOperator':
                    self.lhs(tu, n.i[0], refs, w, top=True)
                elif k == 'UnaryOperator' and n.d.get('opcode') in ('++', '--'):
                    self.lhs(tu, n.i[0], refs, w, top=True)
                elif k == 'CXXOperatorCallExpr':
                    if len(n.i) > 1 and n.i[1].k == 'DeclRefExpr' and n.i[1].d['referencedDecl'].get('kind') == 'ParmVarDecl' and \
                            'shared_ptr<craft::Progress>' in n.i[1].qt:
                        w.add('ProgressTracker::progress_')     # a visitor replacing the entry it was handed
                    c = n.i[0]
                    while c.k in PASS and c.i:
                        c = c.i[0]
                    nm = c.d.get('referencedDecl', {}).get('name', '') if c.k == 'DeclRefExpr' else ''
                    f2 = front.callee(P, tu, c.d['referencedDecl'].get('id')) if c.k == 'DeclRefExpr' else None
                    if f2 is not None:
                        calls.append(f2)
                    if nm in ('operator=', 'operator+=', 'operator++', 'operator--') and len(n.i) > 1:
                        self.lhs(tu, n.i[1], refs, w, top=True)
                    if nm == 'operator[]' and f.q != 'craft::ProgressTracker::Visit' and self.I.ty.cat(n.i[1].qt) == 'map':
                        self.lhs(tu, n.i[1], refs, w)
                    if nm == 'operator()' and len(n.i) > 1:
                        # a callable kept in a field may be anything whose address is taken; the body of a
                        # lambda handed to a local or a parameter belongs to the function that writes it
                        o = n.i[1]
                        while o.k in PASS and o.i:
                            o = o.i[0]
                        if o.k != 'DeclRefExpr':
                            calls.append('*')
                elif k == 'CXXMemberCallExpr':
                    m = n.i[0]
                    while m.k in PASS and m.i:
                        m = m.i[0]
                    if m.k != 'MemberExpr':
                        continue
                    f2 = front.callee(P, tu, m.d.get('referencedMemberDecl'))
                    if f2 is not None:
                        calls.append(f2)
                        self.refargs(f2, n.i[1:], tu, refs, w, calls)
                        continue
                    if P.decl.get((tu, m.d.get('referencedMemberDecl'))):
                        continue            # pure virtual
                    nm = m.name
                    if nm in MUT and m.i:
                        self.lhs(tu, m.i[0], refs, w)
                    # protobuf accessors
                    for pre in ('set_', 'mutable_', 'add_', 'clear_', 'release_'):
                        if nm.startswith(pre):
                            phi = 'pb.' + nm[len(pre):]
                            if phi in self.I.ftype:
                                w |= self.sub(phi, self.I.ftype[phi])
                    if nm in ('CopyFrom', 'Clear', 'MergeFrom', 'ParseFromString', 'Swap') and m.i:
                        q = m.i[0].qt
                        q = self.I.ty.elem(q) if q.rstrip().endswith('*') else q
                        for kk, t in self.I.ty.fields(q) or []:
                            w |= self.sub(kk, t)
                        self.lhs(tu, m.i[0], refs, w)
                    p2 = 'pb.' + (nm[:-5] if nm.endswith('_size') else nm[4:] if nm.startswith('has_') else nm)
                    if p2 in self.I.ftype:
                        r.add(p2)
                elif k == 'CallExpr':
                    c = n.i[0]
                    while c.k in PASS and c.i:
                        c = c.i[0]
                    if c.k == 'DeclRefExpr':
                        f2 = front.callee(P, tu, c.d['referencedDecl'].get('id'))
                        if f2 is not None:
                            calls.append(f2)
                            self.refargs(f2, n.i[1:], tu, refs, w, calls)
                        elif c.d['referencedDecl'].get('name') in ('sort', 'swap', 'reverse', 'fill', 'remove_if', 'stable_sort', 'unique'):
                            for a in n.i[1:]:
                                self.lhs(tu, a, refs, w)
                    else:
                        calls.append('*')
                elif k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    q = self.I.ty.norm(n.qt)
                    if q in P.records:
                        c = self.I.find_ctor(q, (n.d.get('ctorType') or {}).get('qualType', ''))
                        if c is not None:
                            calls.append(c)
        res = (r, w, calls)
        self.local[f.node.id] = (f, res)
        return res

    def refargs(self, f2, args, tu, refs, w, calls=None):
        for p, a in zip(f2.params, args):
            for y in a.walk():
                if y.k == 'UnaryOperator' and y.d.get('opcode') == '&' and y.i and y.i[0].k == 'DeclRefExpr':
                    g = front.callee(self.P, tu, y.i[0].d['referencedDecl'].get('id'))
                    if g is not None and calls is not None:
                        calls.append(g)
            q = p.qt.rstrip()
            if q.endswith('&') and not q.startswith('const') and not q.endswith('&&'):
                x = self.analyse(f2)
                if x is None or ('param', p.id) in x[1]:
                    self.lhs(tu, a, refs, w)

    def targets(self):
        """functions whose address is taken, and lambdas are part of their enclosing function"""
        if self._targets is None:
            t = []
            for l in self.P.funcs.values():
                for f in l:
                    for n in f.body.walk():
                        if n.k == 'UnaryOperator' and n.d.get('opcode') == '&' and n.i and n.i[0].k == 'DeclRefExpr':
                            g = front.callee(self.P, f.tu, n.i[0].d['referencedDecl'].get('id'))
                            if g is not None and g not in t:
                                t.append(g)
            self._targets = t
        return self._targets

    def of(self, f):
        r = self.closed.get(f.q + f.sig)
        if r is not None:
            return r
        seen, work = set(), [f]
        R, W = set(), set()
        while work:
            g = work.pop()
            if g == '*':
                if '*' in seen:
                    continue
                seen.add('*')
                work.extend(self.targets())
                continue
            if id(g) in seen:
                continue
            seen.add(id(g))
            r, w, c = self.analyse(g)
            R |= r
            W |= {x for x in w if isinstance(x, str)}
            work.extend(c)
        self.closed[f.q + f.sig] = (frozenset(R), frozenset(W))
        return self.closed[f.q + f.sig]

    def whole(self, f):
        """record types some function reached from f uses as a whole (copies, hands to a library function)"""
        r = self._whole.get(id(f))
        if r is not None:
            return r
        seen, work, out = set(), [f], set()
        while work:
            g = work.pop()
            if g == '*':
                work.extend(self.targets() if '*' not in seen else ())
                seen.add('*')
                continue
            if id(g) in seen:
                continue
            seen.add(id(g))
            work.extend(self.analyse(g)[2])
            par = parents(g.body)
            for n in g.body.walk():
                if n.k not in ('DeclRefExpr', 'MemberExpr', 'CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'UnaryOperator',
                               'CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                    continue
                t = self.I.ty.norm(n.qt)
                if t.endswith('*'):
                    t = t[:-1].strip()
                if t not in self.P.records or t in out:
                    continue
                p, c = par.get(id(n)), n
                while p is not None and p.k in PASS:
                    p, c = par.get(id(p)), p
                if p is None or p.k == 'MemberExpr' or p.k == 'CompoundStmt':
                    continue
                if p.k in ('CXXMemberCallExpr', 'CallExpr') and p.i[0] is not c:
                    m = p.i[0]
                    while m.k in PASS and m.i:
                        m = m.i[0]
                    h = front.callee(self.P, g.tu, m.d.get('referencedMemberDecl') or m.d.get('referencedDecl', {}).get('id'))
                    j = next((i for i, a in enumerate(p.i[1:]) if a is c), None)
                    if h is not None and j is not None and j < len(h.params) and h.params[j].qt.rstrip().endswith('&'):
                        continue
                out.add(t)
        self._whole[id(f)] = out
        return out

    def never_written(self, node):
        """no function uses this static variable in a way that can change it"""
        if self._gw is None:
            g = set()
            for l in self.P.funcs.values():
                for f in l:
                    par = None
                    for n in f.body.walk():
                        if n.k == 'DeclRefExpr':
                            rd = n.d.get('referencedDecl', {})
                            if rd.get('kind') != 'VarDecl':
                                continue
                            nm = rd.get('name')
                        elif n.k == 'MemberExpr' and self.P.decl.get((f.tu, n.d.get('referencedMemberDecl')), ('',))[0] == 'var':
                            nm = n.name
                        else:
                            continue
                        if nm in g:
                            continue
                        e = self.P.decl.get((f.tu, rd.get('id'))) if n.k == 'DeclRefExpr' else True
                        if not e and rd.get('id') not in self.staticlocals(f):
                            continue
                        if par is None:
                            par = parents(f.body)
                        if changing_use(par, n):
                            g.add(nm)
            self._gw = g
        return node.name not in self._gw

    def staticlocals(self, f):
        r = self._sl.get(id(f))
        if r is None:
            r = self._sl[id(f)] = {v.id for v in f.body.walk() if v.k == 'VarDecl' and v.d.get('storageClass') == 'static'}
        return r
