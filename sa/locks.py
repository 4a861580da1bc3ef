"""Lock discipline of a class that owns a mutex (lockset analysis over the typed syntax tree).

For every public method the statements are walked with the set of locks held (none / shared / exclusive per mutex
member); methods of the class that it calls are walked in the calling context.  A data member that some method other
than the constructor changes is guarded: all its accesses must hold one common mutex, and the changing ones exclusively.
"""
import re
from . import front
from .effects import MUT, PASS

MUTEX = re.compile(r'\bstd::(recursive_|timed_|recursive_timed_)?(shared_(timed_)?)?mutex\b')
GUARD = re.compile(r'\bstd::(lock_guard|unique_lock|scoped_lock|shared_lock)\b')
NONE, SHARED, EXCL = 0, 1, 2
PROTOMUT = ('set_', 'mutable_', 'add_', 'clear_', 'release_')
MUTALL = MUT | {'CopyFrom', 'MergeFrom', 'Clear', 'Swap', 'ParseFromString', 'ParseFromArray', 'operator=', 'store', 'exchange', 'DeleteSubrange', 'RemoveLast', 'Add'}


OUTPUT = {'printf', 'vprintf', 'puts', 'fputs', 'putchar', 'fprintf', 'vfprintf', 'fwrite', 'putc', 'fputc'}


class Unknown(Exception):
    pass


class State:
    """held: mutex field -> level; guards: variable id -> (mutex, level, on)"""

    def __init__(self, held=None, guards=None, alias=None, dead=False):
        self.held, self.guards, self.alias, self.dead = dict(held or {}), dict(guards or {}), dict(alias or {}), dead

    def copy(self):
        return State(self.held, self.guards, self.alias, self.dead)

    def meet(self, o):
        if self.dead:
            return o
        if o.dead:
            return self
        h = {m: min(l, o.held.get(m, 0)) for m, l in self.held.items()}
        g = {}
        for i, x in self.guards.items():
            y = o.guards.get(i)
            if y is not None:
                g[i] = x[:2] + (x[2] and y[2],)
        a = dict(self.alias)
        a.update(o.alias)
        return State(h, g, a)

    def level(self):
        r = dict(self.held)
        for m, l, on in self.guards.values():
            if on and m is not None:
                r[m] = max(r.get(m, 0), l)
        return r


class Class:
    def __init__(self, P, q):
        self.P, self.q = P, q
        R = P.records[q]
        self.mutexes, self.fields = [], {}
        for c in R.fields:
            if MUTEX.search(c.qt) and not GUARD.search(c.qt):
                self.mutexes.append(c.name)
            else:
                self.fields[c.name] = c
        self.acc = []           # (field, write, levels, function, line, path)
        self.dead = []          # self deadlocks
        self.unknown = {}       # root -> reason
        self.paths = 0
        self.methods = [f for l in P.funcs.values() for f in l if f.cls == q]
        self.stack = []

    # ------------------------------------------------------------------ expressions
    def strip(self, n):
        while n.k in PASS and n.i:
            n = n.i[0]
        return n

    def member(self, tu, n):
        """field name when n is this->field of the class"""
        if n.k == 'MemberExpr' and n.i:
            ent = self.P.decl.get((tu, n.d.get('referencedMemberDecl')))
            b = self.strip(n.i[0])
            if ent and ent[0] == 'field' and ent[1].startswith(self.q + '::') and b.k == 'CXXThisExpr':
                return ent[1][len(self.q) + 2:]
        return None

    def access(self, f, n, field, write, st):
        self.acc.append((field, write, st.level(), f, n.line, tuple(g.name for g in self.stack)))

    def root(self, f, n, st):
        """the guarded object an lvalue expression designates: field names"""
        n = self.strip(n)
        m = self.member(f.tu, n)
        if m is not None:
            return [m]
        if n.k == 'DeclRefExpr':
            return list(st.alias.get(n.d['referencedDecl'].get('id'), ()))
        if n.k in ('MemberExpr', 'UnaryOperator', 'ArraySubscriptExpr') and n.i:
            return self.root(f, n.i[0], st)
        if n.k == 'ConditionalOperator':
            return self.root(f, n.i[1], st) + self.root(f, n.i[2], st)
        if n.k == 'CXXOperatorCallExpr' and len(n.i) > 1:
            return self.root(f, n.i[1], st)
        if n.k == 'CXXMemberCallExpr' and n.i:
            c = self.strip(n.i[0])
            if c.k == 'MemberExpr' and c.i:
                return self.root(f, c.i[0], st)
        return []

    def expr(self, f, n, st):
        k = n.k
        if k is None:
            return
        if k == 'LambdaExpr':
            for x in n.walk():
                if self.member(f.tu, x) is not None:
                    raise Unknown('%s:%s: a lambda uses %s' % (f.q, n.line, x.name))
            return
        if k == 'BinaryOperator' and n.d.get('opcode') == '=' or k == 'CompoundAssignOperator':
            self.expr(f, n.i[1], st)
            self.expr(f, n.i[0], st)
            for r in self.root(f, n.i[0], st):
                self.access(f, n, r, True, st)
            return
        if k == 'UnaryOperator' and n.d.get('opcode') in ('++', '--'):
            for r in self.root(f, n.i[0], st):
                self.access(f, n, r, True, st)
        if k in ('ConditionalOperator',) or k == 'BinaryOperator' and n.d.get('opcode') in ('&&', '||'):
            self.expr(f, n.i[0], st)
            for c in n.i[1:]:
                s2 = st.copy()
                self.expr(f, c, s2)
                m = st.meet(s2)
                st.held, st.guards = m.held, m.guards
            return
        if k == 'CXXOperatorCallExpr':
            c = self.strip(n.i[0])
            nm = c.d.get('referencedDecl', {}).get('name', '') if c.k == 'DeclRefExpr' else ''
            for a in n.i[1:]:
                self.expr(f, a, st)
            if nm in ('operator=', 'operator+=', 'operator-=', 'operator++', 'operator--', 'operator|=') and len(n.i) > 1:
                o = self.strip(n.i[1])
                if o.k == 'DeclRefExpr' and o.d['referencedDecl'].get('id') in st.guards and nm == 'operator=':
                    raise Unknown('%s:%s: a guard is reassigned' % (f.q, n.line))
                if not (o.k == 'DeclRefExpr' and self.rebinds(o)):
                    for r in self.root(f, n.i[1], st):
                        self.access(f, n, r, True, st)
            return
        if k == 'CXXMemberCallExpr':
            c = self.strip(n.i[0])
            for a in n.i[1:]:
                self.expr(f, a, st)
            if c.k != 'MemberExpr' or not c.i:
                self.expr(f, c, st)
                return
            o = self.strip(c.i[0])
            m = self.member(f.tu, o)
            if m in self.mutexes:
                self.mutexcall(f, n, m, c.name, st)
                return
            if o.k == 'DeclRefExpr' and o.d['referencedDecl'].get('id') in st.guards:
                i = o.d['referencedDecl'].get('id')
                mx, lv, on = st.guards[i]
                if c.name in ('lock',):
                    self.acquire(f, n, mx, lv, st)
                    st.guards[i] = (mx, lv, True)
                elif c.name in ('unlock', 'release'):
                    st.guards[i] = (mx, lv, False)
                elif c.name in ('owns_lock', 'mutex', 'operator bool'):
                    pass
                else:
                    raise Unknown('%s:%s: guard.%s' % (f.q, n.line, c.name))
                return
            if o.k == 'CXXThisExpr':
                g = front.callee(self.P, f.tu, c.d.get('referencedMemberDecl'))
                if g is not None and g.cls == self.q:
                    self.call(g, st, n)
                    return
            self.expr(f, c.i[0], st)
            if c.name in MUTALL or c.name.startswith(PROTOMUT):
                for r in self.root(f, c.i[0], st):
                    self.access(f, n, r, True, st)
            return
        if k == 'CallExpr' and n.i:
            c = self.strip(n.i[0])
            nm = c.d.get('referencedDecl', {}).get('name', '') if c.k == 'DeclRefExpr' else ''
            g = front.callee(self.P, f.tu, c.d['referencedDecl'].get('id')) if c.k == 'DeclRefExpr' else None
            for a in n.i[1:]:
                x = self.strip(a)
                if self.member(f.tu, x) in self.mutexes:
                    raise Unknown('%s:%s: the mutex is passed to %s' % (f.q, n.line, nm))
                self.expr(f, a, st)
            if g is not None and g.cls == self.q:
                self.call(g, st, n)
                return
            if nm in OUTPUT:
                self.access(f, n, 'stdout', True, st)
            for j, a in enumerate(n.i[1:]):
                w = nm in ('swap', 'move', 'exchange', 'sort', 'reverse', 'iter_swap', 'rotate', 'fill')
                if g is not None and j < len(g.params):
                    q = g.params[j].qt.rstrip()
                    w = q.endswith('&') and not q.startswith('const')
                if w and not a.qt.startswith('const '):
                    for r in self.root(f, a, st):
                        self.access(f, n, r, True, st)
            return
        m = self.member(f.tu, n)
        if m is not None:
            if m in self.mutexes:
                raise Unknown('%s:%s: the mutex is used in a way not modelled' % (f.q, n.line))
            self.access(f, n, m, False, st)
            return
        if k == 'DeclRefExpr':
            for r in st.alias.get(n.d['referencedDecl'].get('id'), ()):
                self.access(f, n, r, False, st)
            return
        for c in n.i:
            self.expr(f, c, st)

    def rebinds(self, o):
        q = o.qt
        return not q.rstrip().endswith('&') and ('terator' in q or q.rstrip().endswith('*'))

    def mutexcall(self, f, n, m, name, st):
        if name in ('lock', 'lock_shared'):
            self.acquire(f, n, m, EXCL if name == 'lock' else SHARED, st)
            st.held[m] = EXCL if name == 'lock' else SHARED
        elif name in ('unlock', 'unlock_shared'):
            st.held[m] = NONE
        else:
            raise Unknown('%s:%s: %s' % (f.q, n.line, name))

    def acquire(self, f, n, m, lv, st):
        fld = next((c for c in self.P.records[self.q].fields if c.name == m), None)
        if fld is not None and 'recursive' in fld.qt:
            return
        if st.level().get(m, 0):
            self.dead.append((m, f, n.line, tuple(g.name for g in self.stack)))

    def guardof(self, f, v, st):
        """(mutex, level, on) of a guard variable declaration"""
        q = v.qt
        lv = SHARED if 'std::shared_lock' in q else EXCL
        if not v.i:
            return (None, lv, False)
        init = v.i[-1]
        ms = [(self.member(f.tu, x)) for x in init.walk()]
        ms = [m for m in ms if m in self.mutexes]
        txt = {x.d.get('referencedDecl', {}).get('name') for x in init.walk()}
        if 'adopt_lock' in txt:
            raise Unknown('%s:%s: adopt_lock' % (f.q, v.line))
        on = not (txt & {'defer_lock', 'try_to_lock'})
        if len(ms) == 1:
            return (ms[0], lv, on)
        if len(ms) > 1:
            raise Unknown('%s:%s: several mutexes' % (f.q, v.line))
        # a method that returns the guard
        x = self.strip(init)
        while x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(x.i) == 1:
            x = self.strip(x.i[0])
        if x.k == 'CXXMemberCallExpr':
            c = self.strip(x.i[0])
            g = front.callee(self.P, f.tu, c.d.get('referencedMemberDecl')) if c.k == 'MemberExpr' else None
            if g is not None and g.cls == self.q:
                found = None
                body = [s for s in g.body.i]
                if len(body) == 1 and body[0].k == 'ReturnStmt' and body[0].i:
                    mm = [self.member(g.tu, y) for y in body[0].walk()]
                    mm = [m for m in mm if m in self.mutexes]
                    if len(mm) == 1 and not any(y.d.get('referencedDecl', {}).get('name') in ('defer_lock', 'try_to_lock') for y in body[0].walk()):
                        found = mm[0]
                if found:
                    return (found, lv, True)
                raise Unknown('%s:%s: a guard from %s' % (f.q, v.line, g.name))
        if not v.i or init.k in ('CXXConstructExpr',) and not init.i:
            return (None, lv, False)
        raise Unknown('%s:%s: a guard of unknown origin' % (f.q, v.line))

    # ------------------------------------------------------------------ statements
    def decl(self, f, v, st):
        if v.k == 'DecompositionDecl' or v.k == 'VarDecl':
            t = (v.d.get('type') or {}).get('qualType', '')
            if GUARD.search(v.qt) or GUARD.search(t):
                if 'optional' in v.qt or '_ptr<' in v.qt or '*' in v.qt:
                    raise Unknown('%s:%s: a guard held indirectly' % (f.q, v.line))
                g = self.guardof(f, v, st)
                if g[2]:
                    self.acquire(f, v, g[0], g[1], st)
                st.guards[v.id] = g
                return
            for c in v.i:
                if c.k != 'BindingDecl':
                    self.expr(f, c, st)
            q = t.rstrip()
            if v.i and (q.endswith('&') or 'terator' in v.qt or q.endswith('*')):
                init = [c for c in v.i if c.k != 'BindingDecl'][-1:]
                r = [x for x in (self.root(f, init[0], st) if init else []) if x not in self.mutexes]
                if r:
                    st.alias[v.id] = tuple(r)
                    for b in v.i:
                        if b.k == 'BindingDecl':
                            st.alias[b.id] = tuple(r)
            return

    def block(self, f, n, st):
        """a scope: guards declared inside end with it"""
        before = set(st.guards)
        st = self.stmts(f, n.i, st)
        for i in list(st.guards):
            if i not in before:
                del st.guards[i]
        return st

    def stmts(self, f, l, st):
        for s in l:
            if st.dead and s.k not in ('CaseStmt', 'DefaultStmt', 'LabelStmt'):
                break
            st = self.stmt(f, s, st)
        return st

    def stmt(self, f, n, st):
        k = n.k
        if k is None or k == 'NullStmt':
            return st
        if k == 'CompoundStmt':
            return self.block(f, n, st)
        if k == 'DeclStmt':
            for v in n.i:
                self.decl(f, v, st)
            return st
        if k == 'IfStmt':
            before = set(st.guards)
            parts = [c for c in n.i]
            els = n.d.get('hasElse')
            e = parts.pop() if els else None
            t = parts.pop()
            for c in parts:
                if c.k == 'DeclStmt':
                    st = self.stmt(f, c, st)
                elif c.k is not None:
                    self.expr(f, c, st)
            a = self.block(f, _blk(t), st.copy())
            b = self.block(f, _blk(e), st.copy()) if e is not None else st
            st = a.meet(b)
            for i in list(st.guards):
                if i not in before:
                    del st.guards[i]
            return st
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            before = set(st.guards)
            entry = st
            for _ in range(2):
                s = entry.copy()
                for c in n.i:
                    if c.k is None:
                        continue
                    if c.k.endswith('Stmt'):
                        s = self.stmt(f, c, s)
                        if s.dead:
                            s = entry.copy()
                    else:
                        self.expr(f, c, s)
                for i in list(s.guards):
                    if i not in before:
                        del s.guards[i]
                entry = entry.meet(s)
            return entry
        if k == 'SwitchStmt':
            body = n.i[-1]
            for c in n.i[:-1]:
                if c.k is None:
                    continue
                if c.k == 'DeclStmt':
                    st = self.stmt(f, c, st)
                else:
                    self.expr(f, c, st)
            out = st.copy()
            cur = State(dead=True)
            for c in body.i:
                x = c
                while x.k in ('CaseStmt', 'DefaultStmt'):
                    cur = st.copy().meet(cur) if not cur.dead else st.copy()
                    x = x.i[-1]
                if x.k == 'BreakStmt':
                    out = out.meet(cur)
                    cur = State(dead=True)
                    continue
                if not cur.dead:
                    if any(y.k == 'BreakStmt' for y in x.walk()):
                        out = out.meet(cur)
                    cur = self.stmt(f, x, cur)
            return out.meet(cur) if not cur.dead else out
        if k in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'GotoStmt'):
            for c in n.i:
                self.expr(f, c, st)
            if k == 'ReturnStmt':
                return State(dead=True)
            if k == 'GotoStmt':
                raise Unknown('goto')
            return st
        if k in ('CaseStmt', 'DefaultStmt', 'LabelStmt', 'AttributedStmt'):
            return self.stmt(f, n.i[-1], st)
        if k == 'CXXTryStmt':
            raise Unknown('try')
        x = self.strip(n)
        if GUARD.search(x.qt) and x.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'CXXFunctionalCastExpr', 'CXXUnresolvedConstructExpr'):
            return st           # a guard that ends with the statement
        self.expr(f, n, st)
        return st

    def call(self, g, st, n):
        if g in self.stack or len(self.stack) > 12:
            raise Unknown('%s is recursive' % g.q)
        self.stack.append(g)
        s = State(st.level())
        out = self.block(g, g.body, s)
        self.stack.pop()
        # explicit lock()/unlock() in the callee changes the caller's state
        if not out.dead and out.held != s.held and False:
            st.held = out.held

    def method(self, f):
        self.stack = [f]
        mark = len(self.acc), len(self.dead)
        try:
            for m in f.body.walk():
                if m.k in ('CXXMemberCallExpr',) and m.i:
                    c = self.strip(m.i[0])
                    g = front.callee(self.P, f.tu, c.d.get('referencedMemberDecl')) if c.k == 'MemberExpr' else None
                    if g is not None and g.cls == self.q and any(
                            self.strip(y.i[0]).k == 'MemberExpr' and self.strip(y.i[0]).i and self.member(g.tu, self.strip(self.strip(y.i[0]).i[0])) in self.mutexes
                            for y in g.body.walk() if y.k == 'CXXMemberCallExpr' and y.i):
                        raise Unknown('%s locks by hand' % g.q)
            self.block(f, f.body, State())
            self.paths += 1
        except Unknown as e:
            del self.acc[mark[0]:]
            del self.dead[mark[1]:]
            self.unknown[f.q] = str(e)


def _blk(n):
    if n.k == 'CompoundStmt':
        return n
    return front.N('CompoundStmt', [n], {}, n.line, n.file)


def analyse(P, q, roots):
    """roots(f) -> is f called from outside"""
    C = Class(P, q)
    for f in sorted((f for f in C.methods if f.kind == 'CXXMethodDecl' and roots(f)), key=lambda f: (f.file, f.line)):
        C.method(f)
    return C
