"""Reference-summary comparison.

Both the reviewed reference sources (spec/src) and the current tree are parsed by the same front
end and turned into the same kind of guarded value-flow summaries; two summaries agree when every
jointly feasible pair of rows gives every persistent location, the result and the outcome equal
terms.  Calls are modular: a callee that exists on both sides under the same signature is an
uninterpreted function of its arguments and of the fields it reads (the effects are those of the
reference), because its own body is compared separately.
"""
import hashlib, re, time
from . import front, eng
from .terms import *
from . import terms as TM
EMPTYC = eng.EMPTYC

SKIPK = {'FullComment', 'ParagraphComment', 'TextComment'}


def norm_type(q):
    q = re.sub(r'\(lambda at [^)]*\)', '(lambda)', q)
    q = re.sub(r'\(unnamed (\w+) at [^)]*\)', r'(unnamed \1)', q)
    return q


def ast_hash(n, P, tu, seen=None):
    """digest of a function's typed syntax tree, ignoring positions and node identities"""
    h = hashlib.sha1()
    names = {}

    def go(n):
        d = n.d
        k = n.k
        if k is None or k in SKIPK:
            h.update(b'.')
            return
        h.update(b'(' + k.encode())
        t = d.get('type')
        if t:
            h.update(norm_type(t.get('desugaredQualType') or t.get('qualType') or '').encode())
        for f in ('name', 'opcode', 'castKind', 'value', 'isPostfix', 'isArrow', 'valueCategory', 'isReferenceTypename', 'storageClass',
                  'argType', 'ctorType', 'kind', 'hasElse', 'init', 'list', 'constexpr', 'mutable'):
            v = d.get(f)
            if v is not None:
                if isinstance(v, dict):
                    v = norm_type(v.get('desugaredQualType') or v.get('qualType') or '')
                h.update(('|%s=%s' % (f, norm_type(v) if isinstance(v, str) and '(lambda' in v else v)).encode())
        r = d.get('referencedDecl')
        if r:
            h.update(('|r=%s:%s:%s' % (r.get('kind'), norm_type(str(r.get('name'))), norm_type((r.get('type') or {}).get('qualType', '')))).encode())
            if r.get('kind') == 'EnumConstantDecl' and r.get('name') in P.enums:
                h.update(('=%s' % P.enums[r['name']]).encode())
            if r.get('kind') == 'VarDecl':
                e = P.decl.get((tu, r.get('id')))
                if e and e[0] == 'var' and e[1] not in names:
                    names[e[1]] = 1
                    g = P.globals.get(e[1])
                    if g is not None:
                        h.update(b'|g:')
                        go(g)
        m = d.get('referencedMemberDecl')
        if m:
            e = P.decl.get((tu, m))
            if e:
                h.update(('|m=%s' % (norm_type(str(e[1])),)).encode())
        a = d.get('anyInit')
        if a:
            h.update(('|i=%s' % a.get('name')).encode())
        if d.get('baseInit'):
            h.update(('|b=%s' % d['baseInit'].get('qualType')).encode())
        for c in n.i:
            go(c)
        h.update(b')')
    go(n)
    return h


def fn_hash(P, f):
    h = ast_hash(f.node, P, f.tu)
    if f.kind == 'CXXConstructorDecl' and f.cls in P.records:
        R = P.records[f.cls]
        for c in R.fields:
            h.update(('F:%s' % c.name).encode())
            h.update(ast_hash(c, P, R.tu).hexdigest().encode())
    return h.hexdigest()


def align(ref, cur):
    """A data member that only changed its name gets the reference's name. A record qualifies when the members it lost
    and the members it gained have the same types, told apart by type and, within a type, by order.
    -> the renamed members (a difference that involves one is not reported, see equiv.World.unreliable)"""
    ren = {}
    for q, R in ref.records.items():
        C = cur.records.get(q)
        if C is None or not q.startswith('craft::'):
            continue
        a, b = [c.name for c in R.fields], [c.name for c in C.fields]
        lost, got = {}, {}
        for c in R.fields:
            if c.name not in b:
                lost.setdefault(norm_type(c.qt), []).append(c.name)
        for c in C.fields:
            if c.name not in a:
                got.setdefault(norm_type(c.qt), []).append(c.name)
        if not lost or {t: len(v) for t, v in lost.items()} != {t: len(v) for t, v in got.items()}:
            continue
        for t in lost:
            for x, y in zip(lost[t], got[t]):
                ren[q + '::' + y] = x
    if not ren:
        return set()
    for key, e in list(cur.decl.items()):
        if e[0] == 'field' and e[1] in ren:
            nm = ren[e[1]]
            e[2].d['name'] = nm
            cur.decl[key] = ('field', e[1].rsplit('::', 1)[0] + '::' + nm, e[2])
    for q, nm in ren.items():
        if q in cur.access:
            cur.access[q.rsplit('::', 1)[0] + '::' + nm] = cur.access.pop(q)
    ids = {key: e[2].d['name'] for key, e in cur.decl.items() if e[0] == 'field'}
    for l in cur.funcs.values():
        for f in l:
            for b in [f.node] + list(f.inits):
                for n in b.walk():
                    m = n.d.get('referencedMemberDecl')
                    if m and (f.tu, m) in ids:
                        n.d['name'] = ids[(f.tu, m)]
                    a = n.d.get('anyInit')
                    if a and (f.tu, a.get('id')) in ids:
                        a['name'] = ids[(f.tu, a['id'])]
    return {(q.rsplit('::', 1)[0] + '::' + nm)[7:] for q, nm in ren.items()}


def callees(P, f):
    """repo functions referenced anywhere in f (calls, binds, address-of, constructors)"""
    out = []
    for b in [f.body] + list(f.inits) + [c for c in f.params]:
        for n in b.walk():
            ids = []
            r = n.d.get('referencedDecl')
            if r and r.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                ids.append(r.get('id'))
            m = n.d.get('referencedMemberDecl')
            if m:
                ids.append(m)
            for i in ids:
                g = front.callee(P, f.tu, i)
                if g is not None:
                    out.append(g)
            if n.k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
                q = norm_type(n.qt).replace('const ', '').strip()
                for g in P.funcs.get(q + '::' + q.split('::')[-1], []):
                    if g.sig == (n.d.get('ctorType') or {}).get('qualType', ''):
                        out.append(g)
            elif n.k in ('CallExpr',):
                # make_shared<T> / make_unique<T>
                q = n.qt
                mm = re.match(r'std::(?:shared_ptr|unique_ptr)<(craft::\w+)', q)
                if mm:
                    c = mm.group(1)
                    out.extend(P.funcs.get(c + '::' + c.split('::')[-1], []))
    return out


class Row:
    __slots__ = ('st', 'ret', 'fatal', 'key', 'qc')

    def __init__(self, st, ret, fatal=None):
        self.st, self.ret, self.fatal, self.qc = st, ret, fatal, None
        self.key = frozenset(st.lits())


class Summary:
    def __init__(self, I, rows, notes, f):
        self.I, self.rows, self.notes, self.f = I, rows, notes, f


def fkey(f):
    return (f.q, tuple(norm_type(p.qt) for p in f.params), f.const, norm_type(f.sig))


def forwarders(side):
    """overloads that only hand their arguments to another overload of the same name"""
    out = set()
    for k, f in side.byk.items():
        same = [g for g in side.P.funcs.get(f.q, ()) if g is not f]
        if not same or f.body is None or f.kind in ('CXXConstructorDecl', 'CXXDestructorDecl'):
            continue
        cs = {c for c in side.callees(k)}
        if len(cs) != 1:
            continue
        c = next(iter(cs))
        if c == k or c[0] != k[0]:
            continue
        ks = {n.k for n in f.body.walk()}
        if ks & {'IfStmt', 'ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'ConditionalOperator',
                 'LambdaExpr', 'BinaryOperator', 'CompoundAssignOperator', 'UnaryOperator'}:
            continue
        out.add(k)
    return frozenset(out)


class Side:
    def __init__(self, P, ref=None):
        self.P = P
        self.renamed = align(ref, P) if ref is not None else set()
        self.byk = {}
        for l in P.funcs.values():
            for f in l:
                self.byk.setdefault(fkey(f), f)
        self.hash = {k: fn_hash(P, f) for k, f in self.byk.items()}
        self.effI = eng.Interp(P)
        self._callees = {}

    def callees(self, k):
        r = self._callees.get(k)
        if r is None:
            r = self._callees[k] = {fkey(g) for g in callees(self.P, self.byk[k])}
        return r


def setup_args(I, f):
    st = eng.St()
    this = mk('this', 'this')
    nodes, vals, args = ['val'] * len(f.params), [], []
    for i, p in enumerate(f.params):
        x = mk('sym', 'arg%d' % i)
        c = I.ty.cat(p.qt)
        I.setsort(x, p.qt)
        args.append(x)
        if p.qt.rstrip().endswith('&') and c != 'struct':
            l = mk('this', '&arg%d' % i)
            st = st.set('$', l, x)
            x = l
        vals.append(x)
    return st, this, nodes, vals, args


def summarise(side, f, opaque=(), effmap=None, anyeff=None, assume=None, budget=60000, pins=None, through=()):
    """-> Summary; assume: function(I, this, args) -> list of conditions on the entry state"""
    I = eng.Interp(side.P, budget=budget, opaque={q: None for q in opaque})
    if through:
        I.through = {id(side.byk[k]) for k in through if k in side.byk}
    I.effmap, I.anyeff = effmap, anyeff
    st, this, nodes, vals, args = setup_args(I, f)
    if pins:
        st = pins(I, st, this, args)
    for c in (assume(I, this, args) if assume else ()):
        st = st.assume(c)
        if st is None:
            raise eng.Broken('contradictory case filter for %s' % f.q)
    rs = I.call(f, this if not f.static and f.cls else None, nodes, vals, st, None)
    rows = [Row(s, v) for s, v in rs]
    rows += [Row(s, None, m) for s, m in I.fatals]
    return Summary(I, rows, set(I.notes), f)


# ------------------------------------------------------------------ equality of values
class Undecided(Exception):
    pass


BINDERS = {'sum', 'coll', 'fold', 'loopv', 'mapall', 'mapseq', 'mappart', 'exists', 'first'}


class Cmp:
    def __init__(self, limit=4000):
        self.limit = limit
        self.n = 0
        self.open = set()      # bound variables of the iterations being compared
        self.fuel = 40000
        self.um = {}
        self.until = time.time() + 60

    def splittable(self, t):
        return not any(z.op in ('bb', 'bv', 'pv') and z not in self.open for z in subterms(t))

    def same(self, F, a, b):
        """a == b under facts F (structural, modulo facts)"""
        if a is b:
            return True
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, (tuple, frozenset)) and isinstance(b, (tuple, frozenset)):
                if len(a) != len(b):
                    return False
                if isinstance(a, frozenset):
                    a, b = sorted(a, key=key_), sorted(b, key=key_)
                return all(self.same(F, x, y) for x, y in zip(a, b))
            return a == b
        a, b = F.canon(a), F.canon(b)
        if a is b:
            return True
        a, b = fold_seq(F, a), fold_seq(F, b)
        if a is b:
            return True
        if (a is EMPTYC or b is EMPTYC) and self.nothing(F, b if a is EMPTYC else a):
            return True
        if a.op == 'ite' or b.op == 'ite':
            raise NeedSplit(a.a[0] if a.op == 'ite' else b.a[0])
        for x in (a, b):
            for y in subterms(x):
                if y.op == 'ite' and self.splittable(y.a[0]):
                    raise NeedSplit(y.a[0])
        if isbool(a) and (isbool(b) or b in (TM.TRUE, TM.FALSE)) or isbool(b) and a in (TM.TRUE, TM.FALSE):
            da, db = F.decide(a), F.decide(b)
            if da is not None and da == db:
                return True
            if self.booleq(F, a, b):
                return True
            if da is None and self.splittable(a):
                raise NeedSplit(a)
            if db is None and self.splittable(b):
                raise NeedSplit(b)
            return False
        try:
            e = TM.eq(a, b)
        except Exception:
            e = None
        if e is not None and F.decide(e) is True:
            return True
        if a.op == b.op and len(a.a) == len(b.a):
            if a.op == 'lin':
                b2 = self.unify(F, a, b)
                return b2 is not b and self.same(F, a, b2)
            if a.op == 'obj':
                da, db = dict(a.a[1]), dict(b.a[1])
                if set(da) != set(db):
                    # a member that holds nothing is not listed
                    for x, y in ((da, db), (db, da)):
                        for k in x:
                            if k not in y:
                                if k.startswith('pb.') and self.scalar(x[k]):
                                    # an unset scalar of a message reads as its default
                                    if not self.same(F, x[k], TM.FALSE if isbool(x[k]) else TM.ZERO):
                                        return False
                                elif not self.nothing(F, x[k]):
                                    return False
                return all(self.same(F, da[k], db[k]) for k in da if k in db)
            if a.op in BINDERS:
                return self.binder(F, a, b)
            if a.op == 'call':
                return a.a[0] == b.a[0] and all(self.same(F, x, y) for x, y in zip(a.a[1:-1], b.a[1:-1])) and self.versions(F, a.a[-1], b.a[-1])
            return all(self.same(F, x, y) for x, y in zip(a.a, b.a))
        return False

    def versions(self, F, xs, ys):
        """what a callee can read, on both sides; a field is listed only when it was written"""
        dx, dy = {v.a[0]: v for v in xs}, {v.a[0]: v for v in ys}
        if len(dx) != len(xs) or len(dy) != len(ys):
            return self.same(F, xs, ys)
        for k in list(dx) + [k for k in dy if k not in dx]:
            x, y = dx.get(k), dy.get(k)
            if x is y:
                continue
            if x is not None and y is not None and len(x.a[2]) == len(y.a[2]) and self.same(F, x, y):
                continue
            x, y = self.effective(F, x), self.effective(F, y)
            if x is None or y is None:
                if x is not y:
                    return False
                continue
            if not self.same(F, x, y):
                return False
        return True

    def effective(self, F, v):
        """a version without the writes that leave the value as it was; None when nothing is left"""
        if v is None:
            return None
        phi, b, ws, lay = v.a
        if not lay:
            keep = []
            for loc, x in ws:
                cell = mk('f', loc, phi)
                old = mk('init', cell) if b is TM.NULL else mk('rv', cell, b)
                if len(ws) > 1 or not self.same(F, old, x):
                    keep.append((loc, x))
            if len(keep) != len(ws):
                ws = tuple(keep)
                v = mk('ver', phi, b, ws, lay)
            if not ws and b is TM.NULL:
                return None
        return v

    @staticmethod
    def scalar(x):
        return isbool(x) or TM.SORT.get(x) in ('u', 'i', 'b') or x.op in ('int', 'lin')

    def nothing(self, F, x):
        """is x, under F, a container without elements"""
        x = fold_seq(F, F.canon(x))
        if x is EMPTYC:
            return True
        if x.op in ('int', 'str', 'some', 'new', 'var', 'obj', 'null') or isbool(x):
            return False
        try:
            return F.decide(TM.eq(eng.len_(x), TM.ZERO)) is True
        except Exception:
            return False

    # -- quantified values: compare one arbitrary iteration
    def binder(self, F, a, b):
        at = next(i for i, x in enumerate(a.a) if isinstance(x, T) and x.op == 'bb' and i >= 2)
        if not (isinstance(b.a[at], T) and b.a[at].op == 'bb'):
            return False
        x, y = a.a[at], b.a[at]
        A, B = a.a, b.a
        if x is not y:
            if x.a[0] < y.a[0]:
                A = self.rename(A, x, y)
                v = y
            else:
                B = self.rename(B, y, x)
                v = x
        else:
            v = x
        if a.op in ('mapall', 'mapseq'):
            K = mk('app', 'len', A[0])
        elif a.op == 'mappart':
            K = A[3]
        else:
            K = A[0]
        body = at - 1
        for i in range(len(A)):
            if i in (body, at):
                continue
            if not self.same(F, A[i], B[i]):
                return False
        G = F
        if K.op != 'inf':
            try:
                G = F.assume(TM.lt(v, K))
            except Exception:
                G = F
        if G is None:
            return True
        self.open.add(v)
        try:
            if isinstance(A[body], tuple):
                return self.rows(G, A[body], B[body])
            return self.booleq(G, A[body], B[body])
        finally:
            self.open.discard(v)

    def rename(self, A, x, y):
        memo = {}
        g = lambda t: TM.subst(t, lambda z: y if z is x else None, memo)
        return tuple(TM._sub_arg(z, g) for z in A)

    def rows(self, F, R1, R2):
        def gd(r):
            return and_(*r[0]) if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], tuple) else None
        if any(gd(r) is None for r in R1 + R2):
            return len(R1) == len(R2) and all(self.same(F, x, y) for x, y in zip(R1, R2))
        if not self.booleq(F, or_(*[gd(r) for r in R1]), or_(*[gd(r) for r in R2])):
            return False
        every = mk('rows', R1)
        g2 = [self.unify(F, every, gd(q)) for q in R2]
        for r in R1:
            for q, gq in zip(R2, g2):
                if r[1] is q[1]:
                    continue
                both = and_(gd(r), gq)
                if both is FALSE or both is not TRUE and self.booleq(F, both, FALSE):
                    continue
                H = F.assume(gd(r))
                H = H and H.assume(gq)
                if H is None:
                    continue
                if not self.local(H, r[1], q[1]):
                    return False
        return True

    def local(self, F, a, b):
        """same(), with case splits on the open iteration handled here"""
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('comparison budget')
        try:
            return self.same(F, a, b)
        except NeedSplit as e:
            c = e.c
            if not any(z in self.open for z in subterms(c)):
                raise
            for p in (c, neg(c)):
                G = F.assume(p)
                if G is None or feasible(G, [60]) is None:
                    continue
                if G is F:
                    return False
                if not self.local(G, a, b):
                    return False
            return True

    def unify(self, F, a, b):
        """give quantified parts of b that mean the same as parts of a the name they have in a"""
        xs, ys = outer(a), outer(b)
        for y in ys:
            if y in xs:
                continue
            for x in xs:
                if x in ys or x.op != y.op:
                    continue
                key = (x, y)
                r = self.um.get(key)
                if r is None or r[0] is not F:
                    if x.op == 'exists' or x.op == 'first':
                        v = self.binder(F, x, y)
                    else:
                        v = self.local(F, x, y)
                    self.um[key] = r = (F, v)
                if r[1]:
                    return TM.subst(b, lambda z: x if z is y else None, {})
        return b

    def booleq(self, F, a, b):
        """equivalence of two conditions under F, by cases on their atoms"""
        a, b = F.canon(a), F.canon(b)
        if a is b:
            return True
        self.fuel -= 1
        if self.fuel < 0:
            raise Undecided('comparison budget')
        if not (isbool(a) or a.op == 'int') or not (isbool(b) or b.op == 'int'):
            return self.same(F, a, b)
        da, db = F.decide(a), F.decide(b)
        if da is not None and db is not None:
            return da == db
        b2 = self.unify(F, a, b)
        if b2 is not b:
            return self.booleq(F, a, b2)
        G = F
        if F.ors:
            G = F.clone()
            G.dmemo = {}
            G.ors = ()
        return self.walk(F, G, a, b)

    def walk(self, F, G, a, b):
        """a and b agree for every assignment of their atoms that the facts allow"""
        if a is b:
            return True
        self.fuel -= 1
        if self.fuel < 0 or time.time() > self.until:
            raise Undecided('comparison budget')
        if a.op == 'int' and b.op == 'int':
            for o in F.ors:
                G = G and G.assume(o)
            return G is None or feasible(G, [400]) is None
        x = (atoms(a) or atoms(b))[0]
        d = G.decide(x)
        for v in (True, False):
            if d is not None and d is not v:
                continue
            H = G if d is not None else G.assume(x if v else neg(x))
            if H is None:
                continue
            t = TRUE if v else FALSE
            if not self.walk(F, H, setatom(a, x, t), setatom(b, x, t)):
                return False
        return True


SEQOPS = {'slice', 'filled', 'cat', 'append', 'coll'}
_hasseq = {}


def hasseq(t):
    r = _hasseq.get(t)
    if r is None:
        r = _hasseq[t] = any(x.op in ('slice', 'filled') for x in subterms(t))
    return r


def fold_seq(F, t):
    """parts of sequences that the facts make empty or complete"""
    if not hasseq(t):
        return t
    if not hasattr(F, 'smemo'):
        F.smemo = {}
    memo = F.smemo

    def go(x):
        if not hasseq(x):
            return x
        r = memo.get(x)
        if r is None:
            r = TM.rebuild(x, go)
            if r.op == 'slice':
                r = part(F, r)
            elif r.op == 'at':
                r = atpart(F, r)
            elif r.op == 'filled' and F.decide(TM.eq(r.a[0], TM.ZERO)) is True:
                r = EMPTYC
            memo[x] = r
        return r
    return go(t)


def atpart(F, t):
    c, i = t.a
    if c.op in ('cat', 'append'):
        n = eng.len_(c.a[0])
        if F.decide(TM.lt(i, n)) is True:
            t = eng.at_(c.a[0], i)
            return atpart(F, t) if t.op == 'at' else t
        if c.op == 'cat' and F.decide(TM.le(n, i)) is True:
            t = eng.at_(c.a[1], TM.sub(i, n))
            return atpart(F, t) if t.op == 'at' else t
    return t


def part(F, t):
    c, lo, hi = t.a
    if F.decide(TM.eq(lo, hi)) is True:
        return EMPTYC
    if c.op == 'empty':
        return t
    if c.op in ('append', 'cat'):
        n = eng.len_(c.a[0])
        if F.decide(TM.le(hi, n)) is True:
            return part(F, eng.slice_(c.a[0], lo, hi)) if eng.slice_(c.a[0], lo, hi).op == 'slice' else eng.slice_(c.a[0], lo, hi)
        m = eng.len_(c)
        if F.decide(TM.le(lo, n)) is True and F.decide(TM.eq(hi, m)) is True:
            x = eng.slice_(c.a[0], lo, n)
            x = part(F, x) if x.op == 'slice' else x
            return eng.append_(x, c.a[1]) if c.op == 'append' else eng.cat_(x, c.a[1])
        if c.op == 'cat' and F.decide(TM.le(n, lo)) is True:
            x = eng.slice_(c.a[1], TM.sub(lo, n), TM.sub(hi, n))
            return part(F, x) if x.op == 'slice' else x
        return t
    if lo is TM.ZERO and F.decide(TM.eq(hi, eng.len_(c))) is True:
        return c
    return t


def setatom(t, x, v):
    if t is x:
        return v
    if t.op == 'not':
        return neg(setatom(t.a[0], x, v))
    if t.op == 'and':
        return and_(*[setatom(y, x, v) for y in t.a])
    if t.op == 'or':
        return or_(*[setatom(y, x, v) for y in t.a])
    return t


def outer(t):
    """outermost quantified subterms"""
    r = _outer.get(t)
    if r is None:
        r, seen, st = [], set(), [t]
        while st:
            x = st.pop()
            if isinstance(x, (tuple, frozenset)):
                st.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                if x.op in BINDERS:
                    r.append(x)
                else:
                    st.extend(x.a)
        _outer[t] = r
    return r


_outer = {}


def atoms(t):
    if t.op in ('and', 'or', 'not'):
        out = []
        for x in t.a:
            for y in atoms(x):
                if y not in out:
                    out.append(y)
        return out
    return [] if t.op == 'int' else [t]


def splittable(t):
    return not any(z.op in ('bb', 'bv', 'pv') for z in subterms(t))


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


def key_(x):
    return x.n if isinstance(x, T) else hash(x)


def joint(A, B):
    """facts of both rows, or None when they exclude each other"""
    F = A.st.facts
    for l in B.st.lits():
        F = F.assume(l)
        if F is None:
            return None
    xs, ys = qcalls(A), qcalls(B)
    if xs != ys:
        for y in ys - xs:
            for x in xs - ys:
                if x.a[0] != y.a[0] or F.canon(x) is F.canon(y) or not samecall(F, x, y):
                    continue
                F = F.assume(mk('eq', x, y))
                if F is None:
                    return None
    return F


_wd = {}


def defined(R):
    """what a row needs to be well defined: the ranges it takes parts of containers from exist"""
    r = _wd.get(id(R))
    if r is not None and r[0] is R:
        return r[1]
    out, seen = [], set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op in ('ite', 'and', 'or') or x.op in BINDERS:
            return
        if x.op == 'slice' and not any(z.op in ('bb', 'bv', 'pv', 'acc') for z in subterms(x)):
            for c in (TM.le(TM.ZERO, x.a[1]), TM.le(x.a[1], x.a[2]), TM.le(x.a[2], eng.len_(x.a[0]))):
                if c.op != 'int' and c not in out:
                    out.append(c)
        if x.op == 'at' and not any(z.op in ('bb', 'bv', 'pv', 'acc', 'ite') for z in subterms(x)):
            for c in (TM.le(TM.ZERO, x.a[1]), TM.lt(x.a[1], eng.len_(x.a[0]))):
                if c.op != 'int' and c not in out:
                    out.append(c)
        for y in x.a:
            go(y)
    for v in [R.ret] + [v for d in R.st.heap.values() for v in d.values()] + list(R.st.base.values()) + list(R.st.lits()):
        go(v)
    _wd[id(R)] = (R, out)
    return out


def welldefined(F, R):
    for c in defined(R):
        F = F and F.assume(c)
    return F


_same = {}


def samecall(F, x, y):
    """two opaque calls with arguments that are written differently but mean the same"""
    r = _same.get((x, y))
    if r is None:
        try:
            r = Cmp().same(TM.Facts(), x, y)
        except (NeedSplit, Undecided):
            r = False
        _same[(x, y)] = r
    if r:
        return True
    try:
        return Cmp().same(F, x, y)
    except (NeedSplit, Undecided):
        return False


def qcalls(R):
    """opaque calls with quantified arguments among the conditions of a row"""
    if R.qc is None:
        R.qc = frozenset(x for l in R.st.lits() for x in subterms(l) if x.op == 'call' and outer(x))
    return R.qc


def feasible(F, budget):
    """can the pending disjunctions be satisfied? -> facts or None"""
    if F is None:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        return F
    o = F.splits()
    if o is None:
        return F
    neg_ = F
    for d in o.a:
        g = neg_.assume(d) if neg_ is not None else None
        if g is not None:
            r = feasible(g, budget)
            if r is not None:
                return r
        neg_ = neg_.assume(neg(d)) if neg_ is not None else None
        if neg_ is None:
            break
    return None


def observables(S, row):
    """persistent cells of a row: {(phi, base): value}, plus versions and layers"""
    I, st = S.I, row.st
    cells = {}
    for phi, d in st.heap.items():
        for b, v in d.items():
            r = b if phi == '$' else I.root(b)
            if r.op in ('new', 'var'):
                continue
            cells[(phi, b)] = v
    return cells


def diff(S1, A, S2, B, F, watch=None, ignore=()):
    """-> None when rows A, B agree under F, else (what, left, right); may raise NeedSplit"""
    return next(diffs(S1, A, S2, B, F, watch, ignore), None)


def alldiffs(S1, A, S2, B, F):
    """-> (locations in which two rows differ under F, enumeration complete?)"""
    out = []
    try:
        for d in diffs(S1, A, S2, B, F):
            out.append(d[0])
    except (NeedSplit, Undecided):
        return out, False
    return out, True


def diffs(S1, A, S2, B, F, watch=None, ignore=()):
    C = Cmp()
    if bool(A.fatal) != bool(B.fatal):
        yield ('outcome', A.fatal or 'returns', B.fatal or 'returns')
        return
    if A.fatal:
        return
    I1, I2 = S1.I, S2.I
    if (A.ret is None) != (B.ret is None):
        yield ('result', A.ret, B.ret)
    elif A.ret is not None and (watch is None or 'ret' in watch):
        a, b = I1.dump(A.st, A.ret), I2.dump(B.st, B.ret)
        if not C.same(F, a, b):
            yield ('result', a, b)
    ca, cb = observables(S1, A), observables(S2, B)
    for k in list(ca) + [k for k in cb if k not in ca]:
        phi, base = k
        if phi in ignore or watch is not None and not watch_ok(watch, phi):
            continue
        va = ca.get(k)
        vb = cb.get(k)
        loc = mk('f', base, phi) if phi != '$' else base
        if va is None:
            va = readcell(I1, A.st, loc)
        if vb is None:
            vb = readcell(I2, B.st, loc)
        if va is vb and not localref(va):
            continue
        a, b = I1.dump(A.st, va), I2.dump(B.st, vb)
        if not C.same(F, a, b):
            yield ((phi, base), a, b)
    for phi in set(A.st.base) | set(B.st.base):
        if phi in ignore or watch is not None and not watch_ok(watch, phi):
            continue
        x, y = A.st.base.get(phi), B.st.base.get(phi)
        if x is y and not localref(x):
            continue
        if x is None or y is None:
            yield ((phi, 'version'), x, y)
            continue
        x, y = dv(I1, A.st, x), dv(I2, B.st, y)
        if not C.same(F, x, y):
            yield ((phi, 'version'), x, y)
    for phi in set(A.st.lay) | set(B.st.lay):
        if phi in ignore or watch is not None and not watch_ok(watch, phi):
            continue
        x, y = A.st.lay.get(phi, ()), B.st.lay.get(phi, ())
        if x == y and not any(localref(z) for l in x for z in l):
            continue
        if len(x) != len(y):
            yield ((phi, 'elements'), x, y)
            continue
        y = list(y)
        for l in x:
            hit = None
            for m in y:
                if C.same(F, tuple(dv(I1, A.st, z) for z in l), tuple(dv(I2, B.st, z) for z in m)):
                    hit = m
                    break
            if hit is None:
                yield ((phi, 'elements'), l, tuple(y))
                break
            y.remove(hit)


def localref(v):
    """does a value point at an object the summarised call created?"""
    return isinstance(v, T) and any(y.op in ('new', 'var', 'clos') for y in subterms(v))


def dv(I, st, z):
    return I.dump(st, z) if isinstance(z, T) else z


def readcell(I, st, loc):
    try:
        return I.read(st, loc)
    except eng.NeedFork as e:
        raise NeedSplit(e.cond)


def watch_ok(watch, phi):
    for w in watch:
        if phi == w or w.endswith('::') and phi.startswith(w):
            return True
    return False


def splitcands(c):
    """a condition to split on, then its parts"""
    yield c
    if c.op in ('and', 'or'):
        for x in c.a:
            yield from splitcands(x)
    elif c.op == 'not':
        yield from splitcands(c.a[0])


def differs(S1, A, S2, B, F, budget, watch, ignore):
    """a feasible difference between two rows: (what, l, r, facts) or None"""
    F = F if F.splits() is None or feasible(F, [200]) is not None else None
    if F is None:
        return None
    budget[0] -= 1
    if budget[0] < 0:
        raise Undecided('case split budget')
    try:
        d = diff(S1, A, S2, B, F, watch, ignore)
    except NeedSplit as e:
        pick = None
        for c in splitcands(e.c):
            if F.assume(c) is not F and F.assume(neg(c)) is not F:
                pick = c
                break
        if pick is None:
            raise Undecided('split does not refine')
        cs = [pick, neg(pick)]
        for c in cs:
            G = F.assume(c)
            if G is None:
                continue
            r = differs(S1, A, S2, B, G, budget, watch, ignore)
            if r:
                return r
        return None
    if d is None:
        return None
    o = F.splits()
    if o is None:
        return d + (F,)
    ng = F
    for x in o.a:
        G = ng.assume(x)
        if G is not None:
            r = differs(S1, A, S2, B, G, budget, watch, ignore)
            if r:
                return r
        ng = ng.assume(neg(x))
        if ng is None:
            break
    return None


def compare(S1, S2, watch=None, ignore=(), budget=20000):
    """first feasible difference between two summaries, or None"""
    bud = [budget]
    left = list(S1.rows)
    right = {}
    for r in S2.rows:
        right.setdefault(r.key, []).append(r)
    un1, un2 = [], []
    used = set()
    for A in left:
        hit = False
        for B in right.get(A.key, ()):
            if id(B) in used or bool(A.fatal) != bool(B.fatal):
                continue
            hit = True
            used.add(id(B))
            F = welldefined(A.st.facts, A)
            d = F and differs(S1, A, S2, B, F, bud, watch, ignore)
            if d:
                return (A, B) + d
            break
        if not hit:
            un1.append(A)
    un2 = [r for l in right.values() for r in l if id(r) not in used]
    for A in un1:
        for B in un2:
            if A.fatal and B.fatal:
                continue
            F = welldefined(joint(A, B), A)
            if F is None:
                continue
            d = differs(S1, A, S2, B, F, bud, watch, ignore)
            if d:
                return (A, B) + d
    return None


# ------------------------------------------------------------------ modular contracts
OPAQUE = '''
RaftLog:: NewWithSize MaybeAppend Append FindConflict FindConflictByTerm NextEnts HasNextEnts Slice Entries AllEntries Term LastTerm LastIndex
  FirstIndex IsUpToData MatchTerm MaybeCommit Restore MustCheckOutOfBounds CommitTo AppliedTo StableTo StableSnapTo Snapshot UnstableEntries
  ZeroTermOnErrCompacted
Unstable:: MaybeFirstIndex MaybeLastIndex MaybeTerm StableTo StableSnapTo Restore TruncateAndAppend Slice ShrikEntriesArray MustCheckOutOfBounds
Raft:: MaybeSendAppend SendHeartbeat BcastAppend BcastHeartbeat BcastHeartbeatWithCtx MaybeCommit Reset AppendEntry BecomeFollower
  BecomeCandidate BecomePreCandidate BecomeLeader Hup Campaign Poll StepLeader StepCandidate StepFollower Advance HandleAppendEntries
  HandleHearbeat HandleSnapshot Restore Promotable ApplyConfChange SwitchToConfig LoadState PastElectionTimeout ResetRandomizedElectionTimeout
  SendTimeoutNow CommittedEntryinCurrentTerm ResponseToReadIndexReq IncreaseUncommittedSize ReduceUncommittedSize
  ReleasePendingReadIndexMessages SendMsgReadIndexResponse NumOfPendingConf TickElection TickHeartbeat Step
Inflights:: Add FreeLE FreeFirstOne Reset Grow Full
ProgressTracker:: ConfState IsSingleton Committed QuorumActive VoterNodes LearnerNodes TallyVotes
MajorityConfig:: Describe Slice CommittedIndex VoteResult String
JointConfig:: Describe CommittedIndex VoteResult String IDs
Changer:: EnterJoint LeaveJoint Simple Apply MakeVoter MakeLearner Remove InitProgress CheckInvariants CheckAndCopy CheckAndReturn Symdiff
ReadOnly:: AddRequest RecvAck Advance LastPendingRequestCtx
RawNode:: AcceptReady HasReady ReadyWithoutAccept
Util:: LimitSize PayloadSize Random Split Trim
: toConfChangeSingle NewReady MustSync ConfChangesFromString ConfChangesToString ConfChangeToMsg LeaveJoint EnterJoint operator== Restore insertionSort
ConfChangeI:: AsV1 AsV2 Marshal
'''


def opaque_names():
    out, cls = [], ''
    for w in OPAQUE.split():
        if w.endswith('::'):
            cls = w
        elif w == ':':
            cls = ''
        else:
            out.append('craft::' + cls + w)
    return out


class Contracts:
    """effects of the functions kept opaque, taken from the reference program"""

    def __init__(self, ref):
        self.ref = ref
        self.I = ref.effI
        self.memo = {}
        self.unt = {}
        # values of this class are only passed around: no object of the program stores one
        self.transient = frozenset()
        if not any(re.search(r'craft::Status(?! \()', c.qt) for R in ref.P.records.values() for c in R.fields if getattr(c, 'qt', None)):
            self.transient = frozenset({'Status::state_'})
        self.names = set(opaque_names())
        step = [f for k, f in ref.byk.items() if re.fullmatch(r'craft::Raft::(Step(Leader|Candidate|Follower)|Tick(Election|Heartbeat))', f.q)]
        R, W = set(), set()
        for f in step:
            r, w = self.of(f)
            R |= r
            W |= w
        self.any = (frozenset(R), frozenset(W))

    def untouched(self, f, qt):
        """members of a record handed over by reference that the callee neither reads nor writes"""
        k = fkey(f)
        x = self.unt.get((k, qt))
        if x is not None:
            return x
        g = self.ref.byk.get(k)
        out = set()
        T = self.I.ty.norm(qt)
        if g is not None and T in self.ref.P.records and T not in self.I.eff.whole(g):
            r, w = self.I.eff.of(g)
            out = {a for a, t in self.I.ty.fields(qt) or [] if a not in r and a not in w and self.I.ty.cat(t) != 'struct'}
        x = self.unt[(k, qt)] = frozenset(out)
        return x

    def of(self, f):
        k = fkey(f)
        if k in self.memo:
            return self.memo[k]
        g = self.ref.byk.get(k)
        if g is None:
            return None
        r, w = self.I.eff.of(g)
        r, w = r - self.transient, w - self.transient
        # message fields are only written on messages the callee creates itself
        self.memo[k] = (r, frozenset(x for x in w if not x.startswith('pb.')))
        return self.memo[k]
