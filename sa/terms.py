"""Hash-consed terms and the fact domain (linear inequalities + equalities + boolean atoms).

The domain is a conjunction of
  * equalities, kept as a rewriting of terms to representatives,
  * linear inequalities  c + sum k_i * t_i <= 0  (convex polyhedra, decided by Fourier-Motzkin
    elimination over the few terms involved),
  * disequalities and opaque boolean atoms.
Terms are uninterpreted beyond this; integers are ideal (no wrap-around).
"""


class T:
    __slots__ = ('op', 'a', 'n', '__weakref__')

    def __init__(self, op, a, n):
        self.op, self.a, self.n = op, a, n

    def __repr__(self):
        return show(self)


_tab = {}
SORT = {}       # term -> 'u' unsigned, 'i' signed, 'b' bool, 'p' pointer, 's' string, 'c' container, 'o' other


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a, len(_tab))
        _tab[k] = t
    return t


def intc(n):
    return mk('int', int(n))


TRUE, FALSE = intc(1), intc(0)
ZERO = FALSE
NULL = mk('null')


def boolc(b):
    return TRUE if b else FALSE


def strc(s):
    return mk('str', s)


EMPTYSTR = strc('')


def isint(t):
    return t.op == 'int'


# ---------------------------------------------------------------- linear forms
def lin(t):
    """-> (const, {term: coef})"""
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def from_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k), key=lambda x: x[0].n))
    if not items:
        return intc(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk('lin', c, items)


def add(a, b, s=1):
    c1, d1 = lin(a)
    c2, d2 = lin(b)
    if not d2:
        return from_lin(c1 + s * c2, d1)
    d = dict(d1)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + s * k
    return from_lin(c1 + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        c, d = lin(a)
        return from_lin(c * b.a[0], {t: k * b.a[0] for t, k in d.items()})
    x, y = sorted((a, b), key=lambda t: t.n)
    return mk('mul', x, y)


NONNUM = {'null', 'str', 'new', 'strapp', 'some', 'empty', 'append', 'cat', 'slice', 'clo', 'fn', 'var', 'f', 'store',
          'insert', 'erase', 'structval', 'sorted', 'collect', 'at'}
ISZERO = None
PARTS = None        # a counting sum in terms of counts of conjunctions of positive conditions
DISTINCT = {'new', 'var', 'f', 'null', 'at', 'this', 'some', 'clo'}


def is_loc(t):
    return t.op in ('new', 'var', 'f', 'this')


BOOLOPS = {'eq', 'le0', 'not', 'and', 'or', 'exists'}


def isbool(t):
    return t.op in BOOLOPS or SORT.get(t) == 'b'


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if (a.op == 'null' and b.op in ('new', 'var', 'f', 'this', 'at', 'str', 'some', 'clo', 'err', 'fn', 'lam', 'bind', 'functor')) or \
       (b.op == 'null' and a.op in ('new', 'var', 'f', 'this', 'at', 'str', 'some', 'clo', 'err', 'fn', 'lam', 'bind', 'functor')):
        return FALSE
    if a.op == 'new' and b.op in ('new', 'var', 'this', 'init', 'f') or b.op == 'new' and a.op in ('var', 'this', 'init', 'f'):
        if not (a.op == 'new' and b.op == 'new' and a.a[0] == b.a[0] and len(a.a) > 1):
            return FALSE
    if a.op == 'var' and b.op in ('var', 'this') or b.op == 'var' and a.op == 'this':
        return FALSE
    if a.op == 'empty' and b.op == 'append' or b.op == 'empty' and a.op == 'append':
        return FALSE
    if a.op in BOOLOPS or b.op in BOOLOPS:
        if isbool(a) and isbool(b):
            return or_(and_(a, b), and_(neg(a), neg(b)))
        x, y = (a, b) if b.op == 'int' else (b, a)
        if y.op == 'int' and isbool(x):
            return x if y.a[0] == 1 else neg(x) if y.a[0] == 0 else FALSE
    if a.op in NONNUM or b.op in NONNUM:
        # the empty string and the empty container are the same value
        if a.op == 'str' and a.a[0] == '':
            a = a
        x, y = (a, b) if a.n < b.n else (b, a)
        return mk('eq', x, y)
    c, d = lin(sub(a, b))
    if not d:
        return boolc(c == 0)
    # t1 - t2 == 0 or t - c == 0 or general
    items = sorted(d.items(), key=lambda x: x[0].n)
    if len(items) == 1:
        t, k = items[0]
        if c % k:
            return FALSE
        v = intc(-c // k)
        if SORT.get(t) == 'b':
            if v is TRUE:
                return t
            if v is FALSE:
                return neg(t)
        if v.a[0] < 0 and SORT.get(t) == 'u':
            return FALSE
        if v is ZERO and t.op == 'sum' and ISZERO is not None:
            z = ISZERO(t)
            if z is not None:
                return z
        return mk('eq', t, v)
    if len(items) == 2 and c == 0 and items[0][1] == -items[1][1]:
        t1, t2 = items[0][0], items[1][0]
        return mk('eq', t1, t2)
    if c == 0 and (all(k > 0 for t, k in items) or all(k < 0 for t, k in items)) and all(SORT.get(t) in ('u', 'b') for t, k in items):
        return and_(*[eq(t, ZERO) for t, k in items])
    if items[0][1] < 0:
        c, items = -c, [(t, -k) for t, k in items]
    return mk('eq', from_lin(c, dict(items)), ZERO)


def le(a, b):
    """a <= b"""
    d = sub(a, b)
    return le0(d)


def lt(a, b):
    return le0(add(sub(a, b), intc(1)))


def le0(d):
    if d.op == 'int':
        return boolc(d.a[0] <= 0)
    c, m = lin(d)
    if len(m) == 1:
        (t, k), = m.items()
        if SORT.get(t) in ('u', 'b'):
            if k > 0 and c > 0:
                return FALSE
            if k > 0 and c == 0:
                return eq(t, ZERO)
            if k < 0 and c <= 0:
                return TRUE
            if abs(k) == 1 and t.op != 'sum' and (t.op != 'app' or t.a[0] in ('ret', 'sel', 'len')):       # a 64 bit value
                if k > 0 and -c >= 18446744073709551615:
                    return TRUE
                if k < 0 and c >= 18446744073709551615:
                    return eq(t, intc(c)) if c == 18446744073709551615 else FALSE
            if k < 0 and 0 < c <= -k and (c < -k or t.op == 'sum'):   # t >= 1
                return neg(eq(t, ZERO))
    elif m and all(SORT.get(t) in ('u', 'b') for t in m):
        if c == 0 and all(k > 0 for k in m.values()):
            return and_(*[eq(t, ZERO) for t in m])
        if c > 0 and all(k <= -c for k in m.values()):
            return or_(*[neg(eq(t, ZERO)) for t in m])
    return mk('le0', d)


def neg(b):
    if b.op == 'int':
        return boolc(b.a[0] == 0)
    if b.op == 'not':
        return b.a[0]
    if b.op == 'le0':
        return le0(sub(intc(1), b.a[0]))
    if b.op == 'and':
        return or_(*[neg(x) for x in b.a])
    if b.op == 'or':
        return and_(*[neg(x) for x in b.a])
    return mk('not', b)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in (x.a if x.op == 'and' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out = _units(out)
    if out is None:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('and', *sorted(out, key=lambda t: t.n))


def _units(out):
    """x == c makes x != d, for another constant d, redundant and x == d impossible"""
    pos = {}
    for y in out:
        if y.op == 'eq' and y.a[1].op == 'int':
            if pos.setdefault(y.a[0], y.a[1]) is not y.a[1]:
                return None
    if not pos:
        return out
    res = []
    for y in out:
        if y.op == 'not' and y.a[0].op == 'eq' and y.a[0].a[1].op == 'int':
            c = pos.get(y.a[0].a[0])
            if c is not None:
                if c is y.a[0].a[1]:
                    return None
                continue
        res.append(y)
    return res


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in (x.a if x.op == 'or' else (x,)):
            if y not in out:
                out.append(y)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    n = _units([neg(y) if y.op in ('eq', 'not') else y for y in out]) if any(y.op == 'not' for y in out) else out
    if n is None:
        return TRUE
    if n is not out and len(n) < len(out):
        return or_(*[neg(y) if y.op in ('eq', 'not') else y for y in n])
    return mk('or', *sorted(out, key=lambda t: t.n))


def truthy(t):
    """boolean view of a numeric/pointer/bool term"""
    if t.op == 'int':
        return boolc(t.a[0] != 0)
    if t.op in ('eq', 'le0', 'not', 'and', 'or', 'exists'):
        return t
    s = SORT.get(t)
    if s == 'b':
        return t
    if s in ('p',) or t.op in ('null', 'new', 'this', 'f', 'var', 'at', 'some', 'clo', 'err', 'str'):
        return neg(eq(t, NULL))
    return neg(eq(t, ZERO))


def app(f, *args, sort=None):
    t = mk('app', f, *args)
    if sort:
        SORT.setdefault(t, sort)
    return t


# ---------------------------------------------------------------- substitution
def subst(t, f, memo):
    """rebuild t, replacing each subterm x by f(x) when f(x) is not None"""
    r = memo.get(t)
    if r is not None:
        return r
    v = f(t)
    if v is not None:
        memo[t] = v
        return v
    r = rebuild(t, lambda x: subst(x, f, memo))
    memo[t] = r
    return r


def _sub_arg(x, g):
    if isinstance(x, T):
        return g(x)
    if isinstance(x, tuple):
        return tuple(_sub_arg(y, g) for y in x)
    if isinstance(x, frozenset):
        return frozenset(_sub_arg(y, g) for y in x)
    return x


SIMP = {}   # op -> smart constructor used when rebuilding


def rebuild(t, g):
    op = t.op
    if op in ('int', 'str', 'null', 'sym', 'new0'):
        return t
    if op == 'lin':
        r = intc(t.a[0])
        for x, k in t.a[1]:
            r = add(r, mul(g(x), intc(k)))
        return r
    na = tuple(_sub_arg(x, g) for x in t.a)
    if all(x is y for x, y in zip(na, t.a)) or na == t.a:
        return t
    if op == 'eq':
        return eq(*na)
    if op == 'le0':
        return le0(*na)
    if op == 'not':
        return neg(*na)
    if op == 'and':
        return and_(*na)
    if op == 'or':
        return or_(*na)
    if op == 'mul':
        return mul(*na)
    c = SIMP.get(op)
    if c is not None:
        r = c(*na)
    else:
        r = mk(op, *na)
    if t in SORT and r not in SORT:
        SORT[r] = SORT[t]
    return r


_subterm_memo = {}


def subterms(t):
    r = _subterm_memo.get(t)
    if r is None:
        s = {t}
        st = list(t.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                s |= subterms(x)
            elif isinstance(x, (tuple, frozenset)):
                st.extend(x)
        r = frozenset(s)
        _subterm_memo[t] = r
    return r


def mentions(t, x):
    return x in subterms(t)


# ---------------------------------------------------------------- facts
class Facts:
    __slots__ = ('rep', 'les', 'neqs', 'bools', 'memo', 'dmemo', 'ors', 'smemo')

    def __init__(self):
        self.rep = {}
        self.les = ()
        self.neqs = frozenset()
        self.bools = {}
        self.memo = {}
        self.dmemo = {}
        self.ors = ()

    def clone(self):
        f = Facts()
        f.rep, f.les, f.neqs, f.bools = self.rep, self.les, self.neqs, self.bools
        f.memo = self.memo
        f.ors = self.ors
        return f

    # -- canonical form
    def canon(self, t):
        if not self.rep:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        rep = self.rep
        memo = self.memo

        def go(x):
            r = memo.get(x)
            if r is not None:
                return r
            v = rep.get(x)
            if v is not None:
                r = go(v)
            else:
                r = rebuild(x, go)
                if r is not x:
                    v = rep.get(r)
                    if v is not None:
                        r = go(v)
            memo[x] = r
            return r
        return go(t)

    def decide(self, b):
        """True / False / None"""
        b = self.canon(b)
        if b.op == 'int':
            return b.a[0] != 0
        r = self.dmemo.get(b, 0)
        if r != 0:
            return r
        r = self._decide(b)
        self.dmemo[b] = r
        return r

    def _decide(self, b):
        op = b.op
        if op == 'not':
            r = self.decide(b.a[0])
            return None if r is None else not r
        if op == 'and':
            res = True
            for x in b.a:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for x in b.a:
                r = self.decide(x)
                if r is True:
                    return True
                if r is None:
                    res = None
            if res is None and self.ors:
                s = set(b.a)
                if any(o is b or o.op == 'or' and s.issuperset(o.a) for o in self.ors):
                    return True
            return res
        if op == 'le0':
            if self._entails(b.a[0]):
                return True
            if self._entails(sub(intc(1), b.a[0])):
                return False
            return None
        if op == 'eq':
            if b in self.neqs:
                return False
            x, y = b.a
            if b in self.bools:
                return self.bools[b]
            if x.op in NONNUM or y.op in NONNUM or not self.les:
                if not self._hasbound(x) and not self._hasbound(y):
                    return None
            d = sub(x, y)
            if self._entails(add(d, intc(1))) or self._entails(sub(intc(1), d)):
                return False
            if self._entails(d) and self._entails(sub(ZERO, d)):
                return True
            return None
        return self.bools.get(b)

    def _hasbound(self, t):
        for x in lin(t)[1]:
            if SORT.get(x) in ('u', 'b', 'e') and t.op == 'lin':
                return True
            for l in self.les:
                if x in lin(l)[1]:
                    return True
        return False

    def _entails(self, d):
        """does the conjunction entail d <= 0 ?"""
        if d.op == 'int':
            return d.a[0] <= 0
        goal = sub(intc(1), d)     # d >= 1  i.e. 1 - d <= 0
        cs = [goal]
        vars_ = set(lin(goal)[1])
        # relevant constraints: connected component
        rest = [l for l in self.les]
        changed = True
        sel = []
        while changed:
            changed = False
            keep = []
            for l in rest:
                vs = lin(l)[1]
                if any(v in vars_ for v in vs):
                    sel.append(l)
                    vars_.update(vs)
                    changed = True
                else:
                    keep.append(l)
            rest = keep
        cs += sel
        if PARTS:
            new = set()
            for v in vars_:
                if v.op == 'sum':
                    e = PARTS(v)
                    if e is not None:
                        cs.append(sub(v, e))
                        cs.append(sub(e, v))
                        new.update(lin(e)[1])
            vars_ |= new
        for v in vars_:
            s = SORT.get(v)
            if s in ('u', 'b'):
                cs.append(sub(ZERO, v))
            if s == 'b':
                cs.append(sub(v, intc(1)))
            if v.op == 'app' and v.a[0] == 'half':
                # v == x/2 : 2v <= x <= 2v+1
                x = v.a[1]
                cs.append(sub(mul(v, intc(2)), x))
                cs.append(sub(x, add(mul(v, intc(2)), intc(1))))
        return infeasible(cs)

    # -- assumption
    def assume(self, b, pol=True):
        f = self._assume1(b, pol)
        if f is None or f is self or not f.ors:
            return f
        return f._prop()

    def _prop(self):
        f = self
        again = True
        n = 0
        while again and n < 20:
            again = False
            n += 1
            keep = []
            for o in f.ors:
                c = f.canon(o)
                if c.op == 'int':
                    if c.a[0] == 0:
                        return None
                    continue
                live, sat = [], False
                for d in (c.a if c.op == 'or' else (c,)):
                    r = f.decide(d)
                    if r is True:
                        sat = True
                        break
                    if r is None:
                        live.append(d)
                if sat:
                    continue
                if not live:
                    return None
                if len(live) == 1:
                    g = f.clone()
                    g.ors = tuple(x for x in f.ors if x is not o)
                    g = g._assume1(live[0])
                    if g is None:
                        return None
                    f = g
                    again = True
                    keep = None
                    break
                keep.append(or_(*live))
            if keep is not None and tuple(keep) != f.ors:
                f = f.clone() if f is not self else f.clone()
                f.dmemo = {}
                f.ors = tuple(keep)
        return f

    def splits(self):
        """a pending disjunction, or None"""
        return self.ors[0] if self.ors else None

    def _assume1(self, b, pol=True):
        """-> new Facts or None when contradictory"""
        if not pol:
            b = neg(b)
        b = self.canon(b)
        r = self.decide(b)
        if r is True:
            return self
        if r is False:
            return None
        op = b.op
        if op == 'and':
            f = self
            for x in b.a:
                f = f.assume(x)
                if f is None:
                    return None
            return f
        if op == 'or' and b in self.ors:
            return self
        f = self.clone()
        if op == 'or':
            f.dmemo = {}
            f.ors = f.ors + (b,)
            return f
        if op == 'not':
            x = b.a[0]
            if x.op == 'eq':
                f.neqs = f.neqs | {x}
                return f._tighten()
            f.bools = dict(f.bools)
            f.bools[x] = False
            return f
        if op == 'le0':
            if self.les and len(lin(b.a[0])[1]) > 1 and self._entails(sub(ZERO, b.a[0])):
                e = f.canon(eq(b.a[0], ZERO))       # bounded from both sides
                if e.op == 'eq':
                    f.les = f.les + (b.a[0],)
                    f = f._tighten()
                    return f if f is None else f._assume1(e) if f.decide(e) is None else f.clone()._assume_eq(e)
            f.les = f.les + (b.a[0],)
            return f._tighten()
        if op == 'eq':
            return f._assume_eq(b)
        f.bools = dict(f.bools)
        f.bools[b] = True
        return f

    def _assume_eq(self, b):
        x, y = b.a
        if x.op in NONNUM or y.op in NONNUM or (x.op != 'lin' and y.op != 'lin'):
            # orient: rewrite the less primitive side
            def rank(t):
                if t.op in ('int', 'str', 'null'):
                    return 0
                if t.op in ('empty',):
                    return 1
                if t.op in ('new', 'var', 'this', 'f', 'at'):
                    return 2
                if t.op == 'sym':
                    return 3
                return 4
            rx, ry = (rank(x), x.n), (rank(y), y.n)
            if rx < ry:
                x, y = y, x      # x will be rewritten to y
            if mentions(y, x):
                x, y = y, x
            if rank(x) <= 2 and not (rank(x) == 1):
                # two locations/constants: remember as a plain fact
                self.bools = dict(self.bools)
                self.bools[b] = True
                if rank(x) == 2 and x.op in ('at',):
                    pass
                else:
                    return self
            if mentions(y, x):
                self.bools = dict(self.bools)
                self.bools[b] = True
                return self
            return self._setrep(x, y)
        c, d = lin(sub(x, y))
        # solve for a unit-coefficient term, the newest first
        for t, k in sorted(d.items(), key=lambda z: -z[0].n):
            if abs(k) == 1:
                rest = {u: -k * v for u, v in d.items() if u is not t}
                v = from_lin(-k * c, rest)
                if not mentions(v, t):
                    # bounds of the eliminated term must survive
                    f = self._setrep(t, v)
                    if f is not None and SORT.get(t) in ('u',):
                        f = f.assume(le0(sub(ZERO, v)))
                    return f
        self.les = self.les + (sub(x, y), sub(y, x))
        return self._tighten()

    def _setrep(self, x, y):
        self.rep = dict(self.rep)
        self.rep[x] = y
        self.memo = {}
        self.dmemo = {}
        # re-canonicalise everything
        les, neqs, bools = self.les, self.neqs, self.bools
        self.les, self.neqs, self.bools = (), frozenset(), {}
        out = self
        for l in les:
            b = self.canon(le0(l))
            out = out.assume(b)
            if out is None:
                return None
        for k, v in list(self.rep.items()):      # congruence: what was known about terms containing x
            if k is not x and k.op not in ('sym', 'int', 'lin') and mentions(k, x):
                out = out.assume(eq(rebuild(k, out.canon), out.canon(v)))
                if out is None:
                    return None
        for n in neqs:
            out = out.assume(neg(self.canon(n)))
            if out is None:
                return None
        for b, v in bools.items():
            cb = out.canon(b)
            if cb.op == 'int':
                if (cb.a[0] != 0) != v:
                    return None
                continue
            out = out.assume(cb, v)
            if out is None:
                return None
        return out

    def _tighten(self):
        """disequalities sharpen non-strict bounds; detect contradictions"""
        self.dmemo = {}
        if not self.les:
            return self
        if not self._consistent():
            return None
        for _ in range(3):
            ch = False
            for n in self.neqs:
                x, y = n.a
                if x.op in NONNUM or y.op in NONNUM:
                    continue
                if not (self._hasbound(x) or self._hasbound(y)):
                    continue
                d = sub(x, y)
                a, b = self._entails(d), self._entails(sub(ZERO, d))
                if a and b:
                    return None
                if a:
                    e = add(d, intc(1))
                    if not self._entails(e):
                        self.les = self.les + (e,)
                        ch = True
                elif b:
                    e = add(sub(ZERO, d), intc(1))
                    if not self._entails(e):
                        self.les = self.les + (e,)
                        ch = True
            if not ch:
                break
            self.dmemo = {}
            if not self._consistent():
                return None
        return self

    def _consistent(self):
        # only the newest constraint can introduce a contradiction
        if not self.les:
            return True
        l = self.les[-1]
        f = Facts()
        f.les = self.les[:-1]
        # entails not l ?
        return not f._entails(sub(intc(1), l))


_fm_memo = {}


def infeasible(cs):
    """Fourier-Motzkin on a small set of constraints l <= 0 (integers)."""
    key = frozenset(cs)
    r = _fm_memo.get(key)
    if r is not None:
        return r
    r = _fm([lin(c) for c in key])
    _fm_memo[key] = r
    return r


def _norm(c, d):
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # integer tightening: sum k t <= -c  ->  divide and floor
        d = {t: k // g for t, k in d.items()}
        c = -((-c) // g)
    return c, d


def _fm(cons):
    work = {}
    for c, d in cons:
        d = {t: k for t, k in d.items() if k}
        if not d:
            if c > 0:
                return True
            continue
        c, d = _norm(c, d)
        key = tuple(sorted(((t.n, k) for t, k in d.items())))
        if key not in work or work[key][0] < c:
            work[key] = (c, d)
    cur = list(work.values())
    steps = 0
    while cur:
        steps += 1
        occ = {}
        for c, d in cur:
            for t, k in d.items():
                p = occ.setdefault(t, [0, 0])
                p[0 if k > 0 else 1] += 1
        # pick the cheapest variable
        t = min(occ, key=lambda v: (occ[v][0] * occ[v][1] - occ[v][0] - occ[v][1], v.n))
        pos, negs, rest = [], [], []
        for c, d in cur:
            k = d.get(t, 0)
            (pos if k > 0 else negs if k < 0 else rest).append((c, d))
        if len(pos) * len(negs) > 400:
            return False
        new = {}
        for c, d in rest:
            key = tuple(sorted(((u.n, k) for u, k in d.items())))
            if key not in new or new[key][0] < c:
                new[key] = (c, d)
        for c1, d1 in pos:
            k1 = d1[t]
            for c2, d2 in negs:
                k2 = -d2[t]
                c = c1 * k2 + c2 * k1
                d = {}
                for u, k in d1.items():
                    if u is not t:
                        d[u] = d.get(u, 0) + k * k2
                for u, k in d2.items():
                    if u is not t:
                        d[u] = d.get(u, 0) + k * k1
                d = {u: k for u, k in d.items() if k}
                if not d:
                    if c > 0:
                        return True
                    continue
                c, d = _norm(c, d)
                key = tuple(sorted(((u.n, k) for u, k in d.items())))
                if key not in new or new[key][0] < c:
                    new[key] = (c, d)
        cur = list(new.values())
        if len(cur) > 300:
            return False
    return False


# ---------------------------------------------------------------- display
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, (tuple, frozenset)):
            return '{' + ', '.join(show(x, depth + 1) for x in t) + '}'
        return str(t)
    if depth > 14:
        return '..'
    op, a = t.op, t.a
    s = lambda x: show(x, depth + 1)
    if op == 'int':
        return str(a[0])
    if op == 'str':
        return '"%s"' % a[0]
    if op == 'lin':
        parts = []
        for x, k in a[1]:
            parts.append(('%+d*' % k if abs(k) != 1 else ('+' if k > 0 else '-')) + s(x))
        r = ''.join(parts)
        if a[0]:
            r += '%+d' % a[0]
        return '(' + r.lstrip('+') + ')'
    if op == 'f':
        return s(a[0]) + '.' + str(a[1])
    if op == 'init':
        return s(a[0])
    if op == 'this':
        return str(a[0])
    if op == 'sym':
        return str(a[0])
    if op == 'eq':
        return '%s==%s' % (s(a[0]), s(a[1]))
    if op == 'le0':
        return '%s<=0' % s(a[0])
    if op == 'not':
        return '!(%s)' % s(a[0])
    if op in ('and', 'or'):
        return '(' + (' && ' if op == 'and' else ' || ').join(s(x) for x in a) + ')'
    if op == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if op == 'at':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    if not a:
        return op
    return '%s(%s)' % (op, ', '.join(s(x) for x in a))
