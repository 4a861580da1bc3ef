"""Loop summaries.

A loop is analysed through one generic iteration (index `bv`, loop-carried locations `pv`), run to
a fixpoint of the set of carried locations.  The effect of the whole loop is then a closed form in
the number of iterations: induction variables, sums, collected sequences, flags (an `exists` over
the iteration space), pointwise updates of all elements, and a general `fold` otherwise.  Early
exits become the case "some iteration exits", taken at the first such iteration.
"""
from .terms import *
from . import terms as TM
from .eng import (SETS, ordered, len_, cat_, append_, slice_, at_, key_, pos_, val_, contains_, store_, ins_, del_, upd_, EMPTYC, eq, NeedFork, Broken,
                  dnf_simplify, dnf_term, Env)

INF = mk('inf')
MAXUNROLL = 6


# ---------------------------------------------------------------- binders
_h = {}


def height(t):
    r = _h.get(t)
    if r is None:
        r = 0
        for x in subterms(t):
            if x.op == 'bb' and x.a[0] > r:
                r = x.a[0]
        _h[t] = r
    return r


def bindvar(bv, ts):
    """-> (bound variable, function closing a term over bv)"""
    h = 1 + max([height(t) for t in ts] or [0])
    bb = mk('bb', h)
    SORT.setdefault(bb, 'u')
    memo = {}

    def close(t):
        return subst(t, lambda x: bb if x is bv else None, memo)
    return bb, close


def at_bv(t, bv, e, memo=None):
    return subst(t, lambda x: e if x is bv else None, {} if memo is None else memo)


def mentions_op(t, op):
    return any(x.op == op for x in subterms(t))


def positive(n):
    return lt(ZERO, n)


def notfirst(X, bv):
    """X without a conjunct that leaves out the first iteration, or None"""
    nz = neg(eq(bv, ZERO))
    if X.op == 'and' and nz in X.a:
        return and_(*[x for x in X.a if x is not nz])
    return None


def exists_(N, X, bv):
    """some iteration k < N satisfies X(k)"""
    if X is FALSE:
        return FALSE
    k = kept_(N, [(X, intc(1))], bv)
    if k is not None:
        return exists_(k[0], k[1][0][0], bv)
    if N.op == 'int' and 0 <= N.a[0] <= 8:
        return or_(*[at_bv(X, bv, intc(i)) for i in range(N.a[0])])
    Y = notfirst(X, bv) if N is not INF else None
    if Y is not None:
        return exists_(sub(N, intc(1)), at_bv(Y, bv, add(bv, intc(1))), bv)
    if not mentions(X, bv) and N.op == 'sum' and len(N.a[1]) == 1 and N.a[1][0][0] and N.a[1][0][1] is intc(1):
        return and_(X, exists_(N.a[0], at_bv(N.a[1][0][0][0], N.a[2], bv), bv))
    if not mentions(X, bv):
        return X if N is INF else and_(X, positive(N))
    if X.op == 'eq' and N.op == 'app' and N.a[0] == 'len':
        C = N.a[1]
        for a, b in ((X.a[0], X.a[1]), (X.a[1], X.a[0])):
            if a.op in ('at', 'key') and a.a[0] is C and a.a[1] is bv and not mentions(b, bv):
                return contains_(C, b)
    bb, close = bindvar(bv, [X])
    t = mk('exists', N, close(X), bb)
    SORT[t] = 'b'
    return t


def ite_(c, a, b):
    return a if c is TRUE else b if c is FALSE else mk('ite', c, a, b)


def oneform(c, a, b):
    """x == k ? a : b, where b is a when x is k"""
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if c.op == 'eq':
        for x, k in (c.a, c.a[::-1]):
            if x.op in ('bv', 'bb') and not mentions(k, x) and mentions(b, x) and at_bv(b, x, k) is a:
                return b
    return None


def counted(X, bv):
    """X is bv == e with e not negative -> e"""
    if X.op == 'eq' and X.a[0].op not in TM.NONNUM and X.a[1].op not in TM.NONNUM:
        c, d = lin(sub(X.a[0], X.a[1]))
        k = d.pop(bv, 0)
        if k in (1, -1):
            e = from_lin(-k * c, {t: -k * v for t, v in d.items()})
            if not mentions(e, bv) and -k * c >= 0 and all(-k * v > 0 and (SORT.get(t) in ('u', 'b') or t.op in ('bv', 'bb'))
                                                          for t, v in d.items()):
                return e
    return None


def first_(N, X, bv):
    if not mentions(X, bv):
        return ZERO
    if N.op == 'inf':
        e = counted(X, bv)
        if e is not None:
            return e
    if N.op == 'int' and 0 <= N.a[0] <= 8:
        r = N
        for i in reversed(range(N.a[0])):
            r = ite_(at_bv(X, bv, intc(i)), intc(i), r)
        return r
    Y = notfirst(X, bv) if N is not INF else None
    if Y is not None:
        return add(first_(sub(N, intc(1)), at_bv(Y, bv, add(bv, intc(1))), bv), intc(1))
    if X.op == 'eq' and N.op == 'app' and N.a[0] == 'len':
        C = N.a[1]
        for a, b in ((X.a[0], X.a[1]), (X.a[1], X.a[0])):
            if a.op in ('at', 'key') and a.a[0] is C and a.a[1] is bv and not mentions(b, bv):
                return pos_(C, b)
    bb, close = bindvar(bv, [X])
    t = mk('first', N, close(X), bb)
    SORT[t] = 'u'
    return t


def _exists_rebuild(N, X, bb):
    if N is ZERO:
        return FALSE
    if X.op == 'int':
        return FALSE if X is FALSE else positive(N)
    if N.op == 'int' and 0 <= N.a[0] <= 8:
        return or_(*[at_bv(X, bb, intc(i)) for i in range(N.a[0])])
    t = mk('exists', N, X, bb)
    SORT[t] = 'b'
    return t


TM.SIMP['exists'] = _exists_rebuild


def rows_(bv, rows):
    """rows: [(guard term, value)] -> (bb, canonical tuple)"""
    ts = [t for g, v in rows for t in (g, v)]
    bb, close = bindvar(bv, ts)
    out = []
    for g, v in rows:
        g, v = close(g), close(v)
        out.append(((() if g is TRUE else (g,)), v))
    out.sort(key=lambda r: (tuple(x.n for x in r[0]), r[1].n))
    return bb, tuple(out)


def kept_(K, rows, bv):
    """iterating over the elements chosen from some sequence is iterating over that sequence, where they are chosen"""
    if K.op != 'sum' or len(K.a[1]) != 1 or not K.a[1][0][0]:
        return None
    src = set()

    def find(x):
        if x.op == 'at' and x.a[1] is bv and x.a[0].op == 'coll' and len_(x.a[0]) is K:
            src.add(x.a[0])
    for t in [t for g, v in rows for t in (g, v)]:
        for x in subterms(t):
            find(x)
    if len(src) != 1:
        return None
    c = src.pop()
    N, ((g,), e), bb = c.a[0], c.a[1][0], c.a[2]
    g, e = at_bv(g, bb, bv), at_bv(e, bb, bv)
    out = []
    for a, v in rows:
        f = lambda x: e if x.op == 'at' and x.a[0] is c and x.a[1] is bv else mk('unk', 'position') if x is bv else None
        a, v = subst(a, f, {}), subst(v, f, {})
        if any(x.op == 'unk' for t in (a, v) for x in subterms(t)):
            return None
        out.append((and_(g, a), v))
    return N, out


def sum_(K, rows, bv):
    k = kept_(K, rows, bv)
    if k is not None:
        return sum_(*k, bv)
    rows = [(g, v) for g, v in rows if v is not ZERO]
    if not rows:
        return ZERO
    if len(rows) == 1 and rows[0][0] is TRUE and not mentions(rows[0][1], bv):
        return mul(K, rows[0][1])
    if len(rows) == 1 and rows[0][1].op == 'int' and rows[0][1].a[0] < 0:
        return mul(sum_(K, [(rows[0][0], intc(-rows[0][1].a[0]))], bv), intc(-1))
    bb, r = rows_(bv, rows)
    return _sum_rebuild(K, r, bb)


def _sum_rebuild(K, rows, bb):
    """sum over a bound variable plus a constant: the first terms are taken out"""
    if K.op == 'lin' and len(rows) == 1 and not rows[0][0]:
        c, d = lin(K)
        v = [x for x in d]
        if 0 < c <= 3 and len(v) == 1 and d[v[0]] == 1 and v[0].op in ('bb', 'bv'):
            f = rows[0][1]
            t = ZERO
            for i in range(c):
                t = add(t, at_bv(f, bb, intc(i)))
            g = at_bv(f, bb, add(bb, intc(c)))
            return add(t, mul(v[0], g) if not mentions(g, bb) else _mksum(v[0], (((), g),), bb))
    return _mksum(K, rows, bb)


def _mksum(K, rows, bb):
    t = mk('sum', K, tuple(sorted(rows, key=lambda r: (tuple(x.n for x in r[0]), r[1].n))), bb)
    if all(v.op == 'int' and v.a[0] >= 0 or SORT.get(v) in ('u',) for _, v in rows):
        SORT.setdefault(t, 'u')
    return t


TM.SIMP['sum'] = _sum_rebuild


def _iszero(t):
    """a sum of things that are not negative is 0 when each of them is"""
    if t.op != 'sum' or SORT.get(t) != 'u':
        return None
    K, rows, bb = t.a
    bv = mk('bv', 900000 + bb.a[0])
    out = []
    for g, v in rows:
        c = and_(*(list(g) + [neg(eq(v, ZERO))]))
        out.append(neg(exists_(K, at_bv(c, bb, bv), bv)))
    return and_(*out)


TM.ISZERO = _iszero
_parts = {}


def parts(t):
    """the number of elements with a condition, by inclusion and exclusion over its positive atoms: a linear term"""
    if t in _parts:
        return _parts[t]
    r = None
    if t.op == 'sum' and all(v.op == 'int' for _, v in t.a[1]):
        K, rows, bb = t.a
        total = {}
        for g, v in rows:
            m = indicator(and_(*g)) if g else {frozenset(): 1}
            if m is None:
                break
            for s, k in m.items():
                total[s] = total.get(s, 0) + k * v.a[0]
        else:
            r = ZERO
            for s, k in total.items():
                if k:
                    x = K if not s else _mksum(K, (((and_(*s),), intc(1)),), bb)
                    r = add(r, x, k)
            if r is t:
                r = None
    _parts[t] = r
    return r


def indicator(b):
    """0/1 value of a condition as a polynomial over positive atoms: {atoms: coefficient}; None when too large"""
    if b.op == 'int':
        return {frozenset(): 1} if b.a[0] else {}
    if b.op == 'not':
        m = indicator(b.a[0])
        return None if m is None else _plus({frozenset(): 1}, m, -1)
    if b.op == 'le0':
        n = neg(b)
        if n.op == 'le0' and n.n < b.n:
            return _plus({frozenset(): 1}, {frozenset((n,)): 1}, -1)
    if b.op == 'and':
        m = {frozenset(): 1}
        for x in b.a:
            y = indicator(x)
            if y is None:
                return None
            p = {}
            for s, k in m.items():
                for u, j in y.items():
                    p[s | u] = p.get(s | u, 0) + k * j
            m = {s: k for s, k in p.items() if k}
            if len(m) > 12:
                return None
        return m
    if b.op == 'or':
        m = indicator(and_(*[neg(x) for x in b.a])) if len(b.a) < 5 else None
        return None if m is None else _plus({frozenset(): 1}, m, -1)
    return {frozenset((b,)): 1}


def _plus(a, b, k):
    out = dict(a)
    for s, v in b.items():
        out[s] = out.get(s, 0) + k * v
    return {s: v for s, v in out.items() if v}


TM.PARTS = parts
PROTOS = {}


def copied(v, bv):
    """v is a field-by-field copy of element lo+bv of a list -> (list, lo)"""
    if v.op != 'obj' or not v.a[1]:
        return None
    names = {k for k, _ in v.a[1]}
    if any(not k.startswith('pb.') for k in names):
        return None
    src = None
    for k, x in v.a[1]:
        if x.op in ('init', 'rv') and x.a[0].op == 'f':
            b, p = x.a[0].a
        elif x.op == 'app' and x.a[0] == 'sel' or x.op == 'sel':
            b, p = x.a[-2], (x.a[-1].a[0] if isinstance(x.a[-1], T) else x.a[-1])
            p = p.lstrip('.')
        else:
            return None
        if p != k or src is not None and b is not src:
            return None
        src = b
    if src is None or src.op not in ('at', 'el'):
        return None
    lo = sub(src.a[1], bv)
    if mentions(src.a[0], bv) or mentions(lo, bv):
        return None
    c = src.a[0]
    whole = [m for m, fl in PROTOS.items() if names <= {'pb.' + x.lower() for x in fl}]
    if c.op in ('init', 'rv') and c.a[0].op == 'f' and c.a[0].a[1].startswith('pb.'):
        ts = {t.split('.')[-1] for fl in PROTOS.values() for x, t in ((x, t[1]) for x, t in fl.items()) if 'pb.' + x.lower() == c.a[0].a[1]}
        ts = {t.split()[-1] for t in ts}
        whole = [m for m in whole if m in ts] or whole
    if len(whole) != 1 or len(PROTOS[whole[0]]) != len(names):
        return None
    return c, lo


def coll_(K, rows, bv):
    """the sequence of values contributed by iterations 0..K-1"""
    if not rows:
        return EMPTYC
    k = kept_(K, rows, bv)
    if k is not None:
        return coll_(*k, bv)
    if len(rows) == 1 and rows[0][0] is TRUE:
        v = rows[0][1]
        if v.op in ('at', 'key'):
            c, i = v.a
            lo = sub(i, bv)
            if not mentions(c, bv) and not mentions(lo, bv) and v.op == 'at':
                return slice_(c, lo, add(lo, K))
            if v.op == 'key' and not mentions(c, bv) and lo is ZERO and K is len_(c):
                t = mk('app', 'keys', c)
                SORT.setdefault(t, '*' + SORT.get(v, 'u'))
                return t
        c = copied(v, bv)
        if c is not None:
            return slice_(c[0], c[1], add(c[1], K))
    if K is ZERO:
        return EMPTYC
    bb, r = rows_(bv, rows)
    t = mk('coll', K, r, bb)
    s = SORT.get(rows[0][1])
    if s:
        SORT.setdefault(t, '*' + s)
    return t


def _coll_rebuild(N, rows, bb):
    return mk('coll', N, tuple(sorted(rows, key=lambda r: (tuple(x.n for x in r[0]), r[1].n))), bb)


TM.SIMP['coll'] = _coll_rebuild


# ---------------------------------------------------------------- statements
def for_stmt(I, n, st, env):
    init, var, cond, inc, body = n.i[0], n.i[1], n.i[2], n.i[3], n.i[4]
    sts = [st]
    if init.k:
        sts = I.stmt(init, st, env)
    out = []
    for s in sts:
        if cond.k and not inc.k and entered(I, cond, s, env):
            out.extend(loop(I, n, s, env, None, None, [body], post=cond))
            continue
        out.extend(loop(I, n, s, env, cond if cond.k else None, inc if inc.k else None, [body]))
    return out


def entered(I, cond, st, env):
    """a loop controlled by a flag that is set on entry"""
    if not flagvar(I, cond):
        return False
    try:
        vs = I.ev(cond, st, env)
    except NeedFork:
        return False
    return len(vs) == 1 and vs[0][0].facts.decide(I.tobool(vs[0][0], cond, vs[0][1])) is True


def flagvar(I, cond):
    c = I.strip(cond)
    if c.k == 'UnaryOperator' and c.d.get('opcode') == '!' and c.i:
        c = I.strip(c.i[0])
    return c.k == 'DeclRefExpr' and c.d.get('referencedDecl', {}).get('kind') == 'VarDecl' and c.qt.replace('const ', '').strip() == 'bool'


def while_stmt(I, n, st, env):
    cond, body = n.i[-2], n.i[-1]
    if entered(I, cond, st, env):
        # while (more) { ..more = x.. } with more set on entry tests at the end of the body
        return loop(I, n, st, env, None, None, [body], post=cond)
    return loop(I, n, st, env, cond, None, [body])


def do_stmt(I, n, st, env):
    # first iteration peeled
    body, cond = n.i[0], n.i[1]
    out = []
    for s in I.stmt(body, st, env):
        if s.ctl is None or s.ctl == ('cont',):
            out.extend(loop(I, n, s.ctl_(None), env, cond, None, [body]))
        elif s.ctl == ('brk',):
            out.append(s.ctl_(None))
        else:
            out.append(s)
    return out


def range_stmt(I, n, st, env):
    inner = list(n.i)
    # [init] range begin end cond inc loopvar body
    body = inner[-1]
    var = inner[-2]
    inc, cond = inner[-3], inner[-4]
    pre = [x for x in inner[:-4] if x.k]
    sts = [st]
    for p in pre:
        sts = [y for x in sts for y in I.stmt(p, x, env)]
    out = []
    for s in sts:
        out.extend(loop(I, n, s, env, cond, inc, [var, body]))
    return out


def declared(nodes):
    ids = set()
    for n in nodes:
        for x in n.walk():
            if x.k in ('VarDecl', 'BindingDecl', 'DecompositionDecl', 'ParmVarDecl'):
                ids.add(x.id)
    return ids


def forkeval(I, f, s):
    """evaluate f(s), splitting the state on demand"""
    nf, ne = len(I.fatals), len(I.events)
    try:
        return f(s)
    except NeedFork as e:
        del I.fatals[nf:]
        del I.events[ne:]
        out = []
        for t in s.fork(e.cond):
            out.extend(forkeval(I, f, t))
        return out


def loop(I, n, st, env, cond, inc, body, post=None):
    I.loops_seen += 1
    r = unroll(I, st, env, cond, inc, body)
    if r is not None:
        return r

    def step(s):
        """one iteration from s: -> (domain condition states, ...) as list of states with ctl"""
        out = []
        conds = [(s, TRUE)]
        if cond is not None:
            conds = forkeval(I, lambda x: [(a, I.tobool(a, cond, v)) for a, v in I.ev(cond, x, env)], s)
        return conds

    def run(s):
        sts = [s]
        for b in body:
            nxt = []
            for x in sts:
                if x.ctl is None:
                    nxt.extend(I.stmt(b, x, env))
                else:
                    nxt.append(x)
            sts = nxt
        out = []
        for x in sts:
            if x.ctl is None or x.ctl == ('cont',):
                x = x.ctl_(None)
                if post is not None:
                    for a, v in forkeval(I, lambda y: [(a, I.tobool(a, post, v)) for a, v in I.ev(post, y, env)], x):
                        yes, no = I.fork(a, v)
                        out += yes + [z.ctl_(('brk',)) for z in no]
                elif inc is not None:
                    out.extend(I.stmt(inc, x, env))
                else:
                    out.append(x)
            else:
                out.append(x)
        return out
    return generic(I, st, env, step, run, declared(body), n)


def unroll(I, st, env, cond, inc, body):
    """complete unrolling when every condition is decided"""
    if cond is None:
        return None
    nf, ne = len(I.fatals), len(I.events)
    save = I.steps
    cur = [st]
    done = []
    try:
        for it in range(MAXUNROLL + 1):
            nxt = []
            for s in cur:
                for a, v in I.ev(cond, s, env):
                    v = I.tobool(a, cond, v)
                    d = a.facts.decide(v)
                    if d is None:
                        del I.fatals[nf:]
                        del I.events[ne:]
                        return None
                    if d is False:
                        done.append(a)
                        continue
                    if it == MAXUNROLL:
                        del I.fatals[nf:]
                        del I.events[ne:]
                        return None
                    sts = [a]
                    for b in body:
                        m = []
                        for x in sts:
                            if x.ctl is None:
                                m.extend(I.stmt(b, x, env))
                            else:
                                m.append(x)
                        sts = m
                    for x in sts:
                        if x.ctl is None or x.ctl == ('cont',):
                            x = x.ctl_(None)
                            nxt.extend(I.stmt(inc, x, env) if inc is not None else [x])
                        elif x.ctl == ('brk',):
                            done.append(x.ctl_(None))
                        else:
                            done.append(x)
            cur = I.merge(nxt) if len(nxt) > 1 else nxt
            if not cur:
                return I.merge(done)
    except NeedFork:
        del I.fatals[nf:]
        del I.events[ne:]
        return None
    del I.fatals[nf:]
    del I.events[ne:]
    return None


# ---------------------------------------------------------------- the generic iteration
def changed_locs(s, s0):
    """locations (phi, base) whose value differs between s and s0"""
    out = set()
    if s.heap is s0.heap:
        return out
    for phi, d in s.heap.items():
        d0 = s0.heap.get(phi)
        if d is d0:
            continue
        for b, v in d.items():
            if d0 is None or d0.get(b) is not v:
                out.add((phi, b))
    for phi, d0 in s0.heap.items():
        d = s.heap.get(phi, {})
        for b in d0:
            if b not in d:
                out.add((phi, b))
    return out


def hv(I, s, phi, b):
    """value at (phi, base) in s"""
    if phi == '$':
        return s.heap.get('$', {}).get(b)
    d = s.heap.get(phi)
    if d and b in d:
        return d[b]
    return I.read(s, mk('f', b, phi))


class Row:
    __slots__ = ('s', 'guard', 'kind')


def generic(I, st, env, step, run, decl, node):
    d = I.depthloop
    I.depthloop += 1
    bv = mk('bv', d)
    SORT.setdefault(bv, 'u')
    try:
        return _generic(I, st, env, step, run, decl, node, d, bv)
    finally:
        I.depthloop -= 1


def domain(v, bv):
    """split the loop condition into (N, rest): iteration bv runs while bv < N and rest"""
    lits = list(v.a) if v.op == 'and' else [v]
    N = None
    rest = []
    for l in lits:
        if N is None and not mentions_op(l, 'pv'):
            x = None
            if l.op == 'not' and l.a[0].op == 'eq':
                a, b = l.a[0].a
                if a.op == 'pos' or b.op == 'pos':
                    x = None
                else:
                    x = sub(a, b)
            elif l.op == 'le0':
                x = l.a[0]
            elif l.op == 'not' and l.a[0].op == 'app' and False:
                x = None
            if x is not None:
                c, m = lin(x)
                k = m.get(bv)
                if k in (1, -1):
                    r = from_lin(c, {t: q for t, q in m.items() if t is not bv})
                    if not mentions(r, bv):
                        if l.op == 'le0':
                            if k == 1:        # bv + r <= 0  ->  bv < 1 - r
                                N = sub(intc(1), r)
                                continue
                        else:
                            # k*bv + r != 0
                            N = mul(r, intc(-1)) if k == 1 else r
                            continue
        rest.append(l)
    return N, (and_(*rest) if rest else TRUE)


def isinner(b, decl, n0, I):
    r = b if b.op in ('var', 'new') else I.root(b)
    if r.op == 'var' and r.a[0] in decl:
        return True
    if r.op == 'new' and isinstance(r.a[0], int) and r.a[0] > n0:
        return True
    return False


def _generic(I, st, env, step, run, decl, node, d, bv):
    nf, ne = len(I.fatals), len(I.events)
    n0 = st.n
    carried = {}        # (phi, base) -> pv term
    induct = {}         # (phi, base) -> step
    pointwise = set()
    bases = set()       # field versions changed by opaque calls
    banned = set()
    I.pins = getattr(I, 'pins', ())
    pins0 = I.pins
    for round_ in range(24):
        del I.fatals[nf:]
        del I.events[ne:]
        s0 = st
        for (phi, b), pv in carried.items():
            v0 = hv(I, st, phi, b)
            if (phi, b) in induct:
                k = induct[(phi, b)]
                if v0.op in ('iter', 'riter'):
                    v = mk(v0.op, v0.a[0], add(v0.a[1], mul(bv, intc(k))))
                else:
                    v = add(v0, mul(bv, intc(k)))
            elif v0 is not None and v0.op in ('iter', 'riter'):
                v = mk(v0.op, v0.a[0], pv)
            else:
                v = pv
            s0 = s0.set(phi, b, v)
        if bases:
            s0 = s0.clone()
            s0.base = dict(s0.base)
            for phi in bases:
                s0.base[phi] = mk('pv', d, mk('basever', phi))
        # the loop condition
        conds = step(s0)
        # all alternatives of the condition evaluation
        rows = []          # (state, kind)
        Ns = set()
        marks = []
        pre = {}           # what the evaluation of the condition has already decided
        for s1, v in conds:
            N, rest = domain(v, bv)
            if N is not None:
                rng = lt(bv, N)
            else:
                N, rng = INF, TRUE
            if d_false(s1, v):
                rows.append((s1.ctl_(('brk',)), s0))
                Ns.add(INF)
                continue
            Ns.add(N)
            s2 = s1.assume(rng)
            if s2 is None:
                continue
            mark = s2
            marks.append((s1, s2))
            pre[id(s2)] = s1.lits(s0.pc)
            if rest is not TRUE:
                dd = s2.facts.decide(rest)
                sT = s2.assume(rest)
                sF = s2.assume(neg(rest)) if dd is not True else None
                if sF is not None:
                    rows.append((sF.ctl_(('brk',)), mark))
                s2 = sT
                if s2 is None:
                    continue
            for s3 in run(s2):
                rows.append((s3, mark))
        N = None
        if len(Ns) == 1:
            N = list(Ns)[0]
        else:
            N = INF
        fat = I.fatals[nf:]
        # what changed
        newc = False
        cont = [(s, m) for s, m in rows if s.ctl is None]
        for stage in (0, 1):
            for s, m in cont:
                for phi, b in changed_locs(s, s0):
                    if (phi == '$') != (stage == 0) or isinner(b, decl, n0, I):
                        continue
                    if (phi, b) in carried or (phi, b) in pointwise:
                        continue
                    if mentions(b, bv) or mentions_op(b, 'pv'):
                        continue
                    v0 = hv(I, st, phi, b)
                    v1 = hv(I, s, phi, b)
                    if v0 is not None and v0.op == 'int' and v1 is not None and (
                            s.facts.canon(v1) is v0 or v0 in (TRUE, FALSE) and SORT.get(v1) == 'b' and s.facts.decide(v1) is (v0 is TRUE)):
                        continue            # every continuing iteration leaves it as it was
                    if v0 is not None and v1 is not None and is_pointwise(v0, v1, bv):
                        pointwise.add((phi, b))
                        continue
                    l = b if phi == '$' else mk('f', b, phi)
                    pv = mk('pv', d, l)
                    so = SORT.get(v0) if v0 is not None else None
                    if so is None and phi in I.ftype:
                        I.setsort(pv, I.ftype[phi])
                    elif so is None and l in getattr(I, 'vtype', {}):
                        I.setsort(pv, I.vtype[l])
                    elif so:
                        SORT.setdefault(pv, so)
                    carried[(phi, b)] = pv
                    newc = True
            if stage == 1:
                for s, m in cont:
                    for phi in s.base:
                        if s.base[phi] is not s0.base.get(phi) and phi not in bases:
                            bases.add(phi)
                            newc = True
            if newc:
                break
            ind = False
            for (phi, b), pv in carried.items():
                if (phi, b) in banned or not cont or stage == 0 and phi != '$':
                    continue
                k = step_of(I, st, cont, phi, b, pv, bv, induct.get((phi, b)))
                if (phi, b) in induct:
                    if k != induct[(phi, b)]:
                        banned.add((phi, b))
                        del induct[(phi, b)]
                        ind = True
                elif k is not None:
                    induct[(phi, b)] = k
                    ind = True
            if ind:
                newc = True
                break
        if newc:
            continue
        break
    else:
        I.notes.add('loop fixpoint not reached in %s' % (env.fn.q if env.fn else '?'))
    del I.fatals[nf:]
    L = Closed(I, st, s0, bv, d, carried, induct, pointwise, bases, cont, N, decl, n0, env, pre)
    exits = [(s, m) for s, m in rows if s.ctl is not None]
    # fatal rows
    fx = []
    for s, why in fat:
        m = None
        for s1, s2 in marks:
            p = s.pc
            while p is not None:
                if p is s2.pc:
                    m = s2
                    break
                p = p[0]
            if m is not None or s2.pc is None:
                m = m or s2
                break
        fx.append((s, m if m is not None else s0, why))
    X = FALSE
    allx = [(s, m, None) for s, m in exits] + fx
    gx = []
    L.outs = [frozenset(g.a if g.op == 'and' else (g,)) for s, m, why in allx for g in [and_(*L.lits(s, m))] if g.op != 'int']
    for s, m, why in allx:
        g = and_(*L.lits(s, m))
        g = L.close(g, bv)
        gx.append(g)
    if gx:
        X = dnf_term(dnf_simplify({frozenset(g.a if g.op == 'and' else (g,)) for g in gx if g is not FALSE})) if TRUE not in gx else TRUE
    ex = exists_(N, X, bv)
    out = []
    # completed without early exit
    if N is not INF:
        s = st.assume(neg(ex))
        if s is not None:
            out.append(L.finish(s, N))
    if ex is not FALSE:
        s = st.assume(ex) if N is not INF else st
        if s is not None:
            w = first_(N, X, bv)
            if N is not INF and w.op == 'first':
                s_ = s.assume(lt(w, N))
                s = s_ if s_ is not None else s
            for (sx, m, why), g in zip(allx, gx):
                if g is FALSE:
                    continue
                y = L.exit(s, sx, m, w)
                if y is None:
                    continue
                if why is not None:
                    I.fatals.append((y.ctl_(None), why))
                    continue
                if y.ctl == ('brk',):
                    y = y.ctl_(None)
                out.append(y)
    return I.merge(out)


def step_of(I, st, cont, phi, b, pv, bv, known):
    """constant increment of a loop-carried location per iteration, or None"""
    ks = set()
    v0 = hv(I, st, phi, b)
    if v0 is None or v0.op == 'uninit':
        return None
    for s, m in cont:
        v1 = hv(I, s, phi, b)
        if v1 is None:
            return None
        if v0.op in ('iter', 'riter'):
            x = v1.a[1] if v1.op == v0.op and v1.a[0] is v0.a[0] else None
            base = add(v0.a[1], mul(bv, intc(known))) if known is not None else pv
        else:
            x = v1
            base = add(v0, mul(bv, intc(known))) if known is not None else pv
        if x is None or not isinstance(x, T) or x.op not in ('lin', 'pv', 'int', 'init', 'sym', 'app', 'bv') and known is None:
            return None
        try:
            dd = sub(x, base)
        except Exception:
            return None
        ks.add(dd.a[0] if dd.op == 'int' else None)
    return ks.pop() if len(ks) == 1 and None not in ks else None


def d_false(s, v):
    return s.facts.decide(v) is False


def is_pointwise(v0, v1, bv):
    """v1 is v0 with only element bv replaced"""
    if v1.op == 'upd' and v1.a[0] is v0 and v1.a[1] is bv:
        return True
    if v1.op == 'store' and v1.a[0] is v0 and v1.a[1].op == 'key' and v1.a[1].a[0] is v0 and v1.a[1].a[1] is bv:
        return True
    return False


def caserows(rows, limit=8):
    """one row per case of the conditional values in the rows"""
    out, work = [], list(rows)
    while work:
        g, v = work.pop(0)
        c = next((x.a[0] for x in subterms(v) if x.op == 'ite' and not openbinder(x.a[0])), None)
        if c is None or len(out) + len(work) >= limit:
            out.append((g, v))
            continue
        for b, k in ((c, 1), (neg(c), 2)):
            h = and_(g, b)
            if h is FALSE:
                continue
            w = subst(v, lambda t: t.a[k] if t.op == 'ite' and t.a[0] is c else None, {})
            work.append((h, w))
    return out


def openbinder(c):
    """mentions the variable of an enclosing closed loop"""
    return any(x.op == 'bb' for x in subterms(c))


class Closed:
    """closed forms of the loop-carried locations"""

    def __init__(self, I, st, s0, bv, d, carried, induct, pointwise, bases, cont, N, decl, n0, env, pre={}):
        self.pre = pre
        self.I, self.st, self.s0, self.bv, self.d = I, st, s0, bv, d
        self.carried, self.induct, self.pointwise, self.bases = carried, induct, pointwise, bases
        self.cont, self.N, self.decl, self.n0, self.env = cont, N, decl, n0, env
        self.memo = {}
        self._dep = None
        self.busy = set()
        self.cl = {}
        self.outs = []
        self.pvloc = {pv: k for k, pv in carried.items()}
        # rows: guard literals of each continuing state
        self.rows = []
        for s, m in cont:
            self.rows.append((frozenset(self.lits(s, m)), s))

    def lits(self, s, m):
        """what an iteration's outcome depends on, its being within the range apart"""
        return [y for l in list(self.pre.get(id(m), ())) + list(s.lits(m.pc)) for y in (l.a if l.op == 'and' else (l,))]

    def dump(self, s, v):
        """iteration-local objects lose their identity"""
        I = self.I
        memo = {}
        n0, decl = self.n0, self.decl

        def f(x):
            if x.op == 'new':
                if isinstance(x.a[0], int) and x.a[0] > n0:
                    return I.dumpobj(s, x, 0, (x,))
                return x
            if x.op == 'obj':
                return x
            return None
        return subst(v, f, memo)

    # value of carried location key after K iterations
    def closed(self, key, K):
        m = self.memo.get((key, K))
        if m is not None:
            return m
        I, st, bv = self.I, self.st, self.bv
        phi, b = key
        v0 = hv(I, st, phi, b)
        if v0 is None:
            v0 = mk('uninit')
        if key in self.induct:
            k = self.induct[key]
            if v0.op in ('iter', 'riter'):
                r = mk(v0.op, v0.a[0], add(v0.a[1], mul(K, intc(k))))
            else:
                r = add(v0, mul(K, intc(k)))
            self.memo[(key, K)] = r
            return r
        if self.needs_token(key):
            r = mk('app', 'lsel', self.token(K), self.label(key))
            if v0 in SORT:
                SORT.setdefault(r, SORT[v0])
            self.memo[(key, K)] = r
            return r
        if key in self.busy:
            return mk('acc', v0)
        self.busy.add(key)
        pv = self.carried[key]
        table = {}
        for g, s in self.rows:
            v = hv(I, s, phi, b)
            if v is None:
                v = mk('uninit')
            v = self.dump(s, v)
            table.setdefault(v, []).append(g)
        r = self.form(table, pv, v0, K)
        self.busy.discard(key)
        if not self.busy:
            self.memo[(key, K)] = r
        return r

    def inside(self, cube):
        """without the tests which only tell it from iterations that leave the loop"""
        if not self.outs:
            return cube
        for c in sorted(cube, key=lambda t: t.n):
            o = (cube - {c}) | {neg(c)}
            if any(x <= o for x in self.outs):
                cube = cube - {c}
        if any(c.op == 'or' for c in cube):
            plain = frozenset(c for c in cube if c.op != 'or')
            cube = plain | {self.inalt(c, plain) for c in cube if c.op == 'or'} - {TRUE}
        return cube

    def inalt(self, c, outer, depth=3):
        alts = []
        for a in c.a:
            own = frozenset(a.a if a.op == 'and' else (a,))
            for l in sorted(own, key=lambda t: t.n):
                o = (own - {l}) | {neg(l)} | outer
                if any(x <= o for x in self.outs):
                    own = own - {l}
                elif l.op == 'or' and depth:
                    own = (own - {l}) | {self.inalt(l, outer | (own - {l}), depth - 1)}
            alts.append(and_(*own))
        return or_(*alts)

    def form(self, table, pv, v0, K):
        I, bv = self.I, self.bv
        # rows with merged guards
        rows = []
        for v, gs in table.items():
            if v is pv:
                continue
            g = dnf_term(dnf_simplify({self.inside(x) for x in gs}))
            if len(table) == 1:
                g = TRUE
            rows.append((g, v))
        if not rows:
            return v0
        # iterator-valued carried locations: component
        if v0.op in ('iter', 'riter'):
            rows2 = []
            for g, v in rows:
                if v.op == v0.op and v.a[0] is v0.a[0]:
                    rows2.append((g, v.a[1]))
                else:
                    rows2 = None
                    break
            if rows2 is not None:
                t = {}
                idx = self.form_rows(rows2, pv, v0.a[1], K)
                return mk(v0.op, v0.a[0], idx)
        return self.form_rows(rows, pv, v0, K)

    def form_rows(self, rows, pv, v0, K):
        bv = self.bv
        # boolean accumulators
        nr = []
        for g, v in rows:
            if v.op == 'or' and pv in v.a:
                rest = or_(*[x for x in v.a if x is not pv])
                nr.append((and_(g, rest), TRUE))
            elif v.op == 'and' and pv in v.a:
                rest = and_(*[x for x in v.a if x is not pv])
                nr.append((and_(g, neg(rest)), FALSE))
            else:
                nr.append((g, v))
        by = {}
        for g, v in nr:
            by.setdefault(v, []).append(g)
        rows = [(or_(*gs), v) for v, gs in by.items()]
        # guards that test the flag itself
        if len(rows) == 1 and rows[0][1].op == 'int':
            g, v = rows[0]
            npv = neg(pv) if v is TRUE else pv
            if g.op == 'and' and npv in g.a:
                rows = [(and_(*[x for x in g.a if x is not npv]), v)]
            elif g is npv:
                rows = [(TRUE, v)]
        # entering a key that is not there yet: the test is redundant for sets, and for maps that start empty and never see a key twice
        nr = []
        for g, v in rows:
            if v.op in ('ins', 'store') and v.a[0] is pv and g.op in ('and', 'not'):
                has = neg(contains_(pv, v.a[1]))
                fresh = v.op == 'ins' or len(rows) == 1 and v0.op == 'empty' and self.distinct(v.a[1])
                if fresh and g is has:
                    g = TRUE
                elif fresh and g.op == 'and' and has in g.a:
                    g = and_(*[x for x in g.a if x is not has])
            nr.append((g, v))
        rows = nr
        # eliminate the other carried locations by their value at iteration bv
        rows = [(self.close(g, bv, pv), self.close(v, bv, pv)) for g, v in rows]
        gpv = any(mentions(g, pv) for g, v in rows)
        if not gpv:
            if len(rows) == 1 and not mentions(rows[0][1], pv):
                g, v = rows[0]
                if not mentions(v, bv):
                    e = exists_(K, g, bv)
                    return self.ite(e, v, v0)
                if g is TRUE:
                    return self.ite(eq(K, ZERO), v0, at_bv(v, bv, sub(K, intc(1))))
            # one element dropped from an end in every iteration
            if len(rows) == 1 and rows[0][0] is TRUE and rows[0][1].op == 'slice' and rows[0][1].a[0] is pv:
                _, lo, hi = rows[0][1].a
                n = len_(pv)
                if lo is intc(1) and hi is n:
                    return slice_(v0, K, len_(v0))
                if lo is ZERO and hi is sub(n, intc(1)):
                    return slice_(v0, ZERO, sub(len_(v0), K))
            cells = self.cells(rows, pv, v0, K)
            if cells is not None:
                return cells
            # consecutive cells of an array, from some position upwards or downwards
            if len(rows) == 1 and rows[0][1].op == 'upd' and rows[0][1].a[0] is pv and not mentions(rows[0][1].a[2], pv):
                g, (_, idx, x) = rows[0][0], rows[0][1].a
                for sign in (1, -1):
                    start = sub(idx, sum_(bv, [(g, intc(sign))], bv))
                    if mentions(start, bv) or mentions(start, pv):
                        continue
                    from .models import rev_
                    c = coll_(K, [(g, x)], bv)
                    m, n = len_(c), len_(v0)
                    if sign == 1:
                        return cat_(cat_(slice_(v0, ZERO, start), c), slice_(v0, add(start, m), n))
                    hi = add(start, intc(1))
                    return cat_(cat_(slice_(v0, ZERO, sub(hi, m)), rev_(c)), slice_(v0, hi, n))
            # sums
            ok = True
            sr = []
            for g, v in rows:
                if v.op in ('lin',) and dict(v.a[1]).get(pv) == 1:
                    e = sub(v, pv)
                    if mentions(e, pv):
                        ok = False
                    sr.append((g, e))
                else:
                    ok = False
            if ok:
                return add(v0, sum_(K, sr, bv))
            # sequences
            cr = []
            ok = True
            for g, v in rows:
                xs = []
                t = v
                while t.op == 'append':
                    xs.append(t.a[1])
                    t = t.a[0]
                if t.op == 'cat' and t.a[0] is pv and not mentions(t.a[1], pv) and not xs:
                    cr.append((g, mk('multi', t.a[1])))
                    continue
                if t is not pv or not xs or any(mentions(x, pv) for x in xs):
                    ok = False
                    break
                xs.reverse()
                cr.append((g, xs[0] if len(xs) == 1 else mk('multi', *xs)))
            if ok:
                return cat_(v0, coll_(K, cr, bv))
            # sets
            for op in ('ins', 'del'):
                sr = []
                for g, v in rows:
                    if v.op == op and v.a[0] is pv and not mentions(v.a[1], pv):
                        sr.append((g, v.a[1]))
                if len(sr) == len(rows):
                    c = coll_(K, sr, bv)
                    from .models import union_
                    t = union_(v0, c) if op == 'ins' else (v0 if c.op == 'empty' else mk('app', 'minus', v0, c))
                    if v0 in SORT:
                        SORT.setdefault(t, SORT[v0])
                    return t
            # maps: insertion of fresh keys / stores
            sr = []
            for g, v in rows:
                if v.op == 'store' and v.a[0] is pv and not mentions(v.a[1], pv) and not mentions(v.a[2], pv):
                    sr.append((g, mk('kv', v.a[1], v.a[2])))
            if len(sr) == len(rows):
                t = mk('app', 'storeall', v0, coll_(K, sr, bv))
                if v0 in SORT:
                    SORT.setdefault(t, SORT[v0])
                return t
        rows = caserows(rows)
        acc = mk('acc', NULL)
        f = lambda t: subst(t, lambda x: acc if x is pv else None, {})
        bb, r = rows_(bv, [(f(g), f(v)) for g, v in rows])
        t = mk('fold', K, v0, r, bb)
        if pv in SORT:
            SORT.setdefault(t, SORT[pv])
        return t

    def cells(self, rows, pv, v0, K):
        """an array of a known small size whose cells are independent accumulators"""
        n = len_(v0)
        if n.op != 'int' or not 0 < n.a[0] <= 8 or not rows:
            return None
        by = {}
        for g, v in rows:
            here = set()
            while v.op == 'upd' and v.a[1].op == 'int' and v.a[1] not in here:
                here.add(v.a[1])
                by.setdefault(v.a[1], []).append((g, v.a[2]))
                v = v.a[0]
            if v is not pv:
                return None
        out = v0
        for i in sorted(by, key=lambda x: x.a[0]):
            c = mk('at', pv, i)
            p = mk('pv', 'cell%d' % pv.n, i)
            SORT.setdefault(p, SORT.get(c, 'i'))
            rs = [(g, subst(v, lambda x: p if x is c else None, {})) for g, v in by[i]]
            if any(mentions(v, pv) for _, v in rs):
                return None
            out = upd_(out, i, self.form_rows(rs, p, at_(v0, i), K))
        return out

    def distinct(self, k):
        """does every iteration see another key?"""
        return k.op == 'key' and k.a[1] is self.bv and not mentions(k.a[0], self.bv) or \
            k.op == 'at' and k.a[1] is self.bv and k.a[0] in SETS

    def ite(self, c, a, b):
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
        dd = self.st.facts.decide(c)
        if dd is not None:
            return a if dd else b
        r = oneform(c, a, b)
        if r is not None:
            return r
        t = mk('ite', c, a, b)
        if a in SORT or b in SORT:
            SORT.setdefault(t, SORT.get(a) or SORT.get(b))
        elif a in (TRUE, FALSE) and b in (TRUE, FALSE):
            SORT.setdefault(t, 'b')
        return t

    def close(self, t, K, keep=None):
        """replace carried values by their closed form after K iterations (and bv by K when K is not bv)"""
        bv = self.bv
        memo = {}

        def f(x):
            if x.op == 'pv' and x.a[0] == self.d:
                if x is keep:
                    return None
                k = self.pvloc.get(x)
                if k is None:
                    if x.a[1].op == 'basever':
                        return self.basever(x.a[1].a[0], K)
                    return None
                v = self.closed(k, K)
                if v.op in ('iter', 'riter'):
                    v = v.a[1]
                return v
            if x is bv and K is not bv:
                return K
            return None
        return subst(t, f, memo)

    def basever(self, phi, K):
        return mk('app', 'lsel', self.token(K), strc(phi))

    def label(self, key):
        phi, b = key
        if phi != '$':
            return mk('f', b, phi)
        v0 = hv(self.I, self.st, phi, b)
        t = getattr(self.I, 'vtype', {}).get(b)
        return mk('loc', v0 if v0 is not None else mk('uninit'), strc(str(t)))

    def needs_token(self, key):
        """does the carried location depend on a field version changed by the body?"""
        if not self.bases:
            return False
        if self._dep is None:
            dep = {}
            for k in self.carried:
                if k in self.induct:
                    continue
                ps = set()
                for g, s in self.rows:
                    v = hv(self.I, s, *k)
                    if v is None:
                        continue
                    for t in [self.dump(s, v)] + list(g):
                        for x in subterms(t):
                            if x.op == 'pv' and x.a[0] == self.d:
                                ps.add(x)
                dep[k] = ps
            self._dep = {}
            for k in dep:
                seen, work, hit = set(), [k], False
                while work and not hit:
                    j = work.pop()
                    if j in seen:
                        continue
                    seen.add(j)
                    for x in dep.get(j, ()):
                        if x.a[1].op == 'basever':
                            hit = True
                            break
                        if x in self.pvloc:
                            work.append(self.pvloc[x])
                self._dep[k] = hit
        return self._dep.get(key, False)

    def token(self, K):
        """joint closed form of everything that evolves together with the changed field versions"""
        t = self.memo.get(('token', K))
        if t is not None:
            return t
        I, bv = self.I, self.bv
        keys = [k for k in self.carried if k not in self.induct]
        names = {}
        for phi in self.bases:
            names[mk('pv', self.d, mk('basever', phi))] = mk('acc', strc(phi))
        for k in keys:
            names[self.carried[k]] = mk('acc', self.label(k))
        memo = {}

        def f(t):
            return subst(t, lambda x: names.get(x) if x.op == 'pv' else None, memo)
        rows = {}
        for g, s in self.rows:
            asg = []
            for phi in sorted(self.bases):
                v = s.base.get(phi, NULL)
                if v.op == 'pv' and v in names:
                    continue
                asg.append((strc(phi), f(self.dump(s, v))))
            for k in keys:
                v = hv(I, s, *k)
                v = mk('uninit') if v is None else self.dump(s, v)
                if v is self.carried[k]:
                    continue
                asg.append((self.label(k), f(v)))
            a = mk('asg', tuple(sorted(asg, key=lambda x: x[0].n)))
            rows.setdefault(a, set()).add(frozenset(f(x) for x in g))
        rr = []
        for a, gs in rows.items():
            rr.append((TRUE if len(rows) == 1 else dnf_term(dnf_simplify(gs)), a))
        bb, r = rows_(bv, rr)
        init = [(strc(phi), self.st.base.get(phi, NULL)) for phi in sorted(self.bases)]
        for k in keys:
            v0 = hv(I, self.st, *k)
            init.append((self.label(k), v0 if v0 is not None else mk('uninit')))
        init = tuple(sorted([x for x in init if x[1] is not NULL], key=lambda x: x[0].n))
        t = mk('loopv', K, init, r, bb)
        self.memo[('token', K)] = t
        return t

    def pw(self, key, K):
        """pointwise-updated container"""
        I, st, bv = self.I, self.st, self.bv
        phi, b = key
        v0 = hv(I, st, phi, b)
        table = {}
        for g, s in self.rows:
            v = hv(I, s, phi, b)
            v = self.dump(s, v)
            if v is v0:
                continue
            x = v.a[2]
            table.setdefault(x, []).append(g)
        rows = []
        tot = sum(len(x) for x in table.values())
        for v, gs in table.items():
            g = TRUE if len(table) == 1 and tot == len(self.rows) else dnf_term(dnf_simplify(set(gs)))
            rows.append((self.close(g, bv), self.close(v, bv)))
        ismap = any(hv(I, s, phi, b).op == 'store' for g, s in self.rows)
        bb, r = rows_(bv, rows)
        if K is len_(v0):
            t = mk('mapall' if ismap else 'mapseq', v0, r, bb)
        else:
            t = mk('mappart', v0, r, bb, K)
        if v0 in SORT:
            SORT.setdefault(t, SORT[v0])
        return t

    def layers(self, K):
        """writes to fields of the generic element"""
        I, bv = self.I, self.bv
        acc = {}
        for g, s in self.rows:
            for phi, b in changed_locs(s, self.s0):
                if phi == '$' or isinner(b, self.decl, self.n0, I):
                    continue
                if (phi, b) in self.carried or (phi, b) in self.pointwise:
                    continue
                if not (mentions(b, bv) or mentions_op(b, 'pv')):
                    continue
                v = hv(I, s, phi, b)
                v = self.dump(s, v)
                acc.setdefault((phi, self.close(b, bv)), {}).setdefault(self.close(v, bv), []).append(frozenset(self.close(x, bv) for x in g))
        out = []
        for (phi, b), table in acc.items():
            tot = sum(len(x) for x in table.values())
            for v, gs in table.items():
                g = TRUE if len(table) == 1 and tot == len(self.rows) else dnf_term(dnf_simplify(set(gs)))
                bb, close = bindvar(bv, [g, v, b])
                out.append((phi, (bb, K, close(g), close(b), close(v))))
        out.sort(key=lambda x: (x[0], x[1][3].n, x[1][4].n))
        return out

    def finish(self, s, K):
        """state after K complete iterations"""
        I, st, bv = self.I, self.st, self.bv
        s = s.clone()
        newheap = []
        for key in self.carried:
            newheap.append((key, self.closed(key, K)))
        for key in self.pointwise:
            newheap.append((key, self.pw(key, K)))
        lay = self.layers(K)
        for (phi, b), v in newheap:
            s = s.set(phi, b, v)
        s = s.clone()
        if lay:
            s.lay = dict(s.lay)
            h = dict(s.heap)
            for phi, l in lay:
                # earlier individual writes to elements of this field are older than the layer
                s = self.flush(s, phi, l)
                s.lay = dict(s.lay)
                s.lay[phi] = s.lay.get(phi, ()) + (l,)
        if self.bases:
            s = s.clone()
            s.base = dict(s.base)
            s.heap = dict(s.heap)
            for phi in self.bases:
                s.base[phi] = self.basever(phi, K)
                if phi in s.heap and not any(k[0] == phi for k in self.carried):
                    del s.heap[phi]
                s.lay = dict(s.lay)
                s.lay.pop(phi, None)
        # variables of the body go out of scope
        h = dict(s.heap)
        d = h.get('$')
        if d:
            nd = {b: v for b, v in d.items() if not (b.op == 'var' and b.a[0] in self.decl)}
            if len(nd) != len(d):
                h['$'] = nd
                s.heap = h
        s.n = max(s.n, self.s0.n)
        return s

    def flush(self, s, phi, layer):
        """individual writes that the layer may overwrite become older layers"""
        d = s.heap.get(phi)
        if not d:
            return s
        I = self.I
        keep, old = {}, []
        for b, v in d.items():
            if I.root(b).op in ('var', 'new') and not mentions_op(b, 'at') and not mentions_op(b, 'val'):
                keep[b] = v
            elif I.unify(layer[3], layer[0], b) is not None:
                old.append((b, v))
            else:
                keep[b] = v
        if not old:
            return s
        s = s.clone()
        s.heap = dict(s.heap)
        s.heap[phi] = keep
        s.lay = dict(s.lay)
        for b, v in old:
            s.lay[phi] = s.lay.get(phi, ()) + ((mk('bb', 0), intc(1), TRUE, b, v),)
        return s

    def exit(self, s, sx, m, w):
        """state leaving the loop at iteration w through row sx"""
        I, st, bv = self.I, self.st, self.bv
        memo = {}

        def g(t):
            if t is None or not isinstance(t, T):
                return t
            return self.close(t, w)
        for l in self.lits(sx, m):
            s = s.assume(g(l))
            if s is None:
                return None
        done = self.finish(s, w)
        r = done.clone()
        r.n = max(done.n, sx.n)
        h = {}
        heap = dict(done.heap)
        # everything the exiting iteration wrote
        for phi in set(sx.heap) | set(self.s0.heap):
            d, d0 = sx.heap.get(phi, {}), self.s0.heap.get(phi, {})
            if d is d0:
                continue
            nd = dict(heap.get(phi, {}))
            for b in d0:
                if b not in d:              # an opaque call has changed it since
                    nd.pop(b, None)
                    nd.pop(g(b), None)
            if sx.base.get(phi) is not self.s0.base.get(phi):
                keep = {b for b in d} | {g(b) for b in d}
                nd = {b: v for b, v in nd.items() if b in keep}
            for b, v in d.items():
                if d0.get(b) is v:
                    continue
                nd[g(b)] = g(v)
            heap[phi] = nd
        r.heap = heap
        r.refs = {k: g(v) for k, v in sx.refs.items()}
        if sx.base is not self.s0.base:
            r.base = dict(r.base)
            for phi, b in sx.base.items():
                if self.s0.base.get(phi) is not b:
                    r.base[phi] = g(b)
        if sx.lay is not self.s0.lay:
            r.lay = dict(r.lay)
            for phi, l in sx.lay.items():
                if self.s0.lay.get(phi) is not l:
                    r.lay[phi] = tuple(tuple(g(y) for y in x) for x in l)
        c = sx.ctl
        if c and c[0] == 'ret' and isinstance(c[1], T):
            c = ('ret', g(c[1]))
        r.ctl = c
        return r


# ---------------------------------------------------------------- algorithms
def bodydecl(I, f):
    c = I.clos.get(f) if f.op == 'lam' else None
    return declared([c[0].node] if c is not None and c[0].node is not None else [])


def algo(I, name, args, st, env, n):
    out = []
    for s, vs in I.evs(args, st, env):
        x = [I.rval(s, a, v) for a, v in zip(args, vs)]
        if len(x) < 2 or x[0].op != 'iter' or x[1].op != 'iter':
            I.notes.add('algorithm %s on unknown range' % name)
            out.append((s, I.setsort(mk('unk', name), n.qt)))
            continue
        C, lo, hi = x[0].a[0], x[0].a[1], x[1].a[1]
        N = sub(hi, lo)
        if name in ('for_each',):
            def step(z, C=C):
                return [(z, lt(mk('bv', I.depthloop - 1), N))]

            def run(z):
                el = I.elemloc(z, C, add(lo, mk('bv', I.depthloop - 1)))
                if el.op == 'el' and I.read(z, el).op in ('new',):
                    el = I.read(z, el)
                return [a for a, _ in I.callval(x[2], ['lval'], [el], z, env, n)]
            few = N.a[0] if isint(N) and 0 <= N.a[0] <= MAXUNROLL else None
            if few is not None:
                cur = [s]
                for i in range(few):
                    nxt = []
                    for z in cur:
                        el = I.elemloc(z, C, add(lo, intc(i)))
                        if el.op == 'el' and I.read(z, el).op in ('new',):
                            el = I.read(z, el)
                        nxt.extend(a for a, _ in I.callval(x[2], ['lval'], [el], z, env, n))
                    cur = I.merge(nxt) if len(nxt) > 1 else nxt
                out.extend((a, None) for a in cur)
                continue
            out.extend((a, None) for a in generic(I, s, env, step, run, bodydecl(I, x[2]), n))
            continue
        if name == 'transform' and len(x) == 4 and x[2].op in ('backins', 'inserter'):
            into, f = x[2].a[0], x[3]

            def step(z):
                return [(z, lt(mk('bv', I.depthloop - 1), N))]

            def run(z):
                el = I.elemloc(z, C, add(lo, mk('bv', I.depthloop - 1)))
                if el.op == 'el' and I.read(z, el).op in ('new',):
                    el = I.read(z, el)
                r = []
                for a, v in I.callval(f, ['lval'], [el], z, env, n):
                    r.extend(enter(I, a, into, v, x[2].op == 'inserter'))
                return r
            out.extend((a, x[2]) for a in generic(I, s, env, step, run, bodydecl(I, f), n))
            continue
        if name in ('set_difference', 'set_intersection', 'set_symmetric_difference', 'set_union') and len(x) == 5 and \
                all(y.op == 'iter' for y in x[:4]) and x[4].op in ('backins', 'inserter'):
            A, B = I.rangeval(s, x[0], x[1]), I.rangeval(s, x[2], x[3])
            if ordered(A) and ordered(B):
                from .models import union_
                r = EMPTYC
                bv = mk('bv', I.depthloop)
                SORT.setdefault(bv, 'u')
                for p, q in [(A, B), (B, A)] if name == 'set_symmetric_difference' else [(A, B)]:
                    e = at_(p, bv)
                    if name == 'set_union':
                        r = union_(p, q)
                        continue
                    g = contains_(q, e)
                    c = coll_(len_(p), [(g if name == 'set_intersection' else neg(g), e)], bv)
                    r = c if r is EMPTYC else mk('sorted', cat_(r, c))
                old = I.read(s, x[4].a[0])
                out.append((I.write(s, x[4].a[0], cat_(old, r) if x[4].op == 'backins' else union_(old, r)), x[4]))
                continue
        if name in ('remove', 'remove_if', 'copy_if') and (name != 'copy_if' or len(x) == 4 and x[2].op in ('backins', 'inserter')) or name in (
                'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'find', 'count'):
            d = I.depthloop
            I.depthloop += 1
            bv = mk('bv', d)
            SORT.setdefault(bv, 'u')
            nf = len(I.fatals)
            s0 = s.assume(lt(bv, N))
            if s0 is None:
                X = FALSE
            elif name in ('find', 'count', 'remove'):
                e = I.elemloc(s0, C, add(lo, bv))
                X = eq(I.read(s0, e), x[2])
            else:
                el = I.elemloc(s0, C, add(lo, bv))
                rs = forkeval(I, lambda z: I.callval(x[-1], ['lval'], [el], z, env, n), s0)
                ds = set()
                for z, v in rs:
                    if changed_pers(z, s0):
                        I.notes.add('predicate with effects')
                    g = and_(*z.lits(s0.pc))
                    v = truthy(I.lift(z, v))
                    for q in (v.a if v.op == 'or' else (v,)):
                        if q is not FALSE:
                            c = and_(g, q)
                            ds.add(frozenset(c.a if c.op == 'and' else (c,)))
                X = dnf_term(dnf_simplify(ds)) if ds else FALSE
            fat = I.fatals[nf:]
            del I.fatals[nf:]
            I.depthloop -= 1
            if fat:
                I.notes.add('predicate with assertion')
            if name in ('remove', 'remove_if', 'copy_if'):
                e = I.elemloc(s, C, add(lo, bv))
                v = I.read(s, e)
                if v.op in ('new', 'obj') or ty_struct(I, args[0].qt):
                    I.notes.add('algorithm ' + name)
                kept = coll_(N, [(X if name == 'copy_if' else neg(X), v)], bv) if X is not (TRUE if name != 'copy_if' else FALSE) else EMPTYC
                if name == 'copy_if':
                    from .models import union_
                    old = I.read(s, x[2].a[0])
                    out.append((I.write(s, x[2].a[0], cat_(old, kept) if x[2].op == 'backins' else union_(old, kept)), x[2]))
                else:
                    # what follows the kept elements is unspecified
                    full = I.read(s, C)
                    new = cat_(cat_(slice_(full, ZERO, lo), kept), slice_(full, add(lo, len_(kept)), len_(full)))
                    out.append((I.write(s, C, new), mk('iter', C, add(lo, len_(kept)))))
            elif name == 'any_of':
                out.append((s, exists_(N, X, bv)))
            elif name == 'none_of':
                out.append((s, neg(exists_(N, X, bv))))
            elif name == 'all_of':
                out.append((s, neg(exists_(N, neg(X), bv))))
            elif name in ('count_if', 'count'):
                out.append((s, sum_(N, [(X, intc(1))], bv)))
            else:
                if name == 'find_if_not':
                    X = neg(X)
                if N.op == 'int' and 0 <= N.a[0] <= 8:
                    zs = [s]
                    for i in range(N.a[0]):
                        nx = []
                        for z in zs:
                            tr, fa = I.fork(z, at_bv(X, bv, intc(i)))
                            out.extend((y, mk('iter', C, add(lo, intc(i)))) for y in tr)
                            nx.extend(fa)
                        zs = nx
                    out.extend((z, mk('iter', C, hi)) for z in zs)
                    continue
                e = exists_(N, X, bv)
                tr, fa = I.fork(s, e)
                w = first_(N, X, bv)
                for z in tr:
                    z2 = z.assume(lt(w, N)) or z
                    z3 = z2.assume(at_bv(X, bv, w)) or z2
                    out.append((z3, mk('iter', C, add(lo, w))))
                for z in fa:
                    out.append((z, mk('iter', C, hi)))
            continue
        if name == 'accumulate':
            d = I.depthloop
            bv = mk('bv', d)
            SORT.setdefault(bv, 'u')
            if len(x) == 3:
                e = I.read(s, I.elemloc(s, C, add(lo, bv)))
                out.append((s, add(x[2], sum_(N, [(TRUE, e)], bv))))
                continue
            acc = {}
            s1, l = s.fresh('acc')
            s1 = s1.set('$', l, x[2])

            def step(z):
                return [(z, lt(mk('bv', I.depthloop - 1), N))]

            def run(z):
                el = I.elemloc(z, C, add(lo, mk('bv', I.depthloop - 1)))
                r = []
                for a, v in I.callval(x[3], ['val', 'lval'], [I.read(z, l), el], z, env, n):
                    r.append(a.set('$', l, v))
                return r
            for z in generic(I, s1, env, step, run, set(), n):
                out.append((z, I.read(z, l)))
            continue
        I.notes.add('algorithm ' + name)
        out.append((s, I.setsort(mk('unk', name), n.qt)))
    return out


def ty_struct(I, qt):
    a = I.ty.args(qt)
    return bool(a) and I.ty.cat(a[0].rstrip('*& ')) == 'struct' and not a[0].rstrip().endswith('*')


def enter(I, s, into, v, inserter):
    """v put at the end of a sequence, or into a set or map unless it holds an equal key"""
    old = I.read(s, into)
    if not inserter:
        return [I.write(s, into, append_(old, v))]
    fst = mk('f', v, 'first')
    if v.op == 'new' and 'first' in s.heap and v in s.heap['first']:
        k, w = I.read(s, fst), I.read(s, mk('f', v, 'second'))
        has = contains_(old, k)
        out = [z for z in s.fork(has)] if has.op != 'int' else [s]
        r = []
        for z in out:
            r.append(z if z.facts.decide(has) is True else I.write(z, into, store_(old, k, w)))
        return r
    if v.op in ('new', 'obj'):
        I.notes.add('inserter')
        return [s]
    return [I.write(s, into, ins_(old, v))]


def changed_pers(z, s0):
    return any(True for phi, b in changed_locs(z, s0) if b.op != 'new' and phi != '$')
