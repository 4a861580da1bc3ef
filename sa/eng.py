"""Gated value-flow engine.

A function body is turned into a finite set of guarded summaries: for every feasible way through
it (branches are split on abstract conditions, loops are summarised by one generic iteration),
the values every persistent location, the result and the outcome have in terms of the entry
state.  The domain is terms + linear facts (terms.py); no concrete or solver-driven execution.
"""
import re, sys
from .terms import *
from .terms import _sub_arg
from . import terms as TM
from . import front
from .types import Types

sys.setrecursionlimit(100000)

CTL_FATAL = 'fatal'


class NeedFork(Exception):
    def __init__(self, cond):
        self.cond = cond


class Broken(Exception):
    """an anchor the analysis needs is not there"""


class Budget(Exception):
    pass


# ---------------------------------------------------------------- container terms
EMPTYC = mk('empty')
# counters with a signed type that never go below zero: they start at zero, are only incremented or reset to zero, and Inflights gives back what it took
NONNEG = {'Inflights::count_', 'Inflights::start_', 'Raft::election_elapsed_', 'Raft::heartbeat_elapsed_'}
GARBAGE = mk('app', 'garbage')     # contents of memory nobody initialised
SETS = set()           # terms known to be ordered sets


def small(t):
    """numbers of things held in memory, which fit every integer type"""
    op = t.op
    if op in ('int', 'bb', 'bv', 'first', 'pos') or SORT.get(t) == 'b':
        return True
    if op == 'pv':
        return True
    if op == 'app':
        return t.a[0] == 'len' or t.a[0] == 'half' and small(t.a[1])
    if op == 'lin':
        return all(small(x) for x, k in t.a[1])
    if op == 'sum':
        return small(t.a[0]) and all(small(r[1]) for r in t.a[1] if isinstance(r, tuple) and len(r) == 2)
    return False


def isset(t):
    return t in SETS or t.op in ('ins', 'toset', 'empty') or t.op == 'app' and t.a[0] in ('union', 'keys') or t.op == 'del' and isset(t.a[0])


def ordered(t):
    """are the elements of t known to be in ascending order?"""
    if t in SETS or t.op in ('empty', 'ins', 'sorted') or t.op == 'append' and t.a[0].op == 'empty':
        return True
    if t.op == 'app' and t.a[0] in ('keys', 'union', 'toset'):
        return True
    if t.op in ('toset', 'union', 'keys'):
        return True
    if t.op in ('del', 'slice'):
        return ordered(t.a[0])
    if t.op == 'coll' and len(t.a[1]) == 1:
        v = t.a[1][0][1]
        return v.op == 'key' and v.a[1] is t.a[2] or v.op == 'at' and v.a[1] is t.a[2] and ordered(v.a[0])
    return False



def len_(c):
    op = c.op
    if op == 'empty':
        return ZERO
    if op == 'append':
        return add(len_(c.a[0]), intc(1))
    if op == 'cat':
        return add(len_(c.a[0]), len_(c.a[1]))
    if op == 'slice':
        return sub(c.a[2], c.a[1])
    if op == 'upd' or op == 'mapseq':
        return len_(c.a[0])
    if op == 'sorted' or op == 'rev':
        return len_(c.a[0])
    if op == 'coll' and len(c.a[1]) == 1 and not c.a[1][0][0]:
        return c.a[0]
    if op == 'filled':
        return c.a[0]
    if op == 'coll' and len(c.a[1]) == 1 and c.a[1][0][1].op != 'multi':
        # one element for every iteration its guard holds in
        t = mk('sum', c.a[0], ((c.a[1][0][0], intc(1)),), c.a[2])
        SORT.setdefault(t, 'u')
        return t
    t = mk('app', 'len', c)
    SORT.setdefault(t, 'u')
    return t


def cat_(a, b):
    if a.op == 'empty':
        return b
    if b.op == 'empty':
        return a
    if b.op == 'append':
        return append_(cat_(a, b.a[0]), b.a[1])
    if b.op == 'cat':
        return cat_(cat_(a, b.a[0]), b.a[1])
    return mk('cat', a, b)


def append_(a, x):
    return mk('append', a, x)


def slice_(c, lo, hi):
    if lo is hi:
        return EMPTYC
    if lo is ZERO and hi is len_(c):
        return c
    if c.op == 'empty':
        return c
    if c.op == 'slice':
        return slice_(c.a[0], add(c.a[1], lo), add(c.a[1], hi))
    if c.op == 'filled':
        return mk('filled', sub(hi, lo), c.a[1])
    if c.op == 'append' and lo is ZERO and hi is len_(c.a[0]):
        return c.a[0]
    if c.op == 'cat' and lo is ZERO and hi is len_(c.a[0]):
        return c.a[0]
    if c.op == 'append' and lo.op == 'int' and hi is len_(c):
        return append_(slice_(c.a[0], lo, len_(c.a[0])), c.a[1])
    return mk('slice', c, lo, hi)


BV = {}


def at_(c, i):
    op = c.op
    if op == 'append':
        d = sub(i, len_(c.a[0]))
        if d is ZERO:
            return c.a[1]
        if d.op == 'int' and d.a[0] < 0 or i.op == 'int' and c.a[0].op != 'empty' and not _maybe_empty(c.a[0], i):
            return at_(c.a[0], i)
    if op == 'slice':
        return at_(c.a[0], add(c.a[1], i))
    if op == 'upd':
        d = sub(i, c.a[1])
        if d is ZERO:
            return c.a[2]
        if d.op == 'int':
            return at_(c.a[0], i)
    if op == 'coll' and len(c.a[1]) == 1 and not c.a[1][0][0]:
        return subst(c.a[1][0][1], lambda x: i if x is c.a[2] else None, {})
    if op == 'filled':
        return c.a[1]
    if op == 'rev':
        return at_(c.a[0], sub(sub(len_(c.a[0]), intc(1)), i))
    t = mk('at', c, i)
    s = SORT.get(c)
    if s and s[0] == '*':
        SORT.setdefault(t, s[1:])
    return t


def _maybe_empty(c, i):
    n = len_(c)
    d = sub(n, i)
    return not (d.op == 'int' and d.a[0] > 0)


def key_(m, idx):
    if idx.op == 'pos':
        return idx.a[1]
    if m.op in ('mapall',):
        return key_(m.a[0], idx)
    t = mk('key', m, idx)
    s = SORT.get(m)
    if s and s.startswith('k'):
        SORT.setdefault(t, s[1])
    return t


def pos_(m, k):
    if m.op == 'mapall':
        return pos_(m.a[0], k)
    if k.op in ('key', 'at') and k.a[0] is m:
        return k.a[1]
    t = mk('pos', m, k)
    SORT.setdefault(t, 'u')
    return t


def val_(m, idx):
    op = m.op
    if op == 'store':
        k = key_(m, idx)
        e = eq(k, m.a[1])
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return val_(m.a[0], pos_(m.a[0], k))
    if op in ('del', 'ins') and idx.op == 'pos':
        e = eq(idx.a[1], m.a[1])
        if e is FALSE:
            return val_(m.a[0], pos_(m.a[0], idx.a[1]))
    if op == 'mapall' and len(m.a[1]) == 1 and not m.a[1][0][0]:
        # every element replaced
        v = m.a[1][0][1]
        bvar = m.a[2]
        return subst(v, lambda x: idx if x is bvar else None, {})
    t = mk('val', m, idx)
    s = SORT.get(m)
    if s and s.startswith('k'):
        SORT.setdefault(t, s[2])
    return t


def contains_(m, k):
    op = m.op
    if op == 'empty':
        return FALSE
    if op in ('ins', 'store'):
        return or_(eq(m.a[1], k), contains_(m.a[0], k))
    if op == 'del':
        return and_(neg(eq(m.a[1], k)), contains_(m.a[0], k))
    if op == 'mapall':
        return contains_(m.a[0], k)
    if k.op in ('key', 'at') and k.a[0] is m:
        return TRUE
    t = mk('contains', m, k)
    SORT.setdefault(t, 'b')
    return t


def store_(m, k, v):
    if m.op == 'store' and m.a[1] is k:
        return mk('store', m.a[0], k, v)
    return mk('store', m, k, v)


def ins_(m, k):
    if contains_(m, k) is TRUE:
        return m
    return mk('ins', m, k)


def del_(m, k):
    if m.op == 'empty':
        return m
    if m.op in ('ins', 'store') and m.a[1] is k:
        return del_(m.a[0], k)
    return mk('del', m, k)


def upd_(c, i, v):
    if c.op == 'append':
        d = sub(i, len_(c.a[0]))
        if d is ZERO:
            return append_(c.a[0], v)
        if d.op == 'int' and d.a[0] < 0:
            return append_(upd_(c.a[0], i, v), c.a[1])
    if c.op == 'upd' and c.a[1] is i:
        return mk('upd', c.a[0], i, v)
    if at_(c, i) is v:
        return c
    return mk('upd', c, i, v)


SIMP.update(append=append_, cat=cat_, slice=slice_, at=at_, key=key_, pos=pos_, val=val_, contains=contains_,
            store=store_, ins=ins_, upd=upd_)
SIMP['del'] = del_


def strcat_(x, y):
    if x.op == 'str' and y.op == 'str':
        return strc(x.a[0] + y.a[0])
    if x.op == 'str' and x.a[0] == '':
        return y
    if y.op == 'str' and y.a[0] == '':
        return x
    t = mk('strcat', x, y)
    SORT[t] = 's'
    return t


SIMP['strcat'] = strcat_


def _app_simp(f, *args):
    if f == 'len':
        return len_(args[0])
    return mk('app', f, *args)


SIMP['app'] = _app_simp

# null-ness: elements of containers and looked-up map values are never null pointers
_eq0 = TM.eq


def _eq(a, b):
    if a is NULL and b.op in ('at', 'val', 'obj', 'bind', 'lam', 'gv', 'iter', 'el') or b is NULL and a.op in ('at', 'val', 'obj', 'bind', 'lam', 'gv', 'iter', 'el'):
        return FALSE
    if a.op == 'iter' and b.op == 'iter':
        return _eqpos(a.a[1], b.a[1]) if a.a[0] is b.a[0] else FALSE
    if a.op == 'empty' or b.op == 'empty':
        x = b if a.op == 'empty' else a
        if a is b:
            return TRUE
        if x.op not in ('init', 'sym', 'rv', 'str'):
            return _eq(len_(x), ZERO)
        if SORT.get(x, '')[:1] in ('c', '*', 'k'):
            return _eq(len_(x), ZERO)
    if a.op == 'ite':
        return or_(and_(a.a[0], _eq(a.a[1], b)), and_(neg(a.a[0]), _eq(a.a[2], b)))
    if b.op == 'ite':
        return _eq(b, a)
    if a.op == 'pos' or b.op == 'pos':
        return _eqpos(a, b)
    return _eq0(a, b)


def _eqpos(a, b):
    if b.op == 'pos':
        a, b = b, a
    if a.op == 'pos' and b is len_(a.a[0]):
        return neg(contains_(a.a[0], a.a[1]))
    if a.op == 'pos' and b.op == 'pos' and a.a[0] is b.a[0]:
        return _eq(a.a[1], b.a[1])
    return _eq0(a, b)


TM.eq = _eq
eq = _eq


def has_bad(t):
    return any(x.op in ('unk',) for x in subterms(t))


# ---------------------------------------------------------------- state
def leaves(c):
    """atomic conditions inside a compound condition"""
    if c.op in ('and', 'or'):
        out = []
        for x in c.a:
            out.extend(leaves(x))
        return out
    if c.op == 'not':
        return leaves(c.a[0])
    out = [c]
    for x in subterms(c):
        if x.op == 'ite' and not any(z.op in ('bb', 'bv', 'pv') for z in subterms(x.a[0])):
            out = leaves(x.a[0]) + out
    return out


class St:
    __slots__ = ('facts', 'heap', 'base', 'lay', 'ctl', 'refs', 'n', 'pc')

    def __init__(self):
        self.facts = Facts()
        self.heap = {}
        self.base = {}
        self.lay = {}
        self.ctl = None
        self.refs = {}
        self.n = 0
        self.pc = None

    def clone(self):
        s = St.__new__(St)
        s.facts, s.heap, s.base, s.lay, s.ctl, s.refs, s.n, s.pc = \
            self.facts, self.heap, self.base, self.lay, self.ctl, self.refs, self.n, self.pc
        return s

    def assume(self, b):
        """-> new state or None"""
        if b is TRUE:
            return self
        if b is FALSE:
            return None
        f = self.facts.assume(b)
        if f is None:
            return None
        if f is self.facts:
            return self
        s = self.clone()
        s.pc = (self.pc, b, self.facts)
        s.facts = f
        return s

    def fork(self, cond):
        """the two refinements of this state by cond; falls back to an undecided part of it"""
        for c in [cond] + leaves(self.facts.canon(cond)):
            if c is not cond and self.facts.decide(c) is not None:
                continue
            a, b = self.assume(c), self.assume(neg(c))
            if a is self or b is self:
                continue
            if a is not None and a.facts.decide(c) is not True or b is not None and b.facts.decide(c) is not False:
                continue
            return [x for x in (a, b) if x is not None]
        raise Broken('fork does not refine: %s' % show(cond))

    def lits(self, upto=None):
        out = []
        p = self.pc
        while p is not None and p is not upto:
            out.append(p[1])
            p = p[0]
        out.reverse()
        return out

    def set(self, phi, base, val):
        s = self.clone()
        h = dict(self.heap)
        d = h.get(phi)
        d = dict(d) if d else {}
        d[base] = val
        h[phi] = d
        s.heap = h
        return s

    def fresh(self, tag=''):
        s = self.clone()
        s.n += 1
        return s, mk('new', s.n, tag)

    def ctl_(self, c):
        s = self.clone()
        s.ctl = c
        return s


class Env:
    __slots__ = ('tu', 'this', 'frame', 'fn', 'cap', 'locals', 'depth', 'stack', 'defs')

    def __init__(self, tu, this, frame, fn=None, depth=0, stack=()):
        self.tu, self.this, self.frame, self.fn = tu, this, frame, fn
        self.cap = {}
        self.locals = {}
        self.depth = depth
        self.stack = stack


def dnf_simplify(dnf):
    """dnf: set of frozensets of literals; merge complementary pairs, drop subsumed"""
    dnf = set(dnf)
    ch = True
    while ch:
        ch = False
        l = sorted(dnf, key=lambda s: (len(s), sorted(t.n for t in s)))
        for i in range(len(l)):
            for j in range(i + 1, len(l)):
                a, b = l[i], l[j]
                if a <= b:
                    dnf.discard(b)
                    ch = True
                    break
                if len(a) == len(b):
                    d = a ^ b
                    if len(d) == 2:
                        x, y = tuple(d)
                        if neg(x) is y:
                            dnf.discard(a)
                            dnf.discard(b)
                            dnf.add(a & b)
                            ch = True
                            break
                # a = A+{x}, b = B+{!x} with A subset of B  -> b loses !x
                hit = False
                for x in a:
                    nx = neg(x)
                    if nx in b and (a - {x}) <= (b - {nx}):
                        dnf.discard(b)
                        dnf.add(b - {nx})
                        ch = hit = True
                        break
                if hit:
                    break
            if ch:
                break
    return frozenset(dnf)


def dnf_term(d):
    return or_(*[and_(*s) for s in d])


MAXINT = {'unsigned long': 2**64 - 1, 'unsigned long long': 2**64 - 1, 'unsigned int': 2**32 - 1, 'int': 2**31 - 1, 'long': 2**63 - 1,
          'uint64_t': 2**64 - 1, 'size_t': 2**64 - 1, 'int64_t': 2**63 - 1, 'uint32_t': 2**32 - 1}


class Interp:
    def __init__(self, P, prims=None, budget=60000, opaque=()):
        self.P = P
        self.ty = Types(P)
        from . import models
        self.prims = dict(prims or models.PRIMS)
        self.through = ()              # ids of functions inlined although their name is opaque
        self.opaque = dict(opaque)     # qualified name -> (reads, writes) or None (pure function of args)
        self.frames = 0
        self.fatals = []
        self.events = []       # watched calls and writes, with the state they happen in (oblig.py)
        self.evcalls = self.evphis = ()
        self.clos = {}
        self.ftype = {}
        self.carr = set()      # C arrays of class type, kept element by element
        self.clen = {}
        self.steps = 0
        self.budget = budget
        self.depthloop = 0
        self.fns_seen = set()
        self.calls_seen = 0
        self.loops_seen = 0
        self.gmemo = {}
        self.vtype = {}
        self.effmap = None
        self.closq, self.lamh = {}, {}
        self.instances = {}
        self.anyeff = None        # effects of a call through an unknown function value
        self.notes = set()
        for q, R in P.records.items():
            for k, t in self.ty.fields(q) or []:
                self.ftype[k] = t
        for m, fl in P.protos['messages'].items():
            for n, ft in fl.items():
                self.ftype.setdefault('pb.' + n.lower(), self.ty.proto_type(ft))
        self.pbcat = {}
        from . import loops as _loops
        _loops.PROTOS = P.protos['messages']
        from .effects import Effects
        self.eff = Effects(P, self)

    # ------------------------------------------------------------ locations
    def vloc(self, declid, env, st):
        if declid in env.locals:
            l = mk('var', declid, env.locals[declid])
        elif declid in env.cap:
            return env.cap[declid]
        else:
            return None
        return st.refs.get(l, l)

    def defval(self, t):
        c = self.ty.cat(t)
        if c in ('int', 'bool'):
            return ZERO
        if c in ('ptr', 'opt', 'fn', 'status'):
            return NULL
        if c == 'str':
            return EMPTYSTR
        if c in ('seq', 'set', 'map'):
            return EMPTYC
        return mk('uninit')

    def setsort(self, t, qt):
        c = self.ty.cat(qt)
        if c == 'set' and 'unordered' not in qt:
            SETS.add(t)
        if t in SORT:
            return t
        if c == 'seq' or c == 'set':
            e = self.ty.elem(qt)
            SORT[t] = '*' + self.ty.sort(e)
        elif c == 'map':
            a = self.ty.args(qt)
            SORT[t] = 'k' + self.ty.sort(a[0]) + self.ty.sort(a[1]) if len(a) > 1 else 'c'
        else:
            SORT[t] = self.ty.sort(qt)
        return t

    @staticmethod
    def root(loc):
        while loc.op in ('f', 'el', 'mv', 'arr'):
            loc = loc.a[0]
        return loc

    def fld(self, base, key):
        if base.op == 'mp':
            if key == 'second':
                return mk('mv', base.a[0], base.a[1])
            if key == 'first':
                return mk('mk1', base.a[0], base.a[1])
        return mk('f', base, key)

    def alias(self, st, a, b):
        """TRUE / FALSE / condition under which two region bases are the same"""
        if a is b:
            return TRUE
        c = st.facts.canon
        a, b = c(a), c(b)
        if a is b:
            return TRUE
        if a.op == 'ite':
            a, b = b, a
        if b.op == 'ite':
            x, y = self.alias(st, a, b.a[1]), self.alias(st, a, b.a[2])
            return or_(and_(b.a[0], x), and_(neg(b.a[0]), y))
        if a.op in ('at', 'val') and b.op == a.op:
            if a.a[0] is b.a[0]:
                if a.op == 'val':
                    e = eq(key_(a.a[0], a.a[1]), key_(b.a[0], b.a[1]))
                else:
                    e = eq(a.a[1], b.a[1])
                d = st.facts.decide(e)
                return e if d is None else boolc(d)
            return FALSE
        if a.op == 'f' and b.op == 'f' and a.a[1] == b.a[1]:
            return self.alias(st, a.a[0], b.a[0])
        return FALSE

    def read(self, st, loc):
        op = loc.op
        if op == 'el':
            return at_(st.facts.canon(self.read(st, loc.a[0])), loc.a[1])
        if op == 'mv':
            m = self.read(st, loc.a[0])
            return self.mapval(st, m, loc.a[1])
        if op == 'mk1':
            return key_(self.read(st, loc.a[0]), loc.a[1])
        if op == 'gv':
            d = st.heap.get('$')
            if d and loc in d:
                return d[loc]
            if loc.a[0] == '$calls':
                return EMPTYC
            return self.gval(loc.a[0])
        if op == 'f':
            base, phi = loc.a
            d = st.heap.get(phi)
            if d:
                v = d.get(base)
                if v is not None:
                    return v
                for b2, v2 in d.items():
                    c = self.alias(st, base, b2)
                    if c is TRUE:
                        return v2
                    if c is not FALSE:
                        raise NeedFork(c)
            for layer in reversed(st.lay.get(phi, ())):
                r = self.layer_read(st, base, layer)
                if r is not None:
                    return r
            return self.initval(st, base, phi, loc)
        if op in ('var', 'new'):
            d = st.heap.get('$')
            if d and loc in d:
                return d[loc]
            return mk('uninit', loc) if op == 'var' else mk('uninit')
        if op == 'mp':
            return loc
        # a value standing for an anonymous location
        d = st.heap.get('$')
        if d and loc in d:
            return d[loc]
        return loc

    def mapval(self, st, m, idx):
        f = st.facts
        m = f.canon(m)
        if m.op in ('store', 'ins', 'del') and idx.op == 'pos':
            k = f.canon(idx.a[1])
            e = eq(k, m.a[1])
            d = f.decide(e)
            if d is True:
                return m.a[2] if m.op == 'store' else mk('unk', 'erased')
            if d is False:
                return self.mapval(st, m.a[0], pos_(m.a[0], k))
            if m.op == 'store':
                raise NeedFork(e)
        elif m.op == 'store':
            # position of an existing key
            e = eq(f.canon(key_(m.a[0], idx)), m.a[1])
            d = f.decide(e)
            if d is True:
                return m.a[2]
            if d is False and f.decide(contains_(m.a[0], m.a[1])) is True:
                return self.mapval(st, m.a[0], idx)
        return val_(m, idx)

    def layer_read(self, st, base, layer):
        bvar, n, guard, pat, val = layer
        # match pattern at(C, e(k)) / val(M, k)
        e = self.unify(pat, bvar, st.facts.canon(base))
        if e is None:
            e = self.unify(st.facts.canon(pat), bvar, st.facts.canon(base))
            if e is None:
                return None
        sub_ = lambda t: subst(t, lambda x: e if x is bvar else None, {})
        g = and_(sub_(guard), self.inrange(e, n))
        d = st.facts.decide(g)
        if d is False:
            return None
        if d is True:
            return sub_(val)
        raise NeedFork(g)

    def inrange(self, e, n):
        if e.op == 'pos':
            if n is len_(e.a[0]):
                return contains_(e.a[0], e.a[1])
            return and_(contains_(e.a[0], e.a[1]), lt(e, n))
        return and_(lt(e, n), le(ZERO, e))

    def unify(self, pat, bvar, t):
        """index e with pat[bvar:=e] == t"""
        if pat.op != t.op:
            return None
        if pat.op in ('at', 'val'):
            if pat.a[0] is not t.a[0]:
                return None
            p, q = pat.a[1], t.a[1]
            if p is bvar:
                return q
            c, d = lin(p)
            if d.get(bvar) == 1:
                return sub(q, sub(p, bvar))
            if p.op == 'pos' and q.op == 'pos' and p.a[0] is q.a[0]:
                return self.unify1(p.a[1], bvar, q.a[1])
            return None
        if pat.op == 'f' and pat.a[1] == t.a[1]:
            return self.unify(pat.a[0], bvar, t.a[0])
        if pat.op == 'init' :
            return self.unify(pat.a[0], bvar, t.a[0])
        return None

    def unify1(self, p, bvar, q):
        if p is bvar:
            return q
        if p.op == 'at' and q.op == 'at' and p.a[0] is q.a[0] and p.a[1] is bvar:
            return q.a[1]
        if p.op == 'key' and p.a[1] is bvar:
            return pos_(p.a[0], q)
        return None

    def initval(self, st, base, phi, loc):
        r = self.root(base)
        t = self.ftype.get(phi)
        if r.op == 'obj' or base.op == 'obj':
            o = base
            path = [phi]
            while o.op == 'f':
                path.insert(0, o.a[1])
                o = o.a[0]
            if o.op == 'obj':
                for p in path:
                    nxt = None
                    if o.op == 'obj':
                        for k, v in o.a[1]:
                            if k == p:
                                nxt = v
                    if nxt is None:
                        return self.defval(t) if t else mk('uninit')
                    o = nxt
                return o
        if r.op in ('new', 'var'):
            return self.defval(t) if t else mk('uninit')
        if phi not in self.ftype and phi.isdigit():
            return mk('init', loc)
        b = st.base.get(phi)
        v = mk('rv', loc, b) if b is not None else mk('init', loc)
        if phi in NONNEG:
            SORT.setdefault(v, 'u')
        if t:
            self.setsort(v, t)
        return v

    def write(self, st, loc, val):
        op = loc.op
        if op == 'f':
            base, phi = loc.a
            if phi in self.evphis:
                self.events.append(('write', phi, base, val, st))
            d = st.heap.get(phi)
            if d and base not in d:
                for b2 in d:
                    c = self.alias(st, base, b2)
                    if c is TRUE:
                        return st.set(phi, b2, val)
                    if c is not FALSE:
                        raise NeedFork(c)
            return st.set(phi, base, val)
        if op == 'el':
            c = self.read(st, loc.a[0])
            return self.write(st, loc.a[0], upd_(c, loc.a[1], val))
        if op == 'mv':
            m = self.read(st, loc.a[0])
            return self.write(st, loc.a[0], store_(m, key_(m, loc.a[1]), val))
        if op in ('var', 'new'):
            return st.set('$', loc, val)
        return st.set('$', loc, val)

    # ------------------------------------------------------------ struct regions
    def copyregion(self, st, dst, src, qt):
        if dst is src:
            return st
        fl = self.ty.fields(qt)
        if fl is None:
            return self.write(st, dst, src)
        for k, t in fl:
            c = self.ty.cat(t)
            s, d = self.fld(src, k), self.fld(dst, k)
            if c == 'struct':
                st = self.copyregion(st, d, s, t)
            elif c == 'arr':
                m = re.search(r'\[(\d+)\]$', self.ty.norm(t))
                e = self.ty.elem(t)
                for i in range(int(m.group(1)) if m else 0):
                    if self.ty.cat(e) == 'struct':
                        st = self.copyregion(st, mk('f', d, '[%d]' % i), mk('f', s, '[%d]' % i), e)
                    else:
                        st = self.write(st, mk('f', d, '[%d]' % i), self.read(st, mk('f', s, '[%d]' % i)))
            else:
                st = self.write(st, d, self.read(st, s))
        return st

    def clearregion(self, st, dst, qt):
        fl = self.ty.fields(qt)
        for k, t in fl or []:
            c = self.ty.cat(t)
            d = self.fld(dst, k)
            if c == 'struct':
                st = self.clearregion(st, d, t)
            else:
                st = self.write(st, d, self.defval(t))
        return st

    def undump(self, st, loc, o):
        """write a structural value back into the fresh object loc"""
        for k, v in o.a[1]:
            if k == '$':
                st = st.set('$', loc, v)
            elif v.op == 'obj' and self.ty.cat(self.ftype.get(k, '')) in ('struct', 'arr'):
                st = self.undump(st, self.fld(loc, k), v)
            else:
                st = self.write(st, self.fld(loc, k), v)
        return st

    def lamhash(self, n, env):
        from .modular import ast_hash
        k = (env.tu, n.id)
        r = self.lamh.get(k)
        if r is None:
            r = self.lamh[k] = ast_hash(n, self.P, env.tu).hexdigest()[:12]
        return r

    def initobj(self, st, loc, qt, node, r):
        """initialise / assign object at loc of type qt from expression node evaluated to r"""
        c = self.ty.cat(qt)
        if c == 'struct':
            return self.copyregion(st, loc, r, qt)
        v = self.rval(st, node, r)
        return self.write(st, loc, v)

    def isgl(self, node):
        return node.d.get('valueCategory') in ('lvalue', 'xvalue')

    def rval(self, st, node, r):
        """value of an evaluated expression (region for structs)"""
        if self.isgl(node):
            c = self.ty.cat(node.qt)
            if c == 'struct' or c == 'arr':
                return r
            return self.read(st, r)
        return r

    def asloc(self, st, node, r):
        """location of an evaluated expression (materialising prvalues)"""
        if self.isgl(node) or self.ty.cat(node.qt) == 'struct':
            return st, r
        st, l = st.fresh('tmp')
        return st.set('$', l, r), l

    # structural, identity-free rendering of fresh objects
    def dump(self, st, v, depth=0, seen=()):
        if not isinstance(v, T):
            return v
        memo = {}

        def f(x):
            if x.op == 'new':
                if x in seen or depth > 6:
                    return mk('cyc')
                return self.dumpobj(st, x, depth, seen + (x,))
            if x.op == 'var':
                return mk('loc')
            if x.op == 'obj':
                return x
            return None
        return subst(v, f, memo)

    def dumpobj(self, st, x, depth, seen):
        items = {}
        for phi, d in st.heap.items():
            for b, val in d.items():
                if phi == '$':
                    if b is x:
                        items['$'] = self.dump(st, val, depth + 1, seen)
                    continue
                # path from x to this location
                path = [phi]
                o = b
                while o.op == 'f':
                    path.insert(0, o.a[1])
                    o = o.a[0]
                if o is x:
                    t = self.ftype.get(phi)
                    dv = self.dump(st, val, depth + 1, seen)
                    if t is not None and dv is self.defval(t):
                        continue
                    if dv.op == 'uninit':
                        continue
                    items['.'.join(path)] = dv
        # rebuild nested
        tree = {}
        for p, v in items.items():
            parts = p.split('.') if not p.startswith('pb.') and '.pb.' not in p else re.split(r'\.(?=pb\.|\w+::|\d|first|second|\[)', p)
            n = tree
            for q in parts[:-1]:
                n = n.setdefault(q, {})
            n[parts[-1]] = v

        def build(n):
            return mk('obj', '', tuple((k, build(v) if isinstance(v, dict) else v) for k, v in sorted(n.items())))
        return build(tree)

    # ------------------------------------------------------------ globals
    def gval(self, q):
        if q in self.gmemo:
            return self.gmemo[q]
        n = self.P.globals.get(q)
        v = mk('init', mk('gv', q))
        if n is not None:
            self.setsort(v, n.qt)
            init = [c for c in n.i if c.k and (c.k.endswith('Expr') or c.k.endswith('Literal') or c.k.endswith('Operator') or c.k == 'ExprWithCleanups')]
            q_t = (n.d.get('type') or {}).get('qualType', '')
            const = q_t.startswith('const ') or q_t.endswith('const') or n.d.get('constexpr') or ' const' in q_t or self.eff.never_written(n)
            if init and const:
                env = Env(n.x, None, -1)
                try:
                    rs = self.ev(init[-1], St(), env)
                    if len(rs) == 1:
                        s, r = rs[0]
                        v = self.rval(s, init[-1], r)
                except (NeedFork, Budget):
                    pass
        self.gmemo[q] = v
        return v

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        if len(sts) < 2:
            return sts
        groups = {}
        order = []
        for s in sts:
            c = s.ctl
            key = (c if c is None else tuple(c) if isinstance(c, tuple) else c,)
            l = groups.setdefault(key, [])
            for g in l:
                h = g[0]
                if h.heap is s.heap or h.heap == s.heap:
                    if h.base == s.base and h.lay == s.lay and h.refs == s.refs:
                        g.append(s)
                        break
            else:
                g = [s]
                l.append(g)
                order.append(g)
        if len(order) == len(sts):
            return sts
        out = []
        for g in order:
            out.append(self.mergepc(g) if len(g) > 1 else g[0])
        return out

    def mergepc(self, g):
        chains = []
        for s in g:
            c = []
            p = s.pc
            while p is not None:
                c.append(p)
                p = p[0]
            c.reverse()
            chains.append(c)
        i = 0
        m = min(len(c) for c in chains)
        while i < m and all(c[i][1] is chains[0][i][1] for c in chains):
            i += 1
        dnf = dnf_simplify({frozenset(p[1] for p in c[i:]) for c in chains})
        # facts before the divergence
        c0 = chains[0]
        prefix_pc = c0[i - 1] if i else None
        facts = c0[i][2] if i < len(c0) else g[0].facts
        # factor the literals common to all disjuncts
        common = frozenset.intersection(*dnf) if dnf else frozenset()
        s = g[0].clone()
        s.n = max(x.n for x in g)
        s.pc, s.facts = prefix_pc, facts
        for l in sorted(common, key=lambda t: t.n):
            t = s.assume(l)
            if t is None:
                return g[0]
            s = t
        rest = {d - common for d in dnf}
        if frozenset() not in rest:
            a = or_(*[and_(*d) for d in rest])
            t = s.assume(a)
            if t is None:
                return g[0]
            s = t
        return s

    # ------------------------------------------------------------ conditions
    def fork(self, st, cond):
        """-> (list of states where cond holds, list where it does not)"""
        cond = self.lift(st, cond)
        d = st.facts.decide(cond)
        if d is True:
            return [st], []
        if d is False:
            return [], [st]
        a, b = st.assume(cond), st.assume(neg(cond))
        return ([a] if a else []), ([b] if b else [])

    def lift(self, st, t):
        for x in subterms(t):
            if x.op == 'ite':
                d = st.facts.decide(x.a[0])
                if d is None:
                    raise NeedFork(x.a[0])
                t = subst(t, lambda y: (y.a[1] if d else y.a[2]) if y is x else None, {})
                return self.lift(st, t)
        return t

    # ------------------------------------------------------------ statements
    def block(self, nodes, sts, env):
        for n in nodes:
            if n.k is None:
                continue
            nxt, done = [], []
            for s in sts:
                if s.ctl is None:
                    nxt.extend(self.stmt(n, s, env))
                else:
                    done.append(s)
            if not nxt:
                return done
            sts = done + (self.merge(nxt) if len(nxt) > 1 else nxt)
        return sts

    def stmt(self, n, st, env):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget('step budget exceeded in %s' % (env.fn.q if env.fn else '?'))
        nf, ne = len(self.fatals), len(self.events)
        try:
            return self.stmt_(n, st, env)
        except NeedFork as e:
            del self.fatals[nf:]
            del self.events[ne:]
            out = []
            for s in st.fork(e.cond):
                out.extend(self.stmt(n, s, env))
            return out

    def stmt_(self, n, st, env):
        k = n.k
        m = getattr(self, 's_' + k, None)
        if m:
            return m(n, st, env)
        if k and (k.endswith('Decl')):
            return [st]
        return [s for s, _ in self.ev(n, st, env)]

    def s_CompoundStmt(self, n, st, env):
        return self.block(n.i, [st], env)

    def s_NullStmt(self, n, st, env):
        return [st]

    def s_ExprWithCleanups(self, n, st, env):
        return self.stmt_(n.i[0], st, env) if False else [s for s, _ in self.ev(n.i[0], st, env)]

    def s_AttributedStmt(self, n, st, env):
        return self.stmt(n.i[-1], st, env)

    def s_DeclStmt(self, n, st, env):
        sts = [st]
        for d in n.i:
            nxt = []
            for s in sts:
                nxt.extend(self.decl(d, s, env))
            sts = nxt
        return sts

    def decl(self, d, st, env):
        if d.k == 'VarDecl':
            return self.vardecl(d, st, env)
        if d.k == 'DecompositionDecl':
            out = []
            init = [c for c in d.i if c.k != 'BindingDecl'][-1]
            binds = [c for c in d.i if c.k == 'BindingDecl']
            isref = (d.d.get('type') or {}).get('qualType', '').rstrip().endswith('&')
            for s, r in self.ev(init, st, env):
                if isref or not self.isgl(init):
                    base = r
                    if not self.isgl(init) and self.ty.cat(init.qt) != 'struct':
                        s, base = self.asloc(s, init, r)
                else:
                    s, base = s.fresh('dec')
                    s = self.copyregion(s, base, r, init.qt)
                self.bindings(binds, base, d, s, env, out, init.qt)
            return out
        return [st]

    def bindings(self, binds, base, d, s, env, out, qt):
        fl = self.ty.fields(qt) or self.ty.fields((d.d.get('type') or {}).get('qualType', ''))
        refs = dict(s.refs)
        for i, b in enumerate(binds):
            if base.op == 'mp':
                key = ('first', 'second')[i]
            elif fl and i < len(fl):
                key = fl[i][0]
            else:
                key = str(i)
            env.locals[b.id] = env.frame
            l = self.fld(base, key)
            refs[mk('var', b.id, env.frame)] = l
            for c in b.i:
                if c.k == 'VarDecl':
                    env.locals[c.id] = env.frame
                    refs[mk('var', c.id, env.frame)] = l
        s = s.clone()
        s.refs = refs
        out.append(s)

    def vardecl(self, d, st, env):
        env.locals[d.id] = env.frame
        loc = mk('var', d.id, env.frame)
        if loc in st.refs:
            st = st.clone()
            st.refs = dict(st.refs)
            del st.refs[loc]
        qt = d.qt
        self.vtype[loc] = qt
        if d.d.get('storageClass') == 'static' and not self.eff.never_written(d):
            self.notes.add('static variable %s' % d.name)
        init = [c for c in d.i if c.k and not c.k.endswith('Attr') and c.k not in ('FullComment',)] if d.d.get('init') else []
        base = self.ty.base(qt)
        if base in ('std::lock_guard', 'std::shared_lock', 'std::unique_lock', 'std::scoped_lock'):
            return [st]
        if '&' in (d.d.get('type') or {}).get('qualType', '')[-2:] or qt.rstrip().endswith('&') or '(&)[' in qt:
            out = []
            for s, r in self.ev(init[-1], st, env):
                s, l = self.asloc(s, init[-1], r)
                s = s.clone()
                s.refs = dict(s.refs)
                s.refs[loc] = l
                out.append(s)
            return out
        c = self.ty.cat(qt)
        # drop stale contents of an earlier iteration
        if not init:
            if c == 'struct':
                return [self.clear_stale(st, loc, qt)]
            if c == 'arr' and self.scalararr(qt):
                return [st.set('$', loc, mk('filled', intc(self.arrlen(qt)), GARBAGE))]
            return [st.set('$', loc, self.defval(qt) if c not in ('int', 'bool', 'ptr') else mk('uninit'))]
        out = []
        if c == 'arr':
            if self.scalararr(qt) and init[-1].k == 'InitListExpr':
                es = [e for e in init[-1].i if e.k != 'ImplicitValueInitExpr']
                for s, vs in self.evs(es, st, env):
                    t = EMPTYC
                    z = self.defval(self.ty.elem(qt))
                    vs = [self.rval(s, e, v) for e, v in zip(es, vs)]
                    while vs and vs[-1] is z:
                        vs.pop()
                    for v in vs:
                        t = append_(t, v)
                    k = self.arrlen(qt) - len(vs)
                    out.append(s.set('$', loc, cat_(t, mk('filled', intc(k), z)) if k else t))
                return out
            for s, r in self.ev(init[-1], st, env):
                s = self.write(s, loc, r)
                out.append(s)
            return out
        for s, r in self.ev(init[-1], st, env):
            if c == 'struct':
                if not self.isgl(init[-1]):
                    # copy elision: the fresh region becomes the variable
                    s = s.clone()
                    s.refs = dict(s.refs)
                    s.refs[loc] = r
                else:
                    s = self.clear_stale(s, loc, qt)
                    s = self.copyregion(s, loc, r, qt)
            else:
                s = s.set('$', loc, self.rval(s, init[-1], r))
            out.append(s)
        return out

    def scalararr(self, qt):
        """C array of numbers or pointers, kept as one sequence"""
        q = self.ty.norm(qt)
        return bool(re.search(r'[^\]]\[\d+\]$', q)) and 'char' not in q and self.ty.cat(self.ty.elem(qt)) in ('int', 'bool', 'ptr')

    def arrlen(self, qt):
        return int(re.search(r'\[(\d+)\]$', self.ty.norm(qt)).group(1))

    def clear_stale(self, st, loc, qt):
        for phi, d in st.heap.items():
            for b in d:
                if self.root(b) is loc:
                    return self.clearregion(st, loc, qt)
        return st

    def s_ReturnStmt(self, n, st, env):
        if not n.i:
            return [st.ctl_(('ret', None))]
        e = n.i[0]
        out = []
        rt = getattr(env.fn, 'rettype', None) if env.fn else None
        for s, r in self.ev(e, st, env):
            out.append(s.ctl_(('ret', r)))
        return out

    def s_IfStmt(self, n, st, env):
        inner = [c for c in n.i]
        sts = [st]
        if n.d.get('hasInit'):
            sts = self.stmt(inner.pop(0), st, env)
        if n.d.get('hasVar'):
            v = inner.pop(0)
            sts = [x for s in sts for x in self.stmt(v, s, env)]
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        out = []
        for s in sts:
            for s1, v in self.ev(cond, s, env):
                v = self.tobool(s1, cond, v)
                tr, fa = self.fork(s1, v)
                for x in tr:
                    out.extend(self.stmt(then, x, env))
                for x in fa:
                    if els is not None:
                        out.extend(self.stmt(els, x, env))
                    else:
                        out.append(x)
        return self.merge(out)

    def tobool(self, st, node, v):
        v = self.rval(st, node, v)
        v = self.lift(st, v)
        return truthy(v)

    def s_SwitchStmt(self, n, st, env):
        inner = list(n.i)
        sts = [st]
        if n.d.get('hasInit'):
            sts = self.stmt(inner.pop(0), st, env)
        if n.d.get('hasVar'):
            v = inner.pop(0)
            sts = [x for s in sts for x in self.stmt(v, s, env)]
        cond, body = inner[0], inner[1]
        # flatten: list of (labels or None, stmt)
        flat = []

        def label(s):
            labs = []
            while s.k in ('CaseStmt', 'DefaultStmt'):
                if s.k == 'CaseStmt':
                    labs.append(s.i[0])
                else:
                    labs.append(None)
                s = s.i[-1]
            return labs, s
        for c in (body.i if body.k == 'CompoundStmt' else [body]):
            if c.k in ('CaseStmt', 'DefaultStmt'):
                labs, s = label(c)
                flat.append((labs, s))
            else:
                flat.append(([], c))
        out = []
        for s0 in sts:
            for s1, v in self.ev(cond, s0, env):
                v = self.lift(s1, self.rval(s1, cond, v))
                cases = []
                for i, (labs, _) in enumerate(flat):
                    for l in labs:
                        if l is not None:
                            lv = self.const(l, env)
                            cases.append((i, lv))
                rest = [s1]
                starts = []
                for i, lv in cases:
                    nr = []
                    for s in rest:
                        tr, fa = self.fork(s, eq(v, lv))
                        starts.extend((i, x) for x in tr)
                        nr.extend(fa)
                    rest = nr
                dflt = [i for i, (labs, _) in enumerate(flat) if None in labs]
                if dflt:
                    starts.extend((dflt[0], x) for x in rest)
                else:
                    out.extend(rest)
                # states entering the same label are joined
                byi = {}
                for i, x in starts:
                    byi.setdefault(i, []).append(x)
                for i, xs in byi.items():
                    rs = self.block([f[1] for f in flat[i:]], self.merge(xs), env)
                    for r in rs:
                        if r.ctl == ('brk',):
                            r = r.ctl_(None)
                        out.append(r)
        return self.merge(out)

    def const(self, n, env):
        rs = self.ev(n, St(), env)
        return self.rval(rs[0][0], n, rs[0][1])

    def s_BreakStmt(self, n, st, env):
        return [st.ctl_(('brk',))]

    def s_ContinueStmt(self, n, st, env):
        return [st.ctl_(('cont',))]

    def s_CXXTryStmt(self, n, st, env):
        return self.stmt(n.i[0], st, env)

    # loops live in loops.py
    def s_ForStmt(self, n, st, env):
        from . import loops
        return loops.for_stmt(self, n, st, env)

    def s_WhileStmt(self, n, st, env):
        from . import loops
        return loops.while_stmt(self, n, st, env)

    def s_DoStmt(self, n, st, env):
        from . import loops
        return loops.do_stmt(self, n, st, env)

    def s_CXXForRangeStmt(self, n, st, env):
        from . import loops
        return loops.range_stmt(self, n, st, env)

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, env):
        k = n.k
        m = getattr(self, 'e_' + k, None)
        if m is None:
            if k and len(n.i) == 1:
                return self.ev(n.i[0], st, env)
            self.notes.add('unsupported expression %s' % k)
            return [(st, mk('unk', k))]
        return m(n, st, env)

    def evs(self, nodes, st, env):
        res = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in res:
                for s2, v in self.ev(n, s, env):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_pass(self, n, st, env):
        return self.ev(n.i[0], st, env)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = e_pass
    e_FullExpr = e_pass

    def e_MaterializeTemporaryExpr(self, n, st, env):
        out = []
        for s, r in self.ev(n.i[0], st, env):
            if self.isgl(n.i[0]) or self.ty.cat(n.qt) == 'struct':
                out.append((s, r))
            else:
                s, l = s.fresh('tmp')
                out.append((s.set('$', l, r), l))
        return out

    def e_IntegerLiteral(self, n, st, env):
        return [(st, intc(int(n.d['value'])))]

    def e_CharacterLiteral(self, n, st, env):
        return [(st, intc(int(n.d['value'])))]

    def e_CXXBoolLiteralExpr(self, n, st, env):
        return [(st, boolc(bool(n.d['value'])))]

    def e_FloatingLiteral(self, n, st, env):
        return [(st, mk('sym', 'float:' + str(n.d.get('value'))))]

    def e_StringLiteral(self, n, st, env):
        v = n.d.get('value', '""')
        try:
            import json as _j
            s = _j.loads(v)
        except Exception:
            s = v.strip('"')
        t = strc(s)
        return [(st, t)]

    def e_PredefinedExpr(self, n, st, env):
        return [(st, EMPTYSTR)]

    def e_CXXNullPtrLiteralExpr(self, n, st, env):
        return [(st, NULL)]

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_ImplicitValueInitExpr(self, n, st, env):
        return self.default_of(n.qt, st)

    def e_CXXScalarValueInitExpr(self, n, st, env):
        return self.default_of(n.qt, st)

    def default_of(self, qt, st):
        if self.ty.cat(qt) == 'struct':
            s, l = st.fresh(self.ty.norm(qt))
            return [(s, l)]
        return [(st, self.defval(qt))]

    def e_UnaryExprOrTypeTraitExpr(self, n, st, env):
        q = (n.d.get('argType') or {}).get('desugaredQualType') or (n.d.get('argType') or {}).get('qualType') or (n.i[0].qt if n.i else '')
        return [(st, intc(self.sizeof(q)))]

    def sizeof(self, q):
        """object size; class types get one nominal size (only ratios of sizes are meaningful)"""
        q = q.replace('const ', '').replace('craft::', '').strip()
        m = re.fullmatch(r'(.*\S)\s*\[(\d+)\]', q)
        if m:
            return int(m.group(2)) * self.sizeof(m.group(1))
        if q.endswith('*') or q.endswith('&'):
            return 8
        return {'bool': 1, 'char': 1, 'unsigned char': 1, 'signed char': 1, 'int8_t': 1, 'uint8_t': 1, 'short': 2, 'unsigned short': 2,
                'int': 4, 'unsigned int': 4, 'int32_t': 4, 'uint32_t': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'int64_t': 8,
                'uint64_t': 8, 'size_t': 8, 'long long': 8, 'unsigned long long': 8, 'double': 8}.get(q, 48)

    def e_SourceLocExpr(self, n, st, env):
        return [(st, EMPTYSTR if self.ty.cat(n.qt) == 'str' else ZERO)]

    def e_CXXDefaultArgExpr(self, n, st, env):
        if n.i:
            return self.ev(n.i[0], st, env)
        return [(st, mk('defarg'))]

    def e_CXXDefaultInitExpr(self, n, st, env):
        if n.i:
            return self.ev(n.i[0], st, env)
        return self.default_of(n.qt, st)

    def e_CXXThisExpr(self, n, st, env):
        return [(st, env.this)]

    def e_DeclRefExpr(self, n, st, env):
        d = n.d['referencedDecl']
        kind = d.get('kind')
        if kind in ('VarDecl', 'ParmVarDecl', 'BindingDecl', 'DecompositionDecl', 'ImplicitParamDecl'):
            l = self.vloc(d['id'], env, st)
            if l is not None:
                return [(st, l)]
            ent = self.P.decl.get((env.tu, d['id']))
            if ent and ent[0] == 'var':
                return [(st, mk('gv', ent[1]))]
            if d.get('name') in ('cout', 'cerr', 'endl', 'placeholders', '_1', '_2', '_3'):
                return [(st, mk('sym', d['name']))]
            # static member constants without a namespace entry
            for q in self.P.globals:
                if q.endswith('::' + d.get('name', '?')):
                    return [(st, mk('gv', q))]
            return [(st, mk('sym', 'g:' + d.get('name', '?')))]
        if kind == 'EnumConstantDecl':
            v = self.P.enums.get(d['name'])
            ent = self.P.decl.get((env.tu, d['id']))
            if ent and ent[0] == 'enumc':
                v = ent[3]
            if v is None:
                # nested generated constants: MessageType_MsgX etc.
                nm = d['name'].split('_')[-1]
                v = self.P.enums.get(nm)
            return [(st, intc(v) if v is not None else mk('sym', 'enum:' + d['name']))]
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            f = front.callee(self.P, env.tu, d['id'])
            return [(st, mk('fn', f.q if f else d.get('name', '?')))]
        return [(st, mk('sym', 'd:' + str(d.get('name'))))]

    # casts
    def e_cast(self, n, st, env):
        ck = n.d.get('castKind')
        e = n.i[-1]
        if ck == 'ToVoid':
            return [(s, None) for s, _ in self.ev(e, st, env)]
        out = []
        for s, r in self.ev(e, st, env):
            if ck == 'LValueToRValue':
                v = self.read(s, r)
                if v.op == 'uninit':
                    v = self.setsort(mk('uninit', ZERO), n.qt)
                out.append((s, v))
            elif ck in ('PointerToBoolean', 'IntegralToBoolean'):
                out.append((s, truthy(self.lift(s, r))))
            elif ck == 'NullToPointer':
                out.append((s, NULL))
            elif ck == 'ArrayToPointerDecay' and r is not None and r.op in ('var', 'f', 'new', 'mv', 'el') and self.ty.cat(e.qt) == 'arr':
                if self.ty.cat(self.ty.elem(e.qt)) == 'struct':
                    self.carr.add(r)
                    m = re.search(r'\[(\d+)\]$', self.ty.norm(e.qt))
                    if m:
                        self.clen[r] = int(m.group(1))
                out.append((s, mk('iter', r, ZERO)))
            elif ck in ('UserDefinedConversion', 'ConstructorConversion'):
                out.append((s, r))
            elif ck == 'IntegralCast' and r.op == 'int':
                q = self.ty.norm(n.qt)
                mx = {'unsigned long': 64, 'unsigned int': 32, 'int': -32, 'unsigned char': 8, 'long': -64, 'size_t': 64, 'uint64_t': 64,
                      'uint32_t': 32, 'int32_t': -32, 'int64_t': -64, 'unsigned long long': 64}.get(q)
                v = r.a[0]
                if mx:
                    b = abs(mx)
                    v &= (1 << b) - 1
                    if mx < 0 and v >> (b - 1):
                        v -= 1 << b
                out.append((s, intc(v)))
            elif ck == 'IntegralCast' and self.width(n.qt) < self.width(e.qt):
                out.append((s, self.narrow(r, n.qt)))
            else:
                out.append((s, r))
        return out

    e_ImplicitCastExpr = e_cast
    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_CXXReinterpretCastExpr = e_CXXDynamicCastExpr = e_cast

    def e_CXXFunctionalCastExpr(self, n, st, env):
        return self.e_cast(n, st, env)

    WIDTH = {'unsigned int': 32, 'int': 32, 'uint32_t': 32, 'int32_t': 32, 'unsigned short': 16, 'short': 16, 'unsigned char': 8, 'signed char': 8,
             'char': 8, 'uint8_t': 8, 'int8_t': 8, 'uint16_t': 16, 'int16_t': 16}

    W64 = {'unsigned long', 'long', 'size_t', 'std::size_t', 'uint64_t', 'int64_t', 'std::uint64_t', 'std::int64_t', 'unsigned long long', 'long long',
           'ptrdiff_t', 'std::ptrdiff_t'}

    def width(self, qt):
        q = self.ty.norm(qt)
        return 64 if q in self.W64 or q.endswith(('size_type', 'difference_type')) else self.WIDTH.get(q, 32)

    def narrow(self, v, qt):
        """v stored in a type too small for it: anything but a count may lose its upper bits"""
        w = self.width(qt)
        if v.op == 'int' and 0 <= v.a[0] < 1 << (w - 1):
            return v
        if w > 16 and small(v) or SORT.get(v) == 'b':
            return v
        if v.op == 'app' and v.a[0] == 'trunc%d' % w:
            return v
        if v.op == 'ite':
            return mk('ite', v.a[0], self.narrow(v.a[1], qt), self.narrow(v.a[2], qt))
        return self.setsort(app('trunc%d' % self.width(qt), v), qt)

    # operators
    def e_UnaryOperator(self, n, st, env):
        op = n.d['opcode']
        e = n.i[0]
        out = []
        for s, r in self.ev(e, st, env):
            if op == '!':
                out.append((s, neg(self.tobool(s, e, r))))
            elif op == '-':
                out.append((s, mul(self.rval(s, e, r), intc(-1))))
            elif op == '+':
                out.append((s, self.rval(s, e, r)))
            elif op == '*':
                v = self.rval(s, e, r)
                out.append((s, self.deref(s, v)))
            elif op == '&':
                out.append((s, r))
            elif op in ('++', '--'):
                old = self.read(s, r)
                new = self.advance(s, old, intc(1 if op == '++' else -1))
                if self.ty.cat(e.qt) == 'int' and self.width(e.qt) <= 16:
                    new = self.narrow(new, e.qt)
                s2 = self.write(s, r, new)
                if n.d.get('isPostfix'):
                    out.append((s2, old))
                else:
                    out.append((s2, r if self.isgl(n) else new))
            elif op == '~':
                out.append((s, app('~', self.rval(s, e, r))))
            else:
                out.append((s, mk('unk', op)))
        return out

    def advance(self, st, v, k):
        if v.op == 'iter':
            return mk('iter', v.a[0], add(v.a[1], k))
        if v.op == 'riter':
            return mk('riter', v.a[0], add(v.a[1], k))
        return add(v, k)

    def deref(self, st, v):
        v = st.facts.canon(v)
        if v.op == 'iter':
            return self.elemloc(st, v.a[0], v.a[1])
        if v.op == 'riter':
            return self.elemloc(st, v.a[0], sub(sub(len_(self.read(st, v.a[0])), intc(1)), v.a[1]))
        if v.op == 'some':
            return v.a[0]
        return v

    def elemloc(self, st, cloc, idx, kind=None):
        """location of element idx of the container stored at cloc"""
        if cloc in self.carr:
            return self.arrel(st, cloc, idx)
        c = self.read(st, cloc)
        s = SORT.get(c, '')
        kind = kind or (self.ckind.get(cloc) if hasattr(self, 'ckind') else None)
        if s.startswith('k') or c.op in ('store', 'mapall') or idx.op == 'pos' or kind == 'map':
            return mk('mp', cloc, idx)
        if '$index' in self.evphis:
            self.events.append(('index', cloc, c, idx, st))
        return mk('el', cloc, idx)

    def e_BinaryOperator(self, n, st, env):
        op = n.d['opcode']
        a, b = n.i
        if op == '=':
            out = []
            for s, rb in self.ev(b, st, env):
                for s2, la in self.ev(a, s, env):
                    out.append((self.initobj(s2, la, a.qt, b, rb), la))
            return out
        if op in ('&&', '||'):
            return self.logical(n, op, a, b, st, env)
        if op == ',':
            return [(s, vs[1]) for s, vs in self.evs([a, b], st, env)]
        out = []
        for s, (x, y) in self.evs([a, b], st, env):
            x, y = self.rval(s, a, x), self.rval(s, b, y)
            out.append((s, self.binop(s, op, x, y, n.qt)))
        return out

    def logical(self, n, op, a, b, st, env):
        out = []
        for s, x in self.ev(a, st, env):
            x = self.tobool(s, a, x)
            want = op == '&&'
            tr, fa = self.fork(s, x)
            go, stop = (tr, fa) if want else (fa, tr)
            if not go:
                out.append((s, boolc(not want)))
                continue
            if not stop:
                for s1, y in self.ev(b, s, env):
                    out.append((s1, self.tobool(s1, b, y)))
                continue
            g = go[0]
            nf = len(self.fatals)
            rs = self.ev(b, g, env)
            if len(rs) == 1 and rs[0][0].heap is g.heap and rs[0][0].pc is g.pc and len(self.fatals) == nf:
                y = self.tobool(g, b, rs[0][1])
                out.append((s, and_(x, y) if want else or_(x, y)))
            else:
                for s1, y in rs:
                    out.append((s1, self.tobool(s1, b, y)))
                for x_ in stop:
                    out.append((x_, boolc(not want)))
        return out

    def binop(self, s, op, x, y, qt):
        if x.op == 'ite' or y.op == 'ite':
            x, y = self.lift(s, x), self.lift(s, y)
        if op == '==':
            return self.eqv(s, x, y)
        if op == '!=':
            return neg(self.eqv(s, x, y))
        if x.op in ('iter', 'riter') and y.op in ('iter', 'riter'):
            x, y = x.a[1], y.a[1]
            if op == '-':
                return sub(x, y)
        if x.op in ('iter', 'riter'):
            if op == '+':
                return self.advance(s, x, y)
            if op == '-':
                return self.advance(s, x, mul(y, intc(-1)))
        if op == '<':
            return lt(x, y)
        if op == '<=':
            return le(x, y)
        if op == '>':
            return lt(y, x)
        if op == '>=':
            return le(y, x)
        if op == '+':
            if SORT.get(x) == 's' or x.op in ('str', 'strcat'):
                return self.strcat(x, y)
            return add(x, y)
        if op == '-':
            if '$sub' in self.evphis and 'unsigned' in qt:
                self.events.append(('sub', x, y, qt, s))
            return sub(x, y)
        if op == '*':
            return mul(x, y)
        if op in ('/', '>>') and y is (intc(2) if op == '/' else intc(1)):
            if x.op == 'int':
                return intc(x.a[0] // 2)
            t = app('half', x, sort='u')
            return t
        if x.op == 'int' and y.op == 'int':
            a, b = x.a[0], y.a[0]
            try:
                return intc({'/': lambda: a // b, '%': lambda: a % b, '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b,
                             '|': lambda: a | b, '^': lambda: a ^ b}[op]())
            except Exception:
                pass
        t = app('op' + op, x, y)
        return self.setsort(t, qt)

    def strcat(self, x, y):
        return strcat_(x, y)

    def eqv(self, s, x, y):
        if x.op == 'iter' and y.op == 'iter' and x.a[0] is not y.a[0]:
            return FALSE
        if x.op == 'err' and y.op == 'err' and x is not y:
            return mk('eq', x, y) if x.n < y.n else mk('eq', y, x)
        return eq(x, y)

    def e_CompoundAssignOperator(self, n, st, env):
        op = n.d['opcode'][:-1]
        a, b = n.i
        out = []
        for s, rb in self.ev(b, st, env):
            y = self.rval(s, b, rb)
            for s2, la in self.ev(a, s, env):
                x = self.read(s2, la)
                v = self.binop(s2, op, x, y, a.qt)
                if self.ty.cat(a.qt) == 'int' and self.width(a.qt) < self.width((n.d.get('computeResultType') or {}).get('qualType', a.qt)):
                    v = self.narrow(v, a.qt)
                if op in ('|', '&') and self.ty.cat(a.qt) == 'bool':
                    v = or_(truthy(x), truthy(y)) if op == '|' else and_(truthy(x), truthy(y))
                out.append((self.write(s2, la, v), la))
        return out

    def e_ConditionalOperator(self, n, st, env):
        c, a, b = n.i
        out = []
        for s, v in self.ev(c, st, env):
            v = self.tobool(s, c, v)
            tr, fa = self.fork(s, v)
            for x in tr:
                for s2, r in self.ev(a, x, env):
                    out.append((s2, r))
            for x in fa:
                for s2, r in self.ev(b, x, env):
                    out.append((s2, r))
        return self.mergev(out)

    def mergev(self, rs):
        """merge result pairs with identical value"""
        if len(rs) < 2:
            return rs
        by = {}
        for s, v in rs:
            by.setdefault(v, []).append(s)
        if len(by) == len(rs):
            return rs
        return [(s, v) for v, ss in by.items() for s in self.merge(ss)]

    def e_ArraySubscriptExpr(self, n, st, env):
        a, i = n.i
        out = []
        for s, (x, y) in self.evs([a, i], st, env):
            y = self.rval(s, i, y)
            c = s.facts.canon(y)
            if x is not None and self.ty.cat(a.qt) == 'ptr':
                x = s.facts.canon(self.rval(s, a, x))
                if x.op == 'iter':
                    out.append((s, self.elemloc(s, x.a[0], add(x.a[1], c))))
                    continue
            out.append((s, self.arrel(s, x, c)))
        return out

    def arrel(self, s, x, i):
        if i.op == 'int':
            return mk('f', x, '[%d]' % i.a[0])
        return mk('f', x, '[' + show(i) + ']')

    def e_MemberExpr(self, n, st, env):
        out = []
        ent = self.P.decl.get((env.tu, n.d.get('referencedMemberDecl')))
        for s, r in self.ev(n.i[0], st, env) if n.i else [(st, env.this)]:
            if ent and ent[0] == 'var':
                out.append((s, mk('gv', ent[1])))
                continue
            if ent and ent[0] == 'enumc':
                out.append((s, intc(ent[3])))
                continue
            if n.d.get('isArrow'):
                r = self.rval(s, n.i[0], r)
                r = self.ptr(s, r)
                if r is None:
                    continue
            else:
                r2 = r
                if not self.isgl(n.i[0]) and self.ty.cat(n.i[0].qt) != 'struct':
                    s, r2 = self.asloc(s, n.i[0], r)
                r = r2
            if ent and ent[0] == 'field':
                key = ent[1][7:] if ent[1].startswith('craft::') else ent[1]
                if key not in self.ftype:
                    self.ftype[key] = ent[2].qt
            else:
                key = n.name
            ft = n.qt
            out.append((s, self.region(s, r, key)))
        return out

    def region(self, s, base, key):
        if base.op == 'el':
            base = self.read(s, base)     # struct elements live in their own region
        l = self.fld(base, key)
        t = self.ftype.get(key)
        if t and t.rstrip().endswith('&'):
            # reference member
            return self.read(s, l)
        return l

    def ptr(self, s, r):
        """dereferencing a pointer: null stops the path"""
        c = s.facts.canon(r)
        if c.op == 'iter' or c.op == 'riter':
            l = self.deref(s, c)
            return l
        if c.op == 'some':
            return c.a[0]
        if c.op == 'ite':
            c = self.lift(s, c)
        e = eq(c, NULL)
        if e is TRUE or s.facts.decide(e) is True:
            self.fatals.append((s, 'null dereference'))
            return None
        return c

    # ------------------------------------------------------------ construction
    def e_InitListExpr(self, n, st, env):
        qt = n.qt
        c = self.ty.cat(qt)
        if c == 'struct':
            s, l = st.fresh(self.ty.norm(qt))
            fl = self.ty.fields(qt) or []
            sts = [s]
            for (k, t), e in zip(fl, n.i):
                nxt = []
                if e.k in ('ImplicitValueInitExpr', 'CXXDefaultInitExpr') and not e.i:
                    fd = [f for f in self.P.records.get(self.ty.norm(qt)).fields if k.endswith('::' + (f.name or ''))] if self.ty.norm(qt) in self.P.records else []
                    if fd and [x for x in fd[0].i if x.k]:
                        e = [x for x in fd[0].i if x.k][-1]
                    else:
                        continue
                for s in sts:
                    for s2, r in self.ev(e, s, env):
                        nxt.append(self.initobj(s2, self.fld(l, k), t, e, r))
                sts = nxt
            return [(s, l) for s in sts]
        if c in ('seq', 'arr', 'set'):
            out = []
            if c == 'set' and len(n.i) == 1 and self.ty.cat(n.i[0].qt) in ('set', 'seq'):
                return [(s, self.rval(s, n.i[0], r)) for s, r in self.ev(n.i[0], st, env)]
            for s, vs in self.evs(n.i, st, env):
                t = EMPTYC
                for e, v in zip(n.i, vs):
                    s, x = self.elemval(s, e, v)
                    t = append_(t, x) if c != 'set' else ins_(t, x)
                if c == 'arr':
                    s, l = s.fresh('arr')
                    for i, (e, v) in enumerate(zip(n.i, vs)):
                        s = self.initobj(s, mk('f', l, '[%d]' % i), e.qt, e, v)
                    t = l
                out.append((s, t))
            return out
        if len(n.i) == 1:
            return [(s, self.rval(s, n.i[0], r)) for s, r in self.ev(n.i[0], st, env)]
        if not n.i:
            return self.default_of(qt, st)
        return [(st, mk('unk', 'initlist'))]

    def elemval(self, s, node, r):
        """value stored in a container: regions are copied into a fresh element"""
        qt = node.qt
        if self.ty.cat(qt) == 'struct':
            s, l = s.fresh(self.ty.norm(qt))
            return self.copyregion(s, l, r, qt), l
        return s, self.rval(s, node, r)

    def e_CXXStdInitializerListExpr(self, n, st, env):
        x = n.i[0]
        while x.k in ('MaterializeTemporaryExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr', 'ConstantExpr'):
            x = x.i[0]
        out = []
        for s, vs in self.evs(x.i, st, env):
            t = EMPTYC
            for e, v in zip(x.i, vs):
                s, y = self.elemval(s, e, v)
                t = append_(t, y)
            out.append((s, t))
        return out

    def e_CXXConstructExpr(self, n, st, env):
        return self.construct(n.qt, n.i, st, env, (n.d.get('ctorType') or {}).get('qualType', ''), n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n, st, env):
        if n.d.get('isArray'):
            et = self.ty.norm(n.qt)[:-1].strip()
            if self.ty.cat(et) not in ('int', 'bool', 'ptr'):
                self.notes.add('array of objects on the heap')
            out = []
            for s, r in self.ev(n.i[0], st, env):
                k = s.facts.canon(self.rval(s, n.i[0], r))
                s, l = s.fresh('array')
                z = self.defval(et) if n.d.get('initStyle') else GARBAGE
                if len(n.i) > 1 and n.i[1].k == 'InitListExpr' and [x for x in n.i[1].i if x.k != 'ImplicitValueInitExpr']:
                    self.notes.add('array initialiser')
                out.append((s.set('$', l, mk('filled', k, z)), mk('iter', l, ZERO)))
            return out
        for c in n.i:
            if c.k in ('CXXConstructExpr', 'InitListExpr'):
                return self.ev(c, st, env)
        s, l = st.fresh('heap')
        return [(s, l)]

    def e_CXXDeleteExpr(self, n, st, env):
        return [(s, None) for s, _ in self.ev(n.i[0], st, env)]

    def find_ctor(self, q, ctype):
        short = q.split('::')[-1]
        c = self.P.funcs.get(q + '::' + short, [])
        b = [f for f in c if f.sig == ctype]
        if b:
            return b[0]
        n = self.norm_sig(ctype)
        b = [f for f in c if self.norm_sig(f.sig) == n]
        return b[0] if b else None

    def norm_sig(self, s):
        return re.sub(r'\b(craft|std)::', '', s.replace(' noexcept', '')).replace(' ', '')

    def construct(self, qt, args, st, env, ctype='', node=None, into=None):
        args = [a for a in args if a.k != 'CXXDefaultArgExpr' or self.ty.norm(qt) in self.P.records]
        c = self.ty.cat(qt)
        q = self.ty.norm(qt)
        if c == 'status':
            if not args:
                return [(st, NULL)]
            return [(s, self.rval(s, args[0], r)) for s, r in self.ev(args[0], st, env)]
        if c == 'struct':
            ctor = self.find_ctor(q, ctype) if q in self.P.records and ctype else None
            if ctor is not None:
                out = []
                for s, vs in self.evs_args(args, ctor, st, env):
                    s, l = (s, into) if into is not None else s.fresh(q)
                    for s2, _ in self.call(ctor, l, args, vs, s, env):
                        out.append((s2, l))
                return out
            s, l = (st, into) if into is not None else st.fresh(q)
            if not args:
                sts = [s]
                if q in self.P.records:
                    sts = self.field_inits(q, l, s, env, set())
                return [(s, l) for s in sts]
            if len(args) == 1 and self.ty.norm(args[0].qt) == q:
                # copy / move construction
                return [(self.copyregion(s2, l, r, qt), l) for s2, r in self.ev(args[0], s, env)]
            fl = self.ty.fields(qt)
            if self.ty.base(qt) in ('std::tuple', 'std::pair') and fl:
                out = []
                if len(args) == 1 and self.ty.cat(args[0].qt) == 'struct' and len(fl) > 1:
                    af = self.ty.fields(args[0].qt) or fl
                    for s2, r in self.ev(args[0], s, env):
                        for (k, t), (k2, t2) in zip(fl, af):
                            sl = self.fld(r, k2)
                            s2 = self.copyregion(s2, self.fld(l, k), sl, t) if self.ty.cat(t) == 'struct' else self.write(s2, self.fld(l, k), self.read(s2, sl))
                        out.append((s2, l))
                    return out
                for s2, vs in self.evs(args, s, env):
                    for (k, t), a, v in zip(fl, args, vs):
                        s2 = self.initobj(s2, self.fld(l, k), t, a, v)
                    out.append((s2, l))
                return out
            if fl and len(args) == 1 and self.ty.cat(args[0].qt) == 'struct':
                return [(self.copyregion(s2, l, r, qt), l) for s2, r in self.ev(args[0], s, env)]
            return [(s2, l) for s2, _ in self.evs(args, s, env)]
        # value-category classes
        if not args:
            return [(st, self.defval(qt))]
        out = []
        locs = []
        for s, vs in self.evs(args, st, env):
            locs.append(vs[0])
            v0 = self.rval(s, args[0], vs[0])
            if 'uniform_int_distribution' in qt:
                out.append((s, app('uniform', *[self.rval(s, a, x) for a, x in zip(args, vs)])))
            elif c in ('seq', 'set', 'map'):
                if len(args) == 1:
                    if self.ty.cat(args[0].qt) == 'int':
                        v = mk('filled', v0, self.defval(self.ty.elem(qt)))
                    else:
                        v = v0
                        if c == 'set' and self.ty.cat(args[0].qt) == 'seq':
                            v = self.toset(v0)
                    out.append((s, v))
                elif len(args) >= 2 and v0.op in ('iter', 'riter'):
                    v1 = self.rval(s, args[1], vs[1])
                    v = self.rangeval(s, v0, v1)
                    if c == 'set':
                        v = self.toset(v)
                    out.append((s, v))
                elif self.ty.cat(args[0].qt) == 'int':
                    out.append((s, mk('filled', v0, self.rval(s, args[1], vs[1]))))
                else:
                    out.append((s, v0))
            elif c == 'opt':
                t0 = self.ty.cat(args[0].qt)
                if t0 == 'opt' or v0 is NULL:
                    out.append((s, v0))
                elif 'nullopt' in args[0].qt:
                    out.append((s, NULL))
                elif self.ty.cat(self.ty.elem(qt)) == 'struct':
                    s, l = s.fresh(self.ty.norm(self.ty.elem(qt)))
                    out.append((self.copyregion(s, l, vs[0], self.ty.elem(qt)), l))
                else:
                    out.append((s, mk('some', v0)))
            elif c == 'fn' and self.ty.cat(args[0].qt) == 'struct' and self.callop(self.ty.norm(args[0].qt)) is not None:
                f = self.callop(self.ty.norm(args[0].qt))
                s, l = s.fresh(self.ty.norm(args[0].qt))
                s = self.copyregion(s, l, vs[0], args[0].qt)
                out.append((s, mk('functor', f.q, l)))
            elif c == 'str' and len(args) > 1:
                out.append((s, self.setsort(app('str', *[self.rval(s, a, v) for a, v in zip(args, vs)]), 'std::string')))
            else:
                out.append((s, v0))
        if len(args) == 1 and c in ('seq', 'set', 'map', 'ptr') and self.isgl(args[0]):
            from .models import moved
            if moved(args[0]):
                # libstdc++ leaves moved-from containers and owning pointers empty
                res = []
                for (s, v), loc in zip(out, locs):
                    if isinstance(loc, T) and loc.op in ('f', 'var', 'new', 'el', 'mv'):
                        s = self.write(s, loc, self.defval(qt))
                    res.append((s, v))
                out = res
        return out

    def callop(self, q):
        """the call operator of a class of the library, if it has exactly one"""
        l = self.P.funcs.get('%s::operator()' % q, []) if isinstance(q, str) else []
        return l[0] if len(l) == 1 else None

    def toset(self, v):
        if isset(v):
            return v
        if v.op == 'append':
            return ins_(self.toset(v.a[0]), v.a[1])
        t = mk('toset', v)
        SORT[t] = SORT.get(v, 'c')
        return t

    def rangeval(self, s, b, e):
        if b.op == 'iter' and e.op == 'iter':
            c = self.read(s, b.a[0])
            r = slice_(c, b.a[1], e.a[1])
            if c in SORT:
                SORT.setdefault(r, SORT[c])
            return r
        return app('range', b, e)

    def field_inits(self, q, l, st, env, done, only=None):
        """default member initialisers and default construction of the fields not initialised explicitly"""
        sts = [st]
        R = self.P.records[q]
        for b in R.bases:
            bq = self.ty.norm(b)
            if bq in self.P.records and only is None:
                sts = [x for s in sts for x in self.field_inits(bq, l, s, env, done)]
        for f in R.fields:
            if only is not None and f.name != only:
                continue
            key = (q[7:] if q.startswith('craft::') else q) + '::' + (f.name or '')
            if f.name in done:
                continue
            init = [c for c in f.i if c.k and not c.k.endswith('Attr') and c.k != 'FullComment'] if f.d.get('hasInClassInitializer') else []
            if init:
                e2 = Env(R.tu, l, self.newframe(), None, env.depth if env else 0)
                nxt = []
                for s in sts:
                    for s2, r in self.ev(init[-1], s, e2):
                        nxt.append(self.initobj(s2, self.fld(l, key), f.qt, init[-1], r))
                sts = nxt
            elif self.ty.cat(f.qt) == 'struct' and self.ty.norm(f.qt) in self.P.records:
                sub_q = self.ty.norm(f.qt)
                ctor = [x for x in self.P.funcs.get(sub_q + '::' + sub_q.split('::')[-1], []) if not x.params]
                nxt = []
                for s in sts:
                    if ctor:
                        nxt.extend(s2 for s2, _ in self.call(ctor[0], self.fld(l, key), [], [], s, env))
                    else:
                        nxt.extend(self.field_inits(sub_q, self.fld(l, key), s, env, set()))
                sts = nxt
        return sts

    # ------------------------------------------------------------ calls
    def newframe(self):
        self.frames += 1
        return self.frames

    def evs_args(self, args, fn, st, env):
        res = [(st, [])]
        for i, n in enumerate(args):
            nxt = []
            for s, vs in res:
                if n.k == 'CXXDefaultArgExpr' and not n.i:
                    nxt.append((s, vs + [None]))
                    continue
                for s2, v in self.ev(n, s, env):
                    nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def default_param(self, p, fn, st):
        """default argument of parameter p (its initialiser may be on the in-class declaration)"""
        idx = fn.params.index(p)
        cands = [(fn.tu, fn.node)]
        for (tu, _), ent in self.P.decl.items():
            if ent[0] == 'fn' and ent[1] == fn.q:
                cands.append((tu, ent[2]))
        for tu, node in cands:
            ps = [c for c in node.i if c.k == 'ParmVarDecl']
            if idx < len(ps):
                init = [c for c in ps[idx].i if c.k and not c.k.endswith('Attr')]
                if init:
                    env = Env(tu, None, self.newframe())
                    rs = self.ev(init[-1], st, env)
                    return rs[0][0], self.rval(rs[0][0], init[-1], rs[0][1])
        return st, self.setsort(mk('unk', 'default'), p.qt)

    def call(self, fn, this, argnodes, vals, st, env, cap=None):
        """inline a repo function"""
        self.calls_seen += 1
        q = fn.q
        if q in self.evcalls:
            self.event(fn, this, argnodes, vals, st, env)
        depth = env.depth + 1 if env else 1
        stack = (env.stack if env else ())
        if stack.count(q) >= 2 or depth > 40:
            return self.opaque_call(fn, this, argnodes, vals, st, env)
        self.fns_seen.add(q)
        e2 = Env(fn.tu, this, self.newframe(), fn, depth, stack + (q,))
        if cap:
            e2.cap = cap
        s = st
        for i, p in enumerate(fn.params):
            e2.locals[p.id] = e2.frame
            loc = mk('var', p.id, e2.frame)
            v = vals[i] if i < len(vals) else None
            node = argnodes[i] if i < len(argnodes) else None
            isref = p.qt.rstrip().endswith('&') or '(&)[' in p.qt
            if v is None:
                s, v = self.default_param(p, fn, s)
                s = s.set('$', loc, v)
                continue
            if isref:
                if node is not None and not isinstance(node, str):
                    s, l = self.asloc(s, node, v)
                else:
                    l = v
                if l.op == 'el' and self.ty.cat(p.qt) == 'struct':
                    l = self.read(s, l)
                s = s.clone()
                s.refs = dict(s.refs)
                s.refs[loc] = l
            elif self.ty.cat(p.qt) == 'struct':
                s = s.clone()
                s.refs = dict(s.refs)
                if node is not None and not isinstance(node, str) and self.isgl(node):
                    s, l = s.fresh(self.ty.norm(p.qt))
                    s = self.copyregion(s, l, v, p.qt)
                    v = l
                    s = s.clone()
                    s.refs = dict(s.refs)
                if v.op == 'el':
                    v = self.read(s, v)
                if node == 'lval':
                    s, l = s.fresh(self.ty.norm(p.qt))
                    s = self.copyregion(s, l, v, p.qt)
                    v = l
                    s = s.clone()
                    s.refs = dict(s.refs)
                s.refs[loc] = v
            elif node == 'lval' and v.op in ('el', 'mp', 'mv'):
                s = s.set('$', loc, self.read(s, v))
            else:
                s = s.set('$', loc, self.rval(s, node, v) if node is not None and not isinstance(node, str) else v)
        sts = [s]
        if fn.kind == 'CXXConstructorDecl':
            sts = self.ctor_inits(fn, this, sts, e2)
        if fn.body is not None:
            sts = self.block([fn.body], sts, e2)
        out = []
        for s in sts:
            v = None
            if s.ctl and s.ctl[0] == 'ret':
                v = s.ctl[1]
            s = s.ctl_(None)
            out.append((s, v))
        return self.popframe(out, e2, st.n)

    def popframe(self, rs, env, floor=0):
        """forget locals of the frame, then merge"""
        fr = env.frame
        ids = {mk('var', d, f) for d, f in env.locals.items() if f == fr}
        out = []
        for s, v in rs:
            s = s.clone()
            # a returned reference to a local-by-ref variable was already resolved
            h = {}
            # regions referenced through refs of this frame may still be returned
            for phi, d in s.heap.items():
                if phi == '$':
                    nd = {b: x for b, x in d.items() if b not in ids or b is v}
                    if nd:
                        h[phi] = nd
                else:
                    bad = [b for b in d if self.root(b) in ids and self.root(b) is not v]
                    if bad:
                        d = {b: x for b, x in d.items() if b not in bad}
                    if d:
                        h[phi] = d
            s.heap = h
            s.refs = {k: x for k, x in s.refs.items() if k not in ids}
            out.append((s, v))
        out = [(self.gc(s, v, floor), v) for s, v in out]
        return self.mergev(out)

    def gc(self, st, extra=None, floor=0):
        """drop fresh objects no longer reachable"""
        if st.n <= floor:
            return st
        live = set()
        work = []
        news = {}
        for phi, d in st.heap.items():
            for b, v in d.items():
                r = b if phi == '$' else self.root(b)
                if r.op == 'new' and r.a[0] > floor:
                    news.setdefault(r, []).append(v)
                else:
                    work.append(v)
                    if r.op not in ('var', 'this', 'init', 'sym'):
                        work.append(r)
        if not news:
            return st
        work.extend(st.refs.values())
        if extra is not None and isinstance(extra, T):
            work.append(extra)
        for t in getattr(self, 'pins', ()):
            work.append(t)
        for l in st.lay.values():
            for x in l:
                work.append(x[4])
        seen = set()
        while work:
            t = work.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            for x in subterms(t):
                if x.op == 'new' and x not in live:
                    live.add(x)
                    work.extend(news.get(x, ()))
        dead = [r for r in news if r not in live]
        if not dead:
            return st
        dead = set(dead)
        s = st.clone()
        h = {}
        for phi, d in st.heap.items():
            nd = {b: v for b, v in d.items() if (b if phi == '$' else self.root(b)) not in dead}
            if nd:
                h[phi] = nd
        s.heap = h
        return s

    def ctor_inits(self, fn, this, sts, env):
        done = set()
        delegating = False
        q = fn.cls
        plan = []
        for ini in fn.inits:
            a = ini.d.get('anyInit')
            if a and a.get('name') is not None:
                done.add(a['name'])
                plan.append((a, ini))
            else:
                plan.append((None, ini))
                if ini.i and self.ty.norm(ini.i[-1].qt) == q:
                    delegating = True
        if q in self.P.records and not delegating:
            sts = [x for s in sts for x in self.field_inits(q, this, s, env, done)]
        for a, ini in plan:
            e = ini.i[-1] if ini.i else None
            nxt = []
            for s in sts:
                if a is None:
                    if e is not None and e.k in ('CXXConstructExpr',):
                        nxt.extend(s2 for s2, _ in self.construct(e.qt, e.i, s, env, (e.d.get('ctorType') or {}).get('qualType', ''), e, into=this))
                    else:
                        nxt.append(s)
                    continue
                ent = self.P.decl.get((fn.tu, a['id']))
                key = ent[1][7:] if ent and ent[1].startswith('craft::') else (ent[1] if ent else a['name'])
                ft = self.ftype.get(key) or (a.get('type') or {}).get('qualType', '')
                l = mk('f', this, key)
                if e is None:
                    nxt.append(s)
                    continue
                if e.k == 'CXXDefaultInitExpr':
                    nxt.extend(self.field_inits(q, this, s, env, (), only=a['name']))
                    continue
                if e.k == 'CXXConstructExpr' and self.ty.cat(ft) == 'struct' and not ft.rstrip().endswith('&'):
                    nxt.extend(s2 for s2, _ in self.construct(e.qt, e.i, s, env, (e.d.get('ctorType') or {}).get('qualType', ''), e, into=l))
                    continue
                for s2, r in self.ev(e, s, env):
                    if ft.rstrip().endswith('&'):
                        s2, x = self.asloc(s2, e, r)
                        nxt.append(self.write(s2, l, x))
                    elif self.ty.cat(ft) == 'arr' and e.k == 'InitListExpr':
                        m = e.i
                        et = self.ty.elem(ft)
                        for i in range(len(m)):
                            src, dst = mk('f', r, '[%d]' % i), mk('f', l, '[%d]' % i)
                            s2 = self.copyregion(s2, dst, src, et) if self.ty.cat(et) == 'struct' else self.write(s2, dst, self.read(s2, src))
                        nxt.append(s2)
                    else:
                        nxt.append(self.initobj(s2, l, ft, e, r))
            sts = nxt
        return sts

    # opaque calls: an uninterpreted function of the arguments and of what the callee can read
    def event(self, fn, this, argnodes, vals, st, env):
        """note a watched call: the function, the object, the argument values and the state before it"""
        av = []
        for i, v in enumerate(vals):
            node = argnodes[i] if i < len(argnodes) else None
            if v is not None and node is not None and not isinstance(node, str):
                v = self.rval(st, node, v)
            av.append(v)
        self.events.append(('call', fn, this, av, st, env.stack if env else ()))

    def opaque_call(self, fn, this, argnodes, vals, st, env, name=None):
        reads, writes = self.effects(fn)
        if fn.q in self.evcalls and not (env and env.stack.count(fn.q) >= 2):
            self.event(fn, this, argnodes, vals, st, env)
        name = name or fn.q.replace('craft::', '')
        av = []
        if this is not None and not fn.static:
            av.append(self.dump(st, this))
        for i, v in enumerate(vals):
            node = argnodes[i] if i < len(argnodes) else None
            if v is None:
                p = fn.params[i]
                st, x = self.default_param(p, fn, st)
                av.append(x)
                continue
            x = self.rval(st, node, v) if node is not None and not isinstance(node, str) else v
            if isinstance(x, T) and x.op in ('new', 'var'):
                x = self.dump(st, x)
            if isinstance(x, T) and x.op == 'f' and i < len(fn.params) and \
                    self.valueparam(fn.params[i], self.root(x).op in ('var', 'new')):
                x = self.content(st, x, fn.params[i].qt)
                skip = self.untouched(fn, fn.params[i])
                if skip and x.op == 'obj':
                    x = mk('obj', x.a[0], tuple(kv for kv in x.a[1] if kv[0] not in skip))
                av.append(x)
                continue
            x = self.dump(st, x) if isinstance(x, T) else mk('void')
            if x.op == 'obj' and i < len(fn.params):
                skip = self.untouched(fn, fn.params[i])
                if skip:
                    x = mk('obj', x.a[0], tuple(kv for kv in x.a[1] if kv[0] not in skip))
            av.append(x)
        vers = [self.ver(st, phi) for phi in sorted(reads)]
        vers = [v for v in vers if v is not None]
        call = mk('call', name, tuple(st.facts.canon(x) for x in av), tuple(vers))
        s = st
        s = self.havoc(s, writes, call, [self.rval(st, argnodes[i], v) if i < len(argnodes) and argnodes[i] is not None and not isinstance(argnodes[i], str) else v
                                         for i, v in enumerate(vals) if v is not None] + ([this] if this is not None and not fn.static and not fn.const else []))
        # reference parameters to locals may be written
        for i, p in enumerate(fn.params):
            if i >= len(vals) or vals[i] is None:
                continue
            q = p.qt.rstrip()
            if q.endswith('&') and not q.startswith('const') and not q.endswith('&&'):
                l = vals[i]
                if l.op in ('var', 'new') or self.root(l).op in ('var', 'new'):
                    if self.ty.cat(p.qt) == 'struct':
                        skip = self.untouched(fn, p)
                        s = self.outregion(s, l, p.qt, call, i, '', skip, None)
                        s = self.outregion(s, l, p.qt, call, i, '', skip, writes)
                    else:
                        s = self.write(s, l, self.setsort(mk('app', 'out', call, intc(i)), p.qt))
        rt = fn.sig[:fn.sig.index('(')].strip()
        if rt == 'auto':
            rt = 'int'
        return self.result(s, call, rt)

    def valueparam(self, p, local=False):
        """reference to a plain record (const, or a local one): the callee sees its contents only"""
        q = p.qt.rstrip()
        if not (local and q.endswith('&') or q.startswith('const ') and q.endswith('&') and not q.endswith('&&')):
            return False
        t = self.ty.norm(q)
        if t.startswith(('raftpb::', 'craft::raftpb::')):
            return True
        r = self.P.records.get(t)
        return r is not None and r.node.d.get('tagUsed') == 'struct'

    def content(self, st, l, qt):
        """the record at l as dump() shows a local copy of it"""
        out = []
        for k, t in self.ty.fields(qt) or []:
            c = self.ty.cat(t)
            if c == 'struct':
                v = self.content(st, self.fld(l, k), t)
                if not v.a[1]:
                    continue
            elif c == 'arr':
                m = re.search(r'\[(\d+)\]$', self.ty.norm(t))
                if not m:
                    return l
                e = self.ty.elem(t)
                its = []
                for i in range(int(m.group(1))):
                    x = mk('f', self.fld(l, k), '[%d]' % i)
                    w = self.content(st, x, e) if self.ty.cat(e) == 'struct' else self.dump(st, self.read(st, x))
                    if w.op == 'obj' and not w.a[1] or w is self.defval(e) or w.op == 'uninit':
                        continue
                    its.append(('[%d]' % i, w))
                if not its:
                    continue
                v = mk('obj', '', tuple(sorted(its)))
            else:
                v = self.dump(st, self.read(st, self.fld(l, k)))
                if v is self.defval(t) or v.op == 'uninit':
                    continue
            out.append((k, v))
        return mk('obj', '', tuple(sorted(out, key=lambda x: x[0])))

    def untouched(self, fn, p):
        """members of the record behind a reference parameter that the callee leaves alone"""
        q = p.qt.rstrip()
        c = getattr(self.effmap, '__self__', None)
        if c is None or not hasattr(c, 'untouched') or not q.endswith('&') or q.endswith('&&') or q.startswith('const'):
            return ()
        return c.untouched(fn, q)

    def effects(self, fn):
        m = self.effmap
        if m is not None:
            r = m(fn)
            if r is not None:
                return r
        return self.eff.of(fn)

    def result(self, s, call, rt):
        c = self.ty.cat(rt)
        if c == 'void':
            return [(s, None)]
        if rt.endswith('&') and c != 'struct':
            s, l = s.fresh('ref')
            return [(s.set('$', l, self.setsort(mk('app', 'ret', call), rt)), l)]
        if c == 'struct':
            s, l = s.fresh(self.ty.norm(rt))
            s = self.symregion(s, l, rt, mk('app', 'ret', call), '')
            return [(s, l)]
        return [(s, self.setsort(mk('app', 'ret', call), rt))]

    def outregion(self, s, l, qt, call, i, path, skip, writes):
        """what a call leaves in a local record: its own members, then (writes given) the written ones nested in it"""
        for k, t in self.ty.fields(qt) or []:
            c = self.ty.cat(t)
            if c == 'struct':
                if writes is not None:
                    s = self.outregion(s, self.fld(l, k), t, call, i, path + k + '.', skip, writes)
            elif c == 'arr' and writes is not None:
                m = re.search(r'\[(\d+)\]$', self.ty.norm(t))
                e = self.ty.elem(t)
                for j in range(int(m.group(1)) if m else 0):
                    x = mk('f', self.fld(l, k), '[%d]' % j)
                    if self.ty.cat(e) == 'struct':
                        s = self.outregion(s, x, e, call, i, '%s%s[%d].' % (path, k, j), skip, writes)
                    elif k in writes:
                        s = self.write(s, x, self.setsort(mk('app', 'out', call, intc(i), strc('%s%s[%d]' % (path, k, j))), e))
            elif c == 'arr':
                pass
            elif k not in skip and (writes is None or path and k in writes):
                s = self.write(s, self.fld(l, k), self.setsort(mk('app', 'out', call, intc(i), strc(path + k)), t))
        return s

    def symregion(self, s, l, qt, term, path):
        for k, t in self.ty.fields(qt) or []:
            c = self.ty.cat(t)
            p = path + '.' + k
            if c == 'struct':
                s = self.symregion(s, self.fld(l, k), t, term, p)
            elif c == 'arr':
                m = re.search(r'\[(\d+)\]$', self.ty.norm(t))
                for i in range(int(m.group(1)) if m else 0):
                    e = self.ty.elem(t)
                    s = self.symregion(s, mk('f', self.fld(l, k), '[%d]' % i), e, term, p + '[%d]' % i)
            else:
                s = self.write(s, self.fld(l, k), self.setsort(mk('app', 'sel', term, strc(p)), t))
        return s

    def ver(self, st, phi):
        """what the callee sees in field phi: base version + the writes so far (None when untouched)"""
        d = st.heap.get(phi)
        b = st.base.get(phi)
        lay = st.lay.get(phi)
        ws = []
        if d:
            c = st.facts.canon
            for base, v in d.items():
                r = self.root(base)
                if r.op in ('var', 'new'):
                    continue
                dv = self.dump(st, c(v))
                t = mk('init', mk('f', base, phi))
                if b is None and dv is c(t) and not lay:
                    continue
                ws.append((c(base), dv))
        if not ws and b is None and not lay:
            return None
        return mk('ver', phi, b if b is not None else NULL, tuple(sorted(ws, key=lambda x: x[0].n)),
                  tuple(self.laykey(x) for x in lay or ()))

    def laykey(self, x):
        return mk('layer', *x)

    def reachable(self, s, args=()):
        """fresh objects reachable from persistent locations or from args"""
        work = [a for a in args if isinstance(a, T)]
        news = {}
        for phi, d in s.heap.items():
            for b, v in d.items():
                r = b if phi == '$' else self.root(b)
                if r.op == 'new':
                    news.setdefault(r, []).append(v)
                elif r.op != 'var':
                    work.append(v)
        live, seen = set(), set()
        while work:
            t = work.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            for x in subterms(t):
                if x.op == 'new' and x not in live:
                    live.add(x)
                    work.extend(news.get(x, ()))
        return live

    def havoc(self, s, writes, call, args=()):
        if not writes:
            return s
        s = s.clone()
        h = dict(s.heap)
        base = dict(s.base)
        lay = dict(s.lay)
        live = self.reachable(s, args)
        for phi in writes:
            d = h.get(phi)
            if d:
                # locals and fresh objects nobody else knows cannot be reached by the callee
                nd = {}
                for b, v in d.items():
                    r = self.root(b)
                    if r.op == 'var' or r.op == 'new' and r not in live:
                        nd[b] = v
                    elif r.op == 'new':
                        t = self.ftype.get(phi)
                        nd[b] = mk('rv', mk('f', self.dump(s, b), phi), call)
                        if t:
                            self.setsort(nd[b], t)
                if nd:
                    h[phi] = nd
                else:
                    del h[phi]
            base[phi] = call
            lay.pop(phi, None)
        s.heap, s.base, s.lay = h, base, lay
        return s

    # ------------------------------------------------------------ call expressions
    def strip(self, n):
        while n.k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and n.i:
            n = n.i[0]
        return n

    def e_CallExpr(self, n, st, env):
        c = self.strip(n.i[0])
        args = n.i[1:]
        if c.k == 'DeclRefExpr':
            d = c.d['referencedDecl']
            f = front.callee(self.P, env.tu, d['id']) if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl') else None
            if f is not None:
                return self.dispatch(f, None, args, st, env, n)
            if d.get('kind') in ('FunctionDecl', 'CXXMethodDecl'):
                ent = self.P.decl.get((env.tu, d['id']))
                if ent is not None and ent[0] == 'fn':
                    return self.external(ent[1], args, st, env, n)
                from . import models
                return models.std_call(self, d.get('name'), c, args, st, env, n)
        # call through a value
        out = []
        for s, (f, *vs) in self.evs([n.i[0]] + args, st, env):
            out.extend(self.callval(self.rval(s, n.i[0], f), args, vs, s, env, n))
        return out

    def external(self, q, args, st, env, n, this=None):
        """a declared but not defined repo function (pure virtual): uninterpreted"""
        q = q.replace('craft::', '')
        out = []
        for s, vs in self.evs_args(args, None, st, env):
            av = [this] if this is not None else []
            for a, v in zip(args, vs):
                x = self.rval(s, a, v) if v is not None else mk('void')
                av.append(self.dump(s, s.facts.canon(x)) if isinstance(x, T) else mk('void'))
            call = mk('call', q, tuple(av), ())
            out.extend(self.result(s, call, n.qt))
        return out

    def dispatch(self, f, this, args, st, env, n):
        q = f.q
        p = self.prims.get(q)
        if p is None and f.cls in ('craft::Status',):
            from . import models
            p = models.status_prim
        out = []
        for s, vs in self.evs_args(args, f, st, env):
            if p is not None:
                r = p(self, f, this, args, vs, s, env, n)
                if r is not None:
                    out.extend(r)
                    continue
            if q in self.opaque and id(f) not in self.through:
                out.extend(self.opaque_call(f, this, args, vs, s, env))
            else:
                out.extend(self.call(f, this, args, vs, s, env))
        return self.mergev(out) if len(out) > 1 else out

    def overriders(self, f, this):
        return f

    def pointer_to_member(self, m, args, st, env, n):
        out = []
        for s, (o, fv) in self.evs(m.i, st, env):
            fv = s.facts.canon(self.rval(s, m.i[1], fv))
            if fv.op == 'ite':
                fv = self.lift(s, fv)
            f = self.P.fn(fv.a[0]) if fv.op == 'fn' and len(self.P.funcs.get(fv.a[0], ())) == 1 else None
            if m.d['opcode'] == '->*':
                o = self.ptr(s, self.rval(s, m.i[0], o))
                if o is None:
                    continue
            if fv is NULL:
                continue
            if f is None or f.static or f.virtual:
                self.notes.add('call through a pointer to member')
                out.append((s, mk('unk', 'membercall')))
                continue
            out.extend(self.dispatch(f, o, args, s, env, n))
        return out

    def e_CXXMemberCallExpr(self, n, st, env):
        m = self.strip(n.i[0])
        args = n.i[1:]
        if m.k == 'BinaryOperator' and m.d.get('opcode') in ('->*', '.*'):
            return self.pointer_to_member(m, args, st, env, n)
        if m.k != 'MemberExpr':
            self.notes.add('member call through %s' % m.k)
            return [(st, mk('unk', 'membercall'))]
        from . import models
        did = m.d.get('referencedMemberDecl')
        f = front.callee(self.P, env.tu, did)
        ent = self.P.decl.get((env.tu, did))
        name = m.name
        # logging
        if name == 'Log' and (f is None or 'Logger' in (f.cls or '')) and models.is_log(self, m):
            return models.log_call(self, m, args, st, env, n)
        out = []
        base = m.i[0]
        for s, r in self.ev(base, st, env):
            if m.d.get('isArrow'):
                p = self.rval(s, base, r)
                if f is not None or ent is not None or self.ty.cat(base.qt) != 'iter':
                    p2 = self.ptr(s, p)
                    if p2 is None:
                        continue
                    p = p2
                obj = p
                oqt = self.ty.elem(base.qt) if base.qt.rstrip().endswith('*') else base.qt
            else:
                obj = r
                oqt = base.qt
                if not self.isgl(base) and self.ty.cat(base.qt) != 'struct':
                    s, obj = self.asloc(s, base, r)
            if obj.op == 'el':
                # struct elements have a region of their own
                t = self.read(s, obj)
                if (f is not None or ent is not None or self.ty.cat(oqt) == 'struct'):
                    obj = t
            if f is not None:
                virt = ent is not None and ent[0] == 'fn' and (ent[2].d.get('virtual') or ent[2].d.get('pure'))
                out.extend(self.dispatch(f, obj, args, s, env, n))
            elif ent is not None and ent[0] == 'fn':
                impl = self.static_type_impl(s, obj, ent[1])
                if impl is not None:
                    out.extend(self.dispatch(impl, obj, args, s, env, n))
                else:
                    out.extend(self.external(ent[1], args, s, env, n, this=obj))
            else:
                if 'google::protobuf' in oqt:
                    y = base
                    while y.k in ('ImplicitCastExpr', 'ParenExpr') and y.i and 'google::protobuf' in y.qt:
                        y = y.i[0]
                    oqt = self.ty.elem(y.qt) if y.qt.rstrip().endswith('*') else y.qt
                out.extend(models.std_method(self, name, obj, oqt, base, args, s, env, n, m))
        return self.mergev(out) if len(out) > 1 else out

    def static_type_impl(self, s, obj, q):
        """devirtualise on a fresh object of known type"""
        if obj.op == 'new' and isinstance(obj.a[1], str) and obj.a[1] in self.P.records:
            name = q.split('::')[-1]
            l = self.P.funcs.get(obj.a[1] + '::' + name)
            if l:
                return l[0]
        return None

    def e_CXXOperatorCallExpr(self, n, st, env):
        c = self.strip(n.i[0])
        args = n.i[1:]
        from . import models
        f = None
        name = ''
        if c.k == 'DeclRefExpr':
            d = c.d['referencedDecl']
            name = d.get('name', '')
            f = front.callee(self.P, env.tu, d['id'])
            if f is not None and (f.kind == 'CXXMethodDecl') and f.cls and not f.static:
                if f.cls == 'craft::Status':
                    out = []
                    for s, rb in self.ev(args[1], st, env):
                        for s2, la in self.ev(args[0], s, env):
                            out.append((self.write(s2, la, self.rval(s2, args[1], rb)), la))
                    return out
                out = []
                for s, r in self.ev(args[0], st, env):
                    s, l = self.asloc(s, args[0], r)
                    if l.op == 'el':
                        l = self.read(s, l)
                    out.extend(self.dispatch(f, l, args[1:], s, env, n))
                return out
            if f is not None:
                return self.dispatch(f, None, args, st, env, n)
        return models.std_operator(self, name, args, st, env, n)

    def e_LambdaExpr(self, n, st, env):
        rec = n.i[0]
        op = [c for c in rec.i if c.k in ('CXXMethodDecl', 'FunctionTemplateDecl') and (c.name == 'operator()')]
        if op and op[0].k == 'FunctionTemplateDecl':
            inst = [c for c in op[0].i if c.k == 'CXXMethodDecl' and any(x.k == 'CompoundStmt' for x in c.i)]
            if len(inst) > 1:
                inst = inst[1:]         # the first is the template's own, uninstantiated body
            op = inst[::-1] or op
        if not op:
            return [(st, mk('unk', 'lambda'))]
        others = {c.id: c for c in op} if len(op) > 1 else None
        op = op[0]
        fields = [c for c in rec.i if c.k == 'FieldDecl']
        inits = n.i[1:len(fields) + 1] if len(n.i) > len(fields) else []
        body = [c for c in n.i if c.k == 'CompoundStmt']
        f = front.Func()
        f.q, f.name, f.cls, f.node, f.tu = 'lambda@' + self.lamhash(n, env), 'operator()', None, op, env.tu
        f.body = body[-1] if body else None
        for c in op.i:
            if c.k == 'CompoundStmt':
                f.body = c
        f.params = [c for c in op.i if c.k == 'ParmVarDecl']
        f.inits, f.kind, f.static, f.virtual, f.const = [], 'lambda', True, False, False
        f.sig = (op.d.get('type') or {}).get('qualType', '()')
        f.file, f.line = n.file, n.line
        if others:
            # a generic lambda: each call names the instantiation it uses
            alts = {}
            for i, c in others.items():
                g = front.Func()
                for a in front.Func.__slots__:
                    if hasattr(f, a):
                        setattr(g, a, getattr(f, a))
                g.node = c
                g.body = [x for x in c.i if x.k == 'CompoundStmt'][-1]
                g.params = [x for x in c.i if x.k == 'ParmVarDecl']
                g.sig = (c.d.get('type') or {}).get('qualType', '()')
                alts[i] = g
            self.instances[f.q] = alts
        eta = self.eta(n, f, inits, env)
        if eta is not None:
            return [(st, eta)]
        caps = []
        res = [(st, [])]
        used = []
        insts = list(self.instances[f.q].values()) if others else [f]
        for x in [y for g in insts for y in g.body.walk()]:
            if x.k == 'DeclRefExpr' and x.d['referencedDecl'].get('kind') in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
                used.append(x.d['referencedDecl'])
        declared = {x.id for g in insts for x in g.body.walk() if x.k in ('VarDecl', 'BindingDecl', 'ParmVarDecl')} | {p.id for g in insts for p in g.params}
        known = set()
        plan = []
        for fd, ini in zip(fields, inits):
            y = self.strip(ini)
            if y.k == 'CXXThisExpr' or ini.k == 'CXXThisExpr':
                plan.append((None, fd, ini))
                continue
            z = y
            while z.k in ('CXXConstructExpr',) and len(z.i) >= 1:
                z = self.strip(z.i[0])
            did = z.d['referencedDecl']['id'] if z.k == 'DeclRefExpr' else None
            if did is not None and any(u['id'] == did for u in used):
                plan.append((did, fd, ini))
                known.add(did)
            else:
                plan.append(('?', fd, ini))
        # init-captures: remaining used ids that are neither local to the lambda nor visible outside
        rest = []
        for u in used:
            if u['id'] in declared or u['id'] in known or u['id'] in rest:
                continue
            if u['id'] in env.locals or u['id'] in env.cap or (env.tu, u['id']) in self.P.decl:
                continue
            rest.append(u['id'])
        for did, fd, ini in plan:
            nxt = []
            if did == '?':
                did = rest.pop(0) if rest else None
            for s, cs in res:
                if did is None and (self.strip(ini).k == 'CXXThisExpr' or ini.k == 'CXXThisExpr'):
                    nxt.append((s, cs))
                    continue
                for s2, r in self.ev(ini, s, env):
                    if did is None:
                        nxt.append((s2, cs))
                        continue
                    byref = fd.qt.rstrip().endswith('&') or '(&)[' in fd.qt
                    if byref:
                        nxt.append((s2, cs + [(did, r)]))
                    else:
                        s2, l = s2.fresh('cap')
                        if self.ty.cat(fd.qt) == 'struct':
                            s2 = self.copyregion(s2, l, r, fd.qt)
                        else:
                            s2 = s2.set('$', l, self.rval(s2, ini, r))
                        nxt.append((s2, cs + [(did, l)]))
            res = nxt
        out = []
        for s, cs in res:
            key = mk('lam', f.q, env.this if env.this is not None else NULL, tuple(l for _, l in cs))
            old = self.clos.get(key)
            m = dict(cs)
            if old is not None:
                m.update({k: v for k, v in old[1].items() if k not in m})
            self.clos[key] = (f, m, env)
            kinds = tuple(fd.qt for did, fd, ini in plan if did is not None)
            ids = self.closq.setdefault(f.q, (f, [], env))[1]
            ids.append(tuple(zip((d for d, _ in cs), kinds)))
            out.append((s, key))
        return out

    def instance(self, f, n):
        alts = self.instances.get(f.q)
        if not alts:
            return f
        c = self.strip(n.i[0]) if n is not None and n.i else None
        i = (c.d.get('referencedDecl') or {}).get('id') if c is not None else None
        if i not in alts:
            self.notes.add('generic lambda called through a library function')
            return f
        return alts[i]

    def eta(self, n, f, inits, env):
        """[this](auto x..) { return M(x..); }  is  bind(&C::M, this, _1..)"""
        if env.this is None or any(self.strip(i).k != 'CXXThisExpr' for i in inits) or len(inits) != 1:
            return None
        b = f.body.i if f.body is not None else []
        if len(b) != 1:
            return None
        e = b[0]
        if e.k == 'ReturnStmt' and e.i:
            e = e.i[0]

        def bare(x):
            while True:
                x = self.strip(x)
                if x.k == 'CXXConstructExpr' and len(x.i) == 1:
                    x = x.i[0]
                elif x.k == 'CallExpr' and len(x.i) == 2 and self.strip(x.i[0]).k == 'DeclRefExpr' and \
                        (self.strip(x.i[0]).d.get('referencedDecl') or {}).get('name') in ('move', 'forward'):
                    x = x.i[1]
                else:
                    return x
        e = bare(e)
        if e.k != 'CXXMemberCallExpr':
            return None
        m = self.strip(e.i[0])
        if m.k != 'MemberExpr' or not m.i or bare(m.i[0]).k != 'CXXThisExpr':
            return None
        g = front.callee(self.P, env.tu, m.d.get('referencedMemberDecl'))
        if g is None or len(e.i) - 1 != len(f.params):
            return None
        for p, a in zip(f.params, e.i[1:]):
            a = bare(a)
            if a.k != 'DeclRefExpr' or (a.d.get('referencedDecl') or {}).get('id') != p.id:
                return None
        return mk('bind', g.q, env.this, tuple(mk('sym', '_%d' % (i + 1)) for i in range(len(f.params))))

    def callval(self, v, args, vals, st, env, n):
        v = st.facts.canon(v)
        if v.op == 'ite':
            v = self.lift(st, v)
        while v.op == 'at' and v.a[0].op == 'append':
            c = lt(v.a[1], len_(v.a[0].a[0]))
            d = st.facts.decide(c)
            if d is None:
                raise NeedFork(c)
            v = st.facts.canon(at_(v.a[0].a[0], v.a[1])) if d else v.a[0].a[1]
        if v.op == 'some':
            v = v.a[0]
        if v.op == 'lam' and v in self.clos:
            f, cap, cenv = self.clos[v]
            f = self.instance(f, n)
            c2 = dict(cap)
            # nested lambdas see the enclosing captures too
            for k, l in cenv.cap.items():
                c2.setdefault(k, l)
            e = Env(cenv.tu, cenv.this, env.frame, env.fn, env.depth, env.stack)
            if f.params or True:
                return self.call(f, cenv.this, args, vals, st, e, cap=c2)
        if v.op == 'lam' and v.a[0] in self.closq:
            # a closure that went through a summary: its captures are values now
            f, ids, cenv = self.closq[v.a[0]]
            f = self.instance(f, n)
            c2 = dict(cenv.cap)
            for plan in ids:
                for (did, qt), l in zip(plan, v.a[2]):
                    if l.op == 'obj':
                        st, l2 = st.fresh('cap')
                        st = self.undump(st, l2, l)
                        l = l2
                    c2[did] = l
            e = Env(cenv.tu, v.a[1], env.frame, env.fn, env.depth, env.stack)
            return self.call(f, v.a[1], args, vals, st, e, cap=c2)
        if v.op == 'bind':
            f = self.P.fn(v.a[0])
            if f is not None:
                this, bound = v.a[1], v.a[2]
                nodes, vs = [], []
                for b in bound:
                    if b.op == 'sym' and str(b.a[0]).startswith('_'):
                        i = int(str(b.a[0])[1:]) - 1
                        nodes.append(args[i] if i < len(args) else 'val')
                        vs.append(vals[i] if i < len(vals) else mk('unk', 'arg'))
                    else:
                        nodes.append('val')
                        vs.append(b)
                p = self.prims.get(f.q)
                if p is not None:
                    r = p(self, f, this, nodes, vs, st, env, n)
                    if r is not None:
                        return r
                if f.q in self.opaque and id(f) not in self.through:
                    return self.opaque_call(f, this, nodes, vs, st, env)
                return self.call(f, this, nodes, vs, st, env)
        if v.op == 'fn':
            f = self.P.fn(v.a[0])
            if len(self.P.funcs.get(v.a[0], ())) > 1:
                self.notes.add('address of an overloaded function')
            if f is not None:
                return self.call(f, None, args, vals, st, env)
        if v.op == 'functor' or (v.op == 'new' and self.callop(v.a[1]) is not None):
            f, l = (self.P.fn(v.a[0]), v.a[1]) if v.op == 'functor' else (self.callop(v.a[1]), v)
            if f is not None:
                return self.call(f, l, args, vals, st, env)
        if v.op in ('var', 'new', 'obj', 'functor', 'unk'):
            self.notes.add('call of an object of unknown type')
        av = []
        for a, x in zip(args, vals):
            x = self.rval(st, a, x) if not isinstance(a, str) else x
            av.append(self.dump(st, x))
        vers = ()
        field = v.op in ('init', 'rv') and v.a[0].op == 'f'
        if self.anyeff is not None and field:
            vers = tuple(x for x in (self.ver(st, phi) for phi in sorted(self.anyeff[0])) if x is not None)
        if '$fnval' in self.evcalls:
            self.events.append(('fnval', v, vals, st))
        call = mk('call', 'fnval', (v,) + tuple(av), vers)
        if self.anyeff is not None and field:
            st = self.havoc(st, self.anyeff[1], call, [self.rval(st, a, x) if not isinstance(a, str) else x for a, x in zip(args, vals)])
        elif self.ty.cat(n.qt) == 'void':
            # what the caller's function is told, in order
            loc = mk('gv', '$calls')
            old = self.read(st, loc)
            return [(self.write(st, loc, append_(old, mk('ev', v, *av))), None)]
        else:
            self.notes.add('call through unknown function value' + (show(v)[:600] if __import__('os').environ.get('SA_DBG') else ''))
        return self.result(st, call, n.qt)
