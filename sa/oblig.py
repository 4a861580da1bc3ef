"""Obligations: each property's premises, proved on the guarded summaries of the current tree.

A *site* obligation holds at every watched call or field write, in the state in which it happens; a
*row* obligation holds on every path of a function.  Conditions are terms over the entry state (init),
the arguments and the results of calls; a condition is proved when its negation contradicts the facts
of the path (sa/terms.py).  Nothing is executed.

A proved obligation is evidence for the property on the tree that was read.  An unproved one counts as
a violation only when its counterexample path is definite: every condition on the path and the refuted
condition speak about entry state, arguments and constants alone (no result of a call, no unmodelled
value), so that the path and the refutation are both certain.
"""
import re
from . import eng
from . import modular as M
from .terms import *

THIS = mk('this', 'this')


class Unproved(Exception):
    pass


class Ev:
    """a watched call or write and the state it happens in"""

    def __init__(self, I, this, ev, fn):
        self.I, self.this, self.fn = I, this, fn
        self.kind = ev[0]
        self.args_ = [mk('sym', 'arg%d' % i) for i in range(len(fn.params))]
        if self.kind == 'call':
            _, self.f, self.obj, self.av, self.st, self.stack = ev
            self.name = self.f.q
        elif self.kind == 'write':
            _, self.name, self.obj, self.val, self.st = ev
            self.stack = ()
        elif self.kind == 'index':          # container location, container value, index
            _, self.obj, self.cont, self.idx, self.st = ev
            self.name, self.stack = '$index', ()
        elif self.kind == 'sub':            # unsigned subtraction x - y
            _, self.x, self.y, self.qt, self.st = ev
            self.name, self.stack = '$sub', ()
        else:                               # call of a function value
            _, self.obj, self.av, self.st = ev
            self.name, self.stack = '$fnval', ()

    def rd(self, phi, base=None):
        return rd(self.I, self.st, base if base is not None else self.this, phi)

    def arg(self, i):
        """argument i of the watched call"""
        return self.st.facts.canon(self.av[i])

    def par(self, i):
        """parameter i of the analysed function"""
        return self.args_[i]

    def msg(self, name, of=None):
        """a field of a message (of the analysed function's first argument)"""
        return rd(self.I, self.st, of if of is not None else self.args_[0], 'pb.' + name)

    @property
    def pre(self):
        return mk('init', mk('f', self.this, 'Raft::term_'))

    def old(self):
        return rd(self.I, self.st, self.obj, self.name)

    def text(self):
        n = self.name.replace('craft::', '')
        if self.kind == 'index':
            return 'element %s of %s' % (show(self.idx)[:100], show(self.obj)[:100])
        if self.kind == 'sub':
            return 'subtraction %s - %s' % (show(self.x)[:100], show(self.y)[:100])
        if self.kind == 'fnval':
            return 'call of %s' % show(self.obj)[:100]
        if self.kind == 'write':
            return 'write of %s := %s' % (n, show(self.I.dump(self.st, self.val))[:200])
        return 'call of %s(%s)' % (n, ', '.join(show(self.I.dump(self.st, x))[:80] if isinstance(x, T) else str(x) for x in self.av))


class Path:
    """one row of a summary"""

    def __init__(self, S, row, fn):
        self.S, self.row, self.I, self.st, self.fn = S, row, S.I, row.st, fn
        self.this = THIS
        self.args_ = [mk('sym', 'arg%d' % i) for i in range(len(fn.params))]
        self.fatal = row.fatal

    def par(self, i):
        return self.args_[i]

    def rd(self, phi, base=None):
        return rd(self.I, self.st, base if base is not None else self.this, phi)

    def pre(self, phi, base=None):
        return mk('init', mk('f', base if base is not None else self.this, phi))

    @property
    def ret(self):
        return self.I.dump(self.st, self.row.ret) if self.row.ret is not None else None

    def written(self):
        """fields of persistent objects this path may have changed"""
        out = {phi for (phi, b), v in M.observables(self.S, self.row).items() if phi != '$' and v is not mk('init', mk('f', b, phi))}
        return out | set(self.st.base) | {p for p, l in self.st.lay.items() if l}

    def text(self):
        return 'path'


def rd(I, st, base, phi):
    return st.facts.canon(I.read(st, mk('f', base, phi)))


def raft_log(x, this=None):
    return x.rd('Raft::raft_log_', this)


def trk(x, this=None):
    return mk('f', this if this is not None else x.this, 'Raft::trk_')


def prove(F, c):
    """does F entail c?  -> None when proved, else the facts of a counterexample"""
    if c is TRUE:
        return None
    G = F.assume(neg(c))
    return M.feasible(G, [400])


PRIM = {'init', 'f', 'this', 'sym', 'int', 'str', 'lin', 'eq', 'le0', 'not', 'and', 'or', 'null', 'obj'}


def definite(st, c):
    for x in list(st.lits()) + [c]:
        for y in subterms(x):
            if y.op not in PRIM:
                return False
            if y.op == 'f' and not (isinstance(y.a[0], T) and y.a[0].op in ('this', 'init', 'f', 'sym')):
                return False
    return True


class Site:
    def __init__(self, pid, name, funcs, cond, calls=(), writes=(), inline=(), assume=None, where=None, closed=True, exempt='', given=None):
        self.pid, self.name, self.cond, self.where = pid, name, cond, where
        self.funcs = ['craft::' + f for f in funcs.split()]
        self.calls = frozenset(c if c[0] == '$' else 'craft::' + c for c in calls.split()) if calls else frozenset()
        self.writes = frozenset(writes.split()) if writes else frozenset()
        self.inline = frozenset('craft::' + f for f in (inline.split() if inline else ()))
        self.assume = assume
        self.closed = closed
        self.exempt = ['craft::' + f for f in exempt.split()]
        self.given = given or {}      # functions that rely on a representation invariant -> the invariant


class Rows:
    def __init__(self, pid, name, funcs, cond, inline=(), assume=None):
        self.pid, self.name, self.cond = pid, name, cond
        self.funcs = ['craft::' + f for f in funcs.split()]
        self.inline = frozenset('craft::' + f for f in (inline.split() if inline else ()))
        self.assume = assume


OB = []


def site(*a, **k):
    OB.append(Site(*a, **k))


def rows(*a, **k):
    OB.append(Rows(*a, **k))


class Prover:
    def __init__(self, side, opaque, contracts, anyeff, through):
        self.side, self.opaque, self.cof, self.any, self.through = side, opaque, contracts, anyeff, through
        self.memo = {}
        self.summaries = 0

    def keys(self, q):
        return [k for k in self.side.byk if k[0] == q]

    def summary(self, k, inline, assume, calls, writes):
        key = (k, inline, assume, calls, writes)
        r = self.memo.get(key)
        if r is None:
            self.summaries += 1
            f = self.side.byk[k]
            I = eng.Interp(self.side.P, budget=400000, opaque={q: None for q in self.opaque - inline - {k[0]}})
            I.through = {id(self.side.byk[x]) for x in self.through if x in self.side.byk}
            I.effmap, I.anyeff = self.cof, self.any
            I.evcalls, I.evphis = calls, writes
            try:
                st, this, nodes, vals, args = M.setup_args(I, f)
                for c in (assume(I, st, this, args) if assume else ()):
                    st = st.assume(c)
                rs = I.call(f, this if not f.static and f.cls else None, nodes, vals, st, None)
                rows_ = [M.Row(s, v) for s, v in rs] + [M.Row(s, None, m) for s, m in I.fatals]
                r = M.Summary(I, rows_, set(I.notes), f)
            except Exception as e:
                r = e
            self.memo[key] = r
        return r

    def decide(self, o):
        """-> dict(proved=n, unproved=[(text, definite?)], functions=[...])"""
        out = {'name': o.name, 'functions': [], 'obligations': 0, 'trivial': 0, 'unproved': [], 'rows': 0}
        ismsg = isinstance(o, Site)
        visited = set()
        for q in (o.funcs if o.funcs != ['craft::*'] else sorted({k[0] for k, f in self.side.byk.items() if f.body is not None and not f.file.endswith('.pb.cc')})):
            ks = self.keys(q)
            if not ks:
                out['unproved'].append((q, 'no such function in this tree', False))
            for k in ks:
                f = self.side.byk[k]
                if f.body is None:
                    continue
                S = self.summary(k, o.inline, o.assume, o.calls if ismsg else frozenset(), o.writes if ismsg else frozenset())
                if isinstance(S, Exception):
                    out['unproved'].append((q, 'not modelled: %s %s' % (type(S).__name__, str(S)[:120]), False))
                    continue
                out['functions'].append(q.replace('craft::', ''))
                out['rows'] += len(S.rows)
                visited |= S.I.fns_seen
                out.setdefault('visited', set()).update(S.I.fns_seen | {q})
                things = []
                if ismsg:
                    seen = set()
                    for ev in S.I.events:
                        e = Ev(S.I, THIS, ev, f)
                        if o.where and not o.where(e):
                            continue
                        things.append(e)
                else:
                    things = [Path(S, r, f) for r in S.rows]
                for e in things:
                    F = e.st.facts
                    if M.feasible(F, [100]) is None:
                        continue
                    try:
                        cs = o.cond(e)
                    except eng.NeedFork as x:
                        cs = [None]
                        why = 'needs a case split on %s' % show(x.cond)[:100]
                    except Exception as x:
                        cs = [None]
                        why = '%s %s' % (type(x).__name__, str(x)[:100])
                    if cs is None:
                        continue
                    for c in (cs if isinstance(cs, (list, tuple)) else [cs]):
                        out['obligations'] += 1
                        if c is None:
                            out['unproved'].append((q, '%s: %s' % (e.text(), why), False))
                            continue
                        if c is TRUE:
                            out['trivial'] += 1
                        elif prove(F, c) is not None:
                            if ismsg and q.replace('craft::', '') in o.given:
                                out['given'] = out.get('given', 0) + 1
                                continue
                            d = not S.notes and definite(e.st, F.canon(c))
                            out['unproved'].append((q, '%s: not %s when %s' % (e.text(), show(c)[:300], ' && '.join(show(x) for x in e.st.lits())[:500]), d))
        if ismsg and o.closed:
            for phi in o.writes:
                if phi[0] == '$':
                    continue
                for k, f in self.side.byk.items():
                    if f.body is None or f.q in visited or f.kind in ('CXXConstructorDecl',):
                        continue
                    if f.q in o.exempt:
                        continue
                    if phi in direct(self.side, f) and not f.q.split('::')[-1].startswith(('Set', 'Reset')) :
                        out['unproved'].append((f.q, 'writes %s outside the analysed functions' % phi, False))
            for c in o.calls:
                if c[0] == '$':
                    continue
                for k, f in self.side.byk.items():
                    if f.q in visited or f.q == c:
                        continue
                    if any(g[0] == c for g in self.side.callees(k)):
                        out['unproved'].append((f.q, 'calls %s outside the analysed functions' % c, False))
        if not out['obligations']:
            out['unproved'].append(('', 'nothing watched was met', False))
        return out


def run(pid, cur, W, enums, seconds=240):
    """the obligations of one property on the current tree -> list of results of decide"""
    import signal
    from . import obs
    obs.ENUM.clear()
    obs.ENUM.update(enums)
    p = Prover(cur, W.base_opaque, W.K.of, W.K.any, W.through)
    out = []

    def stop(*a):
        raise TimeoutError('out of time')
    old = signal.signal(signal.SIGALRM, stop)
    signal.setitimer(signal.ITIMER_REAL, seconds, 10)
    try:
        for o in OB:
            if o.pid == pid:
                try:
                    out.append(p.decide(o))
                except Exception as e:
                    out.append({'name': o.name, 'functions': [], 'obligations': 0, 'trivial': 0, 'rows': 0, 'unproved': [('', 'not decided: %s %s' % (type(e).__name__, str(e)[:100]), False)]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return out


_direct = {}


def direct(side, f):
    """fields a function writes itself (not through callees)"""
    r = _direct.get(id(f))
    if r is None:
        I = side.effI
        try:
            a = I.eff.analyse(f)
            r = {x for x in a[1] if isinstance(x, str)}
        except Exception:
            r = set()
        _direct[id(f)] = r
    return r
