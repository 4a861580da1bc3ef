"""Worklist driver of the reference comparison: decides which functions have to be compared, with
which callees kept uninterpreted, and which differences count."""
import re, sys, time
from . import front, eng
from . import modular as M
from .modular import Undecided, NeedSplit
from .terms import *

# classes whose methods are an interface of their own: a difference is observable where it is
VALUE = ('craft::Progress', 'craft::Inflights', 'craft::MajorityConfig', 'craft::JointConfig', 'craft::RaftLog', 'craft::Unstable',
         'craft::MemoryStorage', 'craft::RawNode', 'craft::Changer', 'craft::ReadOnly', 'craft::ProgressTracker', 'craft::ConfChangeI',
         'craft::Util', 'craft::Ready', 'craft::Status', 'craft::ProgressTracker::Config', 'craft::Raft::Config', 'craft::ConfState',
         'craft::MatchAckIndexer', 'craft::MapAckIndexer', 'craft::Unstable', 'craft::Logger', 'craft::ConsoleLogger')
# called by users of the library (through RawNode or directly)
ENTRY = {'craft::Raft::' + x for x in '''New Step Tick TickElection TickHeartbeat Advance ApplyConfChange LoadState GetSoftState GetHardState
  HasLeader Promotable BecomeFollower BecomeCandidate BecomePreCandidate BecomeLeader Restore HandleAppendEntries HandleSnapshot
  HandleHearbeat StepLeader StepCandidate StepFollower Campaign Hup Poll Reset AppendEntry MaybeCommit'''.split()}
ENTRY |= {'craft::' + x for x in '''Restore ConfChangeToMsg NewReady MustSync ConfChangesFromString ConfChangesToString EnterJoint LeaveJoint
  IsEmptySnap IsEmptyHardState operator=='''.split()}
MAXDIFF = 40


class Diff:
    __slots__ = ('k', 'A', 'B', 'what', 'l', 'r', 'F', 'S1', 'S2')

    def text(self):
        w = self.what
        if isinstance(w, tuple) and len(w) == 2 and isinstance(w[1], T):
            w = '%s.%s' % (show(w[1]), w[0])
        elif isinstance(w, tuple):
            w = ' '.join(str(x) for x in w)
        return str(w)

    def detail(self):
        cond = ' && '.join(show(x) for x in self.A.st.lits())
        l, r = pinpoint(self.l, self.r)
        out = {'where': self.text(), 'reference': sh(self.l)[:600], 'current': sh(self.r)[:600], 'when': cond[:900]}
        if l is not self.l:
            out['inner reference'], out['inner current'] = sh(l)[:600], sh(r)[:600]
        return out


def pinpoint(a, b):
    """the innermost corresponding parts in which two values differ"""
    for _ in range(60):
        if isinstance(a, T) and isinstance(b, T) and a.op == b.op and a.op not in ('lin', 'and', 'or') and len(a.a) == len(b.a):
            x, y = a.a, b.a
        elif isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            x, y = a, b
        else:
            break
        ds = [(p, q) for p, q in zip(x, y) if p is not q and p != q]
        if len(ds) != 1 and not (ds and isinstance(a, T) and a.op in ('call', 'obj')):
            break
        a, b = ds[0]
    return a, b


def sh(x):
    if isinstance(x, T):
        return show(x)
    if isinstance(x, (tuple, list, frozenset)):
        return '(' + ', '.join(sh(y) for y in x) + ')'
    return str(x)


def terms_of(x):
    if isinstance(x, T):
        yield from subterms(x)
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            yield from terms_of(y)


def checked(S):
    """pointers the function tests against null"""
    return {y for r in S.rows for l in r.st.lits() for x in subterms(l) if x.op == 'eq' and M.NULL in x.a for y in x.a
            if y is not M.NULL and not any(z.op in M.BINDERS or z.op in ('bv', 'bb', 'pv', 'acc') for z in subterms(y))}


def derefs(R, ptrs):
    """those of them a row reads through on its way, whatever else holds"""
    out, seen = set(), set()

    def go(x):
        if isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if x.op in ('ite', 'and', 'or', 'call') or x.op in M.BINDERS:
            return
        if x.op == 'f' and x.a[0] in ptrs:
            out.add(x.a[0])
        for y in x.a:
            go(y)
    for l in R.st.lits():
        go(l)
    return out


def lostcheck(ptrs, A, B, F):
    """the current path reads through a pointer the reference found null"""
    if A.fatal or B.fatal:
        return None
    for p in derefs(B, ptrs) - derefs(A, ptrs):
        G = F.assume(eq(M.NULL, p))
        if G is not None and M.feasible(G, [200]) is not None:
            return ('outcome', 'returns', 'null dereference', G)
    return None


def compare_all(S1, S2, limit=MAXDIFF, budget=12000, watch=None, ignore=()):
    """all feasible differences (up to limit); -> (diffs, undecided reasons)"""
    bud = [budget]
    und = []
    out = []
    right = {}
    ptrs = checked(S1)
    for r in S2.rows:
        right.setdefault(r.key, []).append(r)
    un1, used = [], set()

    def pair(A, B, F):
        F = M.welldefined(F, A)
        if F is None:
            return
        try:
            d = M.differs(S1, A, S2, B, F, bud, watch, ignore)
        except Undecided as e:
            und.append(str(e))
            return
        if not d and ptrs:
            d = lostcheck(ptrs, A, B, F)
        if d:
            x = Diff()
            x.A, x.B, x.what, x.l, x.r, x.F = A, B, d[0], d[1], d[2], d[3]
            x.S1, x.S2 = S1, S2
            out.append(x)

    for A in S1.rows:
        for B in right.get(A.key, ()):
            if id(B) in used or bool(A.fatal) != bool(B.fatal):
                continue
            used.add(id(B))
            pair(A, B, A.st.facts)
            break
        else:
            un1.append(A)
        if len(out) >= limit:
            return out, und
    un2 = [r for l in right.values() for r in l if id(r) not in used]
    for A in un1:
        for B in un2:
            if A.fatal and B.fatal:
                continue
            F = M.joint(A, B)
            if F is None:
                continue
            pair(A, B, F)
            if len(out) >= limit:
                return out, und
    return out, und


class World:
    def __init__(self, ref, cur, log=None):
        self.ref, self.cur = ref, cur
        self.K = M.Contracts(ref)
        self.memo = {}
        self.sums = {}
        self.deadline = None
        self.log = log or (lambda *a: None)
        self.base_opaque = self.common_opaque()
        self.through = M.forwarders(ref)
        both = set(ref.byk) & set(cur.byk)
        self.removed = [k for k in ref.byk if k not in cur.byk]
        self.added = [k for k in cur.byk if k not in ref.byk]
        self.changed = [k for k in sorted(both, key=lambda k: (k[0], str(k))) if ref.hash[k] != cur.hash[k]]
        self.newfields = self.field_changes() | cur.renamed
        self.newglobals = set(ref.P.globals) ^ set(cur.P.globals)
        self.rcallers, self.ccallers = {}, {}
        for side, m in ((ref, self.rcallers), (cur, self.ccallers)):
            for k in side.byk:
                for c in side.callees(k):
                    m.setdefault(c, set()).add(k)
        self.summaries = 0
        self.comparisons = 0

    def common_opaque(self):
        out = set()
        for q in self.K.names:
            a = {k for k in self.ref.byk if k[0] == q}
            b = {k for k in self.cur.byk if k[0] == q}
            if a and a == b:
                out.add(q)
        return frozenset(out)

    def field_changes(self):
        """fields present on one side only"""
        def fields(side):
            return {q + '::' + c.name for q, R in side.P.records.items() if q.startswith('craft::') for c in R.fields}
        a, b = fields(self.ref), fields(self.cur)
        return {x[7:] for x in (a ^ b)}

    def summary(self, side, k, opaque, assume=None):
        key = (id(side), k, opaque, assume)
        r = self.sums.get(key)
        if r is None:
            self.summaries += 1
            try:
                r = M.summarise(side, side.byk[k], opaque, self.K.of, self.K.any, budget=400000,
                                assume=assume, through=self.through)
            except Exception as e:          # unmodelled construct or budget: no answer for this function
                r = e
            self.sums[key] = r
        return r

    def compare(self, k, opaque=None):
        """-> ('equal'|'diff'|'undecided', payload)"""
        if opaque is None:
            opaque = self.base_opaque
        opaque = frozenset(opaque - {k[0]})
        key = (k, opaque)
        r = self.memo.get(key)
        if r is None and self.deadline and time.time() > self.deadline:
            return ('undecided', 'out of time')
        if r is None:
            t = time.time()
            r = self.memo[key] = self._compare(k, opaque)
            self.comparisons += 1
            self.log('  compare %s [%d opaque] -> %s %s %.1fs' % (k[0], len(opaque), r[0], '' if r[0] == 'equal' else describe(r[1])[:300], time.time() - t))
        return r

    def _compare(self, k, opaque):
        S1 = self.summary(self.ref, k, opaque)
        if isinstance(S1, Exception):
            return ('undecided', 'reference: %s %s' % (type(S1).__name__, str(S1)[:200]))
        S2 = self.summary(self.cur, k, opaque)
        if isinstance(S2, Exception):
            return ('undecided', 'current: %s %s' % (type(S2).__name__, str(S2)[:200]))
        try:
            diffs, und = compare_all(S1, S2)
        except Exception as e:
            return ('undecided', 'comparison: %s %s' % (type(e).__name__, str(e)[:100]))
        for d in diffs:
            d.k = k
        notes = set(S2.notes) - set(S1.notes)
        if not diffs:
            if und:
                return ('undecided', und[0])
            if S1.notes | S2.notes:
                return ('undecided', 'unmodelled: %s' % ', '.join(sorted(S1.notes | S2.notes))[:200])
            return ('equal', None)
        if S1.notes or S2.notes:
            return ('undecided', 'unmodelled: %s' % ', '.join(sorted(S1.notes | S2.notes))[:200])
        good = [d for d in diffs if not self.unreliable(d)]
        if not good:
            return ('undecided', 'difference involves unmodelled values: ' + describe(diffs))
        return ('diff', good)

    def unreliable(self, d):
        for x in list(terms_of(d.l)) + list(terms_of(d.r)):
            if x.op in ('unk', 'lam') or x.op == 'gv' and x.a[0] in self.newglobals:
                return True
            if x.op == 'f' and x.a[1] in self.newfields:
                return True
        for row in (d.A, d.B):
            for l in row.key:
                for x in subterms(l):
                    if x.op in ('unk', 'lam') or x.op == 'gv' and x.a[0] in self.newglobals or x.op == 'f' and x.a[1] in self.newfields:
                        return True
        w = d.what
        if isinstance(w, tuple) and w[0] in self.newfields:
            return True
        return False

    # ------------------------------------------------------------------ refinement of a difference
    def closure_opaque(self, side, k, opaque):
        """opaque callees reached from k through inlined functions"""
        out, seen, work = set(), set(), [k]
        while work:
            g = work.pop()
            if g in seen or g not in side.byk:
                continue
            seen.add(g)
            for c in side.callees(g):
                if c[0] in opaque and c[0] != k[0]:
                    out.add(c[0])
                else:
                    work.append(c)
        return out

    def settle(self, k, opaque):
        """compare k; on a difference retry with the callees that only one side uses inlined"""
        r = self.compare(k, opaque)
        if r[0] == 'equal':
            return r
        first = r
        op = opaque
        for round_ in range(4):
            a, b = self.closure_opaque(self.ref, k, op), self.closure_opaque(self.cur, k, op)
            x = a ^ b
            if not x:
                break
            op = frozenset(op - x)
            r2 = self.compare(k, op)
            if r2[0] == 'equal':
                return r2
            if r2[0] == 'diff':
                r = r2
            else:
                if first[0] == 'diff' and any(self.writes(q) for q in x):
                    return first
                return r2 if first[0] != 'diff' else ('undecided', 'after inlining %s: %s' % (sorted(x), r2[1]))
        if r[0] == 'diff':
            # a difference may only lie in facts about the result of a callee without effects
            used = set()
            for d in r[1]:
                for row in (d.A, d.B):
                    for l in row.key:
                        for x in subterms(l):
                            if x.op == 'call' and isinstance(x.a[0], str):
                                used.add(x.a[0])
                for v in (d.l, d.r):
                    for t in terms_of(v):
                        for x in subterms(t):
                            if x.op == 'call' and isinstance(x.a[0], str):
                                used.add(x.a[0])
            pure = {q for q in ('craft::' + u for u in used) if q in op and not self.writes(q)}
            if pure and self.compare(k, frozenset(op - pure))[0] == 'equal':
                return ('equal', 'with %s inlined' % sorted(pure))
            direct = {c[0] for c in self.ref.callees(k)} & {c[0] for c in self.cur.callees(k)}
            # or one side repeats, before the call, a check the callee makes itself
            for q in sorted(q for q in direct if q in op and q.replace('craft::', '', 1) in used and self.writes(q))[:3]:
                for o in [op - {q}] + ([op - {q} - pure] if pure else []):
                    if self.compare(k, frozenset(o))[0] == 'equal':
                        return ('equal', 'with %s inlined' % q)
            for q in sorted(q for q in direct if q in op and not self.writes(q) and q != k[0])[:6]:
                if {q} != pure and self.compare(k, frozenset(op - {q}))[0] == 'equal':
                    return ('equal', 'with %s inlined' % q)
        return r

    def writes(self, q):
        for k, f in self.ref.byk.items():
            if k[0] == q:
                return bool(self.K.of(f)[1])
        return False

    def boundary(self, k):
        f = self.ref.byk.get(k)
        if f is None:
            return False
        acc = self.ref.P.access.get(f.q)
        if f.q in ENTRY:
            return True
        if f.cls in VALUE and acc != 'private':
            return True
        return False

    def run(self, want=lambda k: True):
        """want(k): which changed functions matter; -> (findings: {k: diffs}, undecided: {k: reason}, equal: [k])"""
        work = list(self.changed)
        for k in self.removed:
            work += [c for c in self.rcallers.get(k, ()) if c in self.cur.byk]
        for k in self.added:
            work += [c for c in self.ccallers.get(k, ()) if c in self.ref.byk]
        # replaced overloads and signatures: every caller of a function that exists on one side only
        done, findings, undecided, equal = {}, {}, {}, []
        suspect = {}
        work = [k for k in dict.fromkeys(work) if want(k)]
        inl = set()
        while work:
            k = work.pop(0)
            if k in done:
                continue
            try:
                r = self.settle(k, frozenset(self.base_opaque))
            except Exception as e:
                r = ('undecided', '%s %s' % (type(e).__name__, str(e)[:100]))
            done[k] = r
            if r[0] == 'equal':
                equal.append(k)
                continue
            suspect[k] = r
            if r[0] == 'undecided':
                inl.add(k[0])
        # second pass: a function that could not be compared on its own is compared inside its callers
        for k, r in suspect.items():
            if r[0] == 'diff' and (self.boundary(k) or not (self.rcallers.get(k, set()) - {k})):
                findings[k] = r[1]
                continue
            try:
                res, via = self.through_callers(k, r)
            except Exception as e:
                res, via = 'undecided', []
            if r[0] == 'diff':
                if res == 'equal':
                    undecided[k] = 'differs from the reference but no caller can tell'
                elif res == 'undecided':
                    findings[k] = r[1]
                else:
                    findings[k] = r[1]
                    for g, d in via:
                        findings.setdefault(g, []).extend(d)
            else:
                if res == 'diff':
                    for g, d in via:
                        findings.setdefault(g, []).extend(d)
                        findings.setdefault(k, []).extend(d)
                elif res == 'equal':
                    equal.append(k)
                else:
                    undecided[k] = r[1]
        return findings, undecided, equal

    def through_callers(self, k, r):
        op = frozenset(self.base_opaque - {k[0]})
        callers = (self.rcallers.get(k, set()) | self.ccallers.get(k, set())) - {k}
        callers = [c for c in callers if c in self.ref.byk and c in self.cur.byk]
        # look through callers that are inlined everywhere (accessors, overload shims)
        res, via = 'equal', []
        if not callers:
            return 'undecided', via
        t = time.time()
        for g in sorted(callers, key=lambda c: (len(c[0]), str(c))):
            x = self.settle(g, op)
            if x[0] == 'diff':
                via.append((g, x[1]))
                return 'diff', via
            if x[0] == 'undecided':
                res = 'undecided'
            if time.time() - t > 120:
                return 'undecided', via
        return res, via


def describe(x):
    if isinstance(x, list) and x:
        d = x[0]
        return '%d diffs; %s: %s => %s' % (len(x), d.text(), sh(d.l)[:120], sh(d.r)[:120])
    return str(x)
