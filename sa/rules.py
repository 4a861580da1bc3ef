"""Property rules evaluated on the current tree (independent of the reference comparison)."""


RULES = {}


def rule(name):
    def d(f):
        RULES[name] = f
        return f
    return d


def run(p, cur, ref, W, tier):
    bad, cov = [], {}
    for name in p['rules']:
        f = RULES[name.split(':')[0]]
        try:
            r = f(cur, ref, W, tier, *name.split(':', 1)[1:])
        except Exception as e:      # a construct the rule does not know: no answer
            r = {'n': 0, 'bad': [], 'undecided': ['%s: %s' % (type(e).__name__, str(e)[:200])]}
        cov[name] = {'rule': (f.__doc__ or '').strip(), 'obligations': r['n'], 'sites': r.get('sites', [])[:40], 'undecided': r.get('undecided', [])[:20]}
        bad += ['rule %s: %s' % (name, b) for b in r['bad']]
    return bad, cov


# ---------------------------------------------------------------------------------------------- locks
LOCKEXEMPT = {'craft::MemoryStorage': {'SetEntries', 'GetEntries', 'GetEntry', 'GetSnapshot', 'SetIgnoreSize'}}   # set-up and inspection, no concurrency promised


def _locks(cur, ref, q):
    from . import locks
    refm = {f.name for l in ref.P.funcs.values() for f in l if f.cls == q}
    pub = lambda f: cur.P.access.get(f.q) != 'private' and f.name not in LOCKEXEMPT.get(q, ()) and f.name in refm
    if q not in cur.P.records:
        return None, {'n': 0, 'bad': [], 'undecided': ['no class %s' % q]}
    C = locks.analyse(cur.P, q, pub)
    bad, und, sites, n = [], ['%s: %s' % kv for kv in C.unknown.items()], [], 0
    R = locks.analyse(ref.P, q, lambda f: ref.P.access.get(f.q) != 'private' and f.name not in LOCKEXEMPT.get(q, ()))
    if not C.mutexes:
        if any('ock' in c.qt or 'utex' in c.qt for c in cur.P.records[q].fields):
            und.append('%s: synchronisation by %s is not modelled' % (q, [c.qt for c in cur.P.records[q].fields if 'ock' in c.qt or 'utex' in c.qt][0]))
            return C, {'n': 0, 'bad': [], 'undecided': und}
    by = {}
    for a in C.acc:
        by.setdefault(a[0], []).append(a)
    shared = {a[0] for a in C.acc if a[1]} | ({a[0] for a in R.acc if a[1]} & set(C.fields))
    for fld in sorted(shared):
        c = C.fields.get(fld)
        if c is not None and 'std::atomic' in c.qt:
            continue
        acc = by.get(fld, [])
        n += len(acc)
        best = None
        for m in C.mutexes or [None]:
            fail = [a for a in acc if a[2].get(m, 0) < (2 if a[1] else 1)]
            if best is None or len(fail) < len(best[1]):
                best = (m, fail)
        m, fail = best
        for fld_, w, lv, f, line, path in fail:
            msg = '%s (%s:%s) %s %s %s' % (f.q, f.file, line, 'changes' if w else 'reads', fld,
                                            'holding the lock only shared' if lv.get(m, 0) == 1 else 'without holding ' + (m or 'any lock'))
            if len(path) > 1:
                msg += ' [via %s]' % ' -> '.join(path)
            if msg not in bad:
                bad.append(msg)
        sites.append('%s: %d accesses under %s' % (fld, len(acc), m))
    for m, f, line, path in C.dead:
        bad.append('%s (%s:%s) takes %s while already holding it [via %s]' % (f.q, f.file, line, m, ' -> '.join(path)))
    return C, {'n': n, 'bad': bad, 'sites': sites, 'undecided': und}


@rule('locks')
def r_locks(cur, ref, W, tier):
    """lockset: every access to a data member of MemoryStorage that any method changes holds the one mutex (changes: exclusively), no method takes it twice"""
    return _locks(cur, ref, 'craft::MemoryStorage')[1]


@rule('loglock')
def r_loglock(cur, ref, W, tier):
    """lockset: ConsoleLogger writes to stdout only while holding its mutex, so lines of several nodes do not interleave"""
    return _locks(cur, ref, 'craft::ConsoleLogger')[1]


# ---------------------------------------------------------------------------------------------- formats
import re
from . import front
from .effects import PASS, strip, parents, changing_use

CONV = re.compile(r'%(?:%|([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z]))')
PRINTF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'vprintf': 0, 'vsnprintf': 2}


def literal(P, tu, n, depth=0):
    """the text of a format argument, or None"""
    n = strip(n)
    if n.k == 'ConditionalOperator':
        return None
    if n.k == 'StringLiteral':
        v = n.d.get('value')
        try:
            import json as _j
            return _j.loads(v)
        except Exception:
            return v[1:-1] if v else None
    if n.k == 'DeclRefExpr' and depth < 3:
        e = P.decl.get((tu, n.d['referencedDecl'].get('id')))
        if e and e[0] == 'var':
            g = P.globals.get(e[1])
            if g is not None and g.i:
                return literal(P, tu, g.i[-1], depth + 1)
    return None


def formats(P, n, tu):
    """alternatives of a format expression: list of literals (None: not a literal)"""
    n = strip(n)
    if n.k == 'ConditionalOperator':
        return formats(P, n.i[1], tu) + formats(P, n.i[2], tu)
    return [literal(P, tu, n)]


def variadic(P, f, n):
    """(callee name, index of the format argument, args) of a call to a printf-like function"""
    c = strip(n.i[0])
    if c.k == 'MemberExpr':
        ent = P.decl.get((f.tu, c.d.get('referencedMemberDecl')))
    elif c.k == 'DeclRefExpr':
        ent = P.decl.get((f.tu, c.d['referencedDecl'].get('id')))
        if ent is None and c.d['referencedDecl'].get('name') in PRINTF:
            nm = c.d['referencedDecl']['name']
            return nm, PRINTF[nm], n.i[1:]
    else:
        return None
    if not ent or ent[0] != 'fn':
        return None
    sig = (ent[2].d.get('type') or {}).get('qualType', '')
    if '...)' not in sig:
        return None
    ps = [p for p in ent[2].i if p.k == 'ParmVarDecl']
    if not ps or 'char' not in ps[-1].qt:
        return None
    return c.name or c.d.get('referencedDecl', {}).get('name'), len(ps) - 1, n.i[1:]


def intlike(q):
    q = q.replace('const ', '').strip()
    return bool(re.fullmatch(r'(unsigned |signed )?(char|short|int|long|long long|__int128)( int)?|unsigned|bool|(std::)?u?int(8|16|32|64)_t|size_t|(std::)?size_t|ssize_t|ptrdiff_t', q))


def argtype(P, a):
    x = a
    q = x.qt
    t = (x.d.get('type') or {}).get('qualType', '')
    return q or t


@rule('logformat')
def r_logformat(cur, ref, W, tier):
    """every call of a printf-like function (Logger::Log, Status::Error, …): as many arguments as its format consumes, %s only for
    character pointers to objects that are alive, numeric conversions only for integers, no class object passed, the format a literal"""
    P = cur.P
    bad, sites, n = [], [], 0
    for l in P.funcs.values():
        for f in l:
            for c in f.body.walk():
                if c.k not in ('CallExpr', 'CXXMemberCallExpr') or not c.i:
                    continue
                v = variadic(P, f, c)
                if v is None:
                    continue
                nm, k, args = v
                if len(args) <= k:
                    continue
                n += 1
                where = '%s (%s:%s) calls %s' % (f.q, f.file, c.line, nm)
                va = args[k + 1:]
                for fmt in formats(P, args[k], f.tu):
                    if fmt is None:
                        r = textual(P, f, args[k])
                        if r and not nm.startswith('v'):
                            bad.append('%s with a format that is not fixed text (%s)' % (where, r))
                        continue
                    if nm.startswith('v'):
                        continue
                    bad += ['%s("%s"): %s' % (where, fmt[:60].replace('\n', '\\n'), e) for e in checkformat(P, f, fmt, va)]
    sites.append('%d calls' % n)
    return {'n': n, 'bad': bad, 'sites': sites}


def textual(P, f, a):
    """reason why a format argument carries run-time text; None if it is chosen among literals or simply forwarded"""
    a = strip(a)
    if a.k == 'DeclRefExpr' and a.d['referencedDecl'].get('kind') == 'ParmVarDecl':
        return None                     # forwarded; its callers are checked
    if a.k == 'DeclRefExpr' and re.search(r'\bchar\s*\[', a.qt) and not a.qt.startswith('const '):
        return 'the buffer %s' % a.d['referencedDecl'].get('name')
    if a.k == 'CXXMemberCallExpr':
        c = strip(a.i[0])
        if c.k == 'MemberExpr' and c.name in ('c_str', 'data', 'Str'):
            # a constant string object?
            o = strip(c.i[0])
            if o.k == 'DeclRefExpr' and o.qt.startswith('const ') and P.decl.get((f.tu, o.d['referencedDecl'].get('id')), ('',))[0] == 'var':
                return None
            return '%s() of %s' % (c.name, o.name or o.d.get('referencedDecl', {}).get('name') or 'an expression')
    return None


def checkformat(P, f, fmt, va):
    out, i = [], 0
    need = []
    for m in CONV.finditer(fmt):
        if m.group(0) == '%%':
            continue
        if m.group(2) == '*':
            need.append(('*', m))
        if m.group(3) == '*':
            need.append(('*', m))
        need.append((m.group(5), m))
    if len(re.sub(CONV, '', fmt).split('%')) > 1:
        out.append('malformed conversion')
        return out
    if len(need) != len(va):
        out.append('the format consumes %d arguments, %d are supplied' % (len(need), len(va)))
        return out
    for j, ((cv, m), a) in enumerate(zip(need, va)):
        q = argtype(P, a).replace('const ', '').strip()
        ptr = q.endswith('*') or q.endswith(']')
        if cv == 's':
            if not ptr or not re.search(r'\bchar\b', q):
                out.append('argument %d is %s for %%s' % (j + 1, q))
            else:
                d = dangling(P, f, a)
                if d:
                    out.append('argument %d is text of an object that is gone (%s)' % (j + 1, d))
        elif cv == 'p':
            if not ptr:
                out.append('argument %d is %s for %%p' % (j + 1, q))
        elif cv in 'feEgGaA':
            if q not in ('double', 'long double', 'float'):
                out.append('argument %d is %s for %%%s' % (j + 1, q, cv))
        elif cv in 'diuxXoc*':
            if ptr or q in ('double', 'long double', 'float') or 'basic_string' in q or q.startswith(('std::', 'class ', 'craft::Status')) and not intlike(q):
                out.append('argument %d is %s for %s' % (j + 1, q, m.group(0)))
        elif cv == 'n':
            out.append('%n')
    return out


# ---------------------------------------------------------------------------------------------- lifetimes of text
def temporary(o):
    """does the object expression denote a temporary?"""
    while o.k in PASS and o.k != 'MaterializeTemporaryExpr' and o.i:
        o = o.i[0]
    return o.k == 'MaterializeTemporaryExpr' or o.d.get('valueCategory') in ('prvalue', 'xvalue') and o.k in (
        'CXXMemberCallExpr', 'CallExpr', 'CXXOperatorCallExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr') and not o.qt.rstrip().endswith(('*', '&'))


def pointee_temp(n):
    """reason when a pointer/view expression points into a temporary that dies with the full expression"""
    n = strip(n) if n.k != 'CXXConstructExpr' else n
    while n.k == 'CXXConstructExpr' and len(n.i) == 1:
        n = strip(n.i[0])
    if n.k == 'ConditionalOperator':
        return pointee_temp(n.i[1]) or pointee_temp(n.i[2])
    if n.k == 'CXXMemberCallExpr':
        c = strip(n.i[0])
        if c.k == 'MemberExpr' and c.i and c.name in ('c_str', 'data', 'Str') or c.k == 'MemberExpr' and c.i and 'basic_string_view' in (c.name or ''):
            o = c.i[0]
            if not owner(o.qt):
                return None
            if temporary(o):
                return '%s() of a temporary' % c.name
    return None


def owner(q):
    q = q.replace('const ', '').strip()
    return 'basic_string<' in q or q.startswith(('std::string', 'string')) and 'view' not in q or 'Status' in q or q.startswith('std::vector<')


def dangling(P, f, a):
    """the argument is a local pointer initialised from a temporary's text"""
    a = strip(a)
    if a.k == 'DeclRefExpr' and a.d['referencedDecl'].get('kind') == 'VarDecl':
        i = a.d['referencedDecl'].get('id')
        for v in f.body.walk():
            if v.k == 'VarDecl' and v.id == i and v.i:
                return pointee_temp(v.i[-1])
    return None


@rule('lifetime')
def r_lifetime(cur, ref, W, tier):
    """no pointer, view or reference outlives what it points into: none is kept in a variable or returned when it points into a temporary,
    and none to a local variable is returned"""
    P = cur.P
    bad, n = [], 0
    for l in P.funcs.values():
        for f in l:
            locs = {v.id: v for v in f.body.walk() if v.k == 'VarDecl' and v.d.get('storageClass') != 'static'}
            for p in f.params:
                if not p.qt.rstrip().endswith(('&', '*')):
                    locs[p.id] = p
            lam = set()
            for x in f.body.walk():
                if x.k == 'LambdaExpr':
                    lam |= {id(y) for y in x.walk()}
            ret = f.sig.split('(')[0].strip()
            rv = f.node.d.get('type', {}).get('desugaredQualType') or f.sig
            for x in f.body.walk():
                if x.k == 'VarDecl' and x.i and (x.qt.rstrip().endswith('*') or 'string_view' in x.qt):
                    n += 1
                    r = pointee_temp(x.i[-1])
                    if r:
                        bad.append('%s (%s:%s) keeps in %s %s' % (f.q, f.file, x.line, x.name, r))
                elif x.k == 'ReturnStmt' and x.i and id(x) not in lam:
                    isview = 'string_view' in ret and 'vector' not in ret
                    isptr = ret.rstrip().endswith('*')
                    isref = ret.rstrip().endswith('&')
                    if not (isview or isptr or isref):
                        continue
                    n += 1
                    e = strip(x.i[0])
                    if isref:
                        y = e
                        if x.i[0].k == 'MaterializeTemporaryExpr' or any(z.k == 'MaterializeTemporaryExpr' for z in chain(x.i[0])):
                            bad.append('%s (%s:%s) returns a reference to a temporary' % (f.q, f.file, x.line))
                            continue
                        while y.k == 'MemberExpr' and not y.d.get('isArrow') and y.i:
                            y = strip(y.i[0])
                        if y.k == 'DeclRefExpr' and y.d['referencedDecl'].get('id') in locs and \
                                not locs[y.d['referencedDecl']['id']].d.get('type', {}).get('qualType', '').rstrip().endswith('&'):
                            bad.append('%s (%s:%s) returns a reference to its local %s' % (f.q, f.file, x.line, y.d['referencedDecl'].get('name')))
                    else:
                        r = pointee_temp(x.i[0])
                        y = e
                        while y.k == 'CXXConstructExpr' and len(y.i) == 1:
                            y = strip(y.i[0])
                        if not r and y.k == 'CXXMemberCallExpr':
                            c = strip(y.i[0])
                            if c.k == 'MemberExpr' and c.i and (c.name in ('c_str', 'data', 'Str') or 'basic_string_view' in (c.name or '')):
                                o = strip(c.i[0])
                                if o.k == 'DeclRefExpr' and o.d['referencedDecl'].get('id') in locs and owner(o.qt) and \
                                        not locs[o.d['referencedDecl']['id']].d.get('type', {}).get('qualType', '').rstrip().endswith('&'):
                                    r = '%s() of its local %s' % (c.name, o.d['referencedDecl'].get('name'))
                        if not r and y.k == 'UnaryOperator' and y.d.get('opcode') == '&' and y.i:
                            o = strip(y.i[0])
                            if o.k == 'DeclRefExpr' and o.d['referencedDecl'].get('id') in locs and \
                                    not locs[o.d['referencedDecl']['id']].d.get('type', {}).get('qualType', '').rstrip().endswith('&'):
                                r = 'the address of its local %s' % o.d['referencedDecl'].get('name')
                        if r:
                            bad.append('%s (%s:%s) returns %s' % (f.q, f.file, x.line, r))
    return {'n': n, 'bad': bad}


def chain(n):
    while True:
        yield n
        if n.k in PASS and n.i:
            n = n.i[0]
        else:
            return


# ---------------------------------------------------------------------------------------------- globals
def statics(P):
    """(qualified name, VarDecl, tu, function or None) of every variable with static storage in the library"""
    seen = set()
    for (tu, i), e in P.decl.items():
        if e[0] == 'var':
            yield e[1], e[2], tu, None
    for l in P.funcs.values():
        for f in l:
            for v in f.body.walk():
                if v.k == 'VarDecl' and (v.d.get('storageClass') == 'static' or v.d.get('tls')):
                    yield f.q + '::' + (v.name or ''), v, f.tu, f


def immutable(v):
    t = (v.d.get('type') or {}).get('qualType', '')
    q = v.qt
    return v.d.get('constexpr') or q.startswith('const ') and not q.rstrip().endswith('*') or q.rstrip().endswith('const') or t.startswith('const ') and not q.rstrip().endswith('*') or \
        re.search(r'\bconst\s*\[', q) is not None or re.match(r'const .*\[\d*\]$', q) is not None


@rule('globals')
def r_globals(cur, ref, W, tier):
    """every variable of static storage duration in the library: constant, or never used in a way that can change it, or one per thread and used only
    as random source; and none is initialised from the arguments or the object of the call that happens to come first"""
    P = cur.P
    bad, und, sites, n = [], [], [], 0
    var, names = {}, {}
    for q, v, tu, f in statics(P):
        names.setdefault(q, []).append((v, tu, f))
        var[(tu, v.id)] = q
    info = {}
    for q, l in names.items():
        v, tu, f = l[0]
        for w, t2, f2 in l:
            if w.i:
                v, tu, f = w, t2, f2
        info[q] = (v, tu, f, any(w.d.get('tls') for w, _, _ in l), all(immutable(w) for w, _, _ in l) or immutable(v))
    uses = {}
    for l in P.funcs.values():
        for f in l:
            par = None
            for x in f.body.walk():
                if x.k == 'DeclRefExpr' and x.d['referencedDecl'].get('kind') == 'VarDecl' or x.k == 'MemberExpr' and (f.tu, x.d.get('referencedMemberDecl')) in var:
                    i = x.d['referencedDecl'].get('id') if x.k == 'DeclRefExpr' else x.d.get('referencedMemberDecl')
                    q = var.get((f.tu, i))
                    if q is None:
                        continue
                    if par is None:
                        par = parents(f.body)
                    uses.setdefault(q, []).append((f, x, par))
    for q, (v, tu, f, tls, const) in sorted(info.items()):
        if '.pb.' in (v.file or '') or 'Logger' in v.qt or v.name is None:
            continue
        n += 1
        rnd = re.search(r'mersenne_twister|mt19937|random_engine|linear_congruential|random_device', v.qt)
        if f is not None and v.i:
            inner = {w.id for w in f.body.walk() if w.k in ('VarDecl', 'ParmVarDecl') and w.d.get('storageClass') != 'static'} | {p.id for p in f.params}
            own = {w.id for w in v.walk() if w.k in ('VarDecl', 'ParmVarDecl')}
            for x in v.i[-1].walk():
                if x.k == 'CXXThisExpr' and not any(y.k == 'LambdaExpr' for y in v.i[-1].walk()) or \
                        x.k == 'DeclRefExpr' and x.d['referencedDecl'].get('id') in inner - own:
                    bad.append('%s (%s:%s) is shared by all nodes but initialised from %s of the first call' % (
                        q, v.file, v.line, 'the object' if x.k == 'CXXThisExpr' else x.d['referencedDecl'].get('name')))
                    break
        if v.i:
            for x in v.i[-1].walk():
                if x.k in ('CallExpr', 'CXXMemberCallExpr') and strip(x.i[0]).k in ('DeclRefExpr', 'MemberExpr'):
                    c = strip(x.i[0])
                    g = front.callee(P, tu, c.d.get('referencedMemberDecl') or c.d.get('referencedDecl', {}).get('id'))
                    if g is not None and any(y.k == 'DeclRefExpr' and var.get((g.tu, y.d['referencedDecl'].get('id'))) and
                                             info[var[(g.tu, y.d['referencedDecl']['id'])]][3] for y in g.body.walk()):
                        bad.append('%s (%s:%s) is shared by all nodes but drawn at random once' % (q, v.file, v.line))
        if const:
            continue
        if re.search(r'\bmutex\b|once_flag', v.qt):
            und.append('%s: a process-wide lock' % q)
            continue
        ch = []
        for g, x, par in uses.get(q, ()):
            r = changing_use(par, x)
            if r:
                ch.append((g, x, r))
        sites.append('%s: %d uses, %d changing%s' % (q, len(uses.get(q, ())), len(ch), ', per thread' if tls else ''))
        for g, x, r in ch:
            if rnd and tls:
                continue
            if tls:
                und.append('%s (%s:%s) %s, a variable per thread' % (g.q, g.file, x.line, r))
                continue
            if any(re.search(r'std::(lock_guard|unique_lock|scoped_lock)', y.qt) for y in g.body.walk() if y.k == 'VarDecl'):
                und.append('%s: changed under a lock in %s' % (q, g.q))
                continue
            bad.append('%s (%s:%s): %s is shared by all nodes of the process, and this %s' % (g.q, g.file, x.line, q, r))
    return {'n': n, 'bad': bad, 'sites': sites, 'undecided': und}


# ---------------------------------------------------------------------------------------------- wire format
@rule('wire')
def r_wire(cur, ref, W, tier):
    """raft.proto: every message field of the format keeps its number, type, label and default, every enumeration value its number, and no number is reused"""
    a, b = ref.P.protos, cur.P.protos
    bad, n = [], 0
    for e, vals in a['enums'].items():
        if e not in b['enums']:
            bad.append('enumeration %s is gone' % e)
            continue
        for nm, v in vals.items():
            n += 1
            w = b['enums'][e].get(nm)
            if w is None:
                other = [k for k, x in b['enums'][e].items() if x == v]
                if not other:
                    bad.append('value %s = %d of %s is gone' % (nm, v, e))
            elif w != v:
                bad.append('%s::%s is %d on the wire, was %d' % (e, nm, w, v))
    for m, fl in a['messages'].items():
        if m not in b['messages']:
            bad.append('message %s is gone' % m)
            continue
        cur_by_no = {}
        for nm, x in b['messages'][m].items():
            if x[2] in cur_by_no:
                bad.append('%s: number %d is used twice' % (m, x[2]))
            cur_by_no[x[2]] = (nm, x)
        for nm, (label, typ, no, dflt) in fl.items():
            n += 1
            if no not in cur_by_no:
                bad.append('%s.%s (number %d) is gone' % (m, nm, no))
                continue
            nm2, (l2, t2, _, d2) = cur_by_no[no]
            if nm in b['messages'][m] and nm2 != nm:
                bad.append('%s.%s has number %d, was %d' % (m, nm, b['messages'][m][nm][2], no))
            elif t2.split('.')[-1] != typ.split('.')[-1]:
                bad.append('%s.%s has type %s, was %s' % (m, nm, t2, typ))
            elif (l2 == 'repeated') != (label == 'repeated') or (l2 == 'required') != (label == 'required'):
                bad.append('%s.%s is %s, was %s' % (m, nm, l2 or 'plain', label or 'plain'))
            elif d2 != dflt:
                bad.append('%s.%s has options %s, had %s' % (m, nm, d2 or 'none', dflt or 'none'))
    # the records are written and read as their own type
    return {'n': n, 'bad': bad}


# ---------------------------------------------------------------------------------------------- defaults
def constval(P, tu, n):
    """value of a constant initialiser as text, or None"""
    from . import eng
    from .terms import show
    I = eng.Interp(P)
    try:
        rs = I.ev(n, eng.St(), eng.Env(tu, None, -1))
        if len(rs) != 1:
            return None
        s, v = rs[0]
        v = I.rval(s, n, v)
    except Exception:
        return None
    return show(v) if v.op in ('int', 'strc') or v.op == 'null' else None


@rule('defaults')
def r_defaults(cur, ref, W, tier, which=None):
    """members of the plain records an application fills in (and of records without constructor) keep the default values they are declared with"""
    bad, und, n = [], [], 0
    for q, R in ref.P.records.items():
        if not q.startswith('craft::') or which and not any(q == 'craft::' + w for w in which.split(',')):
            continue
        if any(f.cls == q and f.kind == 'CXXConstructorDecl' for l in ref.P.funcs.values() for f in l):
            continue
        C = cur.P.records.get(q)
        if C is None:
            und.append('%s is gone' % q)
            continue
        ctor = any(f.cls == q and f.kind == 'CXXConstructorDecl' for l in cur.P.funcs.values() for f in l)
        for c in R.fields:
            if not c.d.get('hasInClassInitializer'):
                continue
            n += 1
            d = next((x for x in C.fields if x.name == c.name), None)
            if d is None or ctor and not d.d.get('hasInClassInitializer'):
                und.append('%s::%s is not there or set by a constructor' % (q, c.name))
                continue
            if not d.d.get('hasInClassInitializer'):
                bad.append('%s::%s (%s:%s) is left uninitialised; its default is part of the interface' % (q, d.name, d.file, d.line))
                continue
            a, b = constval(ref.P, R.tu, c.i[-1]), constval(cur.P, C.tu, d.i[-1])
            if a is None or b is None:
                if a != b:
                    und.append('%s::%s: default not constant' % (q, c.name))
                continue
            if a != b:
                bad.append('%s::%s (%s:%s) defaults to %s, was %s' % (q, d.name, d.file, d.line, b, a))
    return {'n': n, 'bad': bad, 'undecided': und}
