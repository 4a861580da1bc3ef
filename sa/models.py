"""Transfer functions of the standard library and protobuf operations the code uses."""
import re
from .terms import *
from . import terms as TM
from .eng import (ordered, isset, SETS, len_, cat_, append_, slice_, at_, key_, pos_, val_, contains_, store_, ins_, del_, upd_, EMPTYC, eq, Broken, NeedFork)


def strlen_(I, v):
    if v.op == 'str':
        return intc(len(v.a[0].encode()))
    return I.setsort(app('strlen', v), 'unsigned long')


# ------------------------------------------------------------------ Status
def err_of(I, st, args, vs):
    out = []
    for a, v in zip(args, vs):
        if v is None:
            continue
        out.append(I.dump(st, I.rval(st, a, v) if not isinstance(a, str) else v))
    return mk('err', *out)


def status_prim(I, f, this, args, vs, st, env, n):
    nm = f.name
    if nm == 'OK':
        return [(st, NULL)]
    if nm == 'Error':
        return [(st, err_of(I, st, args, vs))]
    if nm == 'IsOK':
        return [(st, eq(I.read(st, this), NULL))]
    if nm == 'Str':
        return [(st, I.setsort(app('statusstr', I.read(st, this)), 'std::string'))]
    if nm in ('Status', '~Status'):
        return None
    if nm == 'operator=':
        return None
    return None


# ------------------------------------------------------------------ logging
def is_log(I, m):
    if m.name != 'Log' or not m.i:
        return False
    return 'Logger' in m.i[0].qt


def log_call(I, m, args, st, env, n):
    lv = args[0]
    while lv.i and lv.k in ('ImplicitCastExpr', 'ParenExpr', 'ConstantExpr'):
        lv = lv.i[0]
    level = lv.d.get('referencedDecl', {}).get('name') if lv.k == 'DeclRefExpr' else None
    sts = [st]
    if level == 'kFatal':
        fmt = '?'
        for x in args[1].walk():
            if x.k == 'StringLiteral':
                fmt = x.d.get('value')
                break
        I.fatals.append((st, 'fatal:' + fmt))
        return []
    if level is None:
        I.notes.add('log level not constant')
    for a in args[1:]:
        if any(x.k in ('CompoundAssignOperator', 'LambdaExpr') or x.k == 'BinaryOperator' and x.d.get('opcode') == '=' or
               x.k == 'UnaryOperator' and x.d.get('opcode') in ('++', '--') for x in a.walk()):
            sts = [s2 for s in sts for s2, _ in I.ev(a, s, env)]
    return [(s, None) for s in sts]


# ------------------------------------------------------------------ helpers
def deref_arg(I, s, node, r):
    return I.rval(s, node, r)


def fresh_cell(I, s, v, tag='tmp'):
    s, l = s.fresh(tag)
    return s.set('$', l, v), l


def result(I, s, n, v):
    """value v returned by an expression n which may be an lvalue"""
    if n.d.get('valueCategory') in ('lvalue', 'xvalue') and I.ty.cat(n.qt) != 'struct':
        return fresh_cell(I, s, v)
    return s, v


def lexicographic(I, st, op, a, b, qt):
    """comparison of two pairs or tuples of numbers, member by member"""
    fl = I.ty.fields(qt)
    if not fl or any(I.ty.sort(t) not in ('u', 'i', 'b', 'e') for _, t in fl):
        return None
    rd = lambda loc, k: st.facts.canon(I.read(st, I.fld(loc, k)))
    ms = [(rd(a, k), rd(b, k)) for k, _ in fl]
    if op in ('>', '>='):
        ms = [(t, s) for s, t in ms]
    s, t = ms[-1]
    e = lt(s, t) if op in ('<', '>') else le(s, t)
    for s, t in reversed(ms[:-1]):
        e = or_(lt(s, t), and_(eq(s, t), e))
    return e


def regionval(I, st, loc, qt, depth=0):
    fl = I.ty.fields(qt)
    if fl is None or depth > 4:
        return I.dump(st, I.read(st, loc))
    items = []
    for k, t in fl:
        if I.ty.cat(t) == 'struct':
            items.append((k, regionval(I, st, I.fld(loc, k), t, depth + 1)))
        elif I.ty.cat(t) != 'arr':
            v = I.dump(st, st.facts.canon(I.read(st, I.fld(loc, k))))
            if v is not I.defval(t):
                items.append((k, v))
    return mk('obj', '', tuple(sorted(items, key=lambda x: x[0])))


def construct_new(I, T, args, vs, st, env):
    """make_shared / make_unique / emplace: build a T from forwarded arguments -> [(st, region or value)]"""
    q = I.ty.norm(T)
    c = I.ty.cat(T)
    if c != 'struct':
        if c == 'status':
            return [(st, I.rval(st, args[0], vs[0]) if args else NULL)]
        if not args:
            return [(st, I.defval(T))]
        v = I.rval(st, args[0], vs[0])
        if c == 'opt' and I.ty.cat(args[0].qt) != 'opt' and v is not NULL and v.op != 'new':
            v = mk('some', v)
        return [(st, v)]
    s, l = st.fresh(q)
    if len(args) == 1 and I.ty.norm(args[0].qt) == q:
        s = I.copyregion(s, l, vs[0], q)
        return [(s, l)]
    if q in I.P.records:
        ctors = I.P.funcs.get(q + '::' + q.split('::')[-1], [])
        best, rest = None, []
        for f in ctors:
            if len(f.params) < len(args):
                continue
            need = len(f.params)
            rest.append(f)
            score = 0
            if len(f.params) != len(args):
                score -= 5 * (need - len(args))
            ok = True
            for p, a in zip(f.params, args):
                pc, ac = I.ty.cat(p.qt), I.ty.cat(a.qt)
                if I.ty.norm(p.qt) == I.ty.norm(a.qt):
                    score += 2
                elif pc == ac:
                    score += 1
                elif {pc, ac} <= {'int', 'bool'}:
                    pass
                else:
                    ok = False
            if ok and (best is None or score > best[0]):
                best = (score, f)
        if best is None and args and rest:
            # argument types that are written in a way that was not resolved
            same = [f for f in rest if len(f.params) == len(args)] or rest
            if len(same) > 1:
                I.notes.add("constructor of " + q)
            best = (0, same[0])
        if best is not None:
            f = best[1]
            return [(s2, l) for s2, _ in I.call(f, l, args, vs + [None] * (len(f.params) - len(vs)), s, env)]
        if not args:
            return [(s2, l) for s2 in I.field_inits(q, l, s, env, set())]
        fl = I.ty.fields(q) or []
        for (k, t), a, v in zip(fl, args, vs):
            s = I.initobj(s, I.fld(l, k), t, a, v)
        return [(s, l)]
    fl = I.ty.fields(T)
    if fl and args:
        for (k, t), a, v in zip(fl, args, vs):
            s = I.initobj(s, I.fld(l, k), t, a, v)
    return [(s, l)]


def tmpl_index(c):
    q = (c.d.get('referencedDecl', {}).get('type') or {}).get('qualType', '') + ' ' + (c.d.get('type') or {}).get('qualType', '')
    m = re.search(r'(?:tuple_element(?:_t)?)\s*<\s*(\d+)', q)
    return int(m.group(1)) if m else None


# ------------------------------------------------------------------ free functions
def std_call(I, name, c, args, st, env, n):
    from . import loops
    ty = I.ty
    if name in ('make_shared', 'make_unique', 'allocate_shared'):
        T = ty.elem(n.qt)
        out = []
        if T.endswith('[]'):
            for s, vs in I.evs(args, st, env):
                s, l = s.fresh('heaparr')
                out.append((s, l))
            return out
        for s, vs in I.evs(args, st, env):
            for s2, r in construct_new(I, T, args, vs, s, env):
                if ty.cat(T) != 'struct':
                    s2, r = fresh_cell(I, s2, r, 'box')
                out.append((s2, r))
        return out
    if name in ('make_tuple', 'make_pair', 'forward_as_tuple'):
        out = []
        fl = ty.fields(n.qt) or [(str(i), a.qt) for i, a in enumerate(args)]
        for s, vs in I.evs(args, st, env):
            s, l = s.fresh(ty.norm(n.qt))
            for (k, t), a, v in zip(fl, args, vs):
                s = I.initobj(s, I.fld(l, k), t, a, v)
            out.append((s, l))
        return out
    if name == 'tie':
        out = []
        for s, vs in I.evs(args, st, env):
            s, l = s.fresh('tie')
            for i, (a, v) in enumerate(zip(args, vs)):
                s = s.set(str(i), l, v)
            out.append((s, l))
        return out
    if name == 'get' and len(args) == 1:
        i = tmpl_index(c)
        out = []
        for s, r in I.ev(args[0], st, env):
            fl = ty.fields(args[0].qt) or []
            k = None
            if i is not None and i < len(fl):
                k = fl[i][0]
            elif i is None:
                hit = [k_ for k_, t in fl if ty.norm(t) == ty.norm(n.qt)]
                k = hit[0] if len(hit) == 1 else None
            if k is None:
                I.notes.add('std::get index unknown')
                out.append((s, mk('unk', 'get')))
            else:
                out.append((s, I.fld(r, k)))
        return out
    if name in ('move', 'forward', 'as_const', 'addressof', '__addressof', 'ref', 'cref', 'move_if_noexcept', 'launder') and len(args) == 1:
        out = []
        for s, r in I.ev(args[0], st, env):
            if not I.isgl(args[0]) and I.isgl(n):
                s, r = I.asloc(s, args[0], r)
            out.append((s, r))
        return out
    if name in ('static_pointer_cast', 'dynamic_pointer_cast', 'const_pointer_cast', 'make_optional') and len(args) == 1:
        out = []
        for s, r in I.ev(args[0], st, env):
            v = I.rval(s, args[0], r)
            if name == 'make_optional':
                if ty.cat(args[0].qt) == 'struct':
                    s, l = s.fresh(ty.norm(args[0].qt))
                    s, v = I.copyregion(s, l, r, args[0].qt), l
                else:
                    v = mk('some', v)
            out.append((s, v))
        return out
    if name == 'exchange':
        out = []
        for s, (l, v) in I.evs(args, st, env):
            old = I.read(s, l)
            out.append((I.write(s, l, I.rval(s, args[1], v)), old))
        return out
    if name in ('min', 'max') and len(args) == 0:
        q = ty.norm(n.qt)
        from .eng import MAXINT
        if name == 'max' and q in MAXINT:
            return [(st, intc(MAXINT[q]))]
        if name == 'min':
            return [(st, intc(0) if 'unsigned' in q else intc(-MAXINT.get(q, 0) - 1))]
        return [(st, mk('unk', 'limits'))]
    if name in ('min', 'max') and len(args) >= 2:
        out = []
        for s, vs in I.evs(args[:2], st, env):
            x, y = I.rval(s, args[0], vs[0]), I.rval(s, args[1], vs[1])
            cond = le(x, y)
            tr, fa = I.fork(s, cond)
            for z in tr:
                out.append(result(I, z, n, x if name == 'min' else y))
            for z in fa:
                out.append(result(I, z, n, y if name == 'min' else x))
        return out
    if name in ('min', 'max') and len(args) == 1:
        out = []
        for s, r in I.ev(args[0], st, env):
            v = I.rval(s, args[0], r)
            xs = []
            t = v
            while t.op == 'append':
                xs.append(t.a[1])
                t = t.a[0]
            if t.op != 'empty' or not xs:
                out.append((s, mk('unk', name)))
                continue
            xs.reverse()
            cur = [(s, xs[0])]
            for y in xs[1:]:
                nx = []
                for z, x in cur:
                    tr, fa = I.fork(z, le(x, y))
                    nx += [(w, x if name == 'min' else y) for w in tr] + [(w, y if name == 'min' else x) for w in fa]
                cur = nx
            out.extend(cur)
        return out
    if name in ('sort', 'stable_sort', 'nth_element'):
        out = []
        for s, vs in I.evs(args, st, env):
            b, e = I.rval(s, args[0], vs[0]), I.rval(s, args[-1 if name == 'nth_element' else 1], vs[-1 if name == 'nth_element' else 1])
            k = len(args) - (3 if name == 'nth_element' else 2)
            if b.op == e.op and b.op in ('iter', 'riter') and b.a[0] is e.a[0]:
                c = 'up' if k == 0 else compdir(I, args[2]) if k == 1 and name != 'nth_element' else None
                if c:
                    if b.op == 'riter':
                        n_ = len_(I.read(s, b.a[0]))
                        b, e = mk('iter', b.a[0], sub(n_, e.a[1])), mk('iter', b.a[0], sub(n_, b.a[1]))
                        c = 'down' if c == 'up' else 'up'
                    out.append((sortrange(I, s, b.a[0], b.a[1], e.a[1], c), None))
                    continue
            if b.op == 'iter':
                v = I.read(s, b.a[0])
                w = app('sortcmp', v, *[I.dump(s, I.rval(s, a, x)) for a, x in list(zip(args, vs))[2:]])
                I.notes.add('sort with comparator')
                out.append((I.write(s, b.a[0], w), None))
            else:
                I.notes.add('sort of unknown range')
                out.append((s, None))
        return out
    if name in ('any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find_if_not', 'for_each', 'find', 'count', 'accumulate', 'transform', 'copy_if',
                'max_element', 'min_element', 'remove_if', 'remove'):
        return loops.algo(I, name, args, st, env, n)
    if name == 'equal':
        out = []
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, v) for a, v in zip(args, vs)]
            if all(y.op == 'iter' for y in x[:3]):
                a = I.rangeval(s, x[0], x[1])
                if len(x) > 3 and x[3].op == 'iter':
                    b = I.rangeval(s, x[2], x[3])
                    out.append((s, eq(a, b)))
                else:
                    full = I.read(s, x[2].a[0])
                    b = slice_(full, x[2].a[1], add(x[2].a[1], len_(a)))
                    # equal lengths make the prefix the whole
                    d = s.facts.decide(eq(len_(a), sub(len_(full), x[2].a[1])))
                    if d is True:
                        b = slice_(full, x[2].a[1], len_(full))
                    out.append((s, eq(a, b)))
            else:
                out.append((s, I.setsort(app('equal', *x), 'bool')))
        return out
    if name == 'copy' and len(args) == 3:
        out = []
        for s, vs in I.evs(args, st, env):
            b, e, d = [I.rval(s, a, v) for a, v in zip(args, vs)]
            if d.op == 'backins':
                v = I.read(s, d.a[0])
                out.append((I.write(s, d.a[0], cat_(v, I.rangeval(s, b, e))), d))
            elif d.op == 'inserter':
                v = I.read(s, d.a[0])
                out.append((I.write(s, d.a[0], union_(v, I.rangeval(s, b, e))), d))
            else:
                I.notes.add('std::copy')
                out.append((s, mk('unk', 'copy')))
        return out
    if name in ('back_inserter', 'inserter'):
        return [(s, mk('backins' if name == 'back_inserter' and True else 'inserter', vs[0])) for s, vs in I.evs(args, st, env)]
    if name in ('begin', 'cbegin', 'end', 'cend', 'size', 'empty', 'data', 'rbegin', 'rend') and len(args) == 1:
        out = []
        for s, r in I.ev(args[0], st, env):
            s, l = I.asloc(s, args[0], r)
            out.extend(std_method(I, name, l, args[0].qt, args[0], [], s, env, n, None))
        return out
    if name == 'bind':
        out = []
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, v) for a, v in zip(args, vs)]
            f = x[0]
            if f.op == 'fn':
                out.append((s, mk('bind', f.a[0], x[1] if len(x) > 1 else NULL, tuple(x[2:]))))
            else:
                out.append((s, mk('unk', 'bind')))
        return out
    if name in ('strstr',):
        out = []
        for s, vs in I.evs(args, st, env):
            x, y = [I.rval(s, a, v) for a, v in zip(args, vs)]
            out.append((s, strstr_(I, s, x, y)))
        return out
    if name in ('__assert_fail', 'abort', 'terminate', '__assert', '__builtin_unreachable', 'exit', '_exit'):
        I.fatals.append((st, 'assert' if 'assert' in name else name))
        return []
    if name in ('printf', 'fprintf', 'vprintf', 'puts', '__builtin_va_start', '__builtin_va_end', 'fflush'):
        return [(st, ZERO)]
    if name == 'swap' and len(args) == 2:
        out = []
        for s, (a, b) in I.evs(args, st, env):
            if ty.cat(args[0].qt) == 'struct':
                s, t = s.fresh('swap')
                s = I.copyregion(s, t, a, args[0].qt)
                s = I.copyregion(s, a, b, args[0].qt)
                s = I.copyregion(s, b, t, args[0].qt)
            else:
                x, y = I.read(s, a), I.read(s, b)
                s = I.write(I.write(s, a, y), b, x)
            out.append((s, None))
        return out
    if name in ('distance',):
        return [(s, I.binop(s, '-', I.rval(s, args[1], y), I.rval(s, args[0], x), 'long')) for s, (x, y) in I.evs(args, st, env)]
    if name in ('next', 'prev'):
        out = []
        for s, vs in I.evs(args, st, env):
            k = I.rval(s, args[1], vs[1]) if len(args) > 1 and vs[1].op != 'defarg' else intc(1)
            out.append((s, I.advance(s, I.rval(s, args[0], vs[0]), k if name == 'next' else mul(k, intc(-1)))))
        return out
    if name == 'advance':
        return [(I.write(s, l, I.advance(s, I.read(s, l), I.rval(s, args[1], k))), None) for s, (l, k) in I.evs(args, st, env)]
    if name in ('set_union', 'set_difference', 'set_intersection', 'set_symmetric_difference'):
        return loops.algo(I, name, args, st, env, n)
    if name in ('includes',):
        out = []
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, v) for a, v in zip(args, vs)]
            r1, r2 = I.rangeval(s, x[0], x[1]), I.rangeval(s, x[2], x[3])
            if name == 'includes':
                out.append((s, app('includes', r1, r2, sort='b')))
            else:
                I.notes.add(name)
                out.append((s, mk('unk', name)))
        return out
    # default: a pure function of its arguments
    out = []
    for s, vs in I.evs_args(args, None, st, env):
        av = []
        for a, v in zip(args, vs):
            if v is None or a.k == 'CXXDefaultArgExpr':
                continue
            x = I.rval(s, a, v)
            if ty.cat(a.qt) == 'struct' and isinstance(x, T):
                x = regionval(I, s, x, a.qt)
            av.append(I.dump(s, s.facts.canon(x)))
        call = app(name, *av)
        if name not in PURE:
            I.notes.add('std function ' + name)
        if ty.cat(n.qt) == 'struct':
            s, l = s.fresh(ty.norm(n.qt))
            s = I.symregion(s, l, n.qt, call, '')
            out.append((s, l))
            continue
        I.setsort(call, n.qt)
        out.append(result(I, s, n, call))
    return out


PURE = {'to_string', 'MessageType_Name', 'EntryType_Name', 'ConfChangeType_Name', 'ConfChangeTransition_Name', 'strtoull', 'strlen', 'strcmp',
        'abs', 'stoull', 'stoul', '__errno_location', 'snprintf', 'vsnprintf', 'memcpy', 'ConfChangeType_IsValid', 'MessageType_IsValid',
        'EntryType_IsValid', 'isdigit', 'lower_bound', 'upper_bound'}


def sorted_(c):
    if ordered(c):
        return c
    parts, fills = [], {}

    def flat(x):
        if x.op == 'cat':
            flat(x.a[0])
            flat(x.a[1])
        elif x.op == 'append':
            flat(x.a[0])
            parts.append(append_(EMPTYC, x.a[1]))
        elif x.op == 'rev' or x.op == 'sorted':
            flat(x.a[0])
        elif x.op == 'filled':
            fills[x.a[1]] = add(fills.get(x.a[1], ZERO), x.a[0])
        elif x.op == 'coll' and len(x.a[1]) == 2 and complementary(x.a[1]):
            # one value for every iteration, a constant for some of them
            (g, v), (h, w) = x.a[1]
            if v.op == 'int':
                (g, v), (h, w) = (h, w), (g, v)
            if w.op == 'int' and v.op not in ('multi', 'int'):
                y = mk('coll', x.a[0], ((g, v),), x.a[2])
                SORT.setdefault(y, SORT.get(x, 'c'))
                parts.append(y)
                fills[w] = add(fills.get(w, ZERO), sub(x.a[0], len_(y)))
            else:
                parts.append(x)
        elif x.op != 'empty':
            parts.append(x)
    flat(c)
    parts.sort(key=lambda x: x.n)
    t = EMPTYC
    for x in parts + [mk('filled', n, d) for d, n in sorted(fills.items(), key=lambda x: x[0].n) if n is not ZERO]:
        t = cat_(t, x)
    if len(parts) == 1 and not fills and ordered(t):
        return t
    so = SORT.get(c, 'c')
    t = mk('sorted', t)
    SORT.setdefault(t, so)
    return t


TM.SIMP['sorted'] = sorted_


def complementary(rows):
    (g, v), (h, w) = rows
    return neg(and_(*g)) is and_(*h)


def rev_(c):
    if c.op in ('empty', 'filled') or c.op == 'append' and c.a[0].op == 'empty':
        return c
    if c.op == 'rev':
        return c.a[0]
    return mk('rev', c)


TM.SIMP['rev'] = rev_


def compdir(I, a):
    """direction of a comparison function given to a sort"""
    q = I.ty.norm(a.qt)
    if 'std::greater' in q:
        return 'down'
    if 'std::less' in q:
        return 'up'
    return None


def sortrange(I, s, loc, lo, hi, way='up'):
    v = s.facts.canon(I.read(s, loc))
    lo, hi = s.facts.canon(lo), s.facts.canon(hi)
    from .modular import fold_seq
    x = sorted_(fold_seq(s.facts, slice_(v, lo, hi)))
    if way == 'down':
        x = rev_(x)
    return I.write(s, loc, cat_(cat_(slice_(v, ZERO, lo), x), slice_(v, hi, len_(v))))


def sort_prim(I, f, this, args, vs, st, env, n):
    """the repository's own sort of n numbers from a pointer on; its body is compared with the reviewed one separately"""
    if len(vs) != 2:
        return None
    b, k = I.rval(st, args[0], vs[0]), I.rval(st, args[1], vs[1])
    if b.op != 'iter':
        return None
    return [(sortrange(I, st, b.a[0], b.a[1], add(b.a[1], k)), None)]


PRIMS = {'craft::insertionSort': sort_prim}


def mergeregion(I, st, dst, src, qt):
    """protobuf MergeFrom: lists are appended, members the source does not have keep their value"""
    for k, t in I.ty.fields(qt) or []:
        c = I.ty.cat(t)
        s, d = I.fld(src, k), I.fld(dst, k)
        if c == 'struct':
            st = mergeregion(I, st, d, s, t)
            continue
        x, y = st.facts.canon(I.read(st, d)), I.read(st, s)
        if c == 'seq':
            st = I.write(st, d, cat_(x, y))
        elif x is I.defval(t) or x is y:
            st = I.write(st, d, y)
        else:
            st = I.write(st, d, I.setsort(app('merge', x, y), t))
    return st


def union_(a, b):
    if b.op == 'empty':
        return a
    if b.op in ('append',):
        return ins_(union_(a, b.a[0]), b.a[1])
    if a.op == 'empty':
        t = mk('toset', b) if not isset(b) else b
        SORT.setdefault(t, SORT.get(b, 'c'))
        return t
    t = mk('app', 'union', a, b)
    SORT.setdefault(t, SORT.get(b, 'c'))
    return t


def strstr_(I, s, x, y):
    x, y = s.facts.canon(x), s.facts.canon(y)
    if x.op == 'ite':
        x = I.lift(s, x)
    if x.op == 'app' and x.a[0] == 'statusstr':
        e = x.a[1]
        if e is NULL:
            e = strc('OK')
        if e.op == 'err' and e.a and e.a[0].op == 'str' and y.op == 'str':
            if y.a[0] in e.a[0].a[0]:
                return strc('found')
            if len(e.a) == 1 or '%' not in e.a[0].a[0]:
                return NULL
            # formatted pieces
            for z in e.a[1:]:
                if z.op == 'app' and z.a[0] == 'statusstr':
                    r = strstr_(I, s, z, y)
                    if r.op == 'str':
                        return r
        if e.op == 'str' and y.op == 'str':
            return strc('found') if y.a[0] in e.a[0] else NULL
    if x.op == 'str' and y.op == 'str':
        return strc('found') if y.a[0] in x.a[0] else NULL
    t = app('strstr', x, y)
    SORT.setdefault(t, 'p')
    return t


# ------------------------------------------------------------------ methods
def pbname(I, nm):
    return 'pb.' + nm


def proto_method(I, name, obj, q, args, st, env, n):
    """obj: region of a generated message"""
    ty = I.ty
    msg = I.P.protos['messages'][q[8:]]
    fl = {k.lower(): (ty.proto_type(ft), ft[0]) for k, ft in msg.items()}
    out = []
    if obj.op == 'el':
        obj = I.read(st, obj)

    def loc(f):
        return I.fld(obj, 'pb.' + f)
    if name in fl:
        t, lab = fl[name]
        if not args:
            if ty.cat(t) == 'struct' or I.isgl(n):
                return [(st, loc(name))]
            return [(st, I.read(st, loc(name)))]
        for s, r in I.ev(args[0], st, env):
            i = s.facts.canon(I.rval(s, args[0], r))
            e = at_(s.facts.canon(I.read(s, loc(name))), i)
            if ty.cat(ty.elem(t)) == 'struct':
                out.append((s, e))
            elif I.isgl(n):
                out.append((s, mk('el', loc(name), i)))
            else:
                out.append((s, e))
        return out
    for pre in ('set_', 'mutable_', 'add_', 'clear_', 'has_', 'release_', 'set_allocated_'):
        f = name[len(pre):]
        if not name.startswith(pre) or f not in fl:
            continue
        t, lab = fl[f]
        l = loc(f)
        if pre == 'set_':
            for s, vs in I.evs(args, st, env):
                if lab == 'repeated' and len(args) == 2:
                    i = I.rval(s, args[0], vs[0])
                    out.append((I.write(s, mk('el', l, i), I.rval(s, args[1], vs[1])), None))
                    continue
                v = I.rval(s, args[0], vs[0])
                if len(args) > 1:
                    v = I.setsort(app('bytes', v, I.rval(s, args[1], vs[1])), 'std::string')
                out.append((I.write(s, l, v), None))
            return out
        if pre == 'mutable_':
            if args:
                for s, r in I.ev(args[0], st, env):
                    i = s.facts.canon(I.rval(s, args[0], r))
                    out.append((s, at_(s.facts.canon(I.read(s, l)), i)))
                return out
            return [(st, l)]
        if pre == 'add_':
            et = ty.elem(t)
            if not args:
                if ty.cat(et) == 'struct':
                    s, e = st.fresh(ty.norm(et))
                    s = I.write(s, l, append_(I.read(s, l), e))
                    return [(s, e)]
                s = I.write(st, l, append_(I.read(st, l), I.defval(et)))
                return [(s, mk('el', l, sub(len_(I.read(s, l)), intc(1))))]
            for s, r in I.ev(args[0], st, env):
                s, v = I.elemval(s, args[0], r)
                out.append((I.write(s, l, append_(I.read(s, l), v)), None))
            return out
        if pre == 'clear_':
            if ty.cat(t) == 'struct':
                return [(I.clearregion(st, l, t), None)]
            return [(I.write(st, l, I.defval(t)), None)]
        if pre == 'has_':
            x = regionval(I, st, l, t) if ty.cat(t) == 'struct' else I.read(st, l)
            return [(st, I.setsort(app('has', strc(f), I.dump(st, obj), x), 'bool'))]
    if name.endswith('_size') and name[:-5] in fl:
        return [(st, len_(st.facts.canon(I.read(st, loc(name[:-5])))))]
    if name in ('CopyFrom', 'MergeFrom', 'operator='):
        for s, r in I.ev(args[0], st, env):
            if name == 'MergeFrom':
                out.append((mergeregion(I, s, obj, r, q), None))
                continue
            out.append((I.copyregion(s, obj, r, q), None if name != 'operator=' else obj))
        return out
    if name == 'Swap':
        for s, r in I.ev(args[0], st, env):
            b = I.rval(s, args[0], r)
            s, t = s.fresh('swap')
            s = I.copyregion(I.copyregion(I.copyregion(s, t, obj, q), obj, b, q), b, t, q)
            out.append((s, None))
        return out
    if name == 'Clear':
        return [(I.clearregion(st, obj, q), None)]
    if name in ('ParseFromString', 'ParseFromArray', 'MergeFromString', 'ParsePartialFromString'):
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, v) for a, v in zip(args, vs)]
            call = app('parse', strc(q), *x)
            tr = I.setsort(app('parseok', strc(q), *x), 'bool')
            s = I.symregion(s, obj, q, call, '')
            out.append((s, tr))
        return out
    if name in ('SerializeAsString', 'ByteSizeLong', 'DebugString', 'ShortDebugString', 'ByteSize', 'IsInitialized', 'GetCachedSize'):
        v = regionval(I, st, obj, q)
        return [(st, I.setsort(app({'ByteSize': 'ByteSizeLong'}.get(name, name), strc(q), v), n.qt))]
    if name in ('AppendToString', 'SerializeToString', 'AppendPartialToString'):
        v = I.setsort(app('SerializeAsString', strc(q), regionval(I, st, obj, q)), 'std::string')
        for s, r in I.ev(args[0], st, env):
            p = I.rval(s, args[0], r)
            old = I.read(s, p)
            out.append((I.write(s, p, v if name != 'AppendToString' else I.strcat(old, v)), TRUE))
        return out
    I.notes.add('protobuf method %s::%s' % (q, name))
    return [(st, mk('unk', name))]


def nonempty(v):
    return v.op in ('append', 'ins', 'store')


def std_method(I, name, obj, oqt, basenode, args, st, env, n, m):
    ty = I.ty
    c = ty.cat(oqt)
    q = ty.norm(oqt)
    if c == 'ptr' and q.endswith('*'):
        q = ty.norm(ty.elem(q))
        c = ty.cat(q)
    if c == 'ptr' and m is not None and m.d.get('isArrow') and not ty.norm(oqt).startswith('std::'):
        pass
    if q.startswith('raftpb::') and q[8:] in I.P.protos['messages']:
        return proto_method(I, name, obj, q, args, st, env, n)
    if c in ('seq', 'arr'):
        return seq_method(I, name, obj, q, args, st, env, n)
    if c == 'set':
        return set_method(I, name, obj, q, args, st, env, n)
    if c == 'map':
        return map_method(I, name, obj, q, args, st, env, n)
    if c == 'str':
        return str_method(I, name, obj, q, args, st, env, n)
    if c == 'opt':
        v = st.facts.canon(I.read(st, obj))
        if name in ('has_value', 'operator bool'):
            return [(st, neg(eq(v, NULL)))]
        if name in ('value', 'operator*'):
            s = st
            return [(s, optval(I, s, v, n))] if not isinstance(optval(I, s, v, n), tuple) else [optval(I, s, v, n)]
        if name == 'reset':
            return [(I.write(st, obj, NULL), None)]
        if name == 'emplace':
            out = []
            for s, vs in I.evs(args, st, env):
                for s2, r in construct_new(I, ty.elem(q), args, vs, s, env):
                    v = r if ty.cat(ty.elem(q)) == 'struct' else mk('some', r)
                    out.append((I.write(s2, obj, v), r))
            return out
        if name == 'value_or':
            out = []
            for s, r in I.ev(args[0], st, env):
                tr, fa = I.fork(s, eq(v, NULL))
                out += [(x, I.rval(x, args[0], r)) for x in tr]
                out += [(x, v.a[0] if v.op == 'some' else v) for x in fa]
            return out
    if c == 'ptr':
        v = I.read(st, obj) if ty.cat(oqt) == 'ptr' and obj.op in ('var', 'f', 'el', 'mv', 'gv') or st.heap.get('$', {}).get(obj) is not None else obj
        if name in ('get',):
            return [(st, v)]
        if name in ('operator bool',):
            return [(st, truthy_ptr(I, st, v))]
        if name in ('reset',):
            out = []
            if not args or args[0].k == 'CXXDefaultArgExpr':
                return [(I.write(st, obj, NULL), None)]
            for s, r in I.ev(args[0], st, env):
                out.append((I.write(s, obj, I.rval(s, args[0], r)), None))
            return out
        if name == 'release':
            return [(I.write(st, obj, NULL), v)]
        if name == 'swap':
            out = []
            for s, r in I.ev(args[0], st, env):
                x, y = I.read(s, obj), I.read(s, r)
                out.append((I.write(I.write(s, obj, y), r, x), None))
            return out
        if name in ('use_count', 'unique'):
            I.notes.add('use_count')
            return [(st, I.setsort(mk('unk', name), n.qt))]
        if name == 'lock':
            return [(st, v)]
    if c == 'fn':
        v = I.read(st, obj)
        if name == 'operator bool':
            return [(st, neg(eq(v, NULL)))]
    if c == 'iter':
        v = I.read(st, obj) if obj.op != 'iter' else obj
        if name == 'base' and v.op == 'riter':
            return [(st, mk('iter', v.a[0], sub(len_(I.read(st, v.a[0])), v.a[1])))]
    if name in ('lock', 'unlock', 'lock_shared', 'unlock_shared'):
        return [(st, None)]
    if c == 'struct' and name == 'swap':
        out = []
        for s, b in I.ev(args[0], st, env):
            s, t = s.fresh('swap')
            s = I.copyregion(I.copyregion(I.copyregion(s, t, obj, q), obj, b, q), b, t, q)
            out.append((s, None))
        return out
    out = []
    I.notes.add('method %s::%s' % (q.split('<')[0], name))
    for s, vs in I.evs_args(args, None, st, env):
        av = [I.dump(s, I.rval(s, a, v)) for a, v in zip(args, vs) if v is not None]
        out.append(result(I, s, n, I.setsort(app(name, strc(q.split('<')[0]), *av), n.qt)))
    return out


def optval(I, s, v, n):
    if v.op == 'some':
        if I.isgl(n):
            return fresh_cell(I, s, v.a[0])
        return v.a[0]
    return v


def truthy_ptr(I, st, v):
    return neg(eq(st.facts.canon(v), NULL))


def cval(I, st, obj):
    if obj.op in ('f', 'var', 'new', 'el', 'mv', 'gv', 'this'):
        return st.facts.canon(I.read(st, obj))
    return st.facts.canon(obj)


def seq_method(I, name, obj, q, args, st, env, n):
    ty = I.ty
    v = cval(I, st, obj)
    et = ty.elem(q)
    struct = ty.cat(et) == 'struct'
    out = []
    if name in ('size', 'length'):
        return [(st, len_(v))]
    if name == 'empty':
        if nonempty(v):
            return [(st, FALSE)]
        return [(st, eq(len_(v), ZERO))]
    if name in ('begin', 'cbegin', 'data'):
        return [(st, mk('iter', obj, ZERO))]
    if name in ('end', 'cend'):
        return [(st, mk('iter', obj, len_(v)))]
    if name in ('rbegin', 'crbegin'):
        return [(st, mk('riter', obj, ZERO))]
    if name in ('rend', 'crend'):
        return [(st, mk('riter', obj, len_(v)))]
    if name in ('front', 'back'):
        i = ZERO if name == 'front' else sub(len_(v), intc(1))
        if struct:
            return [(st, at_(v, i))]
        return [(st, mk('el', obj, i))]
    if name in ('at', 'Get', 'Mutable'):
        for s, r in I.ev(args[0], st, env):
            i = s.facts.canon(I.rval(s, args[0], r))
            out.append((s, at_(v, i) if struct else mk('el', obj, i)))
        return out
    if name in ('push_back', 'Add', 'push_front'):
        if not args:
            s, e = st.fresh(ty.norm(et))
            return [(I.write(s, obj, append_(v, e)), e)]
        for s, r in I.ev(args[0], st, env):
            s, x = I.elemval(s, args[0], r)
            if ty.cat(et) == 'struct' and ty.cat(args[0].qt) != 'struct':
                pass
            v = cval(I, s, obj)
            nv = append_(v, x) if name != 'push_front' else cat_(append_(EMPTYC, x), v)
            out.append((I.write(s, obj, nv), None))
        return out
    if name in ('emplace_back', 'emplace_front'):
        for s, vs in I.evs(args, st, env):
            for s2, x in construct_new(I, et, args, vs, s, env):
                v = cval(I, s2, obj)
                nv = append_(v, x) if name == 'emplace_back' else cat_(append_(EMPTYC, x), v)
                s3 = I.write(s2, obj, nv)
                out.append((s3, x if struct else mk('el', obj, sub(len_(nv), intc(1)))))
        return out
    if name == 'pop_back':
        return [(I.write(st, obj, slice_(v, ZERO, sub(len_(v), intc(1)))), None)]
    if name == 'pop_front':
        return [(I.write(st, obj, slice_(v, intc(1), len_(v))), None)]
    if name in ('clear', 'Clear'):
        return [(I.write(st, obj, EMPTYC), None)]
    if name in ('shrink_to_fit', 'reserve', 'Reserve'):
        return [(s, None) for s, _ in I.evs(args, st, env)]
    if name in ('resize',):
        for s, vs in I.evs(args, st, env):
            x = s.facts.canon(I.rval(s, args[0], vs[0]))
            d = I.rval(s, args[1], vs[1]) if len(args) > 1 and args[1].k != 'CXXDefaultArgExpr' else I.defval(et)
            out.append((I.write(s, obj, resize_(s, cval(I, s, obj), x, d)), None))
        return out
    if name == 'assign':
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, y) for a, y in zip(args, vs)]
            if len(x) == 2 and x[0].op == 'iter':
                nv = I.rangeval(s, x[0], x[1])
            elif len(x) == 2:
                nv = mk('filled', x[0], x[1])
            else:
                nv = x[0]
            out.append((I.write(s, obj, nv), None))
        return out
    if name == 'insert':
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, y) for a, y in zip(args, vs)]
            p = x[0]
            if p.op != 'iter':
                out.append((s, mk('unk', 'insert')))
                I.notes.add('insert position')
                continue
            if len(x) == 3 and x[1].op in ('iter',):
                mid = I.rangeval(s, x[1], x[2])
            elif len(x) == 2 and ty.cat(args[1].qt) in ('seq',) and not struct and ty.cat(et) != 'seq':
                mid = x[1]
            elif len(x) == 2:
                s, e = I.elemval(s, args[1], vs[1])
                mid = append_(EMPTYC, e)
            else:
                mid = mk('unk', 'insert')
                I.notes.add('insert range')
            pos = s.facts.canon(p.a[1])
            v = cval(I, s, obj)
            nv = cat_(cat_(slice_(v, ZERO, pos), mid), slice_(v, pos, len_(v)))
            out.append((I.write(s, obj, nv), mk('iter', obj, pos)))
        return out
    if name == 'erase':
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, y) for a, y in zip(args, vs)]
            if x[0].op != 'iter':
                I.notes.add('erase position')
                out.append((s, mk('unk', 'erase')))
                continue
            b = s.facts.canon(x[0].a[1])
            e = s.facts.canon(x[1].a[1]) if len(x) > 1 else add(b, intc(1))
            v = cval(I, s, obj)
            nv = cat_(slice_(v, ZERO, b), slice_(v, e, len_(v)))
            out.append((I.write(s, obj, nv), mk('iter', obj, b)))
        return out
    if name in ('CopyFrom', 'operator=', 'MergeFrom'):
        for s, r in I.ev(args[0], st, env):
            x = I.rval(s, args[0], r)
            v = cval(I, s, obj)
            out.append((I.write(s, obj, x if name != 'MergeFrom' else cat_(v, x)), None))
        return out
    if name in ('swap', 'Swap'):
        for s, r in I.ev(args[0], st, env):
            b = I.rval(s, args[0], r) if args[0].qt.rstrip().endswith('*') else r
            x, y = I.read(s, obj), I.read(s, b)
            out.append((I.write(I.write(s, obj, y), b, x), None))
        return out
    if name == 'RemoveLast':
        return [(I.write(st, obj, slice_(v, ZERO, sub(len_(v), intc(1)))), None)]
    if name in ('max_size', 'capacity'):
        return [(st, I.setsort(app(name, strc(q)), n.qt))]
    I.notes.add('sequence method ' + name)
    return [(st, mk('unk', name))]


def resize_(st, v, n, d):
    if v.op == 'empty':
        return mk('filled', n, d) if n is not ZERO else v
    c = le(n, len_(v))
    r = st.facts.decide(c)
    if r is None:
        raise NeedFork(c)
    if r:
        return slice_(v, ZERO, n)
    return cat_(v, mk('filled', sub(n, len_(v)), d))


def set_method(I, name, obj, q, args, st, env, n):
    v = cval(I, st, obj)
    if 'unordered' not in q and 'multi' not in q:
        SETS.add(v)
    out = []
    if name == 'size':
        return [(st, len_(v))]
    if name == 'empty':
        return [(st, FALSE if nonempty(v) else eq(len_(v), ZERO))]
    if name in ('begin', 'cbegin'):
        return [(st, mk('iter', obj, ZERO))]
    if name in ('end', 'cend'):
        return [(st, mk('iter', obj, len_(v)))]
    if name in ('insert', 'emplace', 'emplace_hint'):
        for s, vs in I.evs(args, st, env):
            x = [s.facts.canon(I.rval(s, a, y)) for a, y in zip(args, vs)]
            v = cval(I, s, obj)
            if len(x) == 2 and x[0].op in ('iter', 'riter') and x[1].op in ('iter', 'riter'):
                out.append((I.write(s, obj, union_(v, I.rangeval(s, x[0], x[1]))), None))
                continue
            if len(x) == 1 and I.ty.cat(args[0].qt) == 'seq':
                out.append((I.write(s, obj, union_(v, x[0])), None))
                continue
            k = x[-1]
            c = contains_(v, k)
            nv = ins_(v, k)
            d = s.facts.decide(c)
            if d is True:
                nv = v
            s2 = I.write(s, obj, nv)
            if I.ty.cat(n.qt) == 'struct':
                s2, l = s2.fresh('pair')
                s2 = s2.set('first', l, mk('iter', obj, pos_(nv, k)))
                s2 = s2.set('second', l, neg(c))
                out.append((s2, l))
            else:
                out.append((s2, mk('iter', obj, pos_(nv, k))))
        return out
    if name == 'erase':
        for s, vs in I.evs(args, st, env):
            x = s.facts.canon(I.rval(s, args[0], vs[0]))
            v = cval(I, s, obj)
            if x.op == 'iter':
                k = key_elem(v, x.a[1])
                out.append((I.write(s, obj, del_(v, k)), mk('iter', obj, x.a[1])))
            else:
                d = s.facts.decide(contains_(v, x))
                nv = v if d is False else del_(v, x)
                out.append((I.write(s, obj, nv), contains_(v, x)))
        return out
    if name in ('count', 'contains'):
        for s, vs in I.evs(args, st, env):
            x = s.facts.canon(I.rval(s, args[0], vs[0]))
            out.append((s, contains_(cval(I, s, obj), x)))
        return out
    if name == 'find':
        for s, vs in I.evs(args, st, env):
            x = s.facts.canon(I.rval(s, args[0], vs[0]))
            out.append((s, mk('iter', obj, pos_(cval(I, s, obj), x))))
        return out
    if name == 'clear':
        return [(I.write(st, obj, EMPTYC), None)]
    if name in ('swap', 'operator=', 'rbegin', 'rend'):
        return seq_method(I, name, obj, q, args, st, env, n)
    I.notes.add('set method ' + name)
    return [(st, mk('unk', name))]


def key_elem(v, idx):
    if idx.op == 'pos':
        return idx.a[1]
    return at_(v, idx)


def pairparts(I, s, node, r):
    fl = I.ty.fields(node.qt)
    if fl and len(fl) == 2:
        return I.read(s, I.fld(r, fl[0][0])), I.read(s, I.fld(r, fl[1][0]))
    return None, None


def map_method(I, name, obj, q, args, st, env, n):
    ty = I.ty
    v = cval(I, st, obj)
    out = []
    kt, vt = (ty.args(q) + ['', ''])[:2]
    if name == 'size':
        return [(st, len_(v))]
    if name == 'empty':
        return [(st, FALSE if nonempty(v) else eq(len_(v), ZERO))]
    if name in ('begin', 'cbegin'):
        return [(st, mk('iter', obj, ZERO))]
    if name in ('end', 'cend'):
        return [(st, mk('iter', obj, len_(v)))]
    if name == 'find':
        for s, vs in I.evs(args, st, env):
            k = s.facts.canon(I.rval(s, args[0], vs[0]))
            out.append((s, mk('iter', obj, pos_(cval(I, s, obj), k))))
        return out
    if name in ('count', 'contains'):
        for s, vs in I.evs(args, st, env):
            k = s.facts.canon(I.rval(s, args[0], vs[0]))
            out.append((s, contains_(cval(I, s, obj), k)))
        return out
    if name == 'at':
        for s, vs in I.evs(args, st, env):
            k = s.facts.canon(I.rval(s, args[0], vs[0]))
            tr, fa = I.fork(s, contains_(cval(I, s, obj), k))
            for x in fa:
                I.fatals.append((x, 'map::at'))
            for x in tr:
                out.append((x, mk('mv', obj, pos_(cval(I, x, obj), k))))
        return out
    if name == 'clear':
        return [(I.write(st, obj, EMPTYC), None)]
    if name == 'erase':
        for s, vs in I.evs(args, st, env):
            x = s.facts.canon(I.rval(s, args[0], vs[0]))
            v = cval(I, s, obj)
            if x.op == 'iter':
                out.append((I.write(s, obj, del_(v, key_(v, x.a[1]))), mk('iter', obj, x.a[1])))
            else:
                d = s.facts.decide(contains_(v, x))
                out.append((I.write(s, obj, v if d is False else del_(v, x)), contains_(v, x)))
        return out
    if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        for s, vs in I.evs(args, st, env):
            if len(args) == 1 and ty.cat(args[0].qt) == 'struct':
                k, val = pairparts(I, s, args[0], vs[0])
            elif len(args) == 2 and I.rval(s, args[0], vs[0]).op in ('iter', 'riter'):
                out.append((I.write(s, obj, union_(cval(I, s, obj), I.rangeval(s, I.rval(s, args[0], vs[0]), I.rval(s, args[1], vs[1])))), None))
                continue
            elif len(args) == 2:
                k = I.rval(s, args[0], vs[0])
                s, val = I.elemval(s, args[1], vs[1])
            elif len(args) == 1 and name == 'try_emplace':
                k, val = I.rval(s, args[0], vs[0]), I.defval(vt)
            else:
                k = None
            if k is None:
                I.notes.add('map insert form')
                out.append((s, mk('unk', name)))
                continue
            k = s.facts.canon(k)
            v = cval(I, s, obj)
            c = contains_(v, k)
            if name == 'insert_or_assign':
                out.append((I.write(s, obj, store_(v, k, val)), None))
                continue
            tr, fa = I.fork(s, c)
            for x, ins in [(y, False) for y in tr] + [(y, True) for y in fa]:
                nv = store_(v, k, val) if ins else v
                if ins:
                    x = I.write(x, obj, nv)
                if ty.cat(n.qt) == 'struct':
                    x, l = x.fresh('pair')
                    x = x.set('first', l, mk('iter', obj, pos_(nv, k)))
                    x = x.set('second', l, boolc(ins))
                    out.append((x, l))
                else:
                    out.append((x, None))
        return out
    if name in ('swap', 'operator='):
        return seq_method(I, name, obj, q, args, st, env, n)
    I.notes.add('map method ' + name)
    return [(st, mk('unk', name))]


def map_index(I, s, loc, k, q):
    """operator[] -> [(state, location)]"""
    ty = I.ty
    k = s.facts.canon(k)
    v = cval(I, s, loc)
    vt = ty.args(q)[1]
    out = []
    tr, fa = I.fork(s, contains_(v, k))
    for x in tr:
        out.append((x, mk('mv', loc, pos_(v, k))))
    for x in fa:
        d = I.defval(vt)
        if ty.cat(vt) == 'struct':
            x, d = x.fresh(ty.norm(vt))
        nv = store_(v, k, d)
        x = I.write(x, loc, nv)
        out.append((x, mk('mv', loc, pos_(nv, k))))
    return out


def str_method(I, name, obj, q, args, st, env, n):
    v = cval(I, st, obj)
    out = []
    if name in ('c_str', 'data', 'str', 'operator basic_string_view', 'operator std::basic_string_view') and not args:
        return [result(I, st, n, v)]
    if name in ('size', 'length'):
        return [(st, strlen_(I, v))]
    if name == 'empty':
        return [(st, eq(strlen_(I, v), ZERO))]
    if name == 'clear':
        return [(I.write(st, obj, EMPTYSTR), None)]
    if name in ('append', 'push_back', 'operator+='):
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, y) for a, y in zip(args, vs)]
            nv = I.strcat(cval(I, s, obj), x[0] if len(x) == 1 else app('str', *x))
            out.append((I.write(s, obj, nv), obj))
        return out
    if name in ('assign', 'operator='):
        for s, vs in I.evs(args, st, env):
            x = [I.rval(s, a, y) for a, y in zip(args, vs)]
            out.append((I.write(s, obj, x[0] if len(x) == 1 else app('str', *x)), obj))
        return out
    for s, vs in I.evs_args(args, None, st, env):
        av = [I.dump(s, s.facts.canon(I.rval(s, a, y))) for a, y in zip(args, vs) if y is not None and a.k != 'CXXDefaultArgExpr']
        out.append(result(I, s, n, I.setsort(app('str.' + name, cval(I, s, obj), *av), n.qt)))
    return out


# ------------------------------------------------------------------ operators
def streq(I, x, y):
    if x is EMPTYSTR:
        x, y = y, x
    if y is EMPTYSTR and x.op != 'str':
        return eq(strlen_(I, x), ZERO)
    return eq(x, y)


def struct_eq(I, s, a, b, qt):
    fl = I.ty.fields(qt)
    if fl is None:
        return eq(I.read(s, a), I.read(s, b))
    out = []
    for k, t in fl:
        if I.ty.cat(t) == 'struct':
            out.append(struct_eq(I, s, I.fld(a, k), I.fld(b, k), t))
        else:
            x, y = s.facts.canon(I.read(s, I.fld(a, k))), s.facts.canon(I.read(s, I.fld(b, k)))
            out.append(streq(I, x, y) if I.ty.cat(t) == 'str' else eq(x, y))
    return and_(*out)


def moved(node):
    n = node
    while n.i and n.k in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CXXConstructExpr') and len(n.i) == 1:
        n = n.i[0]
    if n.k == 'CallExpr' and n.d.get('valueCategory') == 'xvalue':
        c = n.i[0]
        while c.i and c.k in ('ImplicitCastExpr', 'ParenExpr'):
            c = c.i[0]
        return c.k == 'DeclRefExpr' and c.d['referencedDecl'].get('name') == 'move'
    return False


def std_operator(I, name, args, st, env, n):
    ty = I.ty
    op = name[8:] if name.startswith('operator') else name
    out = []
    if op == '->':
        for s, r in I.ev(args[0], st, env):
            v = s.facts.canon(I.rval(s, args[0], r))
            if v.op == 'iter' or v.op == 'riter':
                l = I.deref(s, v)
                if l.op == 'el' and ty.cat(ty.elem(n.qt)) == 'struct':
                    l = I.read(s, l)
                out.append((s, l))
            elif v.op == 'some':
                s, l = fresh_cell(I, s, v.a[0])
                out.append((s, l))
            else:
                out.append((s, v))
        return out
    if op == '*' and len(args) == 1:
        for s, r in I.ev(args[0], st, env):
            v = s.facts.canon(I.rval(s, args[0], r))
            if v.op in ('iter', 'riter'):
                l = I.deref(s, v)
                if l.op == 'el' and ty.cat(n.qt) == 'struct':
                    l = I.read(s, l)
                out.append((s, l))
            elif v.op == 'some':
                s, l = fresh_cell(I, s, v.a[0])
                out.append((s, l))
            elif ty.cat(args[0].qt) == 'ptr':
                p = I.ptr(s, v)
                if p is not None:
                    out.append((s, p))
            elif ty.cat(args[0].qt) == 'opt' and ty.cat(n.qt) != 'struct':
                s, l = fresh_cell(I, s, app('optval', v))
                out.append((s, l))
            else:
                out.append((s, v))
        return out
    if op == '[]':
        q = ty.norm(args[0].qt)
        c = ty.cat(args[0].qt)
        for s, (r, i) in I.evs(args, st, env):
            i = s.facts.canon(I.rval(s, args[1], i))
            if c == 'map':
                s, l = I.asloc(s, args[0], r)
                out.extend(map_index(I, s, l, i, q))
            elif c == 'seq':
                s, l = I.asloc(s, args[0], r)
                if ty.cat(ty.elem(q)) == 'struct':
                    out.append((s, at_(s.facts.canon(I.read(s, l)), i)))
                else:
                    out.append((s, mk('el', l, i)))
            elif c == 'ptr':
                p = I.ptr(s, I.rval(s, args[0], r))
                if p is not None:
                    out.append((s, I.arrel(s, p, i)))
            elif c == 'iter':
                v = I.rval(s, args[0], r)
                out.append((s, I.deref(s, I.advance(s, v, i))))
            else:
                s2, x = result(I, s, n, I.setsort(app('str[]', s.facts.canon(I.rval(s, args[0], r)), i), 'char'))
                out.append((s2, x))
        return out
    if op in ('==', '!=', '<', '<=', '>', '>='):
        for s, (a, b) in I.evs(args[:2], st, env):
            if ty.cat(args[0].qt) == 'struct' and ty.cat(args[1].qt) == 'struct':
                if op in ('==', '!='):
                    e = struct_eq(I, s, a, b, args[0].qt)
                    out.append((s, e if op == '==' else neg(e)))
                else:
                    x, y = regionval(I, s, a, args[0].qt), regionval(I, s, b, args[1].qt)
                    e = lexicographic(I, s, op, a, b, args[0].qt) if ty.base(args[0].qt).startswith(('std::pair', 'std::tuple')) else None
                    if e is None:
                        I.notes.add('operator ' + op)
                        e = I.setsort(app('op' + op, x, y), 'bool')
                    out.append((s, e))
                continue
            x, y = s.facts.canon(I.rval(s, args[0], a)), s.facts.canon(I.rval(s, args[1], b))
            if ty.cat(args[0].qt) == 'str' or ty.cat(args[1].qt) == 'str':
                if op in ('==', '!='):
                    e = streq(I, x, y)
                    out.append((s, e if op == '==' else neg(e)))
                else:
                    out.append((s, I.setsort(app('strcmp' + op, x, y), 'bool')))
                continue
            out.append((s, I.binop(s, op, x, y, 'bool')))
        return out
    if op == '=':
        for s, rb in I.ev(args[1], st, env):
            for s2, la in I.ev(args[0], s, env):
                qa = args[0].qt
                ca = ty.cat(qa)
                if ca == 'struct' and la.op == 'new' and la.a[1] == 'tie':
                    fl = ty.fields(args[1].qt) or []
                    for i, (k, t) in enumerate(fl):
                        dst = s2.heap.get(str(i), {}).get(la)
                        if dst is None or dst.op == 'sym':
                            continue
                        if ty.cat(t) == 'struct':
                            s2 = I.copyregion(s2, dst, I.fld(rb, k), t)
                        else:
                            s2 = I.write(s2, dst, I.read(s2, I.fld(rb, k)))
                    out.append((s2, la))
                    continue
                if ca == 'struct':
                    if la.op == 'el':
                        la = I.read(s2, la)
                    out.append((I.copyregion(s2, la, rb, qa), la))
                    continue
                v = I.rval(s2, args[1], rb)
                if ca == 'opt' and ty.cat(args[1].qt) != 'opt' and v is not NULL and 'nullopt' not in args[1].qt:
                    if ty.cat(ty.elem(qa)) == 'struct':
                        s2, l = s2.fresh(ty.norm(ty.elem(qa)))
                        s2 = I.copyregion(s2, l, rb, ty.elem(qa))
                        v = l
                    else:
                        v = mk('some', v)
                elif ca == 'opt' and 'nullopt' in args[1].qt:
                    v = NULL
                elif ca == 'opt' and v.op == 'new' and ty.cat(ty.elem(qa)) == 'struct' and I.isgl(args[1]):
                    s2, l = s2.fresh(ty.norm(ty.elem(qa)))
                    s2 = I.copyregion(s2, l, v, ty.elem(qa))
                    v = l
                s2 = I.write(s2, la, v)
                if moved(args[1]) and ca in ('seq', 'set', 'map', 'ptr') and isinstance(rb, T) and rb is not la:
                    s2 = I.write(s2, rb, I.defval(qa))
                out.append((s2, la))
        return out
    if op in ('++', '--'):
        for s, r in I.ev(args[0], st, env):
            old = I.read(s, r)
            new = I.advance(s, old, intc(1 if op == '++' else -1))
            s2 = I.write(s, r, new)
            out.append((s2, old if len(args) > 1 else (r if I.isgl(n) else new)))
        return out
    if op in ('+', '-'):
        for s, (a, b) in I.evs(args[:2], st, env):
            x, y = I.rval(s, args[0], a), I.rval(s, args[1], b)
            if ty.cat(n.qt) == 'str':
                out.append((s, I.strcat(x, y)))
            else:
                out.append((s, I.binop(s, op, x, y, n.qt)))
        return out
    if op in ('+=', '-='):
        for s, rb in I.ev(args[1], st, env):
            y = I.rval(s, args[1], rb)
            for s2, la in I.ev(args[0], s, env):
                x = I.read(s2, la)
                if ty.cat(args[0].qt) == 'str':
                    v = I.strcat(x, y)
                else:
                    v = I.binop(s2, op[:-1], x, y, args[0].qt)
                out.append((I.write(s2, la, v), la))
        return out
    if op in ('<<', '>>'):
        for s, (a, b) in I.evs(args[:2], st, env):
            if a.op in ('var', 'new', 'f'):
                x = I.rval(s, args[1], b)
                if ty.cat(args[1].qt) == 'struct':
                    x = regionval(I, s, x, args[1].qt)
                x = s.facts.canon(x)
                x = x if x.op == 'str' or SORT.get(x) == 's' else app('tostr', x)
                SORT.setdefault(x, 's')
                old = I.read(s, a)
                if old.op == 'uninit':
                    old = EMPTYSTR
                s = I.write(s, a, I.strcat(old, x))
            out.append((s, a))
        return out
    if op == '()':
        for s, vs in I.evs(args, st, env):
            f = I.rval(s, args[0], vs[0])
            if ty.base(args[0].qt).startswith('std::uniform_int'):
                d = I.dump(s, f)
                out.append((s, I.setsort(app('random', d), n.qt)))
                continue
            out.extend(I.callval(f, args[1:], vs[1:], s, env, n))
        return out
    if op == '!':
        return [(s, neg(I.tobool(s, args[0], r))) for s, r in I.ev(args[0], st, env)]
    I.notes.add('operator ' + op)
    for s, vs in I.evs(args, st, env):
        out.append(result(I, s, n, I.setsort(app('op' + op, *[I.dump(s, I.rval(s, a, v)) for a, v in zip(args, vs)]), n.qt)))
    return out
