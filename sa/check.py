"""Decides one property on the current tree:  python3 -m sa.check C01 [--tier quick|thorough]"""
import fnmatch, json, os, re, signal, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
sys.setrecursionlimit(20000)
from . import front, modular as M, equiv, props
from .terms import *


class Item:
    """one entry of a property's scope"""

    def __init__(self, text, enums):
        m = re.fullmatch(r'([^\[{]+)(?:\[([^\]]*)\])?(?:\{([^}]*)\})?', text)
        if not m:
            raise ValueError('bad scope entry ' + text)
        self.text = text
        self.pat = 'craft::' + m.group(1)
        self.types = [enums[t] for t in m.group(2).split(',')] if m.group(2) else None
        self.watch = m.group(3).split(',') if m.group(3) else None

    def covers(self, q):
        return fnmatch.fnmatchcase(q, self.pat)

    def hit(self, d):
        """does difference d concern this entry?"""
        if self.types is not None:
            F = M.joint(d.A, d.B) or d.F
            t = mk('init', mk('f', mk('sym', 'arg0'), 'pb.type'))
            if not any(M.feasible(F.assume(eq(t, intc(v))), [200]) is not None for v in self.types):
                return False
        if self.watch is not None:
            locs, full = M.alldiffs(d.S1, d.A, d.S2, d.B, d.F)
            if not full or not locs:
                return True
            for w in locs:
                if w == 'outcome' or w == 'result' and 'ret' in self.watch:
                    return True
                if isinstance(w, tuple) and M.watch_ok(self.watch, w[0]):
                    return True
            return False
        return True


LIMIT = 560          # seconds for the comparisons of one check; what is not decided by then is reported undecided


class Late(Exception):
    pass


def late(*a):
    raise Late('out of time')


def load():
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(front.load, os.path.join(HERE, 'spec')), ex.submit(front.load, REPO)
        return M.Side(a.result()), M.Side(b.result(), a.result())


def main(argv):
    pid = argv[1]
    tier = 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    t0 = time.time()
    p = props.P[pid]
    log = []
    ref, cur = load()
    items = [Item(x, ref.P.enums) for x in p['scope']]
    scope = [k for k in ref.byk if any(i.covers(k[0]) for i in items)]
    for i in items:
        if not any(i.covers(k[0]) for k in scope):
            print('ANALYSIS-BROKEN: scope entry %s of %s matches no function' % (i.text, pid))
            return 2
    qs = {k[0] for k in scope}
    W = equiv.World(ref, cur, log=lambda *a: log.append(' '.join(str(x) for x in a)))
    named = W.K.names
    want = lambda k: k[0] in qs or k[0] not in named
    W.deadline = t0 + LIMIT
    signal.signal(signal.SIGALRM, late)
    signal.setitimer(signal.ITIMER_REAL, LIMIT, 15)
    findings, undecided, equal = W.run(want)
    signal.setitimer(signal.ITIMER_REAL, 0)
    bad = []
    for k, ds in findings.items():
        its = [i for i in items if i.covers(k[0])]
        for d in ds:
            try:
                h = [i for i in its if i.hit(d)]
            except Exception:
                h = its[:1]
            if h:
                bad.append((k, d, h[0]))
                break
    from . import rules
    rbad, rcov = rules.run(p, cur, ref, W, tier)
    from . import oblig
    obres = oblig.run(pid, cur, W, cur.P.enums, 240 if tier == 'thorough' else 120)
    und = {k[0] for k in undecided}
    notproved = []
    for o in obres:
        for q, text, sure in o['unproved']:
            notproved.append('%s: %s: %s' % (o['name'], q, text[:600]))
            # where the comparison could not decide, a definite counterexample of an obligation does
            if sure and und & o.get('visited', set()):
                rbad.append('obligation "%s" fails in %s: %s' % (o['name'], q, text[:800]))
    rows = sum(len(s.rows) for s in W.sums.values() if not isinstance(s, Exception))
    cov = {
        'explanation': 'Per-function guarded value-flow summaries of the current tree against the reviewed reference summaries (sa/equiv.py), '
                       'plus the rules listed; a function whose typed syntax tree is the reference\'s needs no comparison.',
        'functions_in_scope': len(scope),
        'functions_identical_to_reference': sum(1 for k in scope if cur.hash.get(k) == ref.hash[k]),
        'functions_changed': sorted({k[0] for k in W.changed} | {k[0] for k in W.added} | {k[0] for k in W.removed}),
        'comparisons': W.comparisons, 'summaries': W.summaries, 'summary_rows': rows,
        'equal': sorted(k[0] for k in equal), 'undecided': {k[0]: str(v)[:300] for k, v in undecided.items()},
        'obligations': [{'statement': o['name'], 'functions': o['functions'][:40], 'paths': o['rows'], 'instances': o['obligations'],
                         'proved': max(0, o['obligations'] - len(o['unproved']) - o.get('given', 0)), 'given': o.get('given', 0)} for o in obres],
        'obligations_not_proved': notproved[:40],
        'rules': rcov, 'scope': [i.text for i in items], 'log': log[-60:],
    }
    n = len(bad) + len(rbad)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': n}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions in scope, %d changed in the tree, %d comparisons, %d rule obligations, %d proof obligations (%d not proved), %.1fs' % (
        pid, len(scope), len(W.changed) + len(W.added) + len(W.removed), W.comparisons, sum(r.get('obligations', 0) for r in rcov.values()),
        sum(o['obligations'] for o in obres), len(notproved), time.time() - t0))
    if not n:
        return 0
    rep = os.path.join(HERE, 'evidence', pid + '.violation.txt')
    with open(rep, 'w') as f:
        for k, d, i in bad:
            fn = cur.byk.get(k) or ref.byk[k]
            f.write('%s (%s:%s)\n  scope: %s\n' % (k[0], fn.file, fn.line, i.text))
            try:
                for a, b in d.detail().items():
                    f.write('  %s: %s\n' % (a, b))
                locs, full = M.alldiffs(d.S1, d.A, d.S2, d.B, d.F)
                f.write('  all locations: %s\n' % [w if isinstance(w, str) else str(w[0]) for w in locs])
            except Exception:
                pass
        for r in rbad:
            f.write('%s\n' % r)
        for x in notproved[:20]:
            f.write('obligation no longer proved: %s\n' % x)
    sys.stdout.write(open(rep).read()[:6000])
    print('VIOLATION property=%s replay=%s' % (pid, rep))
    return 1


ASSUME = ['clang 18 parses the sources as the build\'s compiler does', 'the reference sources spec/src were reviewed against the property (DESIGN.md)',
          'library containers and protobuf accessors behave as documented', 'a function the analysis cannot model is reported as undecided, not as a violation']

if __name__ == '__main__':
    try:
        rc = main(sys.argv)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
