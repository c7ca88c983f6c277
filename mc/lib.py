"""Runner shared by every check: sharding, evidence, violations, known findings."""
import os, sys, json, time, signal, pickle, traceback, hashlib, itertools, math
from fractions import Fraction as F

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JAJAPY_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


class Stat:
    """Per worker counters."""

    def __init__(self):
        self.evals = 0
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.nontrivial = set()
        self.fam = {}
        self.samples = []
        self.violations = []
        self.known = {}
        self.notes = {}

    def step(self, n=1):
        self.steps += n

    def state(self, x):
        self.states.add(h64(x))

    def outcome(self, x, nontrivial=True):
        k = h64(x)
        self.outcomes.add(k)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def close(x, y, rel=1e-8, ab=1e-10):
    """numerical agreement; nan only agrees with nan, inf with the same inf"""
    try:
        x, y = float(x), float(y)
    except (TypeError, ValueError):
        return False
    if math.isnan(x) or math.isnan(y):
        return math.isnan(x) and math.isnan(y)
    if math.isinf(x) or math.isinf(y):
        return x == y
    return abs(x - y) <= ab + rel * max(abs(x), abs(y))


def allclose(a, b, rel=1e-8, ab=1e-10):
    import numpy as np
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return all(close(x, y, rel, ab) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))


def need(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Check:
    """Subclass: id, level, rule, bounds(dict), families(tier)->[(name, iterable of literal cases)],
    run(family, case, st): raise Violation or any exception when the property fails."""
    id = None
    level = 'model_checking'
    rule = ''
    assumptions = []
    case_timeout = 60
    workers = 8

    def families(self, tier):
        raise NotImplementedError

    def run(self, family, case, st):
        raise NotImplementedError

    def finding_key(self, family, case, exc):
        """identity of the failing input, matched against known_findings"""
        if isinstance(exc, Violation) and exc.key:
            return exc.key
        return '%s:%r' % (family, case)


def known_findings(pid):
    res = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s key=' % pid):
                rest = l.split(' key=', 1)[1]
                key, _, desc = rest.partition(' :: ')
                res[key] = desc
    return res


def _alarm(sig, frm):
    raise CaseTimeout()


def _exec_case(check, fam, case, st, known, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        check.run(fam, case, st)
        return None
    except CaseTimeout:
        e = Violation('no answer within %ss' % timeout)
        tb = ''
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt):
            raise
        e = ex
        tb = traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        from mc import seams
        seams.CTL.real()
        seams.CTL.pool_order = None
        seams.CTL.cpus = 4
        seams.USE_REAL_POOL[0] = False
    key = check.finding_key(fam, case, e)
    if key in known:
        st.known[key] = st.known.get(key, 0) + 1
        return None
    return dict(family=fam, case=repr(case), key=key, error=('%s: %s' % (type(e).__name__, e))[:4000], trace=tb)


def _worker(check, tier, w, nw, wfd):
    # each worker has its own scratch directory and silences the library's prints
    import tempfile, shutil
    st = Stat()
    known = known_findings(check.id)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    d = tempfile.mkdtemp(prefix='jjp_%s_' % check.id, dir=SCRATCH)
    check.scratch = d
    os.chdir(d)
    try:
        for fam, cases in check.families(tier):
            n = 0
            for i, case in enumerate(cases):
                if i % nw != w:
                    continue
                n += 1
                st.evals += 1
                if len(st.samples) < 2 and (n == 1 or n == 7):
                    st.samples.append('%s: %r' % (fam, case))
                v = _exec_case(check, fam, case, st, known, check.case_timeout)
                if v:
                    st.violations.append(v)
                    if len(st.violations) >= 3:
                        break
            st.fam[fam] = st.fam.get(fam, 0) + n
            if len(st.violations) >= 3:
                break
    finally:
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
        with os.fdopen(wfd, 'wb') as f:
            pickle.dump(st, f)
    os._exit(0)


def run_check(check, tier=None):
    tier = tier or TIER
    t0 = time.time()
    nw = check.workers
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 3
            try:
                _worker(check, tier, w, nw, wfd)
            except BaseException:
                try:
                    with open(os.path.join(ROOT, 'evidence', '%s.worker%d.err' % (check.id, w)), 'w') as f:
                        traceback.print_exc(file=f)
                except Exception:
                    pass
            finally:
                os._exit(code)
        os.close(wfd)
        procs.append((pid, r))
    tot = Stat()
    broken = []
    # read all pipes (select to avoid blocking on one)
    import select
    bufs = {r: [] for _, r in procs}
    open_r = set(bufs)
    while open_r:
        rd, _, _ = select.select(list(open_r), [], [])
        for r in rd:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r].append(b)
            else:
                open_r.discard(r)
                os.close(r)
    for pid, r in procs:
        _, status = os.waitpid(pid, 0)
        data = b''.join(bufs[r])
        try:
            st = pickle.loads(data)
        except Exception:
            broken.append(pid)
            continue
        tot.evals += st.evals
        tot.steps += st.steps
        tot.states |= st.states
        tot.outcomes |= st.outcomes
        for k, v in st.fam.items():
            tot.fam[k] = tot.fam.get(k, 0) + v
        tot.samples += st.samples[:2]
        tot.violations += st.violations
        for k, v in st.known.items():
            tot.known[k] = tot.known.get(k, 0) + v
        for k, v in st.notes.items():
            tot.notes[k] = tot.notes.get(k, 0) + v
    if broken and not tot.violations:
        tot.violations.append(dict(family='harness', case='None', key='worker',
                                   error='a worker process died (crash of the code under test or of the harness)',
                                   trace=''))
    wall = time.time() - t0
    # states: distinct outcomes observed (hash of what the executions produced); transitions: calls of the code under
    # test compared with the reference; traces_validated_against_impl: cases (executions) run on the real code
    cov = dict(states=len(tot.outcomes | tot.states), transitions=tot.steps, traces_validated_against_impl=tot.evals,
               rule=check.rule, samples=tot.samples[:10], families=tot.fam,
               exhaustive=not tot.violations, notes=tot.notes)
    ev = dict(property=check.id, tier=tier, seed=SEED, level=check.level, coverage=cov,
              assumptions=list(check.assumptions), wall_s=round(wall, 2), violations=len(tot.violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', check.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s tier=%s states=%d transitions=%d executions=%d wall=%.1fs families=%s' % (
        check.id, tier, len(tot.outcomes | tot.states), tot.steps, tot.evals, wall, json.dumps(tot.fam)))
    kf = known_findings(check.id)
    for k in kf:
        if k in tot.known:
            print('KNOWN-FINDING: property=%s %s (%d executions)' % (check.id, kf[k] or k, tot.known[k]))
    if tot.violations:
        rd = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        order = {f: i for i, f in enumerate(dict.fromkeys(list(tot.fam) + [v['family'] for v in tot.violations]))}
        tot.violations.sort(key=lambda v: (order[v['family']], len(v['case'])))
        for i, v in enumerate(tot.violations[:5]):
            p = os.path.join(rd, '%s-%d.json' % (check.id, i))
            with open(p, 'w') as f:
                json.dump(dict(property=check.id, **v), f, indent=1)
            print('  %s | %s | %s' % (v['family'], v['case'][:300], v['error'][:500]))
            print('VIOLATION property=%s replay=%s' % (check.id, p))
        return 1
    return 0


def replay(check, path):
    """re-execute exactly one recorded case, without the explorer"""
    import ast, tempfile, shutil
    d = json.load(open(path))
    case = ast.literal_eval(d['case'])
    check.scratch = tempfile.mkdtemp(prefix='jjp_replay_', dir=SCRATCH)
    os.chdir(check.scratch)
    try:
        check.run(d['family'], case, Stat())
        print('replay: property %s holds on this case' % check.id)
        return 0
    except BaseException as e:
        traceback.print_exc()
        print('VIOLATION property=%s replay=%s' % (check.id, path))
        return 1
    finally:
        os.chdir('/')
        shutil.rmtree(check.scratch, ignore_errors=True)
