"""Check framework: generated-input search with Hypothesis, counted, shrunk, replayable.

A check module (pbt/checks/cNN.py) defines
    PROPERTY = 'CNN'
    RULE     = text: how cases are made and what makes one non-trivial
    SUBS     = [Sub(...), ...]      generated searches
    PROBES   = [Probe(...), ...]    fixed inputs of known findings (optional)
Every case is a plain JSON value, so that a shrunk failure is a replay file.
"""
import os, sys, json, time, zlib, hashlib, traceback, contextlib, shutil, tempfile, signal, math
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.environ.get('VERIF_ROOT', '/verif')
SCRATCH = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
PKG = os.path.join(REPO, 'pyspod') + os.sep


class Violation(AssertionError):
    pass


class Infra(Exception):
    """Trouble of the harness or the sandbox: an error of the check, never a violation."""


class Skip(Exception):
    """The generated case is outside the domain; counted, not judged."""


class Hang(BaseException):
    pass


class _Stop(BaseException):
    pass


class Sub:
    def __init__(self, name, strategy, check, quick=100, thorough=1000, slots=1, case_limit=100,
                 min_nontrivial=1):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.slots = quick, thorough, slots
        self.case_limit = case_limit
        self.min_nontrivial = min_nontrivial


class Probe:
    """A fixed failing input of a recorded finding. fn(ctx) raises Violation while the defect is there."""
    def __init__(self, fid, what, fn):
        self.fid, self.what, self.fn = fid, what, fn


# ---------------------------------------------------------------------------------------------
# helpers used by the oracles
# ---------------------------------------------------------------------------------------------
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def _short(a):
    a = np.asarray(a)
    return np.array2string(a.ravel()[:8], precision=6)


def same_shape(a, b, what):
    if tuple(np.shape(a)) != tuple(np.shape(b)):
        raise Violation(f'{what}: shape {np.shape(a)} instead of {np.shape(b)}')


def close(got, want, what, rtol=1e-9, atol=0.0, scale=None):
    """|got - want| <= atol + rtol * scale, scale = max|want| unless given."""
    got = np.asarray(got); want = np.asarray(want)
    same_shape(got, want, what)
    if got.dtype == object:
        raise Violation(f'{what}: object array')
    if want.size == 0:
        return
    if not np.all(np.isfinite(got)):
        raise Violation(f'{what}: non-finite values {_short(got)} instead of {_short(want)}')
    if scale is None:
        scale = float(np.max(np.abs(want)))
    err = np.abs(got - want)
    lim = atol + rtol * np.asarray(scale)
    if not np.all(err <= lim):
        k = np.unravel_index(int(np.argmax(err - lim)), err.shape)
        raise Violation(f'{what}: at {tuple(int(i) for i in k)} got {got[k]!r}, expected {want[k]!r} '
                        f'(|diff|={float(err[k]):.3g}, allowed {float(np.broadcast_to(lim, err.shape)[k]):.3g})')


def equal(got, want, what):
    got = np.asarray(got); want = np.asarray(want)
    same_shape(got, want, what)
    ok = np.array_equal(got, want, equal_nan=(got.dtype.kind in 'fc' and want.dtype.kind in 'fc'))
    if not ok:
        bad = np.argwhere(~((got == want) | ((got != got) & (want != want))))
        k = tuple(int(i) for i in bad[0]) if len(bad) else ()
        raise Violation(f'{what}: differs at {k}: got {got[k]!r}, expected {want[k]!r}')


def load_npy(path, what='file'):
    if not os.path.isfile(path):
        raise Violation(f'{what}: {os.path.basename(str(path))} was not written')
    try:
        return np.load(path)
    except Exception as e:
        raise Violation(f'{what}: {os.path.basename(str(path))} cannot be read back: {e!r}')


def load_npz(path, keys, what='file'):
    if not os.path.isfile(path):
        raise Violation(f'{what}: {os.path.basename(str(path))} was not written')
    try:
        with np.load(path) as z:
            d = {k: z[k] for k in z.files}
    except Exception as e:
        raise Violation(f'{what}: {path} cannot be read back: {e!r}')
    for k in keys:
        if k not in d:
            raise Violation(f'{what}: {k!r} missing from {os.path.basename(str(path))}')
    return d


def load_yaml(path, what='file'):
    import yaml
    if not os.path.isfile(path):
        raise Violation(f'{what}: {os.path.basename(str(path))} was not written')
    try:
        with open(path) as f:
            return yaml.load(f, Loader=yaml.FullLoader)
    except Exception as e:
        raise Violation(f'{what}: {path} cannot be parsed: {e!r}')


def raises(types, fn, what):
    """fn must raise one of types (an Exception). Returns the exception."""
    try:
        r = fn()
    except types as e:
        return e
    except Exception as e:
        raise Violation(f'{what}: raised {type(e).__name__}: {e} instead of '
                        f'{"/".join(t.__name__ for t in (types if isinstance(types, tuple) else (types,)))}')
    raise Violation(f'{what}: accepted (returned {type(r).__name__}) instead of being rejected')


def in_repo(tb):
    for f, _ in traceback.walk_tb(tb):
        if f.f_code.co_filename.startswith(PKG):
            return True
    return False


def describe(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return ''.join(tb)[-3000:]


def classify(e):
    """'violation' | 'infra' """
    if isinstance(e, Violation):
        return 'violation'
    if isinstance(e, (Infra, MemoryError)):
        return 'infra'
    if isinstance(e, OSError) and e.errno in (28, 12, 24, 23, 11):
        return 'infra'
    if isinstance(e, ImportError) and not in_repo(e.__traceback__):
        return 'infra'
    # failed in the package, or its results are not of the documented form (the search fails only if this reproduces)
    return 'violation'


def jkey(case):
    return json.dumps(case, sort_keys=True, default=_jdefault)


def _jdefault(o):
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (tuple, set)):
        return list(o)
    raise TypeError(repr(o))


# ---------------------------------------------------------------------------------------------
# (names of folders are the user's choice)
FOLDERS = ['', '', '', '', ' [1-3]', ' \u00e9 *?', '.run.npy', " 'a', ~b"]


class Ctx:
    def __init__(self):
        self._dirs = []
        self.labels = {}
        self._nontrivial = False
        self._n = 0
        self._style = 0
        self._pools = {}
        self.case_labels = set()

    def begin(self, case=None):
        self._style = zlib.crc32(repr(case).encode())
        self._nontrivial = False
        self.case_labels = set()

    def end(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass

    def dir(self, tag='d'):
        self._n += 1
        self._style += 1
        d = os.path.join(SCRATCH, f'{tag}{os.getpid()}_{self._n}' + FOLDERS[self._style % len(FOLDERS)])
        os.makedirs(d)
        self._dirs.append(d)
        return d

    def nontrivial(self, flag=True):
        if flag:
            self._nontrivial = True

    def label(self, *ls):
        for l in ls:
            self.case_labels.add(str(l))

    def mpi(self, n):
        from pbt import mpipool
        if n not in self._pools:
            self._pools[n] = mpipool.Pool(n)
        return self._pools[n]

    def close(self):
        for p in self._pools.values():
            p.close()
        self._pools = {}


def _alarm(signum, frame):
    raise Hang()


@contextlib.contextmanager
def time_limit(sec):
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def run_case(sub, case, ctx):
    """Run one case; returns None (held), 'skip', or (kind, message)."""
    ctx.begin(case)
    cwd = os.getcwd()
    try:
        with time_limit(sub.case_limit):
            sub.check(case, ctx)
        return None
    except Skip:
        return 'skip'
    except Hang:
        return ('hang', f'did not finish within {sub.case_limit} s')
    except Exception as e:
        k = classify(e)
        msg = str(e) if isinstance(e, Violation) else describe(e)
        return (k, msg)
    finally:
        os.chdir(cwd)
        ctx.end()


def fewer_mutations(every=12):
    """hypothesis follows each new case by up to five copies of it with a few values repeated; here only some cases
    are followed by such copies, so that most of the budget goes to cases that are new altogether"""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner as R
        orig = R.generate_mutations_from
    except (ImportError, AttributeError):
        return
    if getattr(orig, 'fewer', False):
        return
    count = [0]

    def generate_mutations_from(self, data):
        count[0] += 1
        if count[0] % every == 0:
            orig(self, data)
    generate_mutations_from.fewer = True
    R.generate_mutations_from = generate_mutations_from


def run_sub(sub, seed, tier, budget, shrink_budget=60.0):
    """Search. Returns a JSON-able result."""
    import hypothesis
    fewer_mutations()
    from hypothesis import given, settings, HealthCheck, Phase
    n = sub.thorough if tier == 'thorough' else sub.quick
    ctx = Ctx()
    st = dict(evaluations=0, skipped=0, notrun=0, nontrivial=0, distinct=set(), labels={}, samples=[])
    fails = []       # (len, case, kind, msg)
    t0 = time.time()
    state = dict(first_fail=None)

    def body(case):
        now = time.time()
        if state['first_fail'] is None and now - t0 > budget:
            st['notrun'] += 1
            return
        if state['first_fail'] is not None and now - state['first_fail'] > shrink_budget:
            raise _Stop()
        r = run_case(sub, case, ctx)
        if r == 'skip':
            st['skipped'] += 1
            return
        if state['first_fail'] is None:
            st['evaluations'] += 1
            if ctx._nontrivial:
                st['nontrivial'] += 1
                h = hashlib.sha1(jkey(case).encode()).hexdigest()
                if h not in st['distinct']:
                    st['distinct'].add(h)
                    if len(st['samples']) < 3 or (len(st['samples']) < 6 and len(st['distinct']) % 17 == 0):
                        st['samples'].append(json.loads(jkey(case)))
            for l in ctx.case_labels:
                st['labels'][l] = st['labels'].get(l, 0) + 1
        if r is None:
            return
        kind, msg = r
        if kind == 'infra':
            fails.append((0, case, kind, msg))
            raise _Stop()
        if state['first_fail'] is None:
            state['first_fail'] = time.time()
        fails.append((len(jkey(case)), json.loads(jkey(case)), kind, msg))
        if kind == 'hang':
            raise _Stop()
        raise Violation('case failed')

    test = given(sub.strategy())(body)
    test = settings(max_examples=n, deadline=None, database=None, print_blob=False,
                    suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                    phases=(Phase.generate, Phase.shrink), derandomize=False,
                    verbosity=hypothesis.Verbosity.quiet)(test)
    test = hypothesis.seed(int(hashlib.sha1(f'{seed}/{sub.name}'.encode()).hexdigest()[:12], 16))(test)
    try:
        test()
    except _Stop:
        pass
    except Violation:
        pass
    except BaseException as e:
        if not fails:
            ctx.close()
            return dict(name=sub.name, status='error', msg='hypothesis: ' + describe(e))
    res = dict(name=sub.name, evaluations=st['evaluations'], skipped=st['skipped'], notrun=st['notrun'],
               distinct=len(st['distinct']), labels=st['labels'], samples=st['samples'],
               wall=time.time() - t0)
    infra = [f for f in fails if f[2] == 'infra']
    viol = [f for f in fails if f[2] != 'infra']
    if viol:
        # confirm outside the library, smallest first
        best = None
        order = sorted(viol, key=lambda f: f[0])
        for f in (order[:3] + [viol[0]]):
            if f[2] == 'hang':
                r2 = run_case(sub, f[1], ctx)
                if r2 is not None and r2 != 'skip' and r2[0] != 'infra':
                    best = (f[1], r2)
                    break
                continue
            for _ in range(2):
                r2 = run_case(sub, f[1], ctx)
                if r2 is not None and r2 != 'skip' and r2[0] in ('violation', 'hang'):
                    best = (f[1], r2)
                    break
            if best:
                break
        if best:
            res.update(status='violation', case=best[0], msg=best[1][1])
        else:
            f = viol[0]
            res.update(status='error', msg='failure did not reproduce outside the search: ' + f[3] +
                       ' case=' + jkey(f[1]))
    elif infra:
        res.update(status='error', msg=infra[0][3] + '\ncase=' + jkey(infra[0][1]))
    elif res['distinct'] < sub.min_nontrivial:
        res.update(status='error', msg=f'vacuous: only {res["distinct"]} non-trivial cases '
                                       f'({res["evaluations"]} evaluated, {res["skipped"]} skipped)')
    else:
        res.update(status='ok')
    ctx.close()
    return res
