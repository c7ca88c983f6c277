"""Environment seams.  Must be imported before jajapy.

Everything jajapy can use as a source of nondeterminism is replaced by an
object this harness decides:

* `random.*` and `numpy.random.*`  -> draws answered by CTL (a controller),
* `multiprocessing.Pool`           -> FakePool: isolated (pickled) tasks run in
                                      the completion order CTL.pool_order asks,
* `multiprocessing.cpu_count`      -> CTL.cpus,
* `alive_progress.alive_bar`       -> no-op (wall-clock animation thread),
* `os.system` ('clear')            -> recorded, never executed.

The seams are installed at module level of the *standard* modules, so it does
not matter how jajapy spells its imports.
"""
import os, sys, random as _random, math, pickle, itertools
import multiprocessing as _mp
import numpy as _np
import numpy.random as _npr
from statistics import NormalDist as _ND


class Draw(Exception):
    pass


class Controller:
    """Answers every uniform draw.

    mode 'real'   : delegate to the genuine generators
    mode 'grid'   : draw k answers (prefix[k]+0.5)/base (or base[prefix[k]] when base
                    is a tuple of points); past the prefix answer choice 0 and record,
                    so a DFS can enumerate every sequence.
    mode 'script' : answer literally from a list of floats in [0,1)
    """

    def __init__(self):
        self.cpus = 4
        self.pool_order = None          # None | callable(n)->permutation
        self.pools = []                 # requested pool sizes
        self.system_calls = []
        self.real()

    def real(self):
        self.mode = 'real'
        self.log = []
        self.seeds = []

    def grid(self, base, prefix=()):
        self.mode = 'grid'
        self.base = base
        self.prefix = list(prefix)
        self.choices = []
        self.log = []
        self.seeds = []

    def script(self, values):
        self.mode = 'script'
        self.values = list(values)
        self.pos = 0
        self.log = []
        self.seeds = []

    def uniform(self):
        if self.mode == 'real':
            return _real_inst.random()
        if self.mode == 'grid':
            k = len(self.choices)
            c = self.prefix[k] if k < len(self.prefix) else 0
            self.choices.append(c)
            return self.base[c] if isinstance(self.base, tuple) else (c + 0.5) / self.base
        if self.pos >= len(self.values):
            raise Draw('script exhausted after %d draws' % self.pos)
        v = self.values[self.pos]
        self.pos += 1
        return v


CTL = Controller()
_real_inst = _random.Random()


class _CtlRandom(_random.Random):
    def random(self):
        return CTL.uniform()

    def gauss(self, mu=0.0, sigma=1.0):
        return _normal(mu, sigma)

    normalvariate = gauss

    def seed(self, *a, **k):
        if a or k:
            CTL_seed('random', a[0] if a else k.get('a'))
        return None


def CTL_seed(which, v):
    if 'CTL' in globals():
        CTL.seeds.append((which, v))


_inst = _CtlRandom()
_REAL_RANDOM = {}
for _n in ('random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
           'choices', 'normalvariate', 'gauss', 'expovariate', 'seed', 'betavariate', 'getrandbits'):
    if not hasattr(_random, _n):
        continue
    _REAL_RANDOM[_n] = getattr(_random, _n)

    def _mk(n):
        ctl, real = getattr(_inst, n), _REAL_RANDOM[n]

        def f(*a, **k):
            return real(*a, **k) if CTL.mode == 'real' else ctl(*a, **k)
        f.__name__ = n
        return f
    setattr(_random, _n, _mk(_n))


# --- numpy.random -----------------------------------------------------------
def _fill(size, one):
    if size is None:
        return one()
    shape = (size,) if isinstance(size, (int, _np.integer)) else tuple(size)
    out = _np.array([one() for _ in range(int(_np.prod(shape)))])
    return out.reshape(shape)


def _broadcast(one):
    """array parameters are answered element by element, like numpy does"""
    def f(*a, size=None, **k):
        a = list(a)
        npar = f.npar
        if len(a) > npar:               # size given by position
            size = a.pop()
        arrays = [x for x in list(a) + list(k.values()) if _np.ndim(x) > 0]
        if not arrays:
            return one(*a, size=size, **k)
        shape = _np.broadcast(*[_np.asarray(x) for x in arrays]).shape
        if size is not None:
            shape = _np.broadcast_shapes(shape, (size,) if isinstance(size, (int, _np.integer)) else tuple(size))
        a = [_np.broadcast_to(_np.asarray(x), shape).ravel() for x in a]
        k = {n: _np.broadcast_to(_np.asarray(x), shape).ravel() for n, x in k.items()}
        n = int(_np.prod(shape))
        return _np.array([one(*[x[i] for x in a], **{m: x[i] for m, x in k.items()}) for i in range(n)]).reshape(shape)
    f.npar = one.__code__.co_argcount - 1
    f.__name__ = one.__name__
    return f


@_broadcast
def _exponential(scale=1.0, size=None):
    scale = float(scale)
    if scale < 0:
        raise ValueError("scale < 0")
    return _fill(size, lambda: -scale * math.log1p(-CTL.uniform()))


@_broadcast
def _normal(loc=0.0, scale=1.0, size=None):
    if scale < 0:
        raise ValueError("scale < 0")
    if scale == 0:
        return _fill(size, lambda: (CTL.uniform(), float(loc))[1])
    return _fill(size, lambda: float(loc) + float(scale) * _ND().inv_cdf(CTL.uniform()))


@_broadcast
def _geometric(p, size=None):
    if not 0 < p <= 1:
        raise ValueError("p must be in (0,1]")

    def one():
        u = CTL.uniform()
        return 1 if p == 1 else max(1, math.ceil(math.log1p(-u) / math.log1p(-p)))
    return _fill(size, one)


def _randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    if high <= low:
        raise ValueError("low >= high")
    return _fill(size, lambda: int(low) + int(CTL.uniform() * (int(high) - int(low))))


def _rand(*shape):
    return _fill(shape if shape else None, CTL.uniform)


def _random_sample(size=None):
    return _fill(size, CTL.uniform)


@_broadcast
def _uniform(low=0.0, high=1.0, size=None):
    low, high = float(low), float(high)
    return _fill(size, lambda: low + (high - low) * CTL.uniform())


def _npchoice(a, size=None, replace=True, p=None):
    n = a if isinstance(a, (int, _np.integer)) else len(a)

    def one():
        u = CTL.uniform()
        if p is None:
            i = int(u * n)
        else:
            c = _np.cumsum(p)
            i = int(_np.searchsorted(c / c[-1], u, side='right'))
        return i if isinstance(a, (int, _np.integer)) else a[i]
    return _fill(size, one)


def _npseed(s=None):
    CTL.seeds.append(('numpy', s))


def _multinomial(n, pvals, size=None):
    pv = [float(x) for x in pvals]

    def one():
        out = _np.zeros(len(pv), dtype=int)
        for _ in range(int(n)):
            out[_npchoice(len(pv), p=pv)] += 1
        return out
    return one() if size is None else _np.array([one() for _ in range(int(_np.prod(size)))])


def _shuffle(x):
    for i in reversed(range(1, len(x))):
        j = int(CTL.uniform() * (i + 1))
        x[i], x[j] = (x[j].copy(), x[i].copy()) if isinstance(x, _np.ndarray) else (x[j], x[i])


def _permutation(x):
    a = list(range(int(x))) if isinstance(x, (int, _np.integer)) else list(x)
    _shuffle(a)
    return _np.array(a)


_REAL_NP = {}
for _n, _f in dict(exponential=_exponential, normal=_normal, geometric=_geometric, randint=_randint,
                   rand=_rand, random=_random_sample, random_sample=_random_sample, ranf=_random_sample,
                   sample=_random_sample, uniform=_uniform, choice=_npchoice, seed=_npseed,
                   standard_exponential=lambda size=None: _exponential(1.0, size),
                   standard_normal=lambda size=None: _normal(0.0, 1.0, size), multinomial=_multinomial,
                   shuffle=_shuffle, permutation=_permutation).items():
    if not hasattr(_npr, _n):
        continue
    _REAL_NP[_n] = getattr(_npr, _n)

    def _mk2(n, ctl):
        real = _REAL_NP[n]

        def f(*a, **k):
            return real(*a, **k) if CTL.mode == 'real' else ctl(*a, **k)
        f.__name__ = n
        return f
    setattr(_npr, _n, _mk2(_n, _f))


class _CtlGenerator:
    """numpy.random.Generator objects created by the code under test while the
    controller is active; anything not listed is answered by a genuine generator"""
    random = staticmethod(_random_sample)
    random_sample = staticmethod(_random_sample)
    rand = staticmethod(_rand)
    uniform = staticmethod(_uniform)
    exponential = staticmethod(_exponential)
    normal = staticmethod(_normal)
    geometric = staticmethod(_geometric)
    choice = staticmethod(_npchoice)
    multinomial = staticmethod(_multinomial)
    shuffle = staticmethod(_shuffle)
    permutation = staticmethod(_permutation)
    randint = staticmethod(_randint)

    def __init__(self, seed=None):
        CTL.seeds.append(('numpy', seed))

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        return _randint(low, high + 1 if endpoint else high, size)

    def standard_exponential(self, size=None):
        return _exponential(1.0, size)

    def standard_normal(self, size=None):
        return _normal(0.0, 1.0, size)

    def seed(self, s=None):
        _npseed(s)


_REAL_DEFAULT_RNG = _npr.default_rng


def _default_rng(seed=None):
    return _REAL_DEFAULT_RNG(seed) if CTL.mode == 'real' else _CtlGenerator(seed)


_npr.default_rng = _default_rng


def enumerate_draws(base, fn, max_draws=64):
    """Stateless DFS over every answer to every uniform draw made by fn().
    Yields (weight, result): weight is the exact probability base**-draws."""
    size = len(base) if isinstance(base, tuple) else base
    prefix = []
    while True:
        CTL.grid(base, prefix)
        res = fn()
        ch = CTL.choices
        if len(ch) > max_draws:
            CTL.real()
            raise RuntimeError('more than %d draws' % max_draws)
        if ch[:len(prefix)] != list(prefix):
            CTL.real()
            raise RuntimeError('divergence while replaying a prefix')
        yield len(ch), res
        i = len(ch) - 1
        while i >= 0 and ch[i] == size - 1:
            i -= 1
        if i < 0:
            break
        prefix = ch[:i] + [ch[i] + 1]
    CTL.real()


def deviations(points, k, fn):
    """Every execution of fn() with at most k draws answered otherwise than points[0] (points: answers to a draw)"""
    todo = [([], 0)]
    while todo:
        prefix, dev = todo.pop()
        CTL.grid(tuple(points), prefix)
        res = fn()
        ch = list(CTL.choices)
        CTL.real()
        if ch[:len(prefix)] != prefix:
            raise RuntimeError('divergence while replaying a prefix')
        yield len(ch), res
        if dev < k:
            for i in range(len(ch) - 1, len(prefix) - 1, -1):
                for a in range(len(points) - 1, 0, -1):
                    todo.append((ch[:i] + [a], dev + 1))


# --- multiprocessing --------------------------------------------------------
REAL_POOL = _mp.Pool
REAL_CPU_COUNT = _mp.cpu_count


class _Result:
    def __init__(self, pool, f, a, k, cb=None, ecb=None):
        # the genuine pool pickles the task when its feeder thread gets to it, i.e. at
        # about submission time, and runs it in another address space.
        self.blob = pickle.dumps((f, a, k))
        self.pool, self.cb, self.ecb = pool, cb, ecb
        self.done = False

    def _run(self):
        if self.done:
            return
        f, a, k = pickle.loads(self.blob)
        try:
            v = f(*a, **k)
            self.v, self.e = pickle.loads(pickle.dumps(v)), None
        except Exception as e:              # re-raised by get(), like the genuine pool
            self.v, self.e = None, e
        self.done = True
        if self.e is None and self.cb:
            self.cb(self.v)
        if self.e is not None and self.ecb:
            self.ecb(self.e)

    def wait(self, timeout=None):
        self.pool._drain()

    def ready(self):
        return self.done

    def successful(self):
        return self.done and self.e is None

    def get(self, timeout=None):
        self.pool._drain()
        if self.e is not None:
            raise self.e
        return self.v


def _map_chunk(f, xs):
    return [f(x) for x in xs]


def _starmap_chunk(f, xs):
    return [f(*x) for x in xs]


class FakePool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
        CTL.pools.append(processes)
        self.q = []
        self.closed = False
        self.n = processes or CTL.cpus
        if initializer:
            initializer(*initargs)

    def _drain(self):
        q = [r for r in self.q if not r.done]
        if not q:
            return
        order = CTL.pool_order(len(q)) if CTL.pool_order else range(len(q))
        for i in order:
            q[i]._run()

    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        r = _Result(self, f, tuple(args), dict(kwds), callback, error_callback)
        self.q.append(r)
        return r

    def apply(self, f, args=(), kwds={}):
        return self.apply_async(f, args, kwds).get()

    def _chunks(self, g, f, it, size, cb):
        # like the genuine pool: the tasks of a chunk are pickled together (they share the
        # copy of what they refer to) and executed one after the other by one worker
        it = list(it)
        if size is None:
            size = max(1, -(-len(it) // (4 * self.n)))
        return _Many([self.apply_async(g, (f, it[i:i + size])) for i in range(0, len(it), size)], cb)

    def map_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._chunks(_map_chunk, f, it, chunksize, callback)

    def map(self, f, it, chunksize=None):
        return self.map_async(f, it, chunksize).get()

    def starmap_async(self, f, it, chunksize=None, callback=None, error_callback=None):
        return self._chunks(_starmap_chunk, f, it, chunksize, callback)

    def starmap(self, f, it, chunksize=None):
        return self.starmap_async(f, it, chunksize).get()

    def imap(self, f, it, chunksize=1):
        return iter(self.map(f, it, chunksize))

    def imap_unordered(self, f, it, chunksize=1):
        rs = [self.apply_async(f, (x,)) for x in it]
        order = list(CTL.pool_order(len(rs)) if CTL.pool_order else range(len(rs)))
        self._drain()
        return iter([rs[i].get() for i in order])

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        self._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class _Many:
    def __init__(self, rs, cb):
        self.rs, self.cb = rs, cb

    def get(self, timeout=None):
        v = [x for r in self.rs for x in r.get()]
        if self.cb:
            self.cb(v)
        return v

    def wait(self, timeout=None):
        for r in self.rs:
            r.wait()


USE_REAL_POOL = [False]


def _pool(*a, **k):
    return REAL_POOL(*a, **k) if USE_REAL_POOL[0] else FakePool(*a, **k)


_mp.Pool = _pool
_mp.cpu_count = lambda: CTL.cpus
_REAL_OS_CPU = os.cpu_count


# the same pool under the other names the standard library gives it
import multiprocessing.pool as _mpp
import multiprocessing.context as _mpc
import concurrent.futures as _cf
_mpp.ThreadPool = lambda processes=None, initializer=None, initargs=(): _pool(processes, initializer, initargs)
_REAL_CTX_POOL = _mpc.BaseContext.Pool


def _ctx_pool(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None):
    if USE_REAL_POOL[0]:
        return _REAL_CTX_POOL(self, processes, initializer, initargs, maxtasksperchild)
    return FakePool(processes, initializer, initargs, maxtasksperchild)


_mpc.BaseContext.Pool = _ctx_pool
_mpc.BaseContext.cpu_count = lambda self: CTL.cpus


class _Future:
    def __init__(self, r):
        self.r = r

    def result(self, timeout=None):
        return self.r.get()

    def exception(self, timeout=None):
        self.r.wait()
        return self.r.e

    def done(self):
        return self.r.ready()


class FakeExecutor:
    """concurrent.futures executor over the controlled pool"""
    def __init__(self, max_workers=None, *a, initializer=None, initargs=(), **k):
        if max_workers is not None and max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.p = FakePool(max_workers, initializer, initargs)

    def submit(self, f, *a, **k):
        return _Future(self.p.apply_async(f, a, k))

    def map(self, f, *its, timeout=None, chunksize=1):
        return iter([x.result() for x in [self.submit(f, *a) for a in zip(*its)]])

    def shutdown(self, wait=True, cancel_futures=False):
        self.p._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def _as_completed(fs, timeout=None):
    fs = list(fs)
    if not all(isinstance(f, _Future) for f in fs):
        return _REAL_AS_COMPLETED(fs, timeout)
    order = list(CTL.pool_order(len(fs)) if CTL.pool_order else range(len(fs)))
    if fs:
        fs[0].r.wait()
    return iter([fs[i] for i in order])


_REAL_AS_COMPLETED = _cf.as_completed
_REAL_PPE, _REAL_TPE = _cf.ProcessPoolExecutor, _cf.ThreadPoolExecutor
_cf.as_completed = _as_completed
_cf.ProcessPoolExecutor = lambda *a, **k: _REAL_PPE(*a, **k) if USE_REAL_POOL[0] else FakeExecutor(*a, **k)
_cf.ThreadPoolExecutor = lambda *a, **k: _REAL_TPE(*a, **k) if USE_REAL_POOL[0] else FakeExecutor(*a, **k)


# --- progress bar, terminal -------------------------------------------------
class _Bar:
    text = ''

    def __call__(self, *a, **k):
        return None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


import alive_progress as _ap
_ap.alive_bar = lambda *a, **k: _Bar()


def _fake_system(cmd):
    CTL.system_calls.append(cmd)
    return 0


os.system = _fake_system
