"""Bounded spaces (literal descriptors) and constructors of real jajapy objects from them."""
import itertools
from functools import lru_cache


def compositions(d, n):
    """all n-tuples of non-negative ints summing to d"""
    if n == 1:
        yield (d,)
        return
    for k in range(d, -1, -1):
        for r in compositions(d - k, n - 1):
            yield (k,) + r


@lru_cache(None)
def dists(n, d):
    """all probability vectors of length n with denominator d, as tuples of ints (to be divided by d)"""
    return tuple(compositions(d, n))


@lru_cache(None)
def skews(n, D):
    """very unbalanced distributions with denominator D: the permutations of (D,0..), (D-1,1,0..) and (D-2,1,1,0..)"""
    res = set()
    for k in range(min(n, 3)):
        res |= set(itertools.permutations((D - k,) + (1,) * k + (0,) * (n - 1 - k)))
    return tuple(sorted(res))


def words(alpha, lo, hi):
    for L in range(lo, hi + 1):
        for w in itertools.product(alpha, repeat=L):
            yield list(w)


def fl(rows, d):
    return [[x / d for x in r] for r in rows]


def multisets(k, maxmult):
    """multiplicity vectors of length k with entries 0..maxmult, not all zero"""
    for m in itertools.product(range(maxmult + 1), repeat=k):
        if any(m):
            yield m


def api():
    import jajapy
    return jajapy


def np_():
    import numpy
    return numpy


def mk_mc(m, name='m'):
    """m = (labels, rows, d)"""
    ja, np = api(), np_()
    return ja.MC(np.array(fl(m[1], m[2]), dtype=float), list(m[0]), name)


def mk_hmm(m, name='h'):
    """m = (alphabet, rows, outs, init, d)"""
    ja, np = api(), np_()
    a, rows, outs, init, d = m
    return ja.HMM(np.array(fl(rows, d), dtype=float), np.array(fl(outs, d), dtype=float), list(a), [x / d for x in init], name)


def mk_mdp(m, name='mdp'):
    """m = (labels, actions, rows[s][a], d)"""
    ja, np = api(), np_()
    labels, acts, rows, d = m
    return ja.MDP(np.array([fl(r, d) for r in rows], dtype=float), list(labels), list(acts), name)


def mk_ctmc(m, name='c', sync=None):
    """m = (labels, rates)"""
    ja, np = api(), np_()
    if sync is None:
        return ja.CTMC(np.array(m[1], dtype=float), list(m[0]), name)
    return ja.CTMC(np.array(m[1], dtype=float), list(m[0]), name, [tuple(t) for t in sync])


def mk_gohmm(m, name='g'):
    """m = (rows, d, outputs, init)"""
    ja, np = api(), np_()
    from jajapy.gohmm.GoHMM import GoHMM
    rows, d, outs, init = m
    return GoHMM(np.array(fl(rows, d), dtype=float), np.array(outs, dtype=float), [x / d for x in init], name)


def mk_set(seqs, times, t):
    ja = api()
    return ja.Set([list(s) for s in seqs], list(times), t)


def as_platform(name):
    """make jajapy believe it runs on `name` (selects its single-process evaluation path)"""
    import sys
    for k, mod in list(sys.modules.items()):
        if k.startswith('jajapy') and hasattr(mod, 'platform') and isinstance(mod.platform, str):
            mod.platform = name
    sys.platform = name


class platform_:
    def __init__(self, name):
        self.name = name

    def __enter__(self):
        if self.name:
            as_platform(self.name)

    def __exit__(self, *a):
        if self.name:
            as_platform('linux')
        return False


def keep(i, k):
    """deterministic thinning of an enumeration (quick tier), free of aliasing with the enumeration's inner loops"""
    x = (i * 2654435761) & 0xffffffff
    x ^= x >> 15
    x = (x * 2246822519) & 0xffffffff
    x ^= x >> 13
    return x % k == 0


class without_storm:
    """the code under test sees a machine where stormpy is not installed"""
    NAMES = ('stormpy', 'jajapy.with_stormpy', 'jajapy.with_stormpy.model_converter')

    def __enter__(self):
        import sys
        import jajapy
        self.saved = {n: sys.modules.get(n) for n in self.NAMES}
        for n in self.NAMES:
            sys.modules[n] = None
        return self

    def __exit__(self, *a):
        import sys
        for n, m in self.saved.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
