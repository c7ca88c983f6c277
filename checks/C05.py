import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo

KINDS = tuple(zoo.ZOO)
MULT = (3, 1, 2, 4, 2)


def ll(m, s, plat=None, cpus=4, order=None):
    seams.CTL.cpus = cpus
    seams.CTL.pool_order = (lambda n: [k for k in order if k < n]) if order is not None else None
    try:
        with platform_(plat):
            return m.logLikelihood(s)
    finally:
        seams.CTL.cpus = 4
        seams.CTL.pool_order = None


def short(kind, T):
    """every short trace of a kind (impossible ones included)"""
    L = range(1, 4)
    if kind == 'hmm':
        return [list(w) for n in L for w in itertools.product('xyz'[:3 if T else 2], repeat=n)]
    if kind == 'gohmm':
        return [[[x]] for x in (0.0, 3.0, -40.0)] + [[[x], [y]] for x in (0.0, 60.0) for y in (1.0, -2.0)]
    o = ('init', 'a', 'b')
    if kind == 'mdp':
        return [[x] for x in o] + [[x, a, y] for x in o for a in 'lru' for y in o]
    if kind.endswith('untimed') or kind == 'mc':
        return [list(w) for n in L for w in itertools.product(o, repeat=n)]
    return [[x] for x in o] + [[x, d, y] for x in o for d in (0.5, 40.0) for y in o] + ([[x, 0.5, y, 2.0, z] for x in o for y in o for z in o] if T else [])


QUERIES = ('ll0', 'll1', 'llser', 'tau', 'b', 'str', 'pi', 'save', 'alphabet', 'run')


class C05(Check):
    id = 'C05'
    rule = ('for every model kind (MC, HMM, MDP, GoHMM, CTMC and PCTMC timed/untimed): all worker counts 1..9, all 120 completion orders and all 120 permutations of a '
            'five-trace set (one impossible) on both evaluation paths; all subsets of it; all histories of up to 2 (thorough: 3) queries on a shared model; the genuine multiprocessing pool on a few sets. '
            'every trace of up to 3 observations alone, evaluated five times. Non-trivial: distinct values.')
    assumptions = ['tasks run in isolated processes and exchange pickled values (validated against the genuine pool in family real_pool)']

    def families(self, tier):
        T = tier == 'thorough'
        km = [(k, i) for k in KINDS for i in range(len(zoo.ZOO[k]))]
        yield 'workers', ((k, i, c, plat) for k, i in km for c in (1, 2, 3, 4, 5, 9, 64) for plat in (None, 'darwin', 'win32'))
        yield 'orders', ((k, i, p) for k, i in km for p in range(0, 120, 1 if T else 7))
        yield 'perms', ((k, i, p) for k, i in km for p in range(0, 120, 1 if T else 5))
        yield 'subsets', ((k, i, b) for k, i in km for b in (range(1, 32) if T else range(1, 32, 3)))
        yield 'history', ((k, i, h) for k, i in km for h in itertools.product(range(len(QUERIES)), repeat=3 if T else 2))
        yield 'words', ((k, i, w, T) for k, i in km for w in range(len(short(k, T))))
        yield 'real_pool', ((k, i) for k, i in km)

    def setup(self, k, i):
        m, t, pos, imp = zoo.make(k, i)
        tr = pos + ([imp] if imp else [])
        return m, t, tr, list(MULT[:len(tr)])

    def same(self, got, exp, what):
        need(close(got, exp, 1e-10, 1e-12), lambda: 'logLikelihood %r != %r: %s' % (got, exp, what))

    def run(self, fam, case, st):
        k, i = case[0], case[1]
        m, t, tr, mult = self.setup(k, i)
        base_snap = zoo.snap(m)
        s = mk_set(tr, mult, t)
        sset = zoo.snap_set(s)
        exp = ll(m, mk_set(tr, mult, t))
        st.outcome((k, i, round(exp, 9), fam))
        if fam == 'words':
            # one short trace alone, possible or not, evaluated again and again in this process and in the pool
            w = short(k, case[3] if len(case) > 3 else False)[case[2]]
            if k == 'gohmm':
                w = [x * m.nb_distributions for x in w]
            vals = []
            for plat in ('darwin', None, 'win32', 'darwin', None):
                vals.append(ll(m, mk_set([w], [2], t), plat))
                need(zoo.snap(m) == base_snap, lambda: 'evaluating %s (platform %s) changed the model' % (w, plat))
            st.step(5)
            for v in vals[1:]:
                need(close(v, vals[0], 1e-10, 1e-12), lambda: 'log-likelihood of %s evaluated 5 times: %s' % (w, vals))
            self.same(ll(m, mk_set(tr[:1] + [w] + tr[1:2], [1, 2, 1], t), 'darwin'), ll(m, mk_set([w] + tr[:2], [2, 1, 1], t)), (case, w))
            if vals[0] != -9999:  # the answer when no timed trace at all is possible
                self.same(ll(m, mk_set(tr[:1] + [w], [1, 2], t), 'darwin'), (ll(m, mk_set(tr[:1], [1], t)) + 2 * vals[0]) / 3, (case, w, 'mean'))
            st.outcome((k, i, w and repr(w), round(vals[0], 9)))
        elif fam == 'workers':
            self.same(ll(m, s, case[3], case[2]), exp, case)
            st.step(2)
        elif fam == 'orders':
            perms = list(itertools.permutations(range(5)))
            self.same(ll(m, s, None, 4, perms[case[2]]), exp, case)
            st.step(2)
        elif fam == 'perms':
            p = list(itertools.permutations(range(5)))[case[2]]
            p = [j for j in p if j < len(tr)]
            for plat in (None, 'darwin'):
                q = mk_set([tr[j] for j in p], [mult[j] for j in p], t)
                qs = zoo.snap_set(q)
                self.same(ll(m, q, plat), exp, (case, plat))
                need(zoo.snap_set(q) == qs, lambda: 'logLikelihood changed the multiset of traces of the set: %r -> %r' % (qs, zoo.snap_set(q)))
                # a second evaluation of the same (possibly reordered) set object
                self.same(ll(m, q, 'darwin'), exp, (case, plat, 'again on darwin'))
                self.same(ll(m, q), exp, (case, plat, 'again'))
                st.step(3)
        elif fam == 'subsets':
            idx = [j for j in range(len(tr)) if case[2] >> j & 1]
            if idx and any(j < 4 for j in idx):
                q = [tr[j] for j in idx]
                w = [mult[j] for j in idx]
                e = ll(m, mk_set(q, w, t))
                self.same(ll(m, mk_set(q, w, t), 'darwin'), e, (case, 'darwin'))
                self.same(ll(m, mk_set(q[::-1], w[::-1], t), 'darwin'), e, (case, 'darwin reversed'))
                self.same(ll(m, mk_set(q[::-1], w[::-1], t), None, 1, [1, 0, 3, 2, 4]), e, (case, 'reversed'))
                # scaling every multiplicity changes nothing; splitting adds up
                self.same(ll(m, mk_set(q, [3 * x for x in w], t)), e, (case, 'multiplicities x3'))
                tot = sum(w)
                parts = sum(ll(m, mk_set([a], [b], t)) * b for a, b in zip(q, w) if a != (tr[4] if len(tr) > 4 else None))
                self.same(parts / tot, e, (case, 'not the weighted sum of the parts'))
                # the same trace listed several times with different multiplicities
                dq, dw = q + q[::-1] + q[:1], [2 * x for x in w] + [x for x in w[::-1]] + [3 * w[0]]
                de = ll(m, mk_set(q, [3 * x + (3 * x if j == 0 else 0) for j, x in enumerate(w)], t))
                for plat in (None, 'darwin'):
                    self.same(ll(m, mk_set([list(x) for x in dq], dw, t), plat), de, (case, 'repeated entries', plat))
                st.step(7 + len(q))
        elif fam == 'history':
            s2 = mk_set(tr[1:4], [1, 5, 2], t)
            e2 = ll(m, mk_set(tr[1:4], [1, 5, 2], t))
            for q in case[2]:
                self.query(QUERIES[q], m, s, s2, tr, st)
            self.same(ll(m, s), exp, (case, 'after the history'))
            self.same(ll(m, s2, 'darwin'), e2, (case, 'after the history, darwin'))
            self.same(ll(m, s2), e2, (case, 'after the history'))
            self.same(ll(m, s, 'darwin'), exp, (case, 'after the history, darwin'))
            st.step(4)
        elif fam == 'real_pool':
            seams.USE_REAL_POOL[0] = True
            try:
                self.same(ll(m, s, None, 3), exp, (case, 'genuine pool'))
                self.same(ll(m, mk_set(tr[::-1], mult[::-1], t), None, 2), exp, (case, 'genuine pool'))
            finally:
                seams.USE_REAL_POOL[0] = False
            st.step(2)
        need(zoo.snap_set(s) == sset, lambda: 'the set was changed: %r -> %r' % (sset, zoo.snap_set(s)))
        ns = zoo.snap(m)
        need(ns == base_snap, lambda: 'the model was changed: %r' % [(a, base_snap[a], ns[a]) for a in ns if ns[a] != base_snap.get(a)][:2])

    def query(self, q, m, s, s2, tr, st):
        st.step()
        if q == 'll0':
            ll(m, s)
        elif q == 'll1':
            ll(m, s2, None, 1, [2, 0, 1])
        elif q == 'llser':
            ll(m, s2, 'darwin')
        elif q == 'tau':
            for a in range(m.nb_states):
                if hasattr(m, 'actions'):
                    for x in m.actions:
                        m.tau(a, x, 0, tr[0][0])
                else:
                    m.tau(a, 0, tr[0][0])
                    m.a(a, 0) if hasattr(m, 'a') else None
        elif q == 'b':
            for a in range(m.nb_states):
                m.b(a, tr[0][0])
        elif q == 'str':
            str(m)
        elif q == 'pi':
            m.pi(0)
        elif q == 'save':
            m.save(self.scratch + '/m.txt')
        elif q == 'alphabet':
            getattr(m, 'getAlphabet', lambda: None)()
        elif q == 'run':
            if hasattr(m, 'actions'):
                import jajapy
                m.run(3, jajapy.UniformScheduler(list(m.actions)))
            else:
                m.run(3)


CHECK = C05()
