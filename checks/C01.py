import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, tiny
from mc import ref

SER = ('darwin', None)


def value_of(model, seqs, times, t, plat):
    with platform_(plat):
        return model.logLikelihood(mk_set(seqs, times, t))


def ring(n, labels, kind):
    """deterministic scaling family of MCs on n+1 states (last one is init)"""
    N = n + 1
    rows = [[0] * N for _ in range(N)]
    if kind == 'ring':
        for i in range(n):
            rows[i][i] += 2
            rows[i][(i + 1) % n] += 1
    elif kind == 'dense':
        for i in range(n):
            k = n * (n + 1) // 2
            for j in range(n):
                rows[i][(i + j) % n] = j + 1
            rows[i] = [x * 3 for x in rows[i]]      # scaled below
    else:                                           # ladder with restarts through the initial state
        for i in range(n):
            rows[i][min(i + 1, n - 1)] += 1
            rows[i][n] += 2
    rows[n][0] = 1
    if n > 1:
        rows[n][n - 1] = 2
    else:
        rows[n][0] = 3
    from math import gcd
    d = 1
    for r in rows:
        d = d * sum(r) // gcd(d, sum(r))
    rows = tuple(tuple(x * (d // sum(r)) for x in r) for r in rows)
    labs = tuple(labels[i % len(labels)] for i in range(n)) + ('init',)
    return (labs, rows, d)


class C01(Check):
    id = 'C01'
    rule = ('all MCs with 3 states (rows with denominator 2, plus dead-end rows, every labelling over {a,b,init} with an initial state) and all '
            '2-state HMMs (denominator 2, 2 symbols) x all traces up to length 4 (plus an unknown symbol), each on the multi-process and single-process '
            'path; the same with very unbalanced rows (1e-4, 1e-9 and 1e-14); all multiplicity vectors over trace triples, repeated entries; scaling families up to 12 states and 40 observations. Probabilities down to far below the smallest double (known findings). Histories: answers after queries, learning rounds and uses of another model equal those of the same model rebuilt. Non-trivial: distinct finite '
            'log-likelihood values.')
    assumptions = ['floating point agreement to 1e-8 relative', 'probabilities outside the grids are covered only by the scaling families']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L, plat) for k in ('mc', 'hmm') for L in tiny.lengths(k) for plat in (None, 'darwin'))
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('mc', 'hmm') for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or True)
        # --- MC ---
        rows3 = [r for r in dists(3, 2)] + [(0, 0, 0)]

        def mc_models():
            for labs in itertools.product(('a', 'b', 'init'), repeat=2):
                labels = labs + ('init',)
                for m in itertools.product(rows3, repeat=3):
                    yield (labels, m, 2)
        yield 'mc3', mc_models()

        def mc_sets():
            i = 0
            for labs in itertools.product(('a', 'b'), repeat=2):
                for m in itertools.product(dists(3, 2)[:5], dists(3, 2)[:5], ((1, 1, 0), (2, 0, 0))):
                    i += 1
                    if T or keep(i, 3):
                        yield (labs + ('init',), m, 2)
        yield 'mc_sets', mc_sets()
        def mc_skew():
            i = 0
            for D in (10 ** 4, 10 ** 9, 10 ** 14):
                for labs in (('a', 'b'), ('a', 'a')):
                    for m in itertools.product(skews(3, D), skews(3, D), ((D - 1, 1, 0), (1, D - 1, 0), (D // 2, D - D // 2, 0))):
                        i += 1
                        if T or keep(i, 3):
                            yield (labs + ('init',), m, D)
        yield 'mc_skew', mc_skew()
        yield 'mc_scale', ((n, k, lab) for n in range(1, 13) for k in ('ring', 'dense', 'ladder')
                           for lab in (('a',), ('a', 'b'), tuple('l%d' % i for i in range(12))))
        # --- HMM ---

        def hmm_models():
            for rows in itertools.product(dists(2, 2) + ((0, 0),), repeat=2):
                for outs in itertools.product(dists(2, 2), repeat=2):
                    for init in dists(2, 2):
                        yield (('x', 'y'), rows, outs, init, 2)
        yield 'hmm2', hmm_models()
        yield 'hmm_sets', (m for i, m in enumerate(hmm_models()) if T or keep(i, 4))
        def hmm_skew():
            i = 0
            for D in (10 ** 4, 10 ** 9, 10 ** 14):
                for rows in itertools.product(skews(2, D), repeat=2):
                    for outs in itertools.product(skews(2, D), repeat=2):
                        for init in ((D - 1, 1), (0, D), (D // 2, D - D // 2)):
                            i += 1
                            if T or keep(i, 4):
                                yield (('x', 'y'), rows, outs, init, D)
        yield 'hmm_skew', hmm_skew()
        yield 'hmm_scale', ((n, q) for n in range(1, 11) for q in range(1, 6))
        if T:
            yield 'hmm3', ((('x', 'y'), rows, outs, init, 2) for rows in itertools.product(dists(3, 2), repeat=3)
                           for outs in itertools.product(dists(2, 2), repeat=3) for init in ((2, 0, 0), (0, 1, 1)))

    # -- helpers
    def cmp(self, model, seqs, times, exp, st, what):
        for plat in SER:
            got = value_of(model, seqs, times, 0, plat)
            st.step()
            need(close(got, exp), lambda: 'logLikelihood(%s)=%r expected %r [%s] %s' % (list(zip(seqs, times)), got, exp, plat or 'linux', what))
        st.outcome(round(exp, 9))

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='loglikelihood')
            return
        if fam == 'tiny':
            tiny.likelihood(*case, st)
            return
        if fam in ('mc3', 'mc_skew'):
            labels, rows, d = case
            P = ref.fracs(rows, d)
            m = mk_mc(case)
            ws = list(words(('a', 'b', 'init'), 1, 3)) + [['init', 'a', 'a', 'b'], ['init', 'a', 'b', 'a'], ['init', 'b', 'b', 'b'],
                                                          ['init', 'zz'], ['zz'], ['init', 'a', 'zz', 'a']]
            possible = []
            for w in ws:
                p = ref.mc_prob(labels, P, w)
                if p > 0:
                    possible.append(w)
                    self.cmp(m, [w], [1], ref.flog(p), st, case)
            # every impossible trace is silently worth nothing, next to one possible trace
            imp = [w for w in ws if w not in possible]
            if possible:
                w = possible[-1]
                lp = ref.flog(ref.mc_prob(labels, P, w))
                if len(imp) > 12:
                    imp = imp[::len(imp) // 12]
                for v in imp:
                    self.cmp(m, [v, w], [2, 1], lp / 3, st, case)
        elif fam == 'mc_sets':
            labels, rows, d = case
            P = ref.fracs(rows, d)
            m = mk_mc(case)
            tri = [['init', 'a'], ['init', 'a', 'a'], ['init', 'a', 'b', 'b'], ['init', 'b', 'a']]
            pr = [ref.mc_prob(labels, P, w) for w in tri]
            for mult in multisets(4, 2):
                idx = [i for i in range(4) if mult[i]]
                if not any(pr[i] for i in idx):
                    continue
                self.cmp(m, [tri[i] for i in idx], [mult[i] for i in idx], ref.wmean([pr[i] for i in idx], [mult[i] for i in idx]), st, case)
            for i, j in itertools.permutations(range(4), 2):    # a trace listed several times
                if pr[i]:
                    self.cmp(m, [tri[i], tri[j], list(tri[i])], [2, 1, 5], ref.wmean([pr[i], pr[j]], [7, 1]), st, case)
            if pr[2]:
                self.cmp(m, [tri[2], tri[1]], [1000003, 7], ref.wmean([pr[2], pr[1]], [1000003, 7]), st, case)
        elif fam == 'mc_scale':
            n, k, lab = case
            desc = ring(n, lab, k)
            P = ref.fracs(desc[1], desc[2])
            m = mk_mc(desc)
            for L in (1, 2, 5, 11, 40):
                for start in (0, n - 1):
                    s, tr = n, ['init']
                    s = start
                    for j in range(L):
                        tr.append(desc[0][s])
                        succ = [t for t in range(n + 1) if P[s][t] > 0]
                        s = succ[(j * 7 + L) % len(succ)]
                    p = ref.mc_prob(desc[0], P, tr)
                    if p > 0:
                        self.cmp(m, [tr, ['init']], [3, 1], 3 * ref.flog(p) / 4, st, case)
        elif fam in ('hmm2', 'hmm3', 'hmm_skew'):
            a, rows, outs, init, d = case
            P, O, I = ref.fracs(rows, d), ref.fracs(outs, d), [F(x, d) for x in init]
            m = mk_hmm(case)
            ws = list(words(('x', 'y'), 1, 3)) + [['x', 'x', 'y', 'y'], ['y', 'x', 'y', 'x'], ['x', 'y', 'y', 'x', 'y'], ['zz'], ['x', 'zz']]
            imp, pos = [], []
            for w in ws:
                p = ref.hmm_prob(a, P, O, I, w)
                (pos if p > 0 else imp).append(w)
                if p > 0:
                    self.cmp(m, [w], [1], ref.flog(p), st, case)
            if pos:
                lp = ref.flog(ref.hmm_prob(a, P, O, I, pos[-1]))
                for v in imp[::2]:
                    self.cmp(m, [pos[-1], v], [1, 3], lp / 4, st, case)
        elif fam == 'hmm_sets':
            a, rows, outs, init, d = case
            P, O, I = ref.fracs(rows, d), ref.fracs(outs, d), [F(x, d) for x in init]
            m = mk_hmm(case)
            tri = [['x'], ['x', 'x'], ['x', 'y', 'x'], ['y', 'y']]
            pr = [ref.hmm_prob(a, P, O, I, w) for w in tri]
            for mult in multisets(4, 2):
                idx = [i for i in range(4) if mult[i]]
                if any(pr[i] for i in idx):
                    self.cmp(m, [tri[i] for i in idx], [mult[i] for i in idx],
                             ref.wmean([pr[i] for i in idx], [mult[i] for i in idx]), st, case)
            for i, j in itertools.permutations(range(4), 2):
                if pr[i]:
                    self.cmp(m, [tri[i], tri[j], list(tri[i])], [2, 1, 5], ref.wmean([pr[i], pr[j]], [7, 1]), st, case)
        elif fam == 'hmm_scale':
            n, q = case
            al = tuple('s%d' % i for i in range(q))
            d = n * (n + 1) // 2 * (q * (q + 1) // 2)
            rows = tuple(tuple((1 + (i + j) % n) * (d // (n * (n + 1) // 2)) for j in range(n)) for i in range(n))
            outs = tuple(tuple((1 + (i * 3 + j) % q) * (d // (q * (q + 1) // 2)) for j in range(q)) for i in range(n))
            init = rows[n // 2]
            desc = (al, rows, outs, init, d)
            P, O, I = ref.fracs(rows, d), ref.fracs(outs, d), [F(x, d) for x in init]
            m = mk_hmm(desc)
            for L in (1, 2, 6, 30):
                w = [al[(j * j + L) % q] for j in range(L)]
                v = w[:L // 2] + [al[(j + 1) % q] for j in range(L)]
                pw, pv = ref.hmm_prob(al, P, O, I, w), ref.hmm_prob(al, P, O, I, v)
                self.cmp(m, [w, v] if w != v else [w], [2, 5] if w != v else [7],
                         (2 * ref.flog(pw) + 5 * ref.flog(pv)) / 7 if w != v else ref.flog(pw), st, case)


CHECK = C01()
