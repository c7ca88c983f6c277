import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo, tiny

S1 = [
    ([[[0.5]]], [2]),
    ([[[0.5], [2.0]], [[-1.0]]], [1, 3]),
    ([[[0.5], [2.0], [2.25], [-0.5]], [[1.0], [0.0]], [[3.0], [3.0], [3.0]]], [2, 1, 4]),
    ([[[0.0], [0.0]], [[5.0], [-2.0]]], [1, 1]),
]
S2 = [
    ([[[0.5, 4.0]]], [2]),
    ([[[0.5, 4.0], [2.0, 0.0]], [[-1.0, 1.0]]], [1, 3]),
    ([[[0.5, 4.0], [2.0, -1.0], [2.25, 0.5], [0.5, 0.0]], [[1.0, 1.0], [0.0, 3.0]], [[3.0, 3.0]] * 3], [2, 1, 4]),
]

XS = [([[[0.5], [2.0]], [[-1.0]], [[0.5], [2.0]]], [1, 3, 40]), ([[[0.0], [0.25]], [[2.5], [-2.0]]], [10 ** 6, 1]), ([[[1.0], [0.5], [0.25]]], [1])]


class C09(Check):
    id = 'C09'
    rule = ('one round of the real learner from every 2-state GoHMM with rows/initial distribution of denominator 2 (incl. unreachable states) and all assignments of (mean, deviation) from a grid, one and two dimensions, '
            'on several multisets of vector traces, compared with posterior expectations by enumeration of hidden paths; deviations 0.3 to 20 with transitions of probability 1e-5 and repeated entries; scaling families to 6 states, 3 dimensions, 15 vectors. Probabilities down to far below the smallest double (known findings). Non-trivial: distinct re-estimated models.')
    assumptions = ['floating point agreement to 1e-7 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L) for k in ('gohmm',) for L in tiny.lengths(k))
        par = [(0.0, 1.0), (2.0, 0.5), (-1.0, 3.0)]
        rows = list(itertools.product(dists(2, 2), repeat=2))
        yield 'dim1', (((r, 2, ((a,), (b,)), init), k) for i, (r, a, b, init, k) in enumerate(itertools.product(rows, par, par, dists(2, 2), range(len(S1)))) if T or keep(i, 2))
        yield 'dim2', (((r, 2, (o[:2], o[2:]), init), k) for i, (r, o, init, k) in enumerate(itertools.product(rows, itertools.product(par, repeat=4), dists(2, 2), range(len(S2)))) if keep(i, 2 if T else 16))
        # very different deviations, far means, rare transitions
        D = 10 ** 5
        sp = [(0.0, 0.3), (2.0, 20.0), (-3.0, 1.0), (0.5, 0.4)]
        yield 'skew', (x for i, x in enumerate(((r, D, ((a,), (b,)), init), k) for r in itertools.product(skews(2, D), repeat=2) for a in sp for b in sp for init in skews(2, D) for k in range(len(XS))) if keep(i, 2 if T else 10))
        yield 'scale', ((n, D, L) for n in (1, 2, 3, 6) for D in (1, 2, 3) for L in (1, 2, 6, 15))
        yield 'three', ((r, init, k) for r in itertools.product([(4, 0, 0), (2, 2, 0), (1, 2, 1), (0, 3, 1)], repeat=3) for init in ((1, 1, 2), (4, 0, 0)) for k in range(len(S1)))
        yield 'zoo', ((i, plat) for i in range(2) for plat in (None, 'darwin'))

    def check(self, d, seqs, mult, st, brute):
        rows, den0, outs, init = d
        n, D = len(rows), len(outs[0])
        P = [[x / den0 for x in r] for r in rows]
        I = [x / den0 for x in init]

        def emit(s, o):
            p = 1.0
            for j in range(D):
                p *= ref.normal_pdf(o[j], outs[s][j][0], outs[s][j][1])
            return p
        r = em.em_chain(n, I, P, emit, list(zip(seqs, mult)), brute)
        if not r['used']:
            return
        den = r['den']
        vis = [x > 0 for x in den]
        et = [[r['num'][s][t] / den[s] for t in range(n)] if vis[s] else P[s] for s in range(n)]
        mu = [[sum(g[s] * o[j] for g, o in r['post']) / den[s] if vis[s] else outs[s][j][0] for j in range(D)] for s in range(n)]
        sd = [[math.sqrt(sum(g[s] * (o[j] - outs[s][j][0]) ** 2 for g, o in r['post']) / den[s]) if vis[s] else outs[s][j][1] for j in range(D)] for s in range(n)]
        ini = [x / sum(r['init']) for x in r['init']]
        m = mk_gohmm(d)
        out, info = em.fit(m, mk_set(seqs, mult, 3), max_it=1)
        st.step()
        np = np_()
        ctx = lambda: ' [%r set %s]' % (d, list(zip(seqs, mult)))
        got = np.array(out.output, dtype=float)
        need(allclose(out.matrix, et, 1e-7), lambda: 'transitions %s expected %s%s' % (out.matrix.tolist(), et, ctx()))
        need(allclose(out.initial_state, ini, 1e-7), lambda: 'initial distribution %s expected %s%s' % (out.initial_state.tolist(), ini, ctx()))
        need(allclose(got[:, :, 0], mu, 1e-7), lambda: 'means %s expected %s%s' % (got[:, :, 0].tolist(), mu, ctx()))
        need(allclose(got[:, :, 1], sd, 1e-7), lambda: 'deviations %s expected %s%s' % (got[:, :, 1].tolist(), sd, ctx()))
        need(close(info['training_set_loglikelihood'], r['ll'], 1e-7, 1e-10 + 1e-12 * sum(mult)), lambda: 'reported training log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], r['ll'], ctx()))
        st.outcome((et, mu, sd))

    def run(self, fam, case, st):
        if fam == 'tiny':
            tiny.learned(*case, st)
            return
        if fam == 'skew':
            d, k = case
            self.check(d, XS[k][0], XS[k][1], st, True)
        elif fam in ('dim1', 'dim2'):
            d, k = case
            seqs, mult = (S1 if fam == 'dim1' else S2)[k]
            self.check(d, seqs, mult, st, True)
        elif fam == 'three':
            r, init, k = case
            self.check((r, 4, (((0.0, 1.0),), ((2.0, 0.5),), ((-1.0, 3.0),)), init), S1[k][0], S1[k][1], st, True)
        elif fam == 'scale':
            n, D, L = case
            rows = tuple(tuple(1 + (i * 2 + j) % n for j in range(n)) for i in range(n)) if n % 2 else tuple(tuple(1 + (i + j) % n for j in range(n)) for i in range(n))
            outs = tuple(tuple((float((s * 3 + j) % 5) - 2, 0.5 + (s + j) % 3) for j in range(D)) for s in range(n))
            seqs = [[[((j * j + k) % 7) * 0.5 - 1.0 + x for x in range(D)] for j in range(L + k)] for k in range(3)]
            self.check((rows, n * (n + 1) // 2, outs, rows[0]), seqs, [1, 2, 5], st, False)
        elif fam == 'zoo':
            i, plat = case
            mk, d, t, pos, imp = zoo.ZOO['gohmm'][i]
            with platform_(plat):
                self.check(d, pos, [3, 1, 2500, 70001], st, True)


CHECK = C09()
