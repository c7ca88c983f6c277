import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo, tiny

MCSETS = [
    ((['init', 'a'],), (1,)), ((['init', 'a', 'b'], ['init', 'b']), (2, 1)), ((['init', 'a', 'a', 'b'], ['init', 'a'], ['init', 'b', 'b']), (3, 1, 2)),
    ((['init', 'b', 'a'], ['a', 'b'], ['init', 'a', 'init']), (1, 5, 4)), ((['init', 'b', 'b', 'b', 'a'], ['init', 'zz']), (7, 2)),
    ((['init'],), (3,)),
]
HSETS = [((['x'],), (2,)), ((['x', 'y'], ['y']), (1, 3)), ((['x', 'y', 'y', 'x'], ['y', 'y']), (2, 1)), ((['x', 'zz'], ['y', 'x', 'y'], ['x', 'x', 'x']), (9, 1, 2))]

# the same trace in several entries, heavy and rare traces together
XSETS = [((['init', 'a', 'b'], ['init', 'a'], ['init', 'a', 'b'], ['init', 'a', 'b']), (2, 1, 50, 1)), ((['init', 'a', 'a'], ['init', 'b', 'a'], ['init', 'b', 'b', 'b']), (10 ** 6, 1, 3)),
         ((['init', 'b', 'a', 'a', 'b'], ['init', 'a', 'b'], ['init', 'b', 'a', 'a', 'b']), (1, 12345, 1))]
XHSETS = [((['x', 'y'], ['y'], ['x', 'y']), (1, 3, 4)), ((['x', 'x', 'x'], ['y', 'x'], ['x', 'y', 'y']), (10 ** 6, 1, 2)), ((['y', 'y', 'y', 'y'],), (3,))]


class C06(Check):
    id = 'C06'
    rule = ('one round of the real learner from every 3-state MC (rows with denominator 2, all labellings over {a,b}) and every 2-state HMM (denominator 2, two symbols) on several '
            'training multisets (repeated traces, single observations, traces the hypothesis cannot produce, unknown symbols), compared with exact posterior counts computed by explicit enumeration of all hidden paths '
            '(fractions); scaling families up to 11 states, 12 symbols and 25 observations against the definition evaluated by a plain forward-backward. probabilities down to 1e-6 with entries from once to a million times, repeated entries. Probabilities down to far below the smallest double (known findings). Non-trivial: distinct re-estimated models.')
    assumptions = ['hypotheses without dead-end rows', 'floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L) for k in ('mc', 'hmm') for L in tiny.lengths(k))

        def mcs():
            i = 0
            for labs in itertools.product('ab', repeat=2):
                for m in itertools.product(dists(3, 2), repeat=3):
                    for k in range(len(MCSETS)):
                        i += 1
                        yield (labs + ('init',), m, 2), k
        yield 'mc3', mcs()
        if T:
            yield 'mc3d3', (((labs + ('init',), m, 3), k) for labs in itertools.product('ab', repeat=2) for m in itertools.product(dists(3, 3), repeat=3) for k in range(len(MCSETS)))
            yield 'hmm2d4', (((('x', 'y'), rows, outs, init, 4), k) for rows in itertools.product(dists(2, 4), repeat=2) for outs in itertools.product(dists(2, 4), repeat=2) for init in dists(2, 4) for k in range(len(HSETS)))
        yield 'mc3q', ((((('a', 'a', 'init'), m, 5)), k) for i, m in enumerate(itertools.product(dists(3, 5)[3:12:2], dists(3, 5)[1::4], dists(3, 5)[2::5])) for k in (2, 3) if T or keep(i, 2))

        def hmms():
            i = 0
            for rows in itertools.product(dists(2, 2), repeat=2):
                for outs in itertools.product(dists(2, 2), repeat=2):
                    for init in dists(2, 2):
                        for k in range(len(HSETS)):
                            i += 1
                            if True:
                                yield (('x', 'y'), rows, outs, init, 2), k
        yield 'hmm2', hmms()
        yield 'hmm3', (((('x', 'y'), rows, ((3, 1), (1, 3), (2, 2)), (1, 1, 2), 4), k) for rows in itertools.product(dists(3, 4)[2:14:3], repeat=3) for k in range(len(HSETS)))
        # rare transitions and emissions, heavy and repeated entries
        for D in (1000, 10 ** 6):
            yield 'mc3_skew', (x for i, x in enumerate(((labs + ('init',), m, D), k) for labs in (('a', 'b'), ('a', 'a')) for m in itertools.product(skews(3, D), skews(3, D), ((D - 1, 1, 0), (1, D - 1, 0), (D // 2, D - D // 2, 0))) for k in range(len(XSETS))) if keep(i, 2 if T else 12))
            yield 'hmm2_skew', (x for i, x in enumerate(((('x', 'y'), rows, outs, init, D), k) for rows in itertools.product(skews(2, D), repeat=2) for outs in itertools.product(skews(2, D), repeat=2) for init in skews(2, D) for k in range(len(XHSETS))) if keep(i, 2 if T else 8))
        yield 'mc_scale', ((n, L, q) for n in (1, 2, 4, 7, 10) for L in (1, 2, 6, 25) for q in (1, 2, 11))
        yield 'hmm_scale', ((n, L, q) for n in (1, 2, 4, 8) for L in (1, 2, 6, 20) for q in (1, 2, 5, 12))
        yield 'multi_init', ((k,) for k in range(3))
        yield 'zoo', ((k, i, plat) for k in ('mc', 'hmm') for i in range(len(zoo.ZOO[k])) for plat in (None, 'darwin'))

    def expect_mc(self, labels, P, init, data, brute):
        n = len(labels)
        r = em.em_chain(n, init, P, lambda s, o: 1 if labels[s] == o else 0, data, brute)
        rows = [[r['num'][s][t] / r['den'][s] for t in range(n)] if r['den'][s] else list(P[s]) for s in range(n)]
        return r, rows

    def check_mc(self, m, labels, P, init, seqs, mult, st, brute):
        r, rows = self.expect_mc(labels, P, init, list(zip(seqs, mult)), brute)
        if not r['used']:
            return
        s = mk_set(seqs, mult, 0)
        out, info = em.fit(m, s, max_it=1)
        st.step()
        ctx = lambda: ' [labels %s P %s set %s]' % (labels, [[str(x) for x in q] for q in P], list(zip(seqs, mult)))
        need(allclose(out.matrix, [[float(x) for x in q] for q in rows]), lambda: 'transitions after one round\n%s\nexpected\n%s%s' % (out.matrix.tolist(), [[float(x) for x in q] for q in rows], ctx()))
        need(list(out.labelling) == list(labels), 'labels changed')
        need(allclose(out.initial_state, [float(x) for x in init]), 'initial distribution changed')
        need(allclose(out.matrix.sum(axis=1), [1.0] * len(labels)), 'rows do not sum to one')
        need(close(info['training_set_loglikelihood'], r['ll'], 1e-7, 1e-10 + 1e-12 * sum(mult)), lambda: 'reported training log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], r['ll'], ctx()))
        st.outcome(tuple(tuple(round(float(x), 7) for x in q) for q in rows))

    def check_hmm(self, m, al, P, O, init, seqs, mult, st, brute):
        n = len(P)
        r = em.em_chain(n, init, P, lambda s, o: O[s][al.index(o)] if o in al else 0, list(zip(seqs, mult)), brute)
        if not r['used']:
            return
        rows = [[r['num'][s][t] / r['den'][s] for t in range(n)] if r['den'][s] else list(P[s]) for s in range(n)]
        outs = [[sum(g[s] for g, o in r['post'] if o == x) / r['den'][s] for x in al] if r['den'][s] else list(O[s]) for s in range(n)]
        ini = [x / sum(r['init']) for x in r['init']]
        out, info = em.fit(m, mk_set(seqs, mult, 0), max_it=1)
        st.step()
        ctx = lambda: ' [P %s O %s init %s set %s]' % ([[str(x) for x in q] for q in P], [[str(x) for x in q] for q in O], [str(x) for x in init], list(zip(seqs, mult)))
        f = lambda m_: [[float(x) for x in q] for q in m_]
        need(allclose(out.matrix, f(rows)), lambda: 'transitions after one round %s expected %s%s' % (out.matrix.tolist(), f(rows), ctx()))
        need(allclose(out.output, f(outs)), lambda: 'emissions after one round %s expected %s%s' % (out.output.tolist(), f(outs), ctx()))
        need(allclose(out.initial_state, [float(x) for x in ini]), lambda: 'initial distribution %s expected %s%s' % (out.initial_state.tolist(), ini, ctx()))
        need(list(out.alphabet) == list(al), 'alphabet changed')
        need(close(info['training_set_loglikelihood'], r['ll'], 1e-7, 1e-10 + 1e-12 * sum(mult)), lambda: 'reported training log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], r['ll'], ctx()))
        st.outcome((f(rows), f(outs)))

    def run(self, fam, case, st):
        if fam == 'tiny':
            tiny.learned(*case, st)
            return
        if fam.startswith('mc3'):
            d, k = case
            seqs, mult = (XSETS if fam == 'mc3_skew' else MCSETS)[k]
            self.check_mc(mk_mc(d), d[0], ref.fracs(d[1], d[2]), ref.uniform_init(d[0]), seqs, mult, st, True)
        elif fam in ('hmm2', 'hmm3', 'hmm2d4', 'hmm2_skew'):
            (a, rows, outs, init, d), k = case
            seqs, mult = (XHSETS if fam == 'hmm2_skew' else HSETS)[k]
            self.check_hmm(mk_hmm((a, rows, outs, init, d)), a, ref.fracs(rows, d), ref.fracs(outs, d), [F(x, d) for x in init], seqs, mult, st, True)
        elif fam == 'mc_scale':
            n, L, q = case
            labels = tuple('l%d' % (i % q) for i in range(n)) + ('init',)
            N = n + 1
            d = N * (N + 1) // 2
            rows = tuple(tuple(1 + (i * 2 + j) % N for j in range(N)) for i in range(N))
            desc = (labels, rows, d)
            seqs, mult = [], []
            for k in range(4):
                seqs.append(['init'] + [labels[(j * j * (k + 1) + k) % n] for j in range(L + k)])
                mult.append(1 + k * 3)
            P = [[x / d for x in r] for r in rows]
            self.check_mc(mk_mc(desc), labels, P, [float(x) for x in ref.uniform_init(labels)], seqs, mult, st, False)
        elif fam == 'hmm_scale':
            n, L, q = case
            al = tuple('s%d' % i for i in range(q))
            d1, d2 = n * (n + 1) // 2, q * (q + 1) // 2
            rows = tuple(tuple((1 + (i * 2 + j) % n) * d2 for j in range(n)) for i in range(n)) if n % 2 else tuple(tuple((1 + (i + j) % n) * d2 for j in range(n)) for i in range(n))
            outs = tuple(tuple((1 + (i + j) % q) * d1 for j in range(q)) for i in range(n))
            desc = (al, rows, outs, rows[0], d1 * d2)
            seqs = [[al[(j * j * (k + 1) + k) % q] for j in range(L + k)] for k in range(3)]
            fl2 = lambda m: [[x / (d1 * d2) for x in r] for r in m]
            self.check_hmm(mk_hmm(desc), al, fl2(rows), fl2(outs), fl2(rows)[0], seqs, [2, 1, 5], st, False)
        elif fam == 'multi_init':
            d = zoo.MC3
            P = ref.fracs(d[1], d[2])
            sets = [([['init', 'a'], ['init', 'init', 'a']], [1, 2]), ([['init', 'b', 'init', 'a', 'b']], [2]), ([['init', 'a', 'init', 'a'], ['init', 'b'], ['init', 'b', 'init']], [1, 1, 3])]
            seqs, mult = sets[case[0]]
            self.check_mc(mk_mc(d), d[0], P, ref.uniform_init(d[0]), seqs, mult, st, True)
        elif fam == 'zoo':
            kind, i, plat = case
            m, t, pos, imp = zoo.make(kind, i)
            d = zoo.ZOO[kind][i][1]
            seqs = pos + [imp]
            # multiplicities beyond small integers
            with platform_(plat):
                if kind == 'mc':
                    self.check_mc(m, d[0], ref.fracs(d[1], d[2]), ref.uniform_init(d[0]), seqs, [3, 1, 2500, 70001, 2], st, True)
                else:
                    self.check_hmm(m, d[0], ref.fracs(d[1], d[4]), ref.fracs(d[2], d[4]), [F(x, d[4]) for x in d[3]], seqs, [3, 1, 2500, 70001, 2], st, True)


CHECK = C06()
