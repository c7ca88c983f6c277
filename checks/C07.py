import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo, tiny

SETS = [
    ((['init', 'l', 'a'],), (2,)),
    ((['init', 'l', 'a', 'r', 'b'], ['init', 'r', 'b']), (1, 3)),
    ((['init', 'r', 'b', 'l', 'a', 'l', 'b'], ['init', 'l', 'a', 'l', 'a'], ['init'], ['init', 'zz', 'a']), (2, 1, 4, 3)),
    ((['init', 'l', 'a', 'r', 'a', 'r', 'a'], ['b', 'l', 'a'], ['init', 'l', 'b', 'r', 'a']), (5, 2, 7)),
    ((['init', 'r', 'q'], ['init', 'r', 'a', 'l', 'init', 'r', 'a']), (1, 1)),
]

# the same trace in several entries, heavy and rare traces together
XSETS = [((['init', 'l', 'a', 'l', 'b'], ['init', 'r', 'a'], ['init', 'l', 'a', 'l', 'b']), (2, 1, 50)), ((['init', 'r', 'a', 'l', 'a'], ['init', 'r', 'b', 'r', 'a', 'l', 'b'], ['init', 'r', 'b', 'l', 'b']), (10 ** 6, 1, 3))]


class C07(Check):
    id = 'C07'
    rule = ('one round of the real learner from every MDP with two labelled states + init, two actions, action rows from {unavailable, deterministic, 1/2-1/2} and every labelling over {a,b}, on training multisets '
            'with repeated, impossible and single-observation traces, compared with exact posterior counts by enumeration of hidden paths; probabilities of 1e-5 with heavy and repeated entries; scaling families to 9 states, 5 actions, 20 steps. Probabilities down to far below the smallest double (known findings). Non-trivial: distinct re-estimated models.')
    assumptions = ['floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L) for k in ('mdp',) for L in tiny.lengths(k))
        rr = [(0, 0, 0), (2, 0, 0), (0, 2, 0), (1, 1, 0)]

        def mdps():
            i = 0
            for labs in itertools.product('ab', repeat=2):
                for r in itertools.product(rr, repeat=4):
                    if r[0] == r[1] == rr[0] or r[2] == r[3] == rr[0]:
                        continue
                    for ini in (((1, 1, 0), (0, 2, 0)), ((2, 0, 0), (0, 0, 0)), ((0, 1, 1), (1, 1, 0))):
                        for k in range(len(SETS)):
                            i += 1
                            if T or keep(i, 2):
                                yield (labs + ('init',), ('l', 'r'), (r[0:2], r[2:4], ini), 2), k
        yield 'mdp3', mdps()
        D = 10 ** 5
        sk = [(D - 1, 1, 0), (1, D - 1, 0), (0, 1, D - 1), (0, 0, 0)]
        yield 'skew', (((labs + ('init',), ('l', 'r'), (r[0:2], r[2:4], (r[4], (D // 2, D - D // 2, 0))), D), k) for i, (labs, r, k) in enumerate(itertools.product((('a', 'b'), ('a', 'a')), itertools.product(sk, repeat=5), range(len(XSETS))))
                       if any(r[0]) + any(r[1]) and any(r[2]) + any(r[3]) and keep(i, 1 if T else 4))
        yield 'scale', ((n, a, L, q) for n in (1, 2, 5, 8) for a in (1, 2, 5) for L in (1, 2, 7, 20) for q in (1, 3))
        yield 'zoo', ((i, plat) for i in range(len(zoo.ZOO['mdp'])) for plat in (None, 'darwin'))

    def check(self, d, seqs, mult, st, brute):
        labels, acts, rows, den = d
        n = len(labels)
        conv = (lambda x: F(x, den)) if brute else (lambda x: x / den)
        P = [[[conv(x) for x in r] for r in s] for s in rows]
        init = ref.uniform_init(labels)
        if not brute:
            init = [float(x) for x in init]
        r = em.em_mdp(list(labels), list(acts), P, init, list(zip(seqs, mult)), brute)
        if not r['used']:
            return
        exp = [[[r['num'][s][a][t] / r['den'][s][a] for t in range(n)] if r['den'][s][a] else P[s][a] for a in range(len(acts))] for s in range(n)]
        exp = [[[float(x) for x in z] for z in y] for y in exp]
        m = mk_mdp(d)
        out, info = em.fit(m, mk_set(seqs, mult, 1), max_it=1)
        st.step()
        ctx = lambda: ' [%r set %s]' % (d, list(zip(seqs, mult)))
        need(allclose(out.matrix, exp), lambda: 'after one round %s expected %s%s' % (out.matrix.tolist(), exp, ctx()))
        need(list(out.actions) == list(acts) and list(out.labelling) == list(labels), 'actions or labels changed')
        need(allclose(out.initial_state, [float(x) for x in init]), 'initial distribution changed')
        need(close(info['training_set_loglikelihood'], r['ll'], 1e-7, 1e-10 + 1e-12 * sum(mult)), lambda: 'reported training log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], r['ll'], ctx()))
        for s in range(n):
            need(sorted(out.getActions(s)) == sorted(a for i, a in enumerate(acts) if any(rows[s][i])), 'available actions changed')
        st.outcome(exp)

    def run(self, fam, case, st):
        if fam == 'tiny':
            tiny.learned(*case, st)
            return
        if fam == 'skew':
            d, k = case
            self.check(d, XSETS[k][0], XSETS[k][1], st, True)
        elif fam == 'mdp3':
            d, k = case
            self.check(d, SETS[k][0], SETS[k][1], st, True)
        elif fam == 'scale':
            n, na, L, q = case
            labels = tuple('l%d' % (i % q) for i in range(n)) + ('init',)
            N = n + 1
            acts = tuple('act%d' % i for i in range(na))
            rows = tuple(tuple(tuple((0,) * N if (s * 3 + a) % 4 == 3 and na > 1 else tuple(1 + (s * 2 + a + t) % N for t in range(N))) for a in range(na)) for s in range(N))
            d = (labels, acts, rows, N * (N + 1) // 2)
            seqs, mult = [], []
            for k in range(4):
                tr = ['init']
                for j in range(L + k):
                    tr += [acts[(j * (k + 1)) % na], labels[(j * j + k) % n]]
                seqs.append(tr)
                mult.append(1 + 2 * k)
            self.check(d, seqs, mult, st, False)
        elif fam == 'zoo':
            i, plat = case
            mk, d, t, pos, imp = zoo.ZOO['mdp'][i]
            with platform_(plat):
                self.check(d, [list(x) for x in pos] + [list(imp)], [3, 1, 2500, 70001, 2], st, True)


CHECK = C07()
