import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo, tiny

TS = [
    ((['init', 0.5, 'a'],), (2,)),
    ((['init', 0.5, 'a', 0.25, 'b'], ['init', 2.0, 'b']), (1, 3)),
    ((['init', 0.1, 'b', 1.5, 'a', 0.7, 'b'], ['init', 1.0, 'a', 0.3, 'a'], ['init', 0.2, 'zz'], ['a', 0.4, 'b']), (2, 1, 4, 3)),
    ((['init', 0.5, 'a', 0.25, 'a', 0.0, 'a'], ['init', 0.0, 'b', 0.6, 'a'], ['init']), (5, 2, 7)),
    ((['init', 0.5, 'a', 3.0, 'init', 1.25, 'b'], ['init', 1, 'a', 2, 'b']), (2, 3)),
]
US = [
    ((['init', 'a'],), (2,)),
    ((['init', 'a', 'b'], ['init', 'b']), (1, 3)),
    ((['init', 'b', 'a', 'b'], ['init', 'a', 'a'], ['init', 'zz'], ['a', 'b']), (2, 1, 4, 3)),
    ((['init'], ['init', 'b', 'a', 'init']), (5, 2)),
]


class C08(Check):
    id = 'C08'
    rule = ('one round of the real learner from every 3-state CTMC (rates {0,1/2,3}, absorbing states, self loops, labellings over {a,b}) on timed training multisets (zero dwell times, integer dwell times, impossible '
            'and jump-free traces) and untimed ones, with no fixed rate, every single fixed rate and every mask of the 2x2 core; compared with expected jumps over expected sojourn time by enumeration of hidden paths; '
            'scaling families to 8 states and 15 jumps. Probabilities down to far below the smallest double (known findings). Non-trivial: distinct re-estimated models.')
    assumptions = ['floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L) for k in ('ctmc', 'untimed') for L in tiny.lengths(k))
        rr = (0, 0.5, 3)
        inits = ((1, 1, 0), (0, 2, 0), (0.25, 0.5, 0.25))

        def models():
            for q in itertools.product(rr, repeat=4):
                for labs in itertools.product('ab', repeat=2):
                    for ini in inits:
                        for back in (0, 1.5):
                            yield (labs + ('init',), ((q[0], q[1], back), (q[2], q[3], 0), ini))
        yield 'timed', ((m, k, ()) for i, (m, k) in enumerate(itertools.product(models(), range(len(TS)))) if T or keep(i, 3))
        yield 'untimed', ((m, k, ()) for i, (m, k) in enumerate(itertools.product(models(), range(len(US)))) if T or keep(i, 3))
        cells = [(a, b) for a in range(3) for b in range(3)]
        masks = [((a, b),) for a, b in cells] + [tuple(c for j, c in enumerate([(0, 0), (0, 1), (1, 0), (1, 1)]) if x >> j & 1) for x in range(1, 16)] + [tuple(cells)]
        masks = list(dict.fromkeys(masks))
        yield 'fixed', ((m, k, f) for i, (m, k, f) in enumerate(itertools.product(models(), range(len(TS)), masks)) if keep(i, 6 if T else 60))
        yield 'fixed_untimed', ((m, k, f) for i, (m, k, f) in enumerate(itertools.product(models(), range(len(US)), masks)) if keep(i, 20 if T else 200))
        yield 'scale', ((n, L, q, t) for n in (1, 2, 4, 7) for L in (1, 2, 6, 15) for q in (1, 2, 7) for t in (0, 4))
        # rates and dwell times of very different magnitudes (expected dwell 1e-3 .. 1e3, dwell 1e-6 .. 150)
        yield 'skew', ((q, labs, d) for q in itertools.product((0, 1e-3, 4.0), (1e-3, 0.5, 4.0), (1e-3, 4.0), (0, 2.0)) for labs in (('a', 'b'), ('a', 'a')) for d in itertools.product((1e-6, 0.1, 10.0, 60.0), repeat=2) if T or keep(hash((q, d)), 3))
        yield 'zoo', ((k, i, plat) for k in ('ctmc', 'ctmc_untimed') for i in range(2) for plat in (None, 'darwin'))

    def check(self, d, seqs, mult, timed, fixed, st, brute):
        np = np_()
        labels, R = d
        n = len(labels)
        init = [float(x) for x in ref.uniform_init(labels)]
        data = list(zip(seqs, mult))
        Rf = [[float(x) for x in r] for r in R]
        if timed:
            r = em.em_timed(labels, Rf, init, data, brute)
            den = r['time']
        else:
            J = ref.jump(Rf)
            if not brute:
                J = [[float(x) for x in q] for q in J]
            r = em.em_chain(n, ref.uniform_init(labels) if brute else init, J, lambda s, o: 1 if labels[s] == o else 0, data, brute)
            den = r['den']
        if not r['used']:
            return
        exp = [[float(r['num'][s][t] / den[s]) if den[s] and (s, t) not in fixed else Rf[s][t] for t in range(n)] for s in range(n)]
        m = mk_ctmc(d)
        kw = {}
        if fixed:
            f = np.zeros((n, n), dtype=bool)
            for a, b in fixed:
                f[a, b] = True
            kw['fixed_parameters'] = f
        out, info = em.fit(m, mk_set(seqs, mult, 4 if timed else 0), max_it=1, **kw)
        st.step()
        ctx = lambda: ' [%r fixed %r set %s]' % (d, fixed, list(zip(seqs, mult)))
        got = np.array(out.matrix, dtype=float)
        if fixed and not timed:
            # rates and jump probabilities are mixed here: only what must not move is prescribed
            for s in range(n):
                for t in range(n):
                    if (s, t) in fixed or not den[s]:
                        need(close(got[s, t], exp[s][t]), lambda: 'rate %s changed from %r to %r%s' % ((s, t), exp[s][t], got[s, t], ctx()))
        else:
            need(allclose(got, exp), lambda: 'rates after one round %s expected %s%s' % (got.tolist(), exp, ctx()))
        need(list(out.labelling) == list(labels), 'labels changed')
        need(allclose(out.initial_state, init), 'initial distribution changed')
        need(close(info['training_set_loglikelihood'], r['ll'], 1e-7, 1e-10 + 1e-12 * sum(mult)), lambda: 'reported training log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], r['ll'], ctx()))
        st.outcome(exp)

    def run(self, fam, case, st):
        if fam == 'tiny':
            tiny.learned(*case, st)
            return
        if fam in ('timed', 'untimed', 'fixed', 'fixed_untimed'):
            d, k, fixed = case
            timed = fam in ('timed', 'fixed')
            seqs, mult = (TS if timed else US)[k]
            self.check(d, [list(x) for x in seqs], mult, timed, fixed, st, True)
        elif fam == 'scale':
            n, L, q, t = case
            labels = tuple('l%d' % (i % q) for i in range(n)) + ('init',)
            N = n + 1
            R = tuple(tuple((1 + (i * 2 + j) % N) * 10.0 ** ((i + 2 * j) % 4 - 2) for j in range(N)) for i in range(N))
            seqs, mult = [], []
            for k in range(3):
                tr = ['init']
                for j in range(L + k):
                    if t == 4:
                        tr.append(0.02 * (1 + (j * j + k) % 7))
                    tr.append(labels[(j * j + k) % n])
                seqs.append(tr)
                mult.append(1 + 4 * k)
            self.check((labels, R), seqs, mult, t == 4, (), st, False)
            self.check((labels, R), seqs, mult, t == 4, ((0, 0), (N - 1, 0), (0, N - 1)), st, False)
        elif fam == 'skew':
            q, labs, d = case
            R = ((q[0], q[1], 0), (q[2], q[3], 0), (1.0, 1e-3, 0))
            seqs = [['init', 1.0, 'a', d[0], labs[1], d[1], 'a'], ['init', 0.5, labs[1], d[1], 'a'], ['init', 2.0, 'a', 0.25, 'a'], ['init', 1e-5, labs[1], d[0], labs[1]]]
            self.check((labs + ('init',), R), seqs, [1, 2, 1000, 1], True, (), st, True)
            self.check((labs + ('init',), R), seqs[:1], [1], True, (), st, True)
        elif fam == 'zoo':
            kind, i, plat = case
            mk, d, t, pos, imp = zoo.ZOO[kind][i]
            with platform_(plat):
                self.check(d, [list(x) for x in pos] + [list(imp)], [3, 1, 2500, 70001, 2], t == 4, (), st, True)


CHECK = C08()
