import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, tiny
from mc import ref
from checks.C01 import SER


def density(case, trace):
    rows, d, outs, init = case
    n = len(rows)
    P = [[x / d for x in r] for r in rows]
    cur = [x / d for x in init]
    for k, o in enumerate(trace):
        for s in range(n):
            w = 1.0
            for j, x in enumerate(o):
                w *= ref.normal_pdf(x, outs[s][j][0], outs[s][j][1])
            cur[s] *= w
        if k + 1 < len(trace):
            cur = [math.fsum(cur[s] * P[s][t] for s in range(n)) for t in range(n)]
    return math.fsum(cur)


class C03(Check):
    id = 'C03'
    rule = ('all 2-state GoHMMs (rows with denominator 2 or dead end, means {0,1,-2.5}, deviations {0.5,1,3,0}, 1-2 dimensions; very narrow and very wide ones observed around their means) x all traces up to length 3 '
            'over 3 points; multisets; scaling families to 8 states / 5 dimensions. Probabilities down to far below the smallest double (known findings). Histories: answers after queries, learning rounds and uses of another model equal those of the same model rebuilt. Non-trivial: distinct values.')
    assumptions = ['floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L, plat) for k in ('gohmm',) for L in tiny.lengths(k) for plat in (None, 'darwin'))
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('gohmm',) for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or True)
        ds = dists(2, 2) + ((0, 0),)
        prm = [(0.0, 1.0), (1.0, 0.5), (-2.5, 3.0), (1.0, 0.0)]

        def one():
            for rows in itertools.product(ds, repeat=2):
                for o1, o2 in itertools.product(prm, repeat=2):
                    for init in dists(2, 2):
                        yield (rows, 2, ((o1,), (o2,)), init)
        yield 'dim1', one()

        def two():
            i = 0
            for rows in itertools.product(dists(2, 2), repeat=2):
                for o in itertools.product(prm[:3], repeat=4):
                    i += 1
                    if T or keep(i, 4):
                        yield (rows, 2, ((o[0], o[1]), (o[2], o[3])), ((1, 1) if i % 8 else (2, 0)))
        yield 'dim2', two()
        wide = [(0.0, 0.002), (1.0, 1e-6), (5.0, 40.0), (-1e4, 1e4), (1e-3, 0.05)]

        def skew():
            i = 0
            for rows in (((1, 1), (1, 1)), ((2, 0), (1, 1)), ((0, 2), (2, 0))):
                for o in itertools.product(wide, repeat=2):
                    yield (rows, 2, ((o[0],), (o[1],)), (1, 1))
                for o in itertools.product(wide, repeat=4):
                    i += 1
                    if T or keep(i, 8):
                        yield (rows, 2, ((o[0], o[1]), (o[2], o[3])), (1, 1))
        yield 'skew', skew()
        yield 'scale', ((n, k) for n in range(1, 9) for k in range(1, 6))

    def cmp(self, m, seqs, times, exp, st, what):
        for plat in SER:
            with platform_(plat):
                got = m.logLikelihood(mk_set(seqs, times, 3))
            st.step()
            need(close(got, exp), lambda: 'logLikelihood(%s)=%r expected %r [%s] %s' % (list(zip(seqs, times)), got, exp, plat or 'linux', what))
        st.outcome(round(exp, 9))

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='loglikelihood')
            return
        if fam == 'tiny':
            tiny.likelihood(*case, st)
            return
        if fam == 'scale':
            n, k = case
            d = n * (n + 1) // 2
            rows = tuple(tuple((i + j) % n + 1 for j in range(n)) for i in range(n))
            outs = tuple(tuple((i * 0.7 - j, 0.3 + ((i + 2 * j) % 4) * 0.9) for j in range(k)) for i in range(n))
            case = (rows, d, outs, rows[n // 2])
            m = mk_gohmm(case)
            tr = [[[0.1 * (t * t % 7) - 0.05 * j * t for j in range(k)] for t in range(L)] for L in (1, 2, 7, 20)]
            tr.append(tr[3][:5] + [[2.5] * k])
            pr = [density(case, t) for t in tr]
            for w, p in zip(tr, pr):
                if p <= 1e-290:
                    continue
                self.cmp(m, [w], [2], math.log(p), st, case)
            tr, pr = [t for t, p in zip(tr, pr) if p > 1e-290], [p for p in pr if p > 1e-290]
            self.cmp(m, tr, [1, 2, 3, 4, 5][:len(tr)], ref.wmean(pr, [1, 2, 3, 4, 5][:len(tr)]), st, case)
            return
        rows, d, outs, init = case
        m = mk_gohmm(case)
        k = len(outs[0])
        if fam == 'skew':
            # one and a half deviations away from the means of each state, and halfway
            pts = [[mu + x * sd for mu, sd in outs[s]] for s, x in ((0, 1.5), (1, -1.5))] + [[(a[0] + b[0]) / 2 for a, b in zip(*outs)]]
        else:
            pts = [[0.0], [1.0], [-1.25]] if k == 1 else [[0.0, 1.0], [2.0, -0.5], [-1.25, 0.25]]
        for s in range(2):
            for o in pts:
                e = 1.0
                for j, x in enumerate(o):
                    q = ref.normal_pdf(x, outs[s][j][0], outs[s][j][1])
                    need(close(m.b_n(s, j, x), q), lambda: 'b_n(%d,%d,%r)=%r expected %r' % (s, j, x, m.b_n(s, j, x), q))
                    e *= q
                    need(m.mu_n(s, j) == outs[s][j][0] and m.mu(s)[j] == outs[s][j][0], 'mu')
                need(close(m.b(s, o), e), lambda: 'b(%d,%r)=%r expected %r' % (s, o, m.b(s, o), e))
                for t in range(2):
                    need(close(m.tau(s, t, o), e * rows[s][t] / d), lambda: 'tau(%d,%d,%r)' % (s, t, o))
                st.step(4)
        pos, imp = [], []
        for w in words(pts, 1, 3):
            p = density(case, w)
            if 0 < p < 1e-280:      # on the border of the doubles
                continue
            if p > 0:
                pos.append((w, p))
                self.cmp(m, [w], [1], math.log(p), st, case)
            else:
                imp.append(w)
        if pos:
            S = pos[::5]
            self.cmp(m, [w for w, _ in S], [1 + i % 3 for i in range(len(S))], ref.wmean([p for _, p in S], [1 + i % 3 for i in range(len(S))]), st, case)
            (w, p), (v, q) = pos[0], pos[len(pos) // 2]
            self.cmp(m, [w, v, [list(o) for o in w]], [2, 3, 1], ref.wmean([p, q], [3, 3]), st, case)
            for v in imp[::6]:
                self.cmp(m, [v, pos[-1][0]], [3, 1], math.log(pos[-1][1]) / 4, st, case)


CHECK = C03()
