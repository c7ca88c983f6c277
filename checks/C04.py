import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, tiny
from mc import ref
from checks.C01 import SER


def mk_pctmc(labels, exprs, params, values, name='p'):
    """exprs[s][t]: string expression or '0'"""
    import sympy
    ja, np = api(), np_()
    te = [sympy.sympify('0.0')]
    n = len(labels)
    mat = np.zeros((n, n), dtype='uint16')
    pi = [[] for _ in params]
    for s in range(n):
        for t in range(n):
            if exprs[s][t] in ('0', 0):
                continue
            e = sympy.sympify(exprs[s][t])
            if e not in te:
                te.append(e)
            mat[s, t] = te.index(e)
            for p in e.free_symbols:
                pi[list(params).index(p.name)].append([s, t])
    return ja.PCTMC(mat, list(labels), te, dict(values), pi, list(params), name)


class C04(Check):
    id = 'C04'
    rule = ('all 3-state CTMCs (two labelled states + init; rates from {0,1/2,3}, incl. absorbing states and self loops, all labellings over {a,b}) x timed '
            'traces up to 3 jumps over dwell times {0, 0.3, 2} and untimed traces up to 4 labels; the same models as parametric CTMCs with shared and '
            'polynomial parameters; rates from 1e-9 to 1e6 with dwell times from a thousandth to sixty expected ones; multisets, repeated entries; both evaluation paths; scaling families. Probabilities down to far below the smallest double (known findings). Histories: answers after queries, learning rounds and uses of another model equal those of the same model rebuilt. Non-trivial: distinct values.')
    assumptions = ['floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L, plat) for k in ('ctmc', 'untimed', 'pctmc', 'puntimed') for L in tiny.lengths(k) for plat in (None, 'darwin'))
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('ctmc', 'ctmc_untimed', 'pctmc', 'pctmc_untimed') for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or 'p' not in k)
        rr = (0, 0.5, 3)
        inits = ((1, 1, 0), (0, 2, 0), (0.25, 0.5, 0.25))

        def models():
            i = 0
            for q in itertools.product(rr, repeat=4):
                for labs in itertools.product('ab', repeat=2):
                    for ini in inits:
                        i += 1
                        # third rate of each row: back to init, cycled
                        back = (0, 1.5, 0, 0)[i % 4]
                        if T or keep(i, 4):
                            yield (labs + ('init',), ((q[0], q[1], back), (q[2], q[3], 0), ini))
        yield 'ctmc3', models()
        vals = [{'p': 1.0, 'q': 0.5}, {'p': 3.0, 'q': 0.25}, {'p': 0.0, 'q': 2.0}]
        ex = ['0', 'p', 'q', 'p*q', '2*p+q', 'p**2', '1.5']

        def pm():
            i = 0
            for e in itertools.product(ex, repeat=3):
                for v in range(3):
                    i += 1
                    if T or keep(i, 13):
                        yield (('a', 'b', 'init'), ((e[0], e[1], '0'), (e[2], '0', '0'), ('1', 'q', '0')), ('p', 'q'), tuple(sorted(vals[v].items())))
        yield 'pctmc3', pm()
        wide = (0, 1e-6, 0.5, 1e6)

        def skew():
            i = 0
            for q in itertools.product(wide, repeat=4):
                for ini in ((1, 1, 0), (1e-9, 1e6, 0)):
                    i += 1
                    if T or keep(i, 4):
                        yield (('a', 'b' if i % 3 else 'a', 'init'), ((q[0], q[1], 0), (q[2], q[3], 0), ini))
        yield 'skew', skew()
        yield 'scale', ((n, k) for n in (range(1, 10) if T else (1, 2, 4, 8)) for k in range(3))

    def cmp(self, models, seqs, times, t, exp, st, what):
        for m in models:
            for plat in SER:
                with platform_(plat):
                    got = m.logLikelihood(mk_set(seqs, times, t))
                st.step()
                need(close(got, exp), lambda: '%s logLikelihood(%s, type %d)=%r expected %r [%s] %s' % (
                    type(m).__name__, list(zip(seqs, times)), t, got, exp, plat or 'linux', what))
        st.outcome(round(exp, 9))

    def traces(self, small):
        ts = (0.0, 0.3, 2.0)
        tr = [['init']] + [['init', x, o] for x in ts for o in ('a', 'b', 'init')]
        tr += [['init', 0.3, o, y, p] for y in ts for o in 'ab' for p in ('a', 'b', 'init')]
        tr += [['init', 1.1, 'a', 0.2, 'a', y, 'b'] for y in ts] + [['init', 0.1, 'b', 0.4, 'a', 0.6, 'b', 1.7, 'b']]
        tr += [['zz'], ['init', 0.3, 'zz'], ['a', 0.5, 'a']]
        un = [['init']] + [['init', o] for o in ('a', 'b', 'init')] + [['init', o, p] for o in 'ab' for p in ('a', 'b', 'init')]
        un += [['init', 'a', 'a', 'b'], ['init', 'b', 'a', 'b'], ['init', 'a', 'zz'], ['a', 'b']]
        return (tr[::2] if small else tr), un

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='loglikelihood')
            return
        if fam == 'tiny':
            tiny.likelihood(*case, st)
            return
        if fam == 'scale':
            n, k = case
            labels = tuple('l%d' % (i % (2 + k)) for i in range(n)) + ('init',)
            R = [[0.0] * (n + 1) for _ in range(n + 1)]
            for i in range(n):
                for j in range(n):
                    if (i + j) % (k + 1) == 0:
                        R[i][j] = (1 + i) * 10.0 ** ((i * 3 + j) % 7 - 3)
                R[i][(i + 1) % n] += 0.125
            R[n][0] = 1.0
            if n > 1:
                R[n][n - 1] = 3.0
            case = (labels, tuple(map(tuple, R)))
            m = mk_ctmc(case)
            params = ['x%d' % i for i in range(n)]
            ex = [['0'] * (n + 1) for _ in range(n + 1)]
            vals = {}
            # one parameter per source state: rate = coefficient * parameter
            for i in range(n):
                vals[params[i]] = 1.0 + i
                for j in range(n + 1):
                    if R[i][j]:
                        ex[i][j] = '%r*x%d' % (R[i][j] / (1.0 + i), i)
            for j in range(n + 1):
                if R[n][j]:
                    ex[n][j] = repr(R[n][j])
            pm = mk_pctmc(labels, ex, params, vals)
            J = [[float(x) for x in r] for r in ref.jump(R)]
            timed, un = [], []
            for L in (1, 3, 6):
                tr, u, s = ['init'], ['init'], 0
                for j in range(L):
                    tr += [0.05 * (1 + (j * j) % 5), labels[s]]
                    u.append(labels[s])
                    nxt = [x for x in range(n) if R[s][x] > 0]
                    s = nxt[(j + L) % len(nxt)]
                timed.append(tr)
                un.append(u)
            dt = [ref.ctmc_density(labels, R, t) for t in timed]
            du = [ref.mc_prob(labels, J, u, [float(x) for x in ref.uniform_init(labels)]) for u in un]
            self.cmp([m, pm], timed, [1, 2, 3], 4, ref.wmean(dt, [1, 2, 3]), st, case)
            self.cmp([m, pm], un, [3, 1, 2], 0, ref.wmean(du, [3, 1, 2]), st, case)
            return
        if fam == 'ctmc3':
            labels, R = case
            ms = [mk_ctmc(case)]
            tr, un = self.traces(False)
        elif fam == 'skew':
            labels, R = case
            ex = [[repr(float(x)) if x and (s + t) % 2 else ('%r*p' % (x * 4.0) if x else '0') for t, x in enumerate(r)] for s, r in enumerate(R)]
            ms = [mk_ctmc(case), mk_pctmc(labels, ex, ('p',), {'p': 0.25})]
            _, un = self.traces(True)
            E = [sum(r) for r in R]
            # dwell times from a thousandth to sixty times the expected one of each state
            tr = [['init', x / E[2], o, y / (E[s] or 1.0), p] for x, y in ((1e-3, 1.0), (1.0, 60.0), (60.0, 1e-3)) for o, s in (('a', 0), ('b', 1)) for p in 'ab']
            tr += [['init', 100.0 / E[2], 'a'], ['init', 0.0, 'a'], ['init', 1e-12, 'b', 0.0, 'a', 1e-9, 'a']]
        else:
            import sympy
            labels, ex, params, vals = case
            vals = dict(vals)
            R = [[float(sympy.sympify(e).subs(vals)) for e in r] for r in ex]
            ms = [mk_pctmc(labels, ex, params, vals), mk_ctmc((labels, R))]
            tr, un = self.traces(True)
        J = [[float(x) for x in r] for r in ref.jump(R)]
        i0 = [float(x) for x in ref.uniform_init(labels)]
        for t, trs in ((4, tr), (0, un)):
            pos, imp = [], []
            for w in trs:
                p = ref.ctmc_density(labels, R, w) if t == 4 else ref.mc_prob(labels, J, w, i0)
                if 0 < p < 1e-280:      # on the border of the doubles
                    continue
                (pos if p > 0 else imp).append((w, p))
                if p > 0:
                    self.cmp(ms, [w], [1], t, math.log(p), st, case)
            if pos:
                w, p = pos[-1]
                for v, _ in imp[::4]:
                    self.cmp(ms, [v, w], [3, 2], t, 2 * math.log(p) / 5, st, case)
                k = [1 + i % 3 for i in range(len(pos))]
                (a, pa), (b, pb) = pos[0], pos[-1]
                self.cmp(ms, [a, b, list(a)], [2, 3, 1], t, ref.wmean([pa, pb], [3, 3]), st, case)
                self.cmp(ms, [w for w, _ in pos], k, t, ref.wmean([p for _, p in pos], k), st, case)


CHECK = C04()
