import itertools, math
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo
from checks.C04 import mk_pctmc

OBS = ('a', 'b', 'init', 'zz', '', 'Init')
LAB3 = [l for l in itertools.product(('a', 'b', 'init'), repeat=3) if 'init' in l]
LAB2 = [('a', 'init'), ('init', 'a'), ('init', 'init')]
EXPR = ('0', 'p', 'q', 'p*q', '1.5', 'p-q')
PVAL0 = {'p': 0.75, 'q': 0.25}
GOBS = ((0.0, 4.0), (3.0, -1.0), (5.5, 0.25))


def rows(n):
    return tuple(dists(n, 2)) + ((0,) * n,)


def outside(n):
    np = np_()
    return [-1, -2, -n, -n - 1, n, n + 1, 10 ** 6, np.int64(-1), np.int64(n)]


class C27(Check):
    id = 'C27'
    rule = ('every small model of every kind (MC, HMM, MDP, CTMC, GoHMM, PCTMC; 1/2 grid of probabilities including dead ends, every placement of the labels with one or several initial states), every query at every state, '
            'state pair, observation and action in and around its domain, compared with the parameters the model was built from; every state number just outside the model; every sequence of queries of length 2 and 3 '
            '(thorough: all of length 3) with a bit exact snapshot of the model after each; untimed chains of every small CTMC including absorbing states. Histories: answers after queries, learning rounds and uses of another model equal those of the same model rebuilt. Non-trivial: distinct tables of answers. All kinds also with probabilities of 1e-8 and rates from 1e-12 to 1e9.')
    assumptions = ['HMM emission outside the model is documented to be 0', 'getAlphabet(-1) and getActions(-1) mean the whole model (documented default)']

    def families(self, tier):
        T = tier == 'thorough'
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('mc', 'hmm', 'mdp', 'gohmm', 'ctmc', 'pctmc') for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or 'p' not in k)
        yield 'mc2', ((l, r) for l in LAB2 for r in itertools.product(rows(2), repeat=2))
        yield 'mc3', (x for i, x in enumerate((l, r) for l in LAB3 for r in itertools.product(rows(3), repeat=3)) if T or keep(i, 3))
        h = ((n, k, r, o, p) for n in ((1, 2, 3) if T else (1, 2)) for k in (1, 2, 3) for r in itertools.product(rows(n), repeat=n) for o in itertools.product(rows(k), repeat=n) for p in dists(n, 2))
        yield 'hmm', (x for i, x in enumerate(h) if x[0] < 3 and (T or x[1] < 3 or keep(i, 3)) or x[0] == 3 and keep(i, 40))
        m = ((l, acts, r) for l in LAB2 for acts in (('l',), ('l', 'r'), ('r', 'l', 'init')) for r in itertools.product(rows(2), repeat=2 * len(acts)))
        yield 'mdp', m
        yield 'mdp3', (x for i, x in enumerate((l, ('l', 'r'), r) for l in LAB3[:6] for r in itertools.product(((2, 0, 0), (0, 1, 1), (0, 0, 0)), repeat=6)) if T or keep(i, 5))
        yield 'ctmc', (x for i, x in enumerate((l, r) for l in LAB3 for r in itertools.product((0.0, 0.5, 3.0), repeat=9)) if keep(i, 10 if T else 150))
        yield 'ctmc2', ((l, r) for l in LAB2 for r in itertools.product((0.0, 0.5, 3.0, 1e-7, 4), repeat=4))
        yield 'gohmm', ((r, o, i) for r in itertools.product(dists(2, 2), repeat=2) for o in itertools.product(((0.0, 1.0), (3.0, 0.5), (-1.0, 2.0)), repeat=4) for i in dists(2, 2))
        pc = ((l, e, s) for l in LAB2 for e in itertools.product(EXPR, repeat=4) for s in range(4))
        yield 'pctmc', (x for i, x in enumerate(pc) if T or keep(i, 12))
        # very small and very large parameters: nothing that is not zero may be taken for zero
        for D in (10 ** 4, 10 ** 8) + ((10 ** 12,) if T else ()):
            z = skews(2, D)
            yield 'mc_skew', ((l, r, D) for l in LAB2 for r in itertools.product(z + ((0, 0),), repeat=2))
            yield 'mc_skew3', (x for i, x in enumerate((l, r, D) for l in LAB3[:4] for r in itertools.product(skews(3, D), repeat=3)) if keep(i, 5 if T else 60))
            yield 'hmm_skew', ((2, 2, r, o, p, D) for r in itertools.product(z, repeat=2) for o in itertools.product(z, repeat=2) for p in z[::2 if T else 3])
            yield 'mdp_skew', ((l, ('l', 'r'), r, D) for l in LAB2[:1] for r in itertools.product(z + ((0, 0),), repeat=4))
            yield 'gohmm_skew', (x for j, x in enumerate((r, o, i, D) for r in itertools.product(z[:2], repeat=2) for o in itertools.product(((0.0, 1e-2), (3.0, 50.0), (-1e3, 1e3), (1e-9, 1.0)), repeat=4) for i in z[:2]) if keep(j, 5 if T else 30))
        yield 'ctmc_skew', (x for i, x in enumerate((l, r) for l in LAB2 for r in itertools.product((0.0, 1e-12, 1e-6, 1e-4, 1.0, 1e5, 1e9), repeat=4)) if T or keep(i, 6))
        yield 'pctmc_skew', (x for i, x in enumerate((l, e, 3, v) for l in LAB2[:1] for e in itertools.product(('0', 'p', 'q', 'p*q', '1e-09', '2.5'), repeat=4) for v in ((1e-12, 1.0), (1e-4, 1e6), (1e9, 1e-9))) if keep(i, 3 if T else 40))
        yield 'history', ((k, i, q) for k in ('mc', 'hmm', 'mdp', 'gohmm', 'ctmc', 'pctmc') for i in range(2) for q in itertools.product(range(NQ), repeat=3 if T else 2))
        if not T:
            yield 'history3', (x for i, x in enumerate((k, i, q) for k in ('mc', 'hmm', 'mdp', 'gohmm', 'ctmc', 'pctmc') for i in range(2) for q in itertools.product(range(NQ), repeat=3)) if keep(i, 20))
        yield 'numbers', ((k, i) for k in zoo.ZOO if 'untimed' not in k for i in range(len(zoo.ZOO[k])))

    # --- helpers
    def eq(self, got, exp, what, st):
        st.step()
        need(close(got, exp, 1e-12, 1e-290), lambda: '%s = %r expected %r' % (what, got, exp))

    def rejected(self, fn, what, st, zero=False):
        st.step()
        try:
            v = fn()
        except Exception:
            return
        if v is None or (zero and v == 0.0):
            return
        raise Violation('%s answered %r for a state outside the model' % (what, v))

    def common(self, m, labels, st):
        n = len(labels)
        for s in range(n):
            need(m.getLabel(s) == labels[s], lambda: 'getLabel(%d) = %r' % (s, m.getLabel(s)))
            self.eq(m.pi(s), (labels[s] == 'init') / list(labels).count('init'), 'pi(%d)' % s, st)
            for o in OBS:
                self.eq(m.b(s, o), 1.0 if labels[s] == o else 0.0, 'b(%d,%r)' % (s, o), st)
        need(sorted(m.getAlphabet()) == sorted(set(labels)), lambda: 'getAlphabet() = %s' % m.getAlphabet())
        for s in outside(n):
            self.rejected(lambda: m.getLabel(s), 'getLabel(%r)' % s, st)
            self.rejected(lambda: m.pi(s), 'pi(%r)' % s, st)
            for o in ('a', 'init', 'zz'):
                self.rejected(lambda: m.b(s, o), 'b(%r,%r)' % (s, o), st)

    def pairs(self, f, n, what, st, zero=False):
        """f(s1,s2): at least one state outside the model"""
        for s in outside(n):
            for t in range(n):
                self.rejected(lambda: f(s, t), '%s(%r,%d)' % (what, s, t), st, zero)
                self.rejected(lambda: f(t, s), '%s(%d,%r)' % (what, t, s), st, zero)
            self.rejected(lambda: f(s, s), '%s(%r,%r)' % (what, s, s), st, zero)

    # --- families
    def run(self, family, case, st):
        if family == 'after':
            zoo.after(*case, st, only='accessors')
            return
        if family.startswith('mc'):
            self.f_mc(case, st)
        elif family.startswith('mdp'):
            self.f_mdp(case, st)
        elif family.startswith('ctmc'):
            self.f_ctmc(case, st)
        elif family.endswith('_skew'):
            getattr(self, 'f_' + family[:-5])(case, st)
        elif family.startswith('history'):
            self.f_history(case, st)
        else:
            getattr(self, 'f_' + family)(case, st)

    def f_mc(self, case, st):
        l, r, D = case if len(case) > 2 else case + (2,)
        n = len(l)
        m = mk_mc((l, r, D))
        s0 = zoo.snap(m)
        self.common(m, l, st)
        for s in range(n):
            for t in range(n):
                self.eq(m.a(s, t), r[s][t] / D, 'a(%d,%d)' % (s, t), st)
                for o in OBS:
                    self.eq(m.tau(s, t, o), r[s][t] / D if l[s] == o else 0.0, 'tau(%d,%d,%r)' % (s, t, o), st)
        self.pairs(m.a, n, 'a', st)
        for o in ('a', 'zz'):
            self.pairs(lambda s, t: m.tau(s, t, o), n, 'tau', st)
        need(zoo.snap(m) == s0, 'queries changed the model')
        st.outcome(('mc', s0['matrix'], l))

    def f_hmm(self, case, st):
        n, k, r, o, p, D = case if len(case) > 5 else case + (2,)
        al = ('x', 'y', 'é')[:k][::-1]
        m = mk_hmm((al, r, o, p, D))
        s0 = zoo.snap(m)
        need(list(m.getAlphabet()) == list(al), lambda: 'alphabet %s' % m.getAlphabet())
        for s in range(n):
            self.eq(m.pi(s), p[s] / D, 'pi(%d)' % s, st)
            need(sorted(m.getAlphabet(s)) == sorted(al[i] for i in range(k) if o[s][i]), lambda: 'getAlphabet(%d) = %s' % (s, m.getAlphabet(s)))
            for x in al + ('zz', ''):
                e = o[s][al.index(x)] / D if x in al else 0.0
                self.eq(m.b(s, x), e, 'b(%d,%r)' % (s, x), st)
                for t in range(n):
                    self.eq(m.tau(s, t, x), e * r[s][t] / D, 'tau(%d,%d,%r)' % (s, t, x), st)
            for t in range(n):
                self.eq(m.a(s, t), r[s][t] / D, 'a(%d,%d)' % (s, t), st)
        for s in outside(n):
            self.rejected(lambda: m.pi(s), 'pi(%r)' % s, st)
            for x in al + ('zz',):
                self.rejected(lambda: m.b(s, x), 'b(%r,%r)' % (s, x), st, zero=True)
            if s != -1:
                self.rejected(lambda: m.getAlphabet(s), 'getAlphabet(%r)' % s, st)
        self.pairs(m.a, n, 'a', st)
        self.pairs(lambda s, t: m.tau(s, t, 'x'), n, 'tau', st)
        need(zoo.snap(m) == s0, 'queries changed the model')
        st.outcome(('hmm', s0['matrix'], s0['output'], p))

    def f_mdp(self, case, st):
        l, acts, r, D = case if len(case) > 3 else case + (2,)
        n, na = len(l), len(acts)
        mat = [[r[s * na + a] for a in range(na)] for s in range(n)]
        m = mk_mdp((l, acts, mat, D))
        s0 = zoo.snap(m)
        self.common(m, l, st)
        need(sorted(m.getActions()) == sorted(acts), lambda: 'getActions() = %s' % m.getActions())
        for s in range(n):
            need(sorted(m.getActions(s)) == sorted(acts[a] for a in range(na) if any(mat[s][a])), lambda: 'getActions(%d) = %s' % (s, m.getActions(s)))
            for t in range(n):
                for ai, a in enumerate(acts):
                    e = mat[s][ai][t] / D
                    self.eq(m.a(s, t, a), e, 'a(%d,%d,%r)' % (s, t, a), st)
                    for o in OBS:
                        self.eq(m.tau(s, a, t, o), e if l[s] == o else 0.0, 'tau(%d,%r,%d,%r)' % (s, a, t, o), st)
                for o in OBS:
                    self.eq(m.tau(s, 'nope', t, o), 0.0, 'tau with an unknown action', st)
                self.rejected(lambda: m.a(s, t, 'nope'), 'a with an unknown action', st, zero=True)
        for s in outside(n):
            if s != -1:
                self.rejected(lambda: m.getActions(s), 'getActions(%r)' % s, st)
        for a in acts + ('nope',):
            self.pairs(lambda s, t: m.a(s, t, a), n, 'a', st)
            self.pairs(lambda s, t: m.tau(s, a, t, 'a'), n, 'tau', st)
        need(zoo.snap(m) == s0, 'queries changed the model')
        st.outcome(('mdp', s0['matrix'], l, acts))

    def f_ctmc(self, case, st):
        l, r = case
        n = len(l)
        rates = [list(r[i * n:(i + 1) * n]) for i in range(n)]
        m = mk_ctmc((l, rates))
        s0 = zoo.snap(m)
        self.common(m, l, st)
        ex = [sum(x) for x in rates]
        for s in range(n):
            self.eq(m.e(s), ex[s], 'e(%d)' % s, st)
            self.eq(m.expected_time(s), 1 / ex[s] if ex[s] else math.inf, 'expected_time(%d)' % s, st)
            for t in (0.0, 0.25, 2.0, 50, -1.0, -1e-9):
                self.eq(m.lkl(s, t), ex[s] * math.exp(-ex[s] * t) if t >= 0 else 0.0, 'lkl(%d,%r)' % (s, t), st)
            for t in range(n):
                for o in OBS:
                    self.eq(m.l(s, t, o), rates[s][t] if o == l[s] else 0.0, 'l(%d,%d,%r)' % (s, t, o), st)
                    self.eq(m.tau(s, t, o), rates[s][t] / ex[s] if o == l[s] and ex[s] else 0.0, 'tau(%d,%d,%r)' % (s, t, o), st)
        for s in outside(n):
            for t in (0.5, -1.0):
                self.rejected(lambda: m.lkl(s, t), 'lkl(%r,%r)' % (s, t), st)
            self.rejected(lambda: m.e(s), 'e(%r)' % s, st)
            self.rejected(lambda: m.expected_time(s), 'expected_time(%r)' % s, st)
        for o in ('a', 'zz'):
            self.pairs(lambda s, t: m.l(s, t, o), n, 'l', st)
            self.pairs(lambda s, t: m.tau(s, t, o), n, 'tau', st)
        str(m)
        need(zoo.snap(m) == s0, 'queries changed the model')
        # the untimed chain
        c = m.toMC('u')
        need(zoo.snap(m) == s0, 'toMC changed the model')
        need(c.name == 'u' and c.nb_states == n and list(c.labelling) == list(l), 'toMC: name, states or labels')
        for s in range(n):
            self.eq(c.pi(s), m.pi(s), 'toMC().pi(%d)' % s, st)
            for t in range(n):
                self.eq(c.a(s, t), rates[s][t] / ex[s] if ex[s] else 0.0, 'toMC().a(%d,%d)' % (s, t), st)
                self.eq(c.tau(s, t, l[s]), m.tau(s, t, l[s]), 'toMC().tau(%d,%d)' % (s, t), st)
        # the chain is another model: what happens to it does not reach the CTMC
        c.matrix[...] = 0.125
        c.labelling[0] = 'other'
        c.initial_state[...] = 0.0
        c.alphabet.append('other')
        need(zoo.snap(m) == s0, 'changing the untimed chain changed the CTMC')
        d = m.toMC()
        for s in range(n):
            for t in range(n):
                self.eq(d.a(s, t), rates[s][t] / ex[s] if ex[s] else 0.0, 'second toMC().a(%d,%d)' % (s, t), st)
        st.outcome(('ctmc', s0['matrix'], l))

    def f_gohmm(self, case, st):
        r, o, i, D = case if len(case) > 3 else case + (2,)
        outs = ((o[0], o[1]), (o[2], o[3]))
        m = mk_gohmm((r, D, outs, i))
        s0 = zoo.snap(m)

        def dens(s, k, x):
            mu, sd = outs[s][k]
            return math.exp(-0.5 * ((x - mu) / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
        for s in range(2):
            self.eq(m.pi(s), i[s] / D, 'pi(%d)' % s, st)
            need(list(m.mu(s)) == [x[0] for x in outs[s]], lambda: 'mu(%d) = %s' % (s, m.mu(s)))
            for k in range(2):
                self.eq(m.mu_n(s, k), outs[s][k][0], 'mu_n(%d,%d)' % (s, k), st)
                for x in (0.0, 3.0, -1.5):
                    self.eq(m.b_n(s, k, x), dens(s, k, x), 'b_n(%d,%d,%r)' % (s, k, x), st)
            for x in GOBS:
                e = dens(s, 0, x[0]) * dens(s, 1, x[1])
                self.eq(m.b(s, list(x)), e, 'b(%d,%s)' % (s, x), st)
                for t in range(2):
                    self.eq(m.tau(s, t, list(x)), e * r[s][t] / D, 'tau(%d,%d,%s)' % (s, t, x), st)
            for t in range(2):
                self.eq(m.a(s, t), r[s][t] / D, 'a(%d,%d)' % (s, t), st)
        for s in outside(2):
            self.rejected(lambda: m.pi(s), 'pi(%r)' % s, st)
            self.rejected(lambda: m.mu(s), 'mu(%r)' % s, st)
            self.rejected(lambda: m.mu_n(s, 0), 'mu_n(%r,0)' % s, st)
            self.rejected(lambda: m.b_n(s, 1, 0.5), 'b_n(%r,1,0.5)' % s, st, zero=True)
            self.rejected(lambda: m.b(s, [0.0, 4.0]), 'b(%r,..)' % s, st, zero=True)
        self.pairs(m.a, 2, 'a', st)
        self.pairs(lambda s, t: m.tau(s, t, [0.0, 4.0]), 2, 'tau', st)
        need(zoo.snap(m) == s0, 'queries changed the model')
        st.outcome(('gohmm', s0['matrix'], s0['output'], i))

    def f_pctmc(self, case, st):
        import sympy
        l, e, sel = case[:3]
        n = len(l)
        PVAL = dict(zip('pq', case[3])) if len(case) > 3 else PVAL0
        vals = {k: PVAL[k] for j, k in enumerate(('p', 'q')) if sel >> j & 1}
        ex = [list(e[i * n:(i + 1) * n]) for i in range(n)]
        m = mk_pctmc(l, ex, ('p', 'q'), dict(vals))
        s0 = zoo.snap(m)
        self.common(m, l, st)
        used = [[{c for c in x if c in 'pq'} for x in r] for r in ex]
        num = [[eval(x, {}, PVAL) if u <= set(vals) else None for x, u in zip(r, us)] for r, us in zip(ex, used)]
        for s in range(n):
            inv = set().union(*used[s])
            need(sorted(m.involvedParameters(s)) == sorted(inv), lambda: 'involvedParameters(%d) = %s' % (s, m.involvedParameters(s)))
            ok = inv <= set(vals)
            need(m.isInstantiated(s) == ok, lambda: 'isInstantiated(%d) with %s' % (s, vals))
            tot = sum(num[s]) if ok else None
            if ok:
                self.eq(m.e(s), tot, 'e(%d)' % s, st)
                self.eq(m.expected_time(s), 1 / tot if tot else math.inf, 'expected_time(%d)' % s, st)
                for t in (0.0, 0.5, -1.0):
                    self.eq(m.lkl(s, t), tot * math.exp(-tot * t) if t >= 0 else 0.0, 'lkl(%d,%r)' % (s, t), st)
            for t in range(n):
                need(sorted(m.involvedParameters(s, t)) == sorted(used[s][t]), lambda: 'involvedParameters(%d,%d)' % (s, t))
                x = m.transitionExpression(s, t)
                self.eq(x.subs(PVAL), eval(ex[s][t], {}, PVAL), 'transitionExpression(%d,%d)' % (s, t), st)
                for o in OBS:
                    if o != l[s]:
                        self.eq(m.l(s, t, o), 0.0, 'l(%d,%d,%r)' % (s, t, o), st)
                    elif num[s][t] is not None:
                        self.eq(m.l(s, t, o), num[s][t], 'l(%d,%d,%r)' % (s, t, o), st)
                        self.eq(m.evaluateTransition(s, t), num[s][t], 'evaluateTransition(%d,%d)' % (s, t), st)
                        self.eq(m.transitionValue(s, t), num[s][t], 'transitionValue(%d,%d)' % (s, t), st)
                    if ok:
                        self.eq(m.tau(s, t, o), num[s][t] / tot if o == l[s] and tot else 0.0, 'tau(%d,%d,%r)' % (s, t, o), st)
        for p in ('p', 'q'):
            ind = sorted(map(tuple, m.parameterIndexes(p)))
            need(ind == sorted((s, t) for s in range(n) for t in range(n) if p in used[s][t]), lambda: 'parameterIndexes(%s) = %s' % (p, ind))
        need(m.parameterIndexes('zz') == [] and m.parameterValue('zz') != m.parameterValue('zz'), 'unknown parameter')
        for s in outside(n):
            for nm in ('e', 'expected_time', 'involvedParameters', 'isInstantiated'):
                self.rejected(lambda: getattr(m, nm)(s), '%s(%r)' % (nm, s), st)
            for t in (0.5, -1.0):
                self.rejected(lambda: m.lkl(s, t), 'lkl(%r,%r)' % (s, t), st)
        for nm in ('transitionValue', 'transitionExpression', 'evaluateTransition'):
            self.pairs(getattr(m, nm), n, nm, st)
        for o in ('a', 'zz'):
            self.pairs(lambda s, t: m.l(s, t, o), n, 'l', st)
            self.pairs(lambda s, t: m.tau(s, t, o), n, 'tau', st)
        for s in outside(n):
            for t in range(n):
                if s != -1:
                    self.rejected(lambda: m.involvedParameters(t, s), 'involvedParameters(%d,%r)' % (t, s), st)
                self.rejected(lambda: m.involvedParameters(s, t), 'involvedParameters(%r,%d)' % (s, t), st)
                self.rejected(lambda: m.isInstantiated(t, s), 'isInstantiated(%d,%r)' % (t, s), st)
                self.rejected(lambda: m.isInstantiated(s, t), 'isInstantiated(%r,%d)' % (s, t), st)
        str(m)
        need(zoo.snap(m) == s0, 'queries changed the model')
        st.outcome(('pctmc', e, l, sel))

    def f_history(self, case, st):
        kind, i, qs = case
        m = zoo.make(kind, i)[0]
        s0 = zoo.snap(m)
        for q in qs:
            fresh = zoo.make(kind, i)[0]
            a, b = QUERIES[q](kind, m), QUERIES[q](kind, fresh)
            st.step()
            need(zoo._plain(a) == zoo._plain(b), lambda: '%s after %s: %r, on a fresh model %r' % (q, qs, a, b))
            need(zoo.snap(m) == s0, lambda: 'query %d of %s changed the model: %s' % (q, qs, {k: (v, zoo.snap(m)[k]) for k, v in s0.items() if zoo.snap(m)[k] != v}))
            st.outcome((kind, i, q, zoo._plain(a)))

    def f_numbers(self, case, st):
        """the states returned by simulation and numpy integers are state numbers too"""
        np = np_()
        kind, i = case
        m = zoo.make(kind, i)[0]
        n = m.nb_states
        seen = set()
        for s in range(n):
            for t in range(n):
                for q in (np.int64, np.int32):
                    if kind == 'mdp':
                        for a in m.getActions():
                            self.eq(m.a(q(s), q(t), a), m.a(s, t, a), 'a with numpy integers', st)
                    elif kind in ('ctmc', 'pctmc'):
                        self.eq(m.l(q(s), q(t), 'a'), m.l(s, t, 'a'), 'l with numpy integers', st)
                        self.eq(m.e(q(s)), m.e(s), 'e with numpy integers', st)
                    else:
                        self.eq(m.a(q(s), q(t)), m.a(s, t), 'a with numpy integers', st)
            if kind == 'mdp':
                acts = m.getActions(s)
                f = [lambda a=a: m.next(s, a) for a in acts]
            else:
                f = [lambda: m.next(s)]
            for k, g in enumerate(f):
                for _, r in seams.enumerate_draws(5, g):
                    t = r[1] if kind in ('ctmc', 'pctmc') else r[0]
                    st.step()
                    p = m.a(s, t, acts[k]) if kind == 'mdp' else m.l(s, t, m.getLabel(s)) if kind in ('ctmc', 'pctmc') else m.a(s, t)
                    need(p > 0, lambda: 'next(%d) moved to %r, a transition of weight %r' % (s, t, p))
                    seen.add((s, int(t)))
        for s in ('0', None, 0.5, [0], 'a'):
            self.rejected(lambda: m.pi(s), 'pi(%r)' % (s,), st)
            if kind == 'ctmc':
                self.rejected(lambda: m.l(s, 0, 'a'), 'l(%r,0)' % (s,), st)
                self.rejected(lambda: m.l(0, s, 'init'), 'l(0,%r)' % (s,), st)
            elif kind not in ('mdp', 'pctmc'):
                self.rejected(lambda: m.a(s, 0), 'a(%r,0)' % (s,), st)
                self.rejected(lambda: m.a(0, s), 'a(0,%r)' % (s,), st)
            st.outcome((case, tuple(sorted(seen))))


def table(f, *dom):
    return [f(*x) for x in itertools.product(*dom)]


def q_b(k, m):
    o = ['a', 'b', 'x', 'init', 'zz']
    if k == 'gohmm':
        o = [[0.0, 4.0][:m.nb_distributions], [1.0, -1.0][:m.nb_distributions]]
    return [float(m.b(s, x)) for s in range(m.nb_states) for x in o]


def q_tau(k, m):
    r = range(m.nb_states)
    if k == 'mdp':
        return [float(m.tau(s, a, t, o)) for s in r for t in r for a in ('l', 'r', 'zz') for o in ('a', 'b', 'init')]
    o = [[0.0, 4.0][:m.nb_distributions]] if k == 'gohmm' else ['a', 'b', 'x', 'init', 'zz']
    return [float(m.tau(s, t, x)) for s in r for t in r for x in o]


def q_a(k, m):
    r = range(m.nb_states)
    if k == 'mdp':
        return [float(m.a(s, t, a)) for s in r for t in r for a in m.getActions()]
    if k in ('ctmc', 'pctmc'):
        return [float(m.l(s, t, m.getLabel(s))) for s in r for t in r] + [float(m.e(s)) for s in r] + [float(m.expected_time(s)) for s in r] + [float(m.lkl(s, 0.5)) for s in r]
    return [float(m.a(s, t)) for s in r for t in r]


def q_alpha(k, m):
    if k == 'gohmm':
        return [list(map(float, m.mu(s))) for s in range(m.nb_states)]
    r = [sorted(m.getAlphabet())]
    if k == 'hmm':
        r += [sorted(m.getAlphabet(s)) for s in range(m.nb_states)]
    if k == 'mdp':
        r += [sorted(m.getActions())] + [sorted(m.getActions(s)) for s in range(m.nb_states)]
    return r


def q_label(k, m):
    return [m.getLabel(s) for s in range(m.nb_states)] if k not in ('hmm', 'gohmm') else []


def q_pi(k, m):
    return [float(m.pi(s)) for s in range(m.nb_states)]


def q_str(k, m):
    return str(m)


def q_derive(k, m):
    if k == 'ctmc':
        c = m.toMC()
        return zoo.snap(c)
    if k == 'pctmc':
        return [str(m.transitionExpression(i, j)) for i in range(m.nb_states) for j in range(m.nb_states)] + [m.parameterValue('p'), sorted(map(str, m.parameterIndexes('p')))]
    return []


def q_next(k, m):
    # every step from every state under every answer of a coarse grid
    out = []
    for s in range(m.nb_states):
        for a in (m.getActions(s) if k == 'mdp' else [None]):
            f = (lambda: m.next(s, a)) if k == 'mdp' else (lambda: m.next(s))
            if k != 'mdp' and k not in ('hmm', 'gohmm') and not m.matrix[s].any():
                continue
            out.append(sorted(repr(zoo._plain(list(r))) for _, r in seams.enumerate_draws(3, f)))
    return sorted(map(repr, out))


def q_bad(k, m):
    r = 0
    for f in (lambda: m.pi(99), lambda: m.getLabel(-1), lambda: m.a(-1, 0), lambda: m.tau(0, 99, 'a'), lambda: m.e(99)):
        try:
            f()
        except Exception:
            r += 1
    return r >= 1


QUERIES = [q_b, q_tau, q_a, q_alpha, q_label, q_pi, q_str, q_derive, q_next, q_bad]
NQ = len(QUERIES)
CHECK = C27()
