import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em

# a cell is (coefficient, {parameter: power}); '0' is no transition
MENU = {'0': (0.0, {}), '1.5': (1.5, {}), '0.25': (0.25, {}), 'p': (1.0, {'p': 1}), '2*p': (2.0, {'p': 1}), 'q': (1.0, {'q': 1}), 'p**2': (1.0, {'p': 2}),
        'q**3': (1.0, {'q': 3}), 'p*q': (1.0, {'p': 1, 'q': 1}), '3*p*q**2': (3.0, {'p': 1, 'q': 2}), '0.5*q': (0.5, {'q': 1}), 'r': (1.0, {'r': 1}),
        'p*r**2': (1.0, {'p': 1, 'r': 2}), 'p**5': (1.0, {'p': 5}), '0.001*p**5': (0.001, {'p': 5}), '1': (1.0, {})}
TS = [
    ((['init', 0.5, 'a'],), (2,)),
    ((['init', 0.5, 'a', 0.25, 'b'], ['init', 2.0, 'b']), (1, 3)),
    ((['init', 0.1, 'b', 1.5, 'a', 0.7, 'b'], ['init', 1.0, 'a', 0.3, 'a'], ['init', 0.2, 'zz'], ['a', 0.4, 'b']), (2, 1, 4, 3)),
    ((['init', 0.5, 'a', 0.25, 'a', 0.125, 'a'], ['init', 0.1, 'b', 0.6, 'a', 1.5, 'b']), (5, 70001)),
]
US = [
    ((['init', 'a'],), (2,)),
    ((['init', 'a', 'b'], ['init', 'b']), (1, 3)),
    ((['init', 'b', 'a', 'b'], ['init', 'a', 'a'], ['init', 'zz'], ['a', 'b']), (2, 1, 4, 3)),
    ((['init', 'a', 'a', 'a'], ['init', 'b', 'a', 'b']), (5, 70001)),
]
VALS = [{'p': 2.0, 'q': 0.5, 'r': 1.25}, {'p': 0.125, 'q': 3.0, 'r': 0.75}, {'p': 0.004, 'q': 25.0, 'r': 0.02}]
APIS = ('fit', 'fit_const', 'default', 'fit_parameters', 'mask', 'missing')


def value(cell, vals):
    c, d = MENU[cell]
    for p, k in d.items():
        c *= vals[p] ** k
    return c


def params_of(ex):
    return tuple(sorted({p for r in ex for c in r for p in MENU[c][1]}))


class C10(Check):
    id = 'C10'
    rule = ('the real parametric learner (fit with and without constant updates, with lists and arrays of fixed transitions, fit_parameters, fit_nonInstantiatedParameters) from every 3-state parametric CTMC whose 2x2 core takes '
            'cells from a menu of constants and monomials (shared, squared, cubed, products), 2 initial-row shapes, 2 valuations, every non-empty subset of the parameters to learn, on timed and untimed training multisets; '
            'after 1..3 rounds: untouched parameters and constants bit-equal, every rate equal to its expression at the common values, exact likelihood (path sums) never decreasing, parameters alone in their transitions at the '
            'root of their score equation; joint products: stationary point after 80 rounds. States that no trace and no other state refers to, in every position. Starting values drawn for parameters without value: inside the requested range, learning continues from them; every order of the parameters. Non-trivial: distinct learned valuations.')
    assumptions = ['floating point agreement to 1e-7 relative', 'rates are constants or monomials with positive integer powers and positive starting values', 'untimed traces: no state left by a trace is absorbing']

    def families(self, tier):
        T = tier == 'thorough'
        menu = ('0', '1.5', 'p', '2*p', 'p**2', 'q', 'p*q', '3*p*q**2')
        cores = list(itertools.product(menu, repeat=4))
        rows = (('1', '0.25', '0'), ('p', 'q', '0'), ('q**3', '1.5', '0'))
        subsets = {('p',): (('p',),), ('q',): (('q',),), ('p', 'q'): (('p',), ('q',), ('p', 'q')), (): ((),)}

        def all_():
            for c in cores:
                for row in rows:
                    ex = ((c[0], c[1], '0'), (c[2], c[3], '0'), row)
                    for sub in subsets[params_of(ex)]:
                        yield ex, sub

        def grid(timed, k):
            i = 0
            for (ex, sub) in all_():
                for labs in (('a', 'b'), ('a', 'a')):
                    for v in range(3):
                        for t in range(len(TS)):
                            for a in APIS:
                                i += 1
                                if keep(i, k):
                                    yield (labs + ('init',), ex, sub, v, t, a, timed)
        yield 'timed', grid(True, 60 if T else 2500)
        yield 'untimed', grid(False, 150 if T else 8000)
        # cells whose parameter is alone, everything else constant; and three-parameter models
        solo = ('p', '2*p', 'p**2', 'p**5', '0.001*p**5', '1.5')
        yield 'alone', (((l0, 'b', 'init'), ((c[0], c[1], '0'), (c[2], '0.25', '0'), ('1', '0.25', '0')), ('p',), v, t, a, timed)
                        for i, (c, v, t, a, timed, l0) in enumerate(itertools.product(itertools.product(solo, repeat=3), range(3), range(len(TS)), APIS, (True, False), 'ab'))
                        if 'p' in params_of([c]) and keep(i, 4 if T else 80))
        tri = ('p', 'q', 'r', 'p*r**2', 'p*q', '1.5')
        yield 'three', (((l0, 'b', 'init'), ((c[0], c[1], '0'), (c[2], '1.5', '0'), ('p', 'r', '0')), sub, 0, t, a, timed)
                        for i, (c, t, a, timed, l0, sub) in enumerate(itertools.product(itertools.product(tri, repeat=3), range(len(TS)), APIS, (True, False), 'ab', (('p',), ('r',), ('q', 'r'), ('p', 'r'), ('p', 'q', 'r'))))
                        if set(sub) <= set(params_of([c, ('p', 'r')])) and keep(i, 20 if T else 300))
        prod = ('p', 'p*q', '3*p*q**2', 'q', 'p**2')
        yield 'joint', ((('a', 'b', 'init'), ((c[0], c[1], '0'), (c[2], c[3], '0'), ('1', '0.25', '0')), ('p', 'q'), v, t, 'fit_parameters', timed)
                        for i, (c, v, t, timed) in enumerate(itertools.product(itertools.product(prod, repeat=4), range(2), (2, 3), (True,)))
                        if params_of([c]) == ('p', 'q') and keep(i, 8 if T else 60))
        # a state whose label never occurs in the training set, reached or not from the others
        yield 'unseen', ((('a', 'b', 'c', 'init'), ((c[0], c[1], x, '0'), (c[2], '0.25', '0', '0'), ('q', '0', 'p', '0'), ('1', '0.25', y, '0')), ('p',), v, t, a, True)
                         for i, (c, x, y, v, t, a) in enumerate(itertools.product(itertools.product(('p', '2*p', '1.5'), repeat=3), ('0', 'p', '1.5', '2*p'), ('0', 'p', '1.5'), range(3), range(len(TS)), ('fit_parameters', 'fit')))
                         if keep(i, 8 if T else 80))
        # the same with states nothing refers to, placed before, between and after the others
        yield 'unseen_order', ((perm, two, c, x, y, v, t, a)
                               for i, (perm, two, c, x, y, v, t, a) in enumerate(itertools.product(((2, 0, 1, 3), (0, 2, 1, 3), (3, 2, 0, 1), (2, 1, 0, 3), (1, 2, 3, 0)), (False, True), itertools.product(('p', '2*p', '1.5'), repeat=3), ('0', 'p', '1.5'), ('0', 'p', '1.5'), range(3), (0, 2, 3), ('fit_parameters', 'missing')))
                               if keep(i, 8 if T else 90))
        # the starting values drawn for the parameters without value stay in the requested range, and learning continues from them
        yield 'range', ((a, lo, hi, u, two, timed) for a in ('fit', 'fit_parameters', 'missing') for lo in (None, 0.25, 1.0) for hi in (None, 1.5, 3.0) for u in ((0.03, 0.6), (0.99, 0.0), (0.5, 0.5)) for two in (False, True) for timed in (True, False))
        yield 'order', ((p, a, timed) for p in itertools.permutations(('q', 'p', 'r', 'unused')) for a in ('fit_parameters', 'default', 'missing') for timed in (True, False))

    def learn(self, model, s, api_, sub, others, cells, rounds, start):
        import jajapy
        np = np_()
        bw = jajapy.BW()
        kw = dict(max_it=rounds, epsilon=-1e9, verbose=0, return_data=True)
        if api_ in ('fit', 'fit_const'):
            return bw.fit(s, initial_model=model, stormpy_output=False, update_constant=(api_ == 'fit_const'), fixed_parameters=list(others), **kw)
        if api_ == 'default':
            return bw.fit(s, initial_model=model, stormpy_output=False, **kw)
        if api_ == 'mask':
            f = np.zeros((len(cells), len(cells)), dtype=bool)
            for i, r in enumerate(cells):
                for j, c in enumerate(r):
                    f[i, j] = bool(set(MENU[c][1]) & set(others)) or c in ('0.25', '1')
            return bw.fit(s, initial_model=model, stormpy_output=False, fixed_parameters=f, **kw)
        kw['verbose'] = False
        if api_ == 'fit_parameters':
            res, info = bw.fit_parameters(s, model, list(sub), **kw)
        else:
            for p in sub:
                del model.parameter_values[p]
            v = start[sub[0]]
            res, info = bw.fit_nonInstantiatedParameters(s, model, min_val=v, max_val=v, **kw)
        need(set(res) == set(sub), lambda: 'returned parameters %s expected %s' % (sorted(res), sorted(sub)))
        for p in sub:
            need(res[p] == model.parameter_values[p], lambda: 'returned value of %s differs from the one of the model' % p)
        return model, info

    def expected(self, labels, ex, vals, consts, data, timed):
        """sufficient statistics under the current valuation: jumps, weight of each state, log-likelihood"""
        n = len(labels)
        R = [[consts[c] if c in consts else value(c, vals) for c in r] for r in ex]
        init = [float(x) for x in ref.uniform_init(labels)]
        if timed:
            r = em.em_timed(labels, R, init, data, False)
            return R, r['num'], r['time'], r['ll'], r['used']
        J = [[float(x) for x in q] for q in ref.jump(R)]
        r = em.em_chain(n, init, J, lambda s, o: 1 if labels[s] == o else 0, data, False)
        E = [sum(q) for q in R]
        return R, r['num'], [d / e if e else 0.0 for d, e in zip(r['den'], E)], r['ll'], r['used']

    def evaluate(self, labels, ex, vals, consts, data, timed):
        R = [[consts[c] if c in consts else value(c, vals) for c in r] for r in ex]
        init = [float(x) for x in ref.uniform_init(labels)]
        tot = 0.0
        for tr, m in data:
            if timed:
                d = ref.ctmc_density(labels, R, tr)
            else:
                n = len(labels)
                J = [[float(x) for x in q] for q in ref.jump(R)]
                cur = init
                for o in tr:
                    cur = [cur[s] if labels[s] == o else 0.0 for s in range(n)]
                    cur = [math.fsum(cur[s] * J[s][t] for s in range(n)) for t in range(n)]
                d = math.fsum(cur)
            if d > 0:
                tot += m * math.log(d)
        return tot

    def root(self, p, ex, vals, R, N, D):
        """positive root of sum a N = sum a h D (x/p)^a"""
        t = {}
        num = 0.0
        for i, r in enumerate(ex):
            for j, c in enumerate(r):
                a = MENU[c][1].get(p, 0)
                if a:
                    num += a * N[i][j]
                    t[a] = t.get(a, 0.0) + a * R[i][j] * D[i]
        if not any(t.values()):
            return vals[p]
        f = lambda x: sum(w * (x / vals[p]) ** a for a, w in t.items()) - num
        lo, hi = 0.0, vals[p]
        while f(hi) < 0:
            hi *= 2
        for _ in range(300):
            mid = (lo + hi) / 2
            if f(mid) < 0:
                lo = mid
            else:
                hi = mid
        return (lo + hi) / 2

    def range(self, case, st):
        import jajapy
        from checks.C04 import mk_pctmc
        from mc import zoo
        from checks.C11 import close_snap
        a, lo, hi, u, two, timed = case
        ex = (('p', 'q', '0'), ('r', '1.5', '0'), ('1', 'q', '0')) if not two else (('p', 'p*q', '0'), ('r', '1.5', '0'), ('r', 'q', '0'))
        seqs, mult = (TS if timed else US)[2]
        given = {'p': 0.5, 'q': 2.0} if not two else {'p': 0.5, 'q': 2.0, 'r': None}
        given = {k: x for k, x in given.items() if x is not None}
        if two:
            given['q'] = 0.75
        l, h = (min(given.values()) if lo is None else lo), (max(given.values()) if hi is None else hi)
        if l > h:
            return
        val = {'r': l + u[0] * (h - l)}

        def go(m, lo, hi):
            s = mk_set(seqs, mult, 4 if timed else 0)
            bw = jajapy.BW()
            kw = dict(max_it=2, epsilon=-1e9, return_data=True, verbose=False, min_val=lo, max_val=hi)
            st.step()
            if a == 'fit':
                kw['verbose'] = 0
                return bw.fit(s, initial_model=m, stormpy_output=False, **kw)
            if a == 'missing':
                r, i = bw.fit_nonInstantiatedParameters(s, m, **kw) if not m.isInstantiated() else bw.fit_parameters(s, m, ['r'], **kw)
            else:
                r, i = bw.fit_parameters(s, m, ['r', 'q'], **kw)
            need(set(r) == ({'r'} if a == 'missing' else {'q', 'r'}), lambda: 'parameters returned: %s' % (r,))
            return m, i
        ref_, i0 = go(mk_pctmc(('a', 'b', 'init'), ex, ('p', 'q', 'r'), dict(given, **val)), None, None)
        seams.CTL.script(list(u) + [0.31] * 20)
        try:
            out, i1 = go(mk_pctmc(('a', 'b', 'init'), ex, ('p', 'q', 'r'), given), lo, hi)
        finally:
            seams.CTL.real()
        need(close(i0['training_set_loglikelihood'], i1['training_set_loglikelihood']), lambda: 'learning from r drawn in [%s, %s] with draw %s should start at r=%s: %s' % (l, h, u[0], val['r'], case))
        need(close_snap(zoo.snap(ref_), zoo.snap(out)), lambda: 'learning from r drawn in [%s, %s] with draw %s: %s instead of %s: %s' % (l, h, u[0], out.parameter_values, ref_.parameter_values, case))
        st.outcome((case, tuple(sorted((p, round(float(x), 9)) for p, x in out.parameter_values.items()))))

    def run(self, fam, case, st):
        from checks.C04 import mk_pctmc
        if fam == 'range':
            return self.range(case, st)
        if fam == 'order':
            names, a, timed = case
            case = (('a', 'b', 'init'), (('p', 'q', '0'), ('r', 'p*r**2', '0'), ('1', 'q', '0')), ('p', 'q', 'r') if a == 'default' else ('r',), 0, 2, a, timed)
        else:
            names = None
        if fam == 'unseen_order':
            perm, two, c, x, y, v, t, a = case
            labels = ['a', 'b', 'c', 'init']
            ex = [[c[0], c[1], x, '0'], [c[2], '0.25', '0', '0'], ['q', '0', 'p', '0'], ['1', '0.25', y, '0']]
            order = list(perm)
            if two:     # a second one, between two others
                labels.append('d')
                ex = [r + ['0'] for r in ex] + [['p', '0', '0', '0', 'q']]
                order.insert(perm[0], 4)
            labels = tuple(labels[s] for s in order)
            ex = tuple(tuple(ex[s][u] for u in order) for s in order)
            case = (labels, ex, ('p',), v, t, a, True)
            fam = 'unseen'
        labels, ex, sub, v, t, api_, timed = case
        if not sub and api_ in ('fit_parameters', 'missing'):
            return
        par = params_of(ex)
        vals = {p: VALS[v][p] for p in par}
        if names:
            par = list(names)
            vals['unused'] = 7.0
        if api_ == 'default':
            sub = par
        if api_ == 'missing':
            for p in sub:
                vals[p] = vals[sub[0]]
        others = [p for p in par if p not in sub]
        if api_ == 'mask':
            # a parameter is learned when none of its transitions is fixed
            fixed = {(i, j) for i, r in enumerate(ex) for j, c in enumerate(r) if set(MENU[c][1]) & set(others) or c in ('0.25', '1')}
            learned = [p for p in par if not any((i, j) in fixed for i, r in enumerate(ex) for j, c in enumerate(r) if p in MENU[c][1])]
            learned_c = {c for r in ex for c in r if not MENU[c][1] and c not in ('0', '0.25', '1')}
        else:
            learned = list(sub)
            learned_c = {c for r in ex for c in r if not MENU[c][1] and c != '0'} if api_ in ('fit_const', 'default') else set()
        seqs, mult = (TS if timed else US)[t]
        data = list(zip([list(x) for x in seqs], mult))
        const0 = {c: MENU[c][0] for r in ex for c in r if not MENU[c][1]}
        R, N, D, ll0, used = self.expected(labels, ex, vals, const0, data, timed)
        if not used:
            return
        if not timed and any(sum(r) == 0 for r in R):
            return
        ctx = lambda: ' [%r others fixed %r start %s set %s timed=%s api=%s]' % ((labels, ex), others, vals, data, timed, api_)
        rounds = 80 if fam == 'joint' else 3
        cur, curc, ll = dict(vals), dict(const0), ll0
        alone = [p for p in learned if not any(p in MENU[c][1] and set(MENU[c][1]) & set(learned) - {p} for r in ex for c in r)]
        for k in ((1, 2, rounds) if fam != 'joint' else (1, rounds)):
            m = mk_pctmc(labels, ex, par, vals)
            out, info = self.learn(m, mk_set(seqs, mult, 4 if timed else 0), api_, sub, others, ex, k, vals)
            st.step(k)
            need(info['learning_rounds'] == k, lambda: '%r rounds instead of %d%s' % (info['learning_rounds'], k, ctx()))
            new = {p: float(out.parameter_values[p]) for p in par}
            for p in par:
                if p not in learned:
                    need(new[p] == vals[p], lambda: 'parameter %s was not to be learned: %r became %r%s' % (p, vals[p], new[p], ctx()))
                need(new[p] >= 0 and not math.isinf(new[p]), lambda: 'parameter %s became %r%s' % (p, new[p], ctx()))
            kept = [labels.index(l) if labels.count(l) == 1 else None for l in out.labelling]
            if fam != 'unseen':
                need(list(out.labelling) == list(labels), lambda: 'labels changed: %s%s' % (out.labelling, ctx()))
                kept = list(range(len(labels)))
            newc = dict(const0)
            for i, s in enumerate(kept):
                for j, u in enumerate(kept):
                    if not MENU[ex[s][u]][1]:
                        g = float(out.transitionValue(i, j))
                        if ex[s][u] in learned_c:
                            newc[ex[s][u]] = g
                        else:
                            need(g == const0[ex[s][u]], lambda: 'constant of transition %s changed from %r to %r%s' % ((s, u), const0[ex[s][u]], g, ctx()))
            for i, s in enumerate(kept):
                row = []
                for j, u in enumerate(kept):
                    e = newc[ex[s][u]] if ex[s][u] in newc else value(ex[s][u], new)
                    row.append(e)
                    g = float(out.transitionValue(i, j))
                    need(close(g, e, 1e-9), lambda: 'rate %s is %r, its expression %s evaluates to %r at %s%s' % ((s, u), g, ex[s][u], e, new, ctx()))
                    need(close(float(out.l(i, j, labels[s])), e, 1e-9), lambda: 'l%s disagrees with the learned parameters%s' % ((s, u), ctx()))
                    need({x for x in out.involvedParameters(i, j)} == set(MENU[ex[s][u]][1]), lambda: 'transition %s now involves %s%s' % ((s, u), out.involvedParameters(i, j), ctx()))
                for p in par:
                    pos = sorted(tuple(int(y) for y in x) for x in out.parameterIndexes(p))
                    need(pos == [(a, b) for a, s_ in enumerate(kept) for b, u_ in enumerate(kept) if p in MENU[ex[s_][u_]][1]], lambda: 'parameterIndexes(%s) = %s%s' % (p, pos, ctx()))
                need(close(float(out.e(i)), sum(row), 1e-9), lambda: 'exit rate of %d%s' % (s, ctx()))
            lln = self.evaluate(labels, ex, new, newc, data, timed)
            need(lln >= ll - 1e-7 * (1 + abs(ll)), lambda: 'likelihood decreased from %r to %r after %d rounds (%s)%s' % (ll, lln, k, new, ctx()))
            if k == 1:
                need(close(info['training_set_loglikelihood'], ll0), lambda: 'reported log-likelihood %r expected %r%s' % (info['training_set_loglikelihood'], ll0, ctx()))
                for p in alone:
                    x = self.root(p, ex, vals, R, N, D)
                    need(close(new[p], x, 1e-7, 1e-9), lambda: 'parameter %s learned as %r, maximum-likelihood value given the expected counts is %r%s' % (p, new[p], x, ctx()))
                for c in learned_c:
                    num = sum(N[i][j] for i, r in enumerate(ex) for j, d in enumerate(r) if d == c)
                    den = sum(D[i] for i, r in enumerate(ex) for j, d in enumerate(r) if d == c)
                    if den:
                        need(close(newc[c], num / den, 1e-7, 1e-9), lambda: 'constant %s learned as %r expected %r%s' % (c, newc[c], num / den, ctx()))
                    else:
                        need(close(newc[c], const0[c]), lambda: 'constant %s of states never visited became %r%s' % (c, newc[c], ctx()))
            ll = lln
            cur, curc = new, newc
        st.outcome((tuple(sorted((p, round(x, 9)) for p, x in cur.items())), ex))
        if fam == 'joint':
            R, N, D, _, _ = self.expected(labels, ex, cur, curc, data, timed)
            for p in learned:
                num = sum(MENU[c][1].get(p, 0) * N[i][j] for i, r in enumerate(ex) for j, c in enumerate(r))
                den = sum(MENU[c][1].get(p, 0) * R[i][j] * D[i] for i, r in enumerate(ex) for j, c in enumerate(r))
                need(abs(num - den) <= 0.05 * max(num, den, 1e-9), lambda: 'after %d rounds %s=%r is no stationary point: expected jumps %r against %r%s' % (rounds, p, cur[p], num, den, ctx()))


CHECK = C10()
