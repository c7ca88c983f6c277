import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo

KINDS = ('mc', 'hmm', 'mdp', 'gohmm', 'ctmc', 'ctmc_untimed', 'pctmc', 'pctmc_untimed')
LOADERS = {0: 'loadMC', 1: 'loadMDP', 2: 'loadHMM', 3: 'loadGoHMM', 4: 'loadCTMC', 5: 'loadPCTMC'}
ROUNDS = 6


def close_snap(a, b, rel=1e-9):
    """same model up to floating point noise"""
    def num(x, y):
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(num(p, q) for p, q in zip(x, y))
        try:
            fx, fy = float.fromhex(x) if isinstance(x, str) else float(x), float.fromhex(y) if isinstance(y, str) else float(y)
            return close(fx, fy, rel, 1e-12)
        except (TypeError, ValueError):
            return x == y
    return set(a) == set(b) and all(num(a[k], b[k]) for k in a)


def load(m, path):
    import jajapy
    return getattr(jajapy, LOADERS[m.model_type])(path)


class C11(Check):
    id = 'C11'
    rule = ('for every model kind and training sub-multiset: the whole run is replayed one round at a time (the history of hypotheses and likelihoods), then every threshold placed just above and just below each observed gain '
            'and every iteration bound 1..6 is run in one call and must stop exactly where the step-by-step history says, return the same model, report the same count and likelihood and write the same file; likelihood non decreasing '
            'on every step; splits k+m; gains exactly equal to the threshold zero. Requests that cannot be served (no hypothesis and no size, no rates, traces of another kind) are refused without side effect. Random first hypotheses with every scripted draw sequence. Non-trivial: distinct (kind, stop round, likelihood).')
    assumptions = ['GoHMM histories are cut when a deviation collapses (likelihood singularity)', 'thresholds are probed away from exact ties, except gains that are exactly zero', 'floating point agreement to 1e-9 relative']

    def families(self, tier):
        T = tier == 'thorough'
        km = [(k, i) for k in KINDS for i in range(len(zoo.ZOO[k]))]
        subs = range(1, 16) if T else (15, 5, 8, 6)
        yield 'stops', ((k, i, b) for k, i in km for b in subs)
        yield 'split', ((k, i, b, a) for k, i in km for b in ((15, 6) if T else (15,)) for a in range(1, 5))
        yield 'random_start', ((t, n, u, o) for t in (0, 1, 3, 4) for n in (1, 2, 3) for u in range(8 if T else 3) for o in ('default', 'single_initial', 'natural'))
        yield 'refused', ((k, x) for k in ('mc', 'mdp', 'gohmm', 'ctmc') for x in ('nothing', 'no_rates', 'other_kind'))
        yield 'tie', ((k, e, b) for k in ('mc', 'hmm', 'mdp', 'ctmc') for e in (0.0, 0.01, -0.5) for b in range(1, 6))
        yield 'default_epsilon', ((k, i) for k, i in km if k != 'gohmm')

    def data(self, k, i, b):
        m, t, pos, imp = zoo.make(k, i)
        tr = [pos[j] for j in range(4) if b >> j & 1]
        mult = [(3, 1, 2, 4)[j] for j in range(4) if b >> j & 1]
        return m, t, tr, mult

    def history(self, k, i, b, st, rounds=ROUNDS):
        """step by step: likelihood reported by round j and model after it"""
        m, t, tr, mult = self.data(k, i, b)
        lls, models = [], []
        h = m
        for j in range(rounds):
            # training LL of the hypothesis entering this round, by the model's own likelihood
            direct = h.logLikelihood(mk_set(tr, mult, t)) * sum(mult)
            h, info = em.fit(h, mk_set(tr, mult, t), max_it=1)
            st.step()
            need(info['learning_rounds'] == 1, 'max_it=1 ran %r rounds' % info['learning_rounds'])
            ll = float(info['training_set_loglikelihood'])
            need(close(ll, direct, 1e-8, 1e-9), lambda: 'round %d reports %r, the entering hypothesis has %r' % (j + 1, ll, direct))
            if lls:
                need(ll >= lls[-1] - 1e-7 * (1 + abs(ll)), lambda: 'training likelihood decreases at round %d: %r -> %r' % (j + 1, lls[-1], ll))
            if k == 'gohmm' and np_().array(h.output)[:, :, 1].min() < 0.05:
                break           # collapsing deviation: the likelihood is unbounded there
            lls.append(ll)
            models.append(zoo.snap(h))
        return lls, models

    def predicted(self, lls, eps, bound):
        for j in range(1, len(lls) + 1):
            if j == bound:
                return j
            if j >= 2 and lls[j - 1] - lls[j - 2] < eps:
                return j
        return None

    def run(self, fam, case, st):
        if fam == 'random_start':
            return self.random_start(case, st)
        if fam == 'refused':
            return self.refused(case, st)
        if fam == 'tie':
            # a chain without any choice: the likelihood is exactly zero in every round, a gain of zero is not below the threshold zero
            k, e, bound = case
            ja, np = api(), np_()
            M = [[0, 1, 0], [0, 1, 0], [1, 0, 0]]
            lab = ['a', 'b', 'init']
            tr, t = [['init', 'a', 'b', 'b']], 0
            if k == 'mc':
                m = ja.MC(np.array(M, dtype=float), lab)
            elif k == 'hmm':
                m = ja.HMM(np.array(M, dtype=float), np.array([[1, 0, 0], [0, 1, 0], [0, 0, 1]], dtype=float), lab, 2)
            elif k == 'mdp':
                m = ja.MDP(np.array([[r] for r in M], dtype=float), lab, ['l'])
                tr, t = [['init', 'l', 'a', 'l', 'b', 'l', 'b']], 1
            else:
                m = ja.CTMC(np.array(M, dtype=float) * 4, lab)
            b = zoo.snap(m)
            out, info = em.fit(m, mk_set(tr, [3], t), max_it=bound, epsilon=e)
            p = min(bound, 2) if e > 0 else bound
            st.step(bound)
            need(info['learning_rounds'] == p and info['training_set_loglikelihood'] == 0, lambda: '%r rounds expected %d (the gain is always zero, threshold %r): likelihood %r' % (info['learning_rounds'], p, e, info['training_set_loglikelihood']))
            if k != 'ctmc':
                need(zoo.snap(out) == b, 'the model at the maximum was changed')
            st.outcome((k, p))
            return
        k, i = case[0], case[1]
        if fam == 'default_epsilon':
            lls, models = self.history(k, i, 15, st, 40)
            p = self.predicted(lls, 0.01, None)
            if p is None:
                return
            if abs(lls[p - 1] - lls[p - 2] - 0.01) < 1e-6:
                return
            m, t, tr, mult = self.data(k, i, 15)
            out, info = em.fit(m, mk_set(tr, mult, t))
            need(info['learning_rounds'] == p, lambda: 'default threshold: %r rounds, expected %d (likelihoods %s)' % (info['learning_rounds'], p, lls[:p + 1]))
            st.outcome((case, p))
            return
        b = case[2]
        lls, models = self.history(k, i, b, st)
        if len(lls) < 2:
            return
        N = len(lls)
        gains = [lls[j] - lls[j - 1] for j in range(1, len(lls))]
        if fam == 'split':
            a = case[3]
            if a >= N:
                return
            m, t, tr, mult = self.data(k, i, b)
            h, inf1 = em.fit(m, mk_set(tr, mult, t), max_it=a, epsilon=-1.0)
            h, inf2 = em.fit(h, mk_set(tr, mult, t), max_it=N - a, epsilon=-1.0)
            need(inf1['learning_rounds'] == a and inf2['learning_rounds'] == N - a, 'a negative threshold must use every allowed round: %r %r' % (inf1, inf2))
            need(close_snap(zoo.snap(h), models[-1]), lambda: '%d then %d rounds differ from %d rounds' % (a, N - a, N))
            st.outcome((case, round(lls[-1], 6)))
            return
        eps = {1e9, -1.0}
        for g in gains:
            if abs(g) > 1e-6:
                eps |= {g * 1.001, g * 0.999}
        for e in sorted(eps):
            for bound in range(1, N + 1):
                p = self.predicted(lls, e, bound)
                m, t, tr, mult = self.data(k, i, b)
                f = self.scratch + '/o.txt'
                out, info = em.fit(m, mk_set(tr, mult, t), max_it=bound, epsilon=e, output_file=f)
                st.step()
                ctx = ' (epsilon %r, max_it %d, gains %s)' % (e, bound, gains)
                need(info['learning_rounds'] == p, lambda: '%r rounds, expected %d%s' % (info['learning_rounds'], p, ctx))
                need(close(info['training_set_loglikelihood'], lls[p - 1], 1e-9), lambda: 'reported likelihood %r, expected %r%s' % (info['training_set_loglikelihood'], lls[p - 1], ctx))
                need(close_snap(zoo.snap(out), models[p - 1]), lambda: 'returned model is not the hypothesis after round %d%s' % (p, ctx))
                lo = load(out, f)
                need(close_snap(zoo.snap(lo), zoo.snap(out), 1e-14), lambda: 'the file written is not the model returned%s: %r' % (
                    ctx, [(x, zoo.snap(lo).get(x), zoo.snap(out)[x]) for x in zoo.snap(out) if zoo.snap(lo).get(x) != zoo.snap(out)[x]][:1]))
                st.outcome((k, i, b, p, round(lls[p - 1], 7)))
                if e in (1e9, -1.0) and bound > 3:
                    # same without return_data
                    m2, t, tr, mult = self.data(k, i, b)
                    out2 = em.fit(m2, mk_set(tr, mult, t), max_it=bound, epsilon=e, return_data=False)
                    need(close_snap(zoo.snap(out2), models[p - 1]), 'return_data changes the result')

    def random_start(self, case, st):
        import jajapy
        t, n, u, o = case
        if (t, n, o) == (4, 1, 'natural'):
            return      # a single state without self loop has no successor
        kind = {0: 'mc', 1: 'mdp', 3: 'gohmm', 4: 'ctmc'}[t]
        _, _, tr, _ = zoo.make(kind, 0)
        mult = [3, 1, 2, 4]
        kw = dict(nb_states=n, stormpy_output=False, verbose=0, return_data=True, epsilon=-1.0)
        if t == 4:
            kw.update(min_exit_rate_time=1, max_exit_rate_time=3, self_loop=True)
        if t == 3:
            kw.update(nb_distributions=2)
            if o == 'natural':
                del kw['nb_distributions']      # as many as values per observation
        if t == 4 and o == 'natural':
            kw.update(self_loop=False)
        if o == 'single_initial':
            kw.update(random_initial_state=False)
        draws = [((u * 37 + j * 61) % 97 + 0.5) / 97 for j in range(400)]

        def go(rounds):
            seams.CTL.script(draws)
            try:
                return jajapy.BW().fit(mk_set(tr, mult, t), max_it=rounds, **kw)
            finally:
                seams.CTL.real()
        out1, inf1 = go(1)
        out3, inf3 = go(3)
        need(out1.nb_states == n + (0 if t == 3 else 1), 'asked for %d states, the learned model has %d' % (n, out1.nb_states))
        start = out1.initial_state.tolist()
        need(all(x >= 0 for x in start) and close(sum(start), 1.0), lambda: 'initial distribution %s' % start)
        if t != 3:
            obs = sorted({x for q in tr for x in q if isinstance(x, str)} - {'init', 'l', 'r', 'u'})
            need(set(out1.labelling) <= set(obs) | {'init'} and out1.labelling.count('init') == 1, lambda: 'labels %s for observations %s' % (out1.labelling, obs))
            need(start[out1.labelling.index('init')] == 1.0, 'initial state')
            need(n < len(obs) or set(out1.labelling) == set(obs) | {'init'}, lambda: 'labels %s for observations %s' % (out1.labelling, obs))
            if o == 'single_initial':
                r = out1.matrix[out1.labelling.index('init')]
                need(all(sum(x > 0 for x in q) <= 1 for q in (r if t == 1 else [r])), lambda: 'several first states %s' % r)
        elif o == 'single_initial':
            need(sorted(start) == [0.0] * (n - 1) + [1.0], lambda: 'initial distribution %s' % start)
        if t == 1:
            need(set(out1.actions) == {x for q in tr for x in q[1::2]}, lambda: 'actions %s' % out1.actions)
        if t == 3:
            need(out1.nb_distributions == len(tr[0][0]) and out1.output.shape == (n, len(tr[0][0]), 2), lambda: 'outputs of shape %s' % (out1.output.shape,))
        if t != 4:
            for r in out1.matrix.reshape(-1, out1.nb_states).tolist():
                need(all(x >= 0 for x in r) and (close(sum(r), 1.0) or not any(r)), lambda: 'row %s' % r)
        elif o == 'natural':
            need(all(out1.matrix[i, i] == 0 for i in range(n + 1)) or n == 1, lambda: 'self loops %s' % out1.matrix)
        need(inf1['learning_time'] >= 0, 'time')
        h, a = em.fit(out1, mk_set(tr, mult, t), max_it=1)
        h, b = em.fit(h, mk_set(tr, mult, t), max_it=1)
        st.step(4)
        need(inf3['learning_rounds'] == 3, 'rounds')
        need(close_snap(zoo.snap(h), zoo.snap(out3), 1e-7), 'three rounds in one call differ from three calls')
        l = [inf1['training_set_loglikelihood'], a['training_set_loglikelihood'], b['training_set_loglikelihood']]
        need(l[0] <= l[1] + 1e-7 and l[1] <= l[2] + 1e-7, 'likelihood decreases %r' % l)
        need(close(inf3['training_set_loglikelihood'], l[2]), 'reported likelihood')
        st.outcome((case, round(l[2], 6)))

    def refused(self, case, st):
        import jajapy
        k, x = case
        m, t, tr, _ = zoo.make(k, 0)
        kw = dict(stormpy_output=False, verbose=0, max_it=1)
        if x == 'no_rates':
            if k != 'ctmc':
                return
            kw.update(nb_states=2)
        elif x == 'other_kind':
            # traces of another nature than those of the hypothesis
            other = {'mc': 'gohmm', 'mdp': 'gohmm', 'gohmm': 'mdp', 'ctmc': 'mdp'}[k]
            kw.update(initial_model=zoo.make(other, 0)[0])
        b = zoo.snap(kw['initial_model']) if 'initial_model' in kw else None
        s = mk_set(tr, [1] * len(tr), t)
        bs = zoo.snap_set(s)
        try:
            r = jajapy.BW().fit(s, **kw)
        except Exception as e:
            need(isinstance(e, (RuntimeError, ValueError, TypeError)) or x == 'other_kind', lambda: 'raised %r' % e)
        else:
            raise Violation('%s: accepted, returned %s' % (case, type(r)))
        need(zoo.snap_set(s) == bs, 'the training set was changed')
        need(b is None or zoo.snap(kw['initial_model']) == b, 'the hypothesis was changed')
        st.step()
        st.outcome(case)


CHECK = C11()
