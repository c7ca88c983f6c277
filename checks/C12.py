import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import ref, em, zoo
from checks.C11 import close_snap

KINDS = ('mc', 'hmm', 'mdp', 'gohmm', 'ctmc', 'ctmc_untimed', 'pctmc', 'pctmc_untimed')
MULT = (3, 1, 2, 4, 2)
PERMS = list(itertools.permutations(range(5)))


class C12(Check):
    id = 'C12'
    rule = ('for every model kind: two learning rounds under all combinations of requested worker count, machine size and platform, all 120 completion orders and all 120 permutations of a five-trace multiset containing an impossible trace and of its four possible traces, '
            'list / array / split representations, every verbosity and display option, the hypothesis given as a Storm model, the library imported without Storm, the set with and without the impossible trace, all ordered pairs of model kinds learned by one learner object, and the genuine process pool; all must return the same model and data and leave the training set as it was. '
            'Non-trivial: distinct learned models.')
    assumptions = ['tasks run in isolated processes and exchange pickled values (validated against the genuine pool)', 'floating point agreement to 1e-9 relative']

    def families(self, tier):
        T = tier == 'thorough'
        km = [(k, i) for k in KINDS for i in range(len(zoo.ZOO[k]))]
        yield 'workers', ((k, i, c, p, plat) for k, i in km for c in (1, 2, 3, 8) for p in (None, 0, -1, 1, 2, 3, 7, 99) for plat in ((None, 'darwin', 'win32') if p in (None, 2) else (None,)))
        yield 'orders', ((k, i, p, n) for k, i in km for n in (5, 4) for p in range(120 if n == 5 else 24))
        yield 'perms', ((k, i, p, n) for k, i in km for n in (5, 4) for p in range(120 if n == 5 else 24))
        yield 'repr', ((k, i, r) for k, i in km for r in ('list', 'list_mixed', 'array', 'sorted', 'set_from_list', 'no_impossible', 'scaled', 'tuples_times', 'no_init', 'repeated'))
        yield 'verbose', ((k, i, v, p) for k, i in km for v in (0, 1, 2, 3, None, 'loud', -1, 9, 1.5) for p in ((None, 1, 'all', 2.5) if T else (1, 'all')))
        yield 'storm_hypothesis', ((k, i) for k, i in km if k in ('mc', 'mdp', 'ctmc', 'ctmc_untimed') and zoo.ZOO[k][i][1][0 if k != 'mdp' else 0].count('init') == 1)
        yield 'no_storm', ((k, i, how) for k, i in km for how in ('learner', 'hypothesis'))
        yield 'reuse', ((a, b, o) for a in km for b in km for o in (1, 4))
        yield 'real_pool', ((k, i) for k, i in km)

    def setup(self, k, i):
        m, t, pos, imp = zoo.make(k, i)
        tr = pos + ([imp] if imp else [])
        return m, t, tr, list(MULT[:len(tr)])

    def fit(self, m, s, st, learner=None, processes=None):
        import jajapy
        st.step()
        return (learner or jajapy.BW()).fit(s, initial_model=m, stormpy_output=False, verbose=0, return_data=True, max_it=2, epsilon=-1.0, processes=processes)

    def base(self, k, i, st, only=None):
        m, t, tr, mult = self.setup(k, i)
        if only:
            tr, mult = tr[:only], mult[:only]
        out, info = self.fit(m, mk_set(tr, mult, t), st)
        return zoo.snap(out), float(info['training_set_loglikelihood'])

    def same(self, res, base, what, scale=1.0):
        out, info = res
        need(close_snap(zoo.snap(out), base[0]), lambda: 'learned model differs: %s: %r' % (what, [(f, v, base[0][f]) for f, v in zoo.snap(out).items() if v != base[0].get(f)][:1]))
        need(close(info['training_set_loglikelihood'], base[1] * scale, 1e-9), lambda: 'reported likelihood %r expected %r: %s' % (info['training_set_loglikelihood'], base[1] * scale, what))
        need(info['learning_rounds'] == 2, 'rounds')

    def run(self, fam, case, st):
        if fam == 'reuse':
            import jajapy
            (a, b, cpus) = case
            seams.CTL.cpus = cpus
            learner = jajapy.BW()
            m, t, tr, mult = self.setup(*a)
            self.fit(m, mk_set(tr, mult, t), st, learner)
            m, t, tr, mult = self.setup(*b)
            r = self.fit(m, mk_set(tr, mult, t), st, learner)
            seams.CTL.cpus = 4
            self.same(r, self.base(b[0], b[1], st), 'after learning %s with the same learner' % (a,))
            return
        k, i = case[0], case[1]
        only = case[3] if fam in ('orders', 'perms') else None       # 4: without the impossible trace
        base = self.base(k, i, st, only)
        st.outcome((k, i, round(base[1], 8)))
        m, t, tr, mult = self.setup(k, i)
        if only:
            tr, mult = tr[:only], mult[:only]
        s = mk_set(tr, mult, t)
        before = zoo.snap_set(s)
        if fam == 'workers':
            c, p, plat = case[2:]
            seams.CTL.cpus = c
            with platform_(plat):
                self.same(self.fit(m, s, st, processes=p), base, case)
        elif fam == 'orders':
            o = PERMS[case[2]]
            seams.CTL.pool_order = lambda n: [x for x in o if x < n]
            self.same(self.fit(m, s, st), base, case)
        elif fam == 'perms':
            o = [x for x in PERMS[case[2]] if x < len(tr)]
            s = mk_set([tr[x] for x in o], [mult[x] for x in o], t)
            before = zoo.snap_set(s)
            with platform_('darwin' if case[2] % 2 else None):
                self.same(self.fit(m, s, st), base, case)
        elif fam == 'repr':
            self.representation(case[2], k, m, t, tr, mult, base, st)
        elif fam == 'verbose':
            v, p = case[2:]
            import jajapy
            out = jajapy.BW().fit(s, initial_model=m, stormpy_output=False, verbose=v, return_data=True, max_it=2, epsilon=-1.0, processes=p)
            st.step()
            self.same(out, base, case)
        elif fam == 'storm_hypothesis':
            # the first hypothesis given as a Storm model, the result asked for natively and as a Storm model
            import jajapy
            h = m.toStormpy()
            out, info = self.fit(h, s, st)
            need(type(out) is type(m), lambda: 'the learned model is a %s' % type(out))
            out.name = m.name
            self.same((out, info), base, 'Storm hypothesis')
            m2, _, _, _ = self.setup_of(m, k)
            o2, info = jajapy.BW().fit(s, initial_model=m2.toStormpy(), verbose=0, return_data=True, max_it=2, epsilon=-1.0)
            o2 = jajapy.stormpyModeltoJajapy(o2)
            o2.name = m.name
            if k == 'mdp':
                need(sorted(o2.actions) == sorted(out.actions), 'actions')
                o2.matrix = o2.matrix[:, [o2.actions.index(a) for a in out.actions]]
                o2.actions = list(out.actions)
            need(close_snap({f: v for f, v in zoo.snap(o2).items() if f in ('labelling', 'actions', 'initial_state', 'matrix')}, {f: v for f, v in base[0].items() if f in ('labelling', 'actions', 'initial_state', 'matrix')}), 'Storm hypothesis, Storm output')
            st.step(2)
        elif fam == 'no_storm':
            # on a machine without Storm the same model is returned in its native form
            import jajapy, sys
            h = m.toStormpy() if case[2] == 'hypothesis' and k in ('mc', 'mdp', 'ctmc') else m
            with without_storm():
                b = jajapy.BW()
                try:
                    out = b.fit(s, initial_model=h, verbose=0, return_data=True, max_it=2, epsilon=-1.0)
                except RuntimeError:
                    need(h is not m, 'learning is refused without Storm')
                else:
                    need(h is m, 'a Storm hypothesis was accepted without Storm')
                    self.same(out, base, 'without Storm')
                if k in ('mc', 'mdp', 'ctmc'):
                    try:
                        m.toStormpy()
                    except RuntimeError:
                        pass
                    else:
                        raise Violation('toStormpy answered without Storm')
            st.step(2)
        elif fam == 'real_pool':
            seams.USE_REAL_POOL[0] = True
            seams.CTL.cpus = 3
            self.same(self.fit(m, s, st), base, 'genuine pool')
        need(zoo.snap_set(s) == before, lambda: 'learning changed the training set: %r -> %r' % (before, zoo.snap_set(s)))

    def representation(self, r, k, m, t, tr, mult, base, st):
        import jajapy
        np = np_()
        flat = [list(x) for x, n in zip(tr, mult) for _ in range(n)]
        if r == 'list':
            x = [list(q) for q in flat]
            self.same(self.fit(m, x, st), base, 'list of traces')
            need(x == flat, 'the list given was changed')
        elif r == 'list_mixed':
            x = flat[::2] + flat[1::2]
            self.same(self.fit(m, x[::-1], st), base, 'interleaved list of traces')
        elif r == 'array':
            # an array needs traces of one length
            L = 3 if k in ('mdp', 'ctmc', 'pctmc') else 2
            q = [x for x in flat if len(x) == L]
            if len(q) < 2:
                return
            e = self.fit(m, jajapy.Set([list(x) for x in q], t=t), st)
            b = (zoo.snap(e[0]), float(e[1]['training_set_loglikelihood']))
            m, _, _, _ = self.setup_of(m, k)
            arr = np.array(q, dtype=object) if k in ('ctmc', 'pctmc') else np.array(q)
            self.same(self.fit(m, arr, st), b, 'array of traces')
        elif r == 'repeated':
            q, w = tr[:2] + tr, [2 * mult[0], mult[1]] + list(mult)
            e = self.fit(m, mk_set(tr, [3 * mult[0], 2 * mult[1]] + list(mult[2:]), t), st)
            b = (zoo.snap(e[0]), float(e[1]['training_set_loglikelihood']))
            m, _, _, _ = self.setup_of(m, k)
            self.same(self.fit(m, mk_set([list(x) for x in q], w, t), st), b, 'a trace listed twice')
        elif r == 'sorted':
            s = mk_set(tr, mult, t)
            s.sort()
            self.same(self.fit(m, s, st), base, 'sorted set')
        elif r == 'set_from_list':
            self.same(self.fit(m, jajapy.Set([list(x) for x in flat], t=t), st), base, 'set built from a list')
        elif r == 'no_impossible':
            if len(tr) > 4:
                self.same(self.fit(m, mk_set(tr[:4], mult[:4], t), st), base, 'without the impossible trace')
        elif r == 'scaled':
            self.same(self.fit(m, mk_set(tr, [5 * x for x in mult], t), st), base, 'multiplicities times 5', 5.0)
        elif r == 'tuples_times':
            s = jajapy.Set([list(x) for x in tr], np.array(mult), t)
            self.same(self.fit(m, s, st), base, 'times as array')
        elif r == 'no_init' and k in ('mc', 'ctmc_untimed'):
            # traces without 'init' are completed, in a copy
            s = mk_set([x[1:] for x in tr if 'init' not in x[1:] and x[0] == 'init' and len(x) > 1 and 'zz' not in x], [n for x, n in zip(tr, mult) if 'init' not in x[1:] and x[0] == 'init' and len(x) > 1 and 'zz' not in x], t)
            b = zoo.snap_set(s)
            full = mk_set([['init'] + list(x) for x in s.sequences], list(s.times), t)
            e = self.fit(m, full, st)
            bb = (zoo.snap(e[0]), float(e[1]['training_set_loglikelihood']))
            m2, _, _, _ = self.setup_of(m, k)
            self.same(self.fit(m2, s, st), bb, "traces without 'init'")
            need(zoo.snap_set(s) == b, 'learning changed the training set')

    def setup_of(self, m, k):
        i = self._i
        return self.setup(k, i)


class _C12(C12):
    def run(self, fam, case, st):
        self._i = case[1] if fam != 'reuse' else None
        return super().run(fam, case, st)


CHECK = _C12()
