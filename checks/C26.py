import itertools, math, os, subprocess, sys
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo

TOP = 1 - 2 ** -53
E2 = (0.0, TOP)
P3 = (0.5, 0.0, TOP)
LABS = (('a',), ('a', 'b'), ('b', 'a', 'b'), ('a', 'b', 'c', 'd'))
ACTS = (('l',), ('l', 'r'))
BOUNDS = ((0.0, 2.0, 0.5, 2.0), (1.25, 1.25, 0.125, 0.125), (-3.0, -2.0, 1.0, 7.5), (0.0004, 0.0004, 0.0004, 0.0008), (0.12345, 0.12348, 0.00012, 0.7654321), (-0.5, 0.5, 0.1, 0.1))
TIMES = ((1, 1), (1, 2), (2, 5), (3, 10))

CODE = r'''
import sys, os
sys.stdout = open(os.devnull, 'w')
import jajapy as ja
out = []
for sd in (0, 1, 7):
    for n in (2, 3, 5):
        for labs in (['a', 'b'], ['w', 'x', 'y', 'z', 'aa', 'bb', 'cc'][:n], ['q', 'p', 'q', 'r', 'p']):
            ms = [ja.MC_random(n, labs, True, sd), ja.HMM_random(n, labs, True, sd), ja.CTMC_random(n, labs, 1, 5, True, True, sd),
                  ja.MDP_random(n, labs, ['l', 'r', 'u'], True, False, sd), ja.MDP_random(n, labs, ['l', 'r'], True, True, sd), ja.GoHMM_random(n, 2, True, sseed=sd)]
            for m in ms:
                out.append((type(m).__name__, sd, n, labs, m.matrix.tolist(), m.initial_state.tolist(), getattr(m, 'labelling', None), m.output.tolist() if hasattr(m, 'output') else None))
sys.__stdout__.write(repr(out))
'''


class C26(Check):
    id = 'C26'
    rule = ('every sequence of answers to the random draws of each generator on 3 points (0, the middle and the largest double below 1; the 2 extreme ones, then at most 2 deviations from the middle, when there are more sequences than 2500, 70000 in the thorough tier), for every small size, labelling (shorter, equal, longer than the number of '
            'states, with repeated labels), number of actions and distributions and every option; validity, labels, options of every model generated; for a range of seeds the model generated twice from different generator states and in '
            'processes with different string hashing. Non-trivial: distinct models generated.')
    assumptions = ['at least one state, label, action and distribution', 'minimum waiting time at least 1 and not above the maximum', 'self_loop=False needs two states', 'deterministic constrains the choices of the non-initial states (the random initial distribution is a separate option)']

    def families(self, tier):
        T = tier == 'thorough'
        lim = 70000 if T else 2500
        N = (1, 2, 3, 4, 5) if T else (1, 2, 3, 4)
        yield 'mc', ((n, l, r, lim) for n in N for l in LABS for r in (True, False))
        yield 'hmm', ((n, k, r, lim) for n in N for k in (1, 2, 3) for r in (True, False))
        yield 'gohmm', ((n, d, r, b, lim) for n in N[:-1] for d in (1, 2, 3) for r in (True, False) for b in (BOUNDS if n < 3 else BOUNDS[:3:2]))
        yield 'gofine', ((b, k) for b in BOUNDS for k in (50, 211))
        yield 'mdp', ((n, l, a, r, d, lim) for n in N for l in LABS for a in ACTS for r in (True, False) for d in (True, False) if T or n < 4 or l in LABS[1:3] and len(a) == 2)
        yield 'ctmc', ((n, l, t, s, r, lim) for n in N for l in LABS for t in TIMES for s in (True, False) for r in (True, False) if (n > 1 or s) and (n < 3 or T or t in TIMES[2:] and l in LABS[1:3]))
        yield 'tools', ((n, 10) for n in (1, 2, 3, 4))
        yield 'errors', itertools.product(range(8))
        yield 'seed', ((k, n, l, o, sd) for k in ('mc', 'hmm', 'mdp', 'mdpd', 'ctmc', 'gohmm') for n in (2, 3, 4) for l in range(len(LABS)) for o in (True, False) for sd in (range(30) if T else (0, 1, 42)))
        yield 'hash', ((h,) for h in range(12 if T else 3))

    def dist(self, row, n, what):
        row = [float(x) for x in row]
        need(len(row) == n and all(x >= 0 for x in row) and abs(sum(row) - 1) < 1e-9, lambda: '%s is not a distribution over %d states: %s' % (what, n, row))

    def labels(self, m, n, l):
        need(m.nb_states == n + 1, lambda: '%d states instead of %d and the initial one' % (m.nb_states, n))
        k = min(n, len(l))
        need(list(m.labelling[:k]) == list(l[:k]) and m.labelling[-1] == 'init' and len(m.labelling) == n + 1 and set(m.labelling[k:n]) <= set(l), lambda: 'labels %s for %s' % (m.labelling, l))
        need([m.pi(s) for s in range(n + 1)] == [0.0] * n + [1.0], 'not started in the initial state')
        need(sorted(m.getAlphabet()) == sorted(set(m.labelling)), 'alphabet')

    def first(self, row, n, rnd):
        """distribution of the first visited state"""
        self.dist(row, n + 1, 'the initial distribution')
        need(row[n] == 0, 'the initial state is left with probability %r' % (1 - row[n]))
        if rnd:
            need(all(x > 0 for x in row[:n]), lambda: 'some states are never initial: %s' % row)
        else:
            need(row[0] == 1, lambda: 'not started in state 0: %s' % row)

    def explore(self, fn, lim, check, st, key):
        seams.CTL.grid(P3)
        fn()
        d = len(seams.CTL.choices)
        seams.CTL.real()
        if 3 ** d <= lim:
            it = seams.enumerate_draws(P3, fn, 200)
            st.note('all sequences of draws on 3 points')
        elif 2 ** d <= lim:
            it = seams.enumerate_draws(E2, fn, 200)
            st.note('all sequences of draws on the 2 extreme points')
        else:
            # deviations from the middle answer
            it = seams.deviations(P3, 2 if 2 * d * d <= lim else 1, fn)
            st.note('all sequences with at most %d deviations' % (2 if 2 * d * d <= lim else 1))
        k = 0
        for w, m in it:
            check(m)
            k += 1
            st.outcome((key, repr(zoo._plain(m.matrix)), repr(zoo._plain(getattr(m, 'output', None))), tuple(getattr(m, 'labelling', ()))))
        st.step(k)
        st.note('models generated', k)

    def run(self, family, case, st):
        getattr(self, 'f_' + family)(case, st)

    def v_mc(self, m, n, l, r):
        self.labels(m, n, l)
        for s in range(n):
            self.dist(m.matrix[s], n + 1, 'row %d' % s)
            need(m.a(s, n) == 0, 'a state leads to the initial one')
        self.first(m.matrix[n], n, r)

    def f_mc(self, case, st):
        n, l, r, lim = case
        ja = api()
        lab = list(l)
        self.explore(lambda: ja.MC_random(n, lab, r), lim, lambda m: self.v_mc(m, n, l, r), st, case)
        need(lab == list(l), 'the labels given were changed')

    def v_hmm(self, m, n, al, r):
        need(m.nb_states == n and list(m.alphabet) == list(al), 'states or alphabet')
        for s in range(n):
            self.dist(m.matrix[s], n, 'row %d' % s)
            self.dist(m.output[s], len(al), 'emissions of %d' % s)
        self.v_init(m, n, r)

    def v_init(self, m, n, r):
        self.dist(m.initial_state, n, 'the initial distribution')
        need(all(x > 0 for x in m.initial_state) if r else m.initial_state[0] == 1, lambda: 'initial distribution %s with random_initial_state=%s' % (m.initial_state, r))

    def f_hmm(self, case, st):
        n, k, r, lim = case
        ja = api()
        al = ['x', 'y', 'z'][:k]
        self.explore(lambda: ja.HMM_random(n, al, r), lim, lambda m: self.v_hmm(m, n, ('x', 'y', 'z')[:k], r), st, case)

    def v_gohmm(self, m, n, d, r, b):
        np = np_()
        need(m.nb_states == n and m.nb_distributions == d and np.asarray(m.output).shape == (n, d, 2), 'states or distributions')
        for s in range(n):
            self.dist(m.matrix[s], n, 'row %d' % s)
            for mu, sg in m.output[s]:
                need(b[0] <= mu <= b[1], lambda: 'mu = %r outside [%r,%r]' % (mu, b[0], b[1]))
                need(b[2] <= sg <= b[3], lambda: 'sigma = %r outside [%r,%r]' % (sg, b[2], b[3]))
        self.v_init(m, n, r)

    def f_gohmm(self, case, st):
        n, d, r, b, lim = case
        ja = api()
        self.explore(lambda: ja.GoHMM_random(n, d, r, *b), lim, lambda m: self.v_gohmm(m, n, d, r, b), st, case)

    def f_gofine(self, case, st):
        b, k = case
        ja = api()
        from mc.seams import CTL
        for i in range(k + 1):
            for j in range(k + 1) if k < 60 else (i,):
                u, v = min(i / k, TOP), min(j / k, TOP)
                CTL.script([0.5, u, v, 0.5, 0.5])
                m = ja.GoHMM_random(1, 1, False, *b)
                CTL.real()
                st.step()
                self.v_gohmm(m, 1, 1, False, b)
                st.outcome(repr(zoo._plain(m.output)))

    def v_mdp(self, m, n, l, acts, r, d):
        self.labels(m, n, l)
        need(sorted(m.getActions()) == sorted(acts), 'actions')
        for s in range(n):
            for a in acts:
                row = [m.a(s, t, a) for t in range(n + 1)]
                self.dist(row, n + 1, 'row %d,%s' % (s, a))
                need(row[n] == 0, 'a state leads to the initial one')
                if d:
                    tgt = [m.labelling[t] for t in range(n) if row[t] > 0]
                    need(len(tgt) == len(set(tgt)), lambda: 'not deterministic: state %d action %s leads to states labelled %s' % (s, a, tgt))
        for a in acts:
            self.first([m.a(n, t, a) for t in range(n + 1)], n, r)

    def f_mdp(self, case, st):
        n, l, a, r, d, lim = case
        ja = api()
        lab, acts = list(l), list(a)
        self.explore(lambda: ja.MDP_random(n, lab, acts, r, d), lim, lambda m: self.v_mdp(m, n, l, a, r, d), st, case)
        need(lab == list(l) and acts == list(a), 'the arguments were changed')

    def v_ctmc(self, m, n, l, t, s, r):
        self.labels(m, n, l)
        for i in range(n):
            row = [float(x) for x in m.matrix[i]]
            need(all(x >= 0 for x in row) and row[n] == 0, lambda: 'rates %s' % row)
            w = m.expected_time(i)
            need(t[0] - 1e-9 <= w <= t[1] + 1e-9 and abs(w - round(w)) < 1e-9, lambda: 'expected waiting time %r outside %s' % (w, t))
            need(s or row[i] == 0, lambda: 'self loop in state %d' % i)
        need(not s or any(m.matrix[i][i] > 0 for i in range(n)), 'no self loop')
        self.first(m.matrix[n], n, r)

    def f_ctmc(self, case, st):
        n, l, t, s, r, lim = case
        ja = api()
        self.explore(lambda: ja.CTMC_random(n, list(l), t[0], t[1], s, r), lim, lambda m: self.v_ctmc(m, n, l, t, s, r), st, case)

    def f_tools(self, case, st):
        n, b = case
        from jajapy.base.tools import randomProbabilities, checkProbabilities
        seen = set()
        for w, p in seams.enumerate_draws(b if n < 4 else P3, lambda: randomProbabilities(n)):
            self.dist(p, n, 'randomProbabilities(%d)' % n)
            need(min(p) > 0 and checkProbabilities(p), 'zero probability')
            seen.add(tuple(p))
            st.step()
        need(n == 1 or len(seen) > 1, 'always the same probabilities')
        st.outcome((n, len(seen)))

    def f_errors(self, case, st):
        ja = api()
        from jajapy.base.tools import randomProbabilities
        f = [lambda: ja.MC_random(2, ['a', 'init']), lambda: ja.MDP_random(2, ['init'], ['l']), lambda: ja.CTMC_random(2, ['init', 'b'], 1, 2),
             lambda: ja.MC_random(0, ['a']), lambda: randomProbabilities(0), lambda: randomProbabilities(-1), lambda: randomProbabilities(1.5), lambda: ja.GoHMM_random(0, 1)][case[0]]
        st.step()
        try:
            f()
        except Exception as e:
            st.outcome((case, type(e).__name__))
            return
        raise Violation('no error for an ill-formed request')

    def gen(self, k, n, l, o, sd):
        ja = api()
        if k == 'mc':
            return ja.MC_random(n, list(l), o, sd)
        if k == 'hmm':
            return ja.HMM_random(n, list(l), o, sd)
        if k == 'gohmm':
            return ja.GoHMM_random(n, 2, o, sseed=sd)
        if k == 'ctmc':
            return ja.CTMC_random(n, list(l), 1, 6, o, not o, sd)
        return ja.MDP_random(n, list(l), ['l', 'r', 'u'], o, k == 'mdpd', sd)

    def f_seed(self, case, st):
        """the genuine generators, in different states before the call"""
        import random, numpy
        k, n, li, o, sd = case
        l = LABS[li]
        ref = None
        for pre in (0, 1, 2, 3):
            if pre == 1:
                random.seed(5)
                numpy.random.seed(6)
            elif pre == 2:
                random.random()
                numpy.random.rand(3)
            elif pre == 3:
                self.gen(k, n, l, not o, sd + 1)
            m = self.gen(k, n, l, o, sd)
            st.step()
            s = zoo.snap(m)
            s.pop('alphabet', None) if k not in ('hmm',) else None
            need(ref is None or s == ref, lambda: 'seed %r gave two models: %s and %s' % (sd, ref, s))
            ref = s
        if k == 'mc':
            self.v_mc(m, n, l, o)
        elif k == 'hmm':
            self.v_hmm(m, n, l, o)
        elif k == 'ctmc':
            self.v_ctmc(m, n, l, (1, 6), o, not o)
        elif k == 'gohmm':
            self.v_gohmm(m, n, 2, o, (0.0, 2.0, 0.5, 2.0))
        else:
            self.v_mdp(m, n, l, ('l', 'r', 'u'), o, k == 'mdpd')
        # another seed gives another model for some seeds; the generators are not left in a seeded state
        st.outcome(repr(sorted(ref.items())))

    def f_hash(self, case, st):
        """strings hash differently in another process"""
        outs = []
        for h in (0, case[0] * 2 + 1, case[0] * 2 + 2):
            env = dict(os.environ, PYTHONHASHSEED=str(h))
            p = subprocess.run([sys.executable, '-W', 'ignore', '-c', CODE], env=env, capture_output=True, text=True, timeout=55)
            need(p.returncode == 0, lambda: 'generation failed: %s' % p.stderr[-400:])
            outs.append(p.stdout)
            st.step()
        if len(set(outs)) > 1:
            a, b = [eval(x) for x in sorted(set(outs))[:2]]
            d = [(x, y) for x, y in zip(a, b) if x != y]
            raise Violation('a given seed gives different models in different processes: %s' % (d[0],))
        st.outcome(outs[0])


CHECK = C26()
