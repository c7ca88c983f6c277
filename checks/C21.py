import itertools, math, os
from fractions import Fraction as F
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, ref, em
from checks.C15 import equal_iso, view


class _Rec:
    sul = None
    probe = None


def sul_class():
    """an MDP that records every simulation asked (defined once, picklable)"""
    if _Rec.sul is None:
        ja = api()

        class RecSul(ja.MDP):
            def run(self, number_steps, scheduler, current=-1):
                if _Rec.probe is not None:
                    _Rec.probe(scheduler, len(self.log))
                t = super().run(number_steps, scheduler, current)
                self.log.append((number_steps, type(scheduler).__name__, list(t)))
                return t

            def __reduce__(self):
                return (_remake, (self.matrix, self.labelling, self.actions, self.name))
        _Rec.sul = RecSul
    return _Rec.sul


def _remake(*a):
    m = sul_class()(*a)
    m.log = []
    return m


SULS = [zoo.MDP1, zoo.MDP2,
        # states with a single action; the action learnt first is not always available
        (('a', 'b', 'init'), ('l', 'r'), (((0, 4, 0), (0, 0, 0)), ((0, 0, 0), (2, 2, 0)), ((2, 2, 0), (0, 0, 0))), 4),
        (('a', 'b', 'init'), ('l', 'r'), (((4, 0, 0), (1, 3, 0)), ((1, 3, 0), (4, 0, 0)), ((2, 2, 0), (2, 2, 0))), 4),
        # a single action
        (('a', 'b', 'init'), ('l',), (((2, 2, 0),), ((4, 0, 0),), ((1, 3, 0),)), 4)]
HYP = [(('a', 'b', 'a', 'init'), None, ((1, 2, 1, 0), (2, 1, 1, 0), (1, 1, 2, 0), (1, 2, 1, 0)), 4), (('a', 'b', 'init'), None, ((2, 2, 0), (1, 3, 0), (2, 2, 0)), 4)]
INITIAL = [[['init', 'l', 'a', 'l', 'b']], [['init', 'l', 'b', 'r', 'a'], ['init', 'l', 'a']], [['init', 'l', 'b'], ['init', 'l', 'a'], ['init', 'l', 'a'], ['init', 'l', 'b', 'r', 'b']]]


def _other(r):
    """a row with the same support (sum 4)"""
    new = {0: [], 1: [4], 2: [1, 3], 3: [1, 2, 1]}[sum(1 for x in r if x)]
    return tuple(new.pop(0) if x else 0 for x in r)


def hyp(i, acts, s=None):
    if i == 2:      # the structure of the system itself, other probabilities
        lab, acts, rows, d = SULS[s]
        return (lab, acts, tuple(tuple(_other(r) for r in q) for q in rows), 4)
    lab, _, rows, d = HYP[i]
    # the same rows rotated from one action to the next, so that actions are distinguishable
    n = len(lab)
    R = []
    for s in range(n):
        R.append(tuple(tuple(rows[(s + k) % (n - 1)] if s < n - 1 else rows[s]) for k in range(len(acts))))
    return (lab, acts, tuple(R), d)


class C21(Check):
    id = 'C21'
    rule = ('five systems x initial training sets x initial hypotheses x learning rates (0, 0.25, 0.5, 1, dynamic) x 0-3 rounds x 1-4 traces per round x lengths x exploration x processes, under every periodic answer of period at most 2 (quick) or 3 to the random draws, and for '
            'one-trace rounds under every answer to every draw: traces asked to the system (number, lengths, scheduler, availability of the actions), growth of the training set, final model, rounds and likelihood against a replay with the Baum-Welch of the library and the blend computed '
            'independently; every short use of the exploiting scheduler (abandoned traces included) with all answers to its draws against its definition. The actions the learner asks for follow the posterior usage counts of its training set. Hypotheses in which some actions are not available everywhere; exploration proposes every action equally. Every learning option. Non-trivial: distinct final models.')
    assumptions = ['random numbers come from random / numpy.random', 'the Baum-Welch executions themselves are the subject of C07, C11 and C12', 'the hypothesis has all the actions of the system', 'a round whose traces are all impossible for the hypothesis raises the ValueError of Baum-Welch']

    def families(self, tier):
        T = tier == 'thorough'
        grid = (0.06, 0.31, 0.56, 0.94)
        pats = [p for k in ((1, 2, 3) if T else (1, 2)) for p in itertools.product(grid, repeat=k)]
        LR = (0, 0.25, 0.5, 1.0, 'dynamic')
        # (system, initial set, hypothesis, lr, rounds, sequences, length, epsilon greedy, processes, draws)
        yield 'rounds', ((s, i, h, lr, r, n, L, eg, pr, p) for j, (s, i, h, lr, (r, n, L), eg, pr, p) in enumerate(itertools.product(range(len(SULS)), range(len(INITIAL)), range(len(HYP)), LR, ((1, 1, None), (1, 3, 2), (2, 2, 1), (3, 1, 3), (2, 4, 2), (0, 2, 2)), (0.0, 0.75, 1.0), (1, 2), pats)) if keep(j, 2 if T else 40))
        yield 'draws', ((s, lr, eg, L, f) for s in range(len(SULS)) for lr in (0, 0.5) for eg in (0.0, 0.5, 1.0) for L in ((1,) if not T else (1, 2)) for f in itertools.product(range(3), repeat=2))
        yield 'scheduler', ((i, mat, h) for i in range(2) for mat in (((1, 3), (2, 2), (3, 1)), ((0, 4), (4, 0), (0, 0)), ((0, 0), (1, 1), (4, 0))) for k in range(0, 4 if T else 3) for h in itertools.product(('l', 'r', 'L', 'R'), repeat=k))
        # deeper uses: the counts the scheduler updates weigh each state by its belief, whatever the trace so far is worth
        yield 'belief', ((i, mat, h) for i in range(2) for mat in ([((0, 0), (0, 0), (0, 0)), ((0, 1), (1, 0), (0, 0))] if T else [((0, 0), (0, 0), (0, 0))]) for k in ((3, 4, 5) if T else (3, 4)) for h in list(itertools.product('lr', repeat=k)) + list(itertools.product('lrL', 'x', 'lr', repeat=1))[:6 if k == 3 else 0])
        # how often each action was used, from the training set so far, decides what the exploiting scheduler tries
        yield 'usage', ((s, h, mult, lr, pr) for s in (0, 1, 3) for h in range(len(HYP)) for mult in ((1, 1, 1, 1), (5, 1, 1, 0), (0, 1, 0, 4), (0, 0, 3, 0), (2, 0, 0, 3)) for lr in (0, 0.5) for pr in (1, 2))
        # hypotheses in which, like in the system, some actions are not available everywhere
        yield 'partial', ((s, i, 2, lr, r, n, L, eg, pr, p) for j, (s, i, lr, (r, n, L), eg, pr, p) in enumerate(itertools.product(range(len(SULS)), range(len(INITIAL)), LR, ((1, 3, 2), (2, 2, 1), (3, 1, 3)), (0.0, 0.75, 1.0), (1, 2), pats)) if keep(j, 2 if T else 40))
        # exploration: every action is proposed with the same probability, wherever the system is
        yield 'explore', itertools.product(range(len(SULS)), range(len(HYP) + 1), range(len(INITIAL)), (0, 0.5), (1, 2))
        yield 'options', ((s, lr, o) for s in (0, 3, 4) for lr in (0, 0.25) for o in ('list', 'array', 'file', 'stormpy', 'stormpy_data', 'max_it', 'reuse', 'random', 'no_storm', 'verbose', 'prism'))

    def expect(self, mk, S, lr, rounds, log, n, eps, max_it):
        """replay: the hypothesis after all the rounds, from the traces that were sampled"""
        ja, np = api(), np_()
        total = [(list(q), int(t)) for q, t in S]
        cnt = 0

        def bw(data, h):
            m, info = ja.BW().fit(ja.Set([list(q) for q, _ in data], [t for _, t in data], 1), initial_model=h, epsilon=eps, max_it=max_it, processes=1, verbose=0, return_data=True, stormpy_output=False)
            return np.array(m.matrix, dtype=float), info['learning_rounds']

        def model(M):
            m = mk()
            m.matrix = np.array(M)
            return m
        M, c = bw(total, mk())
        cnt += c
        for k in range(rounds):
            new = []
            for q in log[k * n:(k + 1) * n]:
                for x in new:
                    if x[0] == q:
                        x[1] += 1
                        break
                else:
                    new.append([q, 1])
            old = sum(t for _, t in total)
            total = total + [(q, t) for q, t in new]
            if lr == 0:
                M, c = bw(total, model(M))
            else:
                w = min(1.0, n / old) if lr == 'dynamic' else lr
                N, c = bw(new, model(M))
                M = w * N + (1 - w) * M
            cnt += c
            need(all(close(x, 1, 1e-9) or x == 0 for x in M.sum(axis=2).ravel().tolist()) and (M >= 0).all(), 'the reference blend is not valid')
        return M, cnt, total

    def one(self, s, i, h, lr, r, n, L, eg, pr, st, eps=0.3, max_it=float('inf'), as_=None, **kw):
        ja, np = api(), np_()
        d = SULS[s]
        sul = sul_class()(np.array([fl(x, d[3]) for x in d[2]], dtype=float), list(d[0]), list(d[1]), 'sul')
        sul.log = []
        seqs = [[x if x != 'r' or 'r' in d[1] else 'l' for x in q] for q in INITIAL[i]]
        hd = hyp(h, d[1], s)
        hm = mk_mdp(hd)
        S = ja.Set([list(q) for q in seqs], t=1)
        data = [(list(q), int(t)) for q, t in zip(S.sequences, S.times)]
        arg = S if as_ is None else ([list(q) for q in seqs] if as_ == 'list' else np.array([list(q) for q in seqs]))
        seams.CTL.cpus = 4
        b = zoo.snap(sul)
        err = None
        try:
            out = (kw.pop('learner', None) or ja.Active_BW_MDP()).fit(arg, sul, lr, r, n, sequence_length=L, epsilon_greedy=eg, initial_model=hm, epsilon=eps, max_it=max_it, verbose=kw.pop('verbose', 0), return_data=True, stormpy_output=kw.pop('stormpy_output', False), processes=pr, **kw)
        except ValueError as e:
            err = e
        finally:
            seams.CTL.real()
        st.step()
        log = [t for _, _, t in sul.log]
        length = L if L is not None else (len(seqs[0]) - 1) // 2
        for k, kind, t in sul.log:
            need(k == length and len(t) == 2 * length + 1, lambda: 'a trace of %d steps was sampled instead of %d' % (k, length))
            need(ref.mdp_prob(d[0], list(d[1]), d[2], t) > 0, lambda: 'impossible trace %s' % (t,))
            if eg in (0.0, 1.0):
                need((kind == 'UniformScheduler') == (eg == 0.0), lambda: 'scheduler %s used at exploitation rate %s' % (kind, eg))
        if err is not None:
            # legitimate only when Baum-Welch itself refuses these traces
            need(len(log) % n == 0 and 0 < len(log) <= r * n, lambda: '%s' % err)
            try:
                self.expect(lambda: mk_mdp(hd), data, lr, len(log) // n, log, n, eps, max_it)
            except ValueError:
                st.note('rounds impossible for the hypothesis')
                return
            raise err
        m, info = out
        need(len(log) == r * n, lambda: '%d traces sampled instead of %d' % (len(log), r * n))
        M, cnt, total = self.expect(lambda: mk_mdp(hd), data, lr, r, log, n, eps, max_it)
        if as_ is None:
            want = zoo.snap_set(ja.Set([q for q, _ in total], [t for _, t in total], 1))
            need(zoo.snap_set(S) == want, lambda: 'training set afterwards %s expected %s' % (zoo.snap_set(S), want))
            need(len(S.sequences) == len(S.times) and all(S.sequences.count(q) == 1 for q in S.sequences), 'repeated entries in the training set')
        need(info['learning_rounds'] == cnt, lambda: '%s rounds reported, %s executed' % (info['learning_rounds'], cnt))
        fin = mk_mdp(hd)
        fin.matrix = M
        ll = fin.logLikelihood(ja.Set([q for q, _ in total], [t for _, t in total], 1))
        need(close(info['training_set_loglikelihood'], ll, 1e-7, 1e-7), lambda: 'likelihood %s expected %s' % (info['training_set_loglikelihood'], ll))
        need(zoo.snap(sul) == b, 'the system under learning was modified')
        if type(m) == ja.MDP:
            need(list(m.labelling) == list(hd[0]) and list(m.actions) == list(hd[1]) and m.nb_states == len(hd[0]), 'states or actions changed')
            got = np.array(m.matrix, dtype=float)
            need(got.shape == M.shape and allclose(got, M, 1e-7, 1e-8), lambda: 'final model %s expected %s' % (got.tolist(), M.tolist()))
            need(all(close(x, 1, 1e-8) or x == 0 for x in got.sum(axis=2).ravel().tolist()) and (got >= 0).all(), 'not distributions')
            st.outcome(np.round(got, 9).tolist())
        return m, info, M

    def possible(self, hd, s, q):
        q = [x if x != 'r' or 'r' in SULS[s][1] else 'l' for x in q]
        return ref.mdp_prob(hd[0], list(hd[1]), hd[2], q) > 0

    def explore(self, case, st):
        import copy
        s, h, i, lr, n = case
        ja, np = api(), np_()
        d = SULS[s]
        hd = hyp(h, d[1], s)
        seqs = [[x if x != 'r' or 'r' in d[1] else 'l' for x in q] for q in INITIAL[i]]
        if not any(self.possible(hd, s, q) for q in seqs):
            return
        sul = sul_class()(np.array([fl(x, d[3]) for x in d[2]], dtype=float), list(d[0]), list(d[1]), 'sul')
        sul.log = []
        B = 24
        seen = []

        def probe(sch, k):
            keep_ = seams.CTL.__dict__.copy()
            cnt = [0] * len(d[1])
            for x in range(B):
                c = copy.deepcopy(sch)
                seams.CTL.script([(x + 0.5) / B, 0.5])
                cnt[d[1].index(c.getAction())] += 1
            seams.CTL.__dict__.clear()
            seams.CTL.__dict__.update(keep_)
            seen.append(cnt)
        seams.CTL.cpus = 4
        seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 400)
        _Rec.probe = probe
        err = None
        try:
            ja.Active_BW_MDP().fit(ja.Set(seqs, t=1), sul, lr, 2, n, sequence_length=2, epsilon_greedy=0.0, initial_model=mk_mdp(hd), epsilon=0.3, verbose=0, stormpy_output=False, processes=1)
        except ValueError as e:
            err = e
        finally:
            _Rec.probe = None
            seams.CTL.real()
        need(len(seen) == 2 * n or err is not None and seen, lambda: '%d simulations: %s' % (len(seen), err))
        for cnt in seen:
            need(all(abs(x - B / len(cnt)) <= 1 for x in cnt), lambda: 'exploration proposes the actions %s %s times out of %d' % (d[1], cnt, B))
        st.step(B * len(seen))
        st.outcome((case, len(seen)))

    def usage(self, case, st):
        import copy
        ja, np = api(), np_()
        s, h, mult, lr, pr = case
        d = SULS[s]
        hd = hyp(h, d[1])
        pool = [['init', 'l', 'a', 'l', 'b'], ['init', 'l', 'b', 'r', 'a'], ['init', 'r', 'b'], ['init', 'r', 'a', 'l', 'b', 'r', 'b']]
        data = [(q, m) for q, m in zip(pool, mult) if m]
        sul = sul_class()(np.array([fl(x, d[3]) for x in d[2]], dtype=float), list(d[0]), list(d[1]), 'sul')
        sul.log = []
        n, B = 2, 16
        seen = []

        def probe(sch, k):
            if k % n:
                return
            # the law of the first action, from every answer (on a grid) to two draws
            keep_ = (seams.CTL.mode, seams.CTL.__dict__.copy())
            cnt = [0] * len(d[1])
            for x in range(B):
                for y in range(B):
                    c = copy.deepcopy(sch)
                    seams.CTL.script([(x + 0.5) / B, (y + 0.5) / B])
                    cnt[d[1].index(c.getAction())] += 1
            seams.CTL.__dict__.clear()
            seams.CTL.__dict__.update(keep_[1])
            seen.append((k // n, [c / B / B for c in cnt]))
        S = ja.Set([list(q) for q, _ in data], [m for _, m in data], 1)
        seams.CTL.cpus = 4
        seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 400)
        _Rec.probe = probe
        err = None
        try:
            ja.Active_BW_MDP().fit(S, sul, lr, 2, n, sequence_length=2, epsilon_greedy=1.0, initial_model=mk_mdp(hd), epsilon=0.3, verbose=0, stormpy_output=False, processes=pr)
        except ValueError as e:
            err = e
        finally:
            _Rec.probe = None
            seams.CTL.real()
        if err is not None:
            need(seen, lambda: '%s' % err)
        log = [t for _, _, t in sul.log]
        need(err is not None or len(seen) == 2, 'the system was not simulated')
        for k, got in seen:
            M, _, total = self.expect(lambda: mk_mdp(hd), data, lr, k, log, n, 0.3, float('inf'))
            init = [float(x) for x in ref.uniform_init(hd[0])]
            use = em.em_mdp(list(hd[0]), list(hd[1]), M.tolist(), init, total)['den']
            want = [0.0] * len(d[1])
            for u in range(len(hd[0])):
                w = [sum(use[u]) - x for x in use[u]]
                w = [x / sum(w) if sum(w) > 1e-12 else 1 / len(w) for x in w]
                for a in range(len(want)):
                    want[a] += init[u] * w[a]
            need(allclose(got, want, 0, 1.6 / B), lambda: 'round %s: actions proposed with probabilities %s, their use in the training set asks %s' % (k, got, want))
            st.outcome((k, [round(x, 6) for x in want]))
            st.step(B * B)

    def run(self, fam, case, st):
        ja, np = api(), np_()
        if fam == 'explore':
            return self.explore(case, st)
        if fam == 'partial':
            s, i, h = case[:3]
            hd = hyp(2, None, s)
            if not any(self.possible(hd, s, q) for q in INITIAL[i]):
                return
            fam = 'rounds'
        if fam == 'rounds':
            s, i, h, lr, r, n, L, eg, pr, p = case
            seams.CTL.script(list(p) * (60 // len(p)) + [0.1, 0.6, 0.35, 0.85, 0.2, 0.7, 0.45, 0.95] * 300)
            self.one(s, i, h, lr, r, n, L, eg, pr, st)
        elif fam == 'draws':
            s, lr, eg, L, first = case
            # every answer, on a grid of three, to the draws of a round with one trace; executions with many rejections are cut
            stack, k = [first], 0
            cut = F(0)
            seen = {}
            while stack:
                pre = stack.pop()
                seams.CTL.script([(c + 0.5) / 3 for c in pre])
                try:
                    self.one(s, 1, 1, lr, 1, 1, L, eg, 1, st, eps=1e9)
                except seams.Draw:
                    if len(pre) >= 5 + 2 * (s == 2) + 3 * (L - 1):
                        cut += F(1, 3 ** len(pre))
                    else:
                        stack += [pre + (c,) for c in range(3)]
                    continue
            st.note('weight cut (percent, summed)', int(cut * 100))
            need(cut < F(1, 9), 'no round ends')
        elif fam == 'usage':
            self.usage(case, st)
        elif fam in ('scheduler', 'belief'):
            i, mat, h = case
            from jajapy.mdp.Active_BW_MDP import ActiveLearningScheduler
            d = (('a', 'b', 'init'), ('l', 'r'), (((2, 2, 0), (0, 4, 0)), ((4, 0, 0), (2, 2, 0)), ((2, 2, 0), (1, 3, 0))), 4) if i == 0 else (('a', 'a', 'init'), ('l', 'r'), (((1, 3, 0), (2, 2, 0)), ((0, 4, 0), (2, 2, 0)), ((2, 2, 0), (4, 0, 0))), 4)
            lab, acts, rows, D = d
            # upper case: the action proposed was refused; lower case: it was executed, the observation follows the model
            # (most probable successor).  The draws are chosen so that the scheduler proposes the wanted action when it can.
            m = mk_mdp(d)
            M = [[F(x) for x in r] for r in mat]
            bel = ref.uniform_init(lab)
            refused = []
            cur = 2
            sch = ActiveLearningScheduler(np.array(mat, dtype=float), m)
            sch.reset()

            def law():
                res = [F(0), F(0)]
                tot = sum(bel)
                for s in range(3):
                    w = [sum(M[s]) - x for x in M[s]]
                    for a in refused:
                        w[a] = F(0)
                    if sum(w) <= 0:
                        w = [F(int(a not in refused)) for a in range(2)]
                    for a in range(2):
                        res[a] += (bel[s] / tot if tot else F(1, 3)) * w[a] / sum(w)
                return res
            import copy
            for step in list(h) + [None]:
                B = 24 if fam == 'scheduler' else 96
                cnt = [0, 0]
                e = law()
                for x in range(B if fam == 'scheduler' or step is None else 0):
                    for y in range(B):
                        c = copy.deepcopy(sch)
                        seams.CTL.script([(x + 0.5) / B, (y + 0.5) / B])
                        try:
                            cnt[acts.index(c.getAction())] += 1
                        finally:
                            seams.CTL.real()
                st.step(B * B)
                for a in range(2 if sum(cnt) else 0):
                    need(abs(F(cnt[a], B * B) - e[a]) <= F(3, B) and (e[a] > 0 or cnt[a] == 0), lambda: 'action %s proposed with probability %s expected %s after %s' % (acts[a], cnt[a] / B / B, float(e[a]), h))
                if step is None:
                    break
                if step == 'x':
                    # an action is asked, the trace is abandoned there and another one begins
                    seams.CTL.script([0.3, 0.7])
                    try:
                        sch.getAction()
                    finally:
                        seams.CTL.real()
                    sch.reset()
                    bel, refused, cur = ref.uniform_init(lab), [], 2
                    continue
                a = acts.index(step.lower())
                if e[a] == 0:
                    return
                done = False
                for x in range(B):
                    for y in range(B):
                        c = copy.deepcopy(sch)
                        seams.CTL.script([(x + 0.5) / B, (y + 0.5) / B])
                        try:
                            act = c.getAction()
                        finally:
                            seams.CTL.real()
                        if acts.index(act) == a:
                            sch, done = c, True
                            break
                    if done:
                        break
                need(done, 'action never proposed')
                if step.isupper():
                    if len(refused) == 1:
                        return
                    refused = [a]
                else:
                    sch.addObservation(lab[cur])
                    tot = sum(bel)
                    if tot:
                        for s in range(3):
                            M[s][a] += bel[s] / tot
                        bel = [sum(bel[u] * F(rows[u][a][t], D) for u in range(3) if lab[u] == lab[cur]) for t in range(3)]
                    refused = []
                    cur = max(range(3), key=lambda t: rows[cur][a][t])
            st.outcome((i, [[str(x) for x in r] for r in M], [str(x) for x in bel]))
        else:
            s, lr, o = case
            seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 300)
            if o in ('list', 'array'):
                self.one(s, 0 if o == 'array' else 2, 1, lr, 2, 2, None if o == 'list' else 2, 0.75, 1, st, as_=o)
            elif o == 'file':
                m, _, _ = self.one(s, 1, 0, lr, 2, 2, 2, 0.75, 1, st, output_file='act.txt')
                r = ja.loadMDP('act.txt')
                b1, b2 = zoo.snap(r), zoo.snap(m)
                need(b1 == b2, 'the output file holds another model')
            elif o == 'stormpy':
                d = SULS[s]
                m = ja.Active_BW_MDP().fit(ja.Set([['init', 'l', 'a', 'l', 'b', 'l', 'a', 'l', 'a'], ['init', 'l', 'b']], t=1), mk_mdp(d), lr, 1, 2, initial_model=mk_mdp(hyp(1, d[1])), verbose=0)
                need('Mdp' in type(m).__name__ and not isinstance(m, ja.MDP), lambda: type(m))
                st.step()
                seams.CTL.real()
            elif o == 'stormpy_data':
                m, _, _ = self.one(s, 1, 0, lr, 1, 2, 2, 0.75, 1, st, stormpy_output=True)
                need('Mdp' in type(m).__name__ and not isinstance(m, ja.MDP), lambda: type(m))
            elif o == 'max_it':
                for k in (1, 2, 3):
                    seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 300)
                    self.one(s, 1, 0, lr, 2, 2, 2, 0.75, 1, st, eps=0.0, max_it=k)
            elif o == 'no_storm':
                with without_storm():
                    m, _, _ = self.one(s, 1, 0, lr, 1, 2, 2, 0.75, 1, st, stormpy_output=True)
                need(isinstance(m, ja.MDP), lambda: type(m))
            elif o == 'verbose':
                for v in (1, 2, 3, None, 'x', 12):
                    seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 300)
                    self.one(s, 1, 0, lr, 2, 2, 2, 0.75, 1, st, verbose=v)
            elif o == 'prism':
                m, _, _ = self.one(s, 1, 0, lr, 2, 2, 2, 0.75, 1, st, output_file_prism='act.sm')
                equal_iso(view(m), view(ja.loadPrism('act.sm')), 'the Prism file')
            elif o == 'reuse':
                al = ja.Active_BW_MDP()
                self.one(0, 1, 0, 0.25, 1, 2, 2, 1.0, 2, st, learner=al)
                seams.CTL.script([0.3, 0.8, 0.6, 0.1, 0.9] * 300)
                self.one(s, 0, 1, lr, 2, 2, 2, 0.75, 1, st, learner=al)
            else:
                # no initial hypothesis
                seams.CTL.real()
                d = SULS[s]
                sul = sul_class()(np.array([fl(x, d[3]) for x in d[2]], dtype=float), list(d[0]), list(d[1]), 'sul')
                sul.log = []
                S = ja.Set([['init', 'l', 'a', 'l', 'b'], ['init', 'l', 'b'] + ['r', 'a'] * ('r' in d[1])], t=1)
                m = ja.Active_BW_MDP().fit(S, sul, lr, 2, 3, nb_states=3, verbose=0, stormpy_output=False)
                need(len(sul.log) == 6 and int(sum(S.times)) == 8, 'number of traces')
                got = np.array(m.matrix)
                need(all(close(x, 1, 1e-8) or x == 0 for x in got.sum(axis=2).ravel().tolist()) and (got >= 0).all(), 'not distributions')
                st.step()


CHECK = C21()
