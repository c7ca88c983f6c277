import itertools, math
from fractions import Fraction as F
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, ref
from checks.C16 import geo


def bounded(base, fn, M):
    """exact weights of every result of fn() reached within M draws, and the weight of what is left; the draws of a
    prefix are answered literally, longer executions are extended choice by choice"""
    out, rest, n = {}, F(0), 0
    stack = [()]
    while stack:
        pre = stack.pop()
        seams.CTL.script([(c + 0.5) / base for c in pre])
        try:
            r = fn()
            used = seams.CTL.pos
        except seams.Draw:
            if len(pre) >= M:
                rest += F(1, base ** len(pre))
            else:
                stack += [pre + (c,) for c in range(base)]
            continue
        finally:
            seams.CTL.real()
        n += 1
        need(used == len(pre), lambda: 'draws not reproducible')
        out[r] = out.get(r, 0) + F(1, base ** len(pre))
    return out, rest, n


def exact(d, sched, n, start=None):
    """distribution over traces; sched: (initial memory, choose(memory, state) -> {action: weight}, update(memory, obs))"""
    labels, acts, rows, D = d
    init = ref.uniform_init(labels) if start is None else [F(int(i == start)) for i in range(len(labels))]
    m0, choose, upd = sched
    cur = {(s, m0, ()): p for s, p in enumerate(init) if p}
    for _ in range(n):
        nxt = {}
        for (s, mem, w), p in cur.items():
            av = {a: x for a, x in choose(mem, s).items() if x and a in acts and any(rows[s][acts.index(a)])}
            tot = sum(av.values())
            for a, x in av.items():
                for t, y in enumerate(rows[s][acts.index(a)]):
                    if y:
                        k = (t, upd(mem, labels[s]), w + (labels[s], a))
                        nxt[k] = nxt.get(k, 0) + p * F(x) / tot * F(y, D)
        cur = nxt
    res = {}
    for (s, mem, w), p in cur.items():
        k = w + (labels[s],)
        res[k] = res.get(k, 0) + p
    return res


def uni(acts):
    return (None, lambda m, s: {a: F(acts.count(a), len(acts)) for a in acts}, lambda m, o: None)


def fm(am, tm):
    return (0, lambda m, s: {a: sum(F(p) for p, b in zip(*am[m]) if b == a) for a in am[m][1]}, lambda m, o: tm[o][m] if o in tm else m)


# action matrices / transition tables of finite memory schedulers
AM = [{0: [[0.5, 0.5], ['l', 'r']], 1: [[1.0], ['l']]}, {0: [[0.25, 0.75], ['r', 'l']], 1: [[0.5, 0.25, 0.25], ['r', 'l', 'u']]}, {0: [[1.0, 0.0], ['l', 'r']], 1: [[0.5, 0.5], ['l', 'u']], 2: [[0.0, 1.0], ['r', 'l']]},
      {0: [[0.5, 0.5], ['u', 'l']]}]
TM = [{'a': [1, 0], 'b': [1, 1], 'init': [0, 0]}, {'a': [1, 1], 'init': [1, 0]}, {'a': [1, 2, 0], 'b': [0, 0, 2], 'init': [0, 1, 1]}, {'a': [0], 'b': [0]}]
MODELS = [zoo.MDP1, zoo.MDP2,
          (('init', 'a', 'init'), ('l', 'r'), (((0, 4, 0), (2, 0, 2)), ((0, 0, 0), (1, 1, 2)), ((4, 0, 0), (0, 0, 0))), 4),
          (('a', 'b', 'init'), ('r', 'u', 'l'), (((0, 0, 0), (0, 0, 0), (1, 3, 0)), ((4, 0, 0), (0, 4, 0), (0, 2, 2)), ((0, 4, 0), (3, 1, 0), (4, 0, 0))), 4)]


SETM = [(('a', 'b', 'init'), ('l', 'r'), (((0, 2, 0), (1, 0, 1)), ((1, 1, 0), (0, 0, 2)), ((1, 1, 0), (0, 2, 0))), 2),
        (('a', 'b', 'init'), ('u', 'l'), (((0, 2, 0), (1, 0, 1)), ((0, 0, 0), (0, 1, 1)), ((1, 1, 0), (0, 2, 0))), 2)]


class Rec:
    """a user defined scheduler that records every call"""

    def __init__(self, script):
        self.calls = []
        self.script = script
        self.k = 0

    def reset(self):
        self.calls.append('reset')
        self.k = 0

    def getAction(self):
        a = self.script[self.k % len(self.script)]
        self.k += 1
        self.calls.append(('get', a))
        return a

    def addObservation(self, o):
        self.calls.append(('obs', o))


class C17(Check):
    id = 'C17'
    rule = ('all two-action three-state MDPs with denominator 2 rows (quick: thinned) and four larger ones x uniform (over subsets of the actions), memoryless and finite-memory schedulers x every answer to every random draw (grid of the model, rejections up to a '
            'bounded number of draws): the weight of every trace lies between the weight enumerated and that plus the weight left, against the exact distribution in fractions; recording schedulers with every short script of actions; every observation history up to '
            'depth 4 with resets for finite-memory schedulers; sets of traces; one step with probabilities down to 1/200 and actions chosen once in a thousand. Runs after queries, learning and uses of another model are those of the same model rebuilt. Non-trivial: distinct distributions.')
    assumptions = ['random numbers come from random / numpy.random', 'the scheduler gives an available action positive probability in every visited state', 'the first action is chosen before the first observation is given to the scheduler (as implemented and documented by example)']

    def families(self, tier):
        T = self.T = tier == 'thorough'
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('mdp',) for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or True)
        D = dists(3, 2)
        def small():
            for r in itertools.product([(2, 0, 0), (1, 1, 0), (0, 0, 0), (0, 1, 1)], [(0, 2, 0), (1, 0, 1), (0, 0, 0)], [(2, 0, 0), (0, 2, 0), (0, 0, 0)], [(1, 1, 0), (0, 1, 1)], [(1, 1, 0), (0, 2, 0)], [(0, 0, 0), (2, 0, 0), (0, 0, 2)]):
                rows = ((r[0], r[1]), (r[2], r[3]), (r[4], r[5]))
                if all(any(map(any, x)) for x in rows):
                    yield (('a', 'b', 'init'), ('l', 'r'), rows, 2)
        yield 'uniform', ((m, sub, n) for i, m in enumerate(small()) for sub in (('l', 'r'),) for n in ((1, 2, 3) if T else (1, 2)))
        yield 'uni_sub', ((i, sub, n, s) for i in range(len(MODELS)) for sub in (('l',), ('l', 'r'), ('r', 'l', 'u'), ('l', 'l', 'r', 'u'), ('l', 'zz')) for n in ((1, 2) if not T else (1, 2, 3)) for s in [None] + list(range(len(MODELS[i][0]))))
        yield 'finite', ((i, a, n, s) for i in range(len(MODELS)) for a in range(len(AM)) for n in ((0, 1, 2) if not T else (0, 1, 2, 3)) for s in (None, 0, 1))
        yield 'memoryless', ((i, n) for i in range(len(MODELS)) for n in (1, 2, 3))
        yield 'recorded', ((i, sc, n) for i in range(len(MODELS)) for k in (1, 2, 3) for sc in itertools.product(('l', 'r', 'u'), repeat=k) for n in (1, 3))
        yield 'memory', ((a, h) for a in range(len(AM)) for L in range(0, 6 if T else 5) for h in itertools.product(('a', 'b', 'init', 'zz', None), repeat=L))
        yield 'sets', ((i, k, par) for i in range(2) for k, par in ((0, 2), (1, 2), (2, 1), (3, 1), (2, [1, 2]), (2, [0, 1]), (1, (0.5, 0)), (1, (0.75, 1)), (2, (1.0, 1))))
        # rare transitions and rarely chosen actions
        sk = skews(3, 200)
        yield 'fine', ((('a', l, 'init'), ('l', 'r'), ((r0, r1), (r1, (0, 0, 0)), (r0, r2)), 200) for i, (r0, r1, r2, l) in enumerate(itertools.product(sk, sk, sk, 'ab')) if keep(i, 4 if T else 80))
        yield 'rare', ((g, n) for n in (1, 2, 3, 4) for g in skews(n, 1000))
        yield 'many', range(1, 12)
        yield 'reused', itertools.product(range(len(MODELS)), range(3), (1, 2))

    def compare(self, d, mk, sched, n, start, st, what, cap=None):
        m = mk_mdp(d)
        b = zoo.snap(m)
        base = 2 if d[3] == 2 and d[0].count('init') < 3 else d[3] if d[3] % 4 == 0 else 4
        if start is None and d[0].count('init') not in (1, 2, 4):
            return
        # rejections: enough draws for the shortest run plus some
        M = (2 * n + 1) + (3 if n <= 2 else 2) if cap is None else cap
        exp = exact(d, sched, n, start)
        s = mk()
        need_state = [(x, d[0][x]) for x in range(len(d[0]))]
        got, rest, k = bounded(base, lambda: tuple(m.run(n, s) if start is None else m.run(n, s, start)), M)
        st.step(k)
        need(rest < 1, 'nothing generated')
        for t in set(got) | set(exp):
            lo, e = got.get(t, F(0)), exp.get(t, F(0))
            need(lo <= e <= lo + rest and (e > 0 or lo == 0), lambda: 'trace %s has weight between %s and %s, exact %s: %s' % (t, float(lo), float(lo + rest), float(e), what))
        if rest == 0:
            need(got == exp, lambda: 'distribution %s expected %s: %s' % (got, exp, what))
        need(zoo.snap(m) == b, 'simulating changed the model')
        st.note('weight left by bounding the rejections (percent, summed)', int(rest * 100))
        st.outcome(sorted(exp.items()))

    def live(self, d, sched, n, start):
        """every reachable state/memory offers an available action"""
        try:
            e = exact(d, sched, n, start)
        except ZeroDivisionError:
            return False
        return sum(e.values()) == 1

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='run')
            return
        ja, np = api(), np_()
        from jajapy.mdp.Scheduler import UniformScheduler, MemorylessScheduler, FiniteMemoryScheduler
        if fam == 'uniform':
            d, sub, n = case
            if self.live(d, uni(list(sub)), n, None):
                self.compare(d, lambda: UniformScheduler(list(sub)), uni(list(sub)), n, None, st, case, 12)
        elif fam == 'uni_sub':
            i, sub, n, s = case
            d = MODELS[i]
            if len(sub) == 3:
                # a third is not on the grid: only the support is compared
                if self.live(d, uni(list(sub)), n, s):
                    m = mk_mdp(d)
                    exp = exact(d, uni(list(sub)), n, s)
                    sch = UniformScheduler(list(sub))
                    got, rest, k = bounded(12, lambda: tuple(m.run(n, sch) if s is None else m.run(n, sch, s)), 3 if n == 1 else 5) if n == 1 else ({}, F(1), 0)
                    st.step(k)
                    need(all(t in exp for t in got), lambda: 'impossible trace in %s: %s' % (got, case))
                return
            if self.live(d, uni(list(sub)), n, s):
                self.compare(d, lambda: UniformScheduler(list(sub)), uni(list(sub)), n, s, st, case, {1: 7, 2: 8, 3: 9}[n])
        elif fam == 'finite':
            i, a, n, s = case
            d = MODELS[i]
            sc = fm(AM[a], TM[a])
            if self.live(d, sc, n, s):
                self.compare(d, lambda: FiniteMemoryScheduler({k: [list(x) for x in v] for k, v in AM[a].items()}, {k: list(v) for k, v in TM[a].items()}), sc, n, s, st, case, {0: 3, 1: 6, 2: 8, 3: 9}[n])
        elif fam == 'memoryless':
            i, n = case
            d = MODELS[i]
            acts = [next(a for k, a in enumerate(d[1]) if any(r[k])) for r in d[2]]
            alt = [[a for k, a in enumerate(d[1]) if any(r[k])][-1] for r in d[2]]
            for A in (acts, alt):
                self.compare(d, lambda: MemorylessScheduler(list(A)), (None, lambda m, s: {A[s]: F(1)}, lambda m, o: None), n, None, st, (case, A), {1: 4, 2: 6, 3: 8}[n])
        elif fam == 'fine':
            d = case
            A = ['l', 'l', 'r']
            for s in (0, 1, 2):
                self.compare(d, lambda: MemorylessScheduler(list(A)), (None, lambda m, s: {A[s]: F(1)}, lambda m, o: None), 1, s, st, case, 2)
        elif fam == 'rare':
            g, n = case
            acts = ['l', 'r', 'u', 'v'][:n]
            s = FiniteMemoryScheduler({0: [[x / 1000 for x in g], list(acts)], 1: [[1.0], ['z']]}, {'a': [1, 0]})
            for k in range(3):
                got, rest, c = bounded(1000, s.getAction, 2)
                st.step(c)
                need(got == ({a: F(x, 1000) for a, x in zip(acts, g) if x} if k != 1 else {'z': 1}) and rest == 0, lambda: 'weights of the actions %s expected %s' % (got, case))
                s.addObservation('a')
            st.outcome(case)
        elif fam == 'many':
            acts = ['a%d' % i for i in range(case)]
            s = UniformScheduler(list(acts))
            got, rest, c = bounded(case * 4, s.getAction, 2)
            st.step(c)
            need(got == {a: F(1, case) for a in acts} and rest == 0, lambda: 'weights of the actions %s' % got)
            st.outcome(case)
        elif fam == 'recorded':
            i, sc, n = case
            d = MODELS[i]
            m = mk_mdp(d)
            for u in (0.1, 0.6, 0.9):
                r = Rec(list(sc))
                start = d[0].index('init')
                seams.CTL.script([u] * 60)
                # stop when the script of actions is never available again
                orig = r.getAction
                budget = [40]

                def get():
                    budget[0] -= 1
                    if budget[0] < 0:
                        raise seams.Draw('no available action')
                    return orig()
                r.getAction = get
                try:
                    t = m.run(n, r)
                except seams.Draw:
                    continue
                finally:
                    seams.CTL.real()
                st.step()
                need(len(t) == 2 * n + 1, lambda: 'length of %s' % (t,))
                need(r.calls[0] == 'reset' and r.calls.count('reset') == 1, lambda: 'calls %s' % (r.calls,))
                need([o for c in r.calls if c[0] == 'obs' for o in c[1:]] == list(t[0::2])[:n], lambda: 'observations given to the scheduler %s for the trace %s' % (r.calls, t))
                # the actions of the trace are the last ones the scheduler gave before each observation
                cur, used = None, []
                for c in r.calls[1:]:
                    if c[0] == 'get':
                        cur = c[1]
                    else:
                        used.append(cur)
                need(used == list(t[1::2]), lambda: 'actions %s, scheduler %s' % (t, r.calls))
                need(any(list(map(str, t)) == list(x) for x in exact(d, (None, lambda mm, s: {a: F(1) for a in set(sc)}, lambda mm, o: None), n)), lambda: 'impossible trace %s' % (t,))
                st.outcome(t)
        elif fam == 'memory':
            a, h = case
            s = FiniteMemoryScheduler({k: [list(x) for x in v] for k, v in AM[a].items()}, {k: list(v) for k, v in TM[a].items()})
            mem, hist = 0, []
            for o in h:
                if o is None:
                    s.reset()
                    mem, hist = 0, []
                else:
                    s.addObservation(o)
                    mem = TM[a][o][mem] if o in TM[a] else mem
                    hist.append(o)
            st.step(len(h) + 1)
            need(s.getActions() == AM[a][mem], lambda: 'memory state after %s: %s expected %s' % (h, s.getActions(), AM[a][mem]))
            for act in ('l', 'r', 'u', 'zz'):
                e = sum(p for p, b in zip(*AM[a][mem]) if b == act)
                need(s.getProbability(act) == e, lambda: 'probability of %s after %s: %s expected %s' % (act, h, s.getProbability(act), e))
                for q in AM[a]:
                    need(s.getProbability(act, q) == sum(p for p, b in zip(*AM[a][q]) if b == act) and s.getActions(q) == AM[a][q], lambda: 'state %s' % q)
            got = {}
            for L, x in seams.enumerate_draws(4, s.getAction):
                got[x] = got.get(x, 0) + F(1, 4 ** L)
            need(got == {b: F(p) for p, b in zip(*AM[a][mem]) if p}, lambda: 'actions %s in memory state %s' % (got, mem))
            need(s.getActions() == AM[a][mem], 'choosing an action changed the memory')
            # the whole sequence at once
            seq = [o for o in h if o is not None]
            e = [0]
            for o in seq:
                e.append(TM[a][o][e[-1]] if o in TM[a] else e[-1])
            need(list(s.getSequenceStates(list(seq))) == e, lambda: 'sequence of states of %s' % (seq,))
            st.outcome((a, mem, e))
        elif fam == 'sets':
            i, k, par = case
            d = SETM[i]
            m = mk_mdp(d)
            s = FiniteMemoryScheduler(AM[3], TM[3]) if i else UniformScheduler(['l', 'r'])
            sc = fm(AM[3], TM[3]) if i else uni(['l', 'r'])
            need(self.live(d, sc, 4, None), 'harness: dead model')
            geom = isinstance(par, tuple)
            lens = [par[j] if isinstance(par, list) else par for j in range(k)] if not geom else None
            exp = [exact(d, sc, L) for L in (lens if lens is not None else sorted({par[1] + geo(par[0], (c + 0.5) / 2) for c in range(2)}))]
            out, rest, n = bounded(2, lambda: m.generateSet(k, par[0], s, 'geo', par[1]) if geom else m.generateSet(k, list(par) if isinstance(par, list) else par, s), 15 if self.T else 13)
            tot = F(0)
            for g, w in out.items():
                tot += w
                need(g.type == 1 or k == 0, lambda: 'type %s' % g.type)
                need(sum(int(t) for t in g.times) == k and all(int(t) > 0 for t in g.times), lambda: 'multiplicities %s for %d traces' % (g.times, k))
                need(len(set(map(tuple, g.sequences))) == len(g.sequences), 'a repeated trace is not counted')
                ls = sorted((len(q) - 1) // 2 for q, t in zip(g.sequences, g.times) for _ in range(int(t)))
                if lens is not None:
                    need(ls == sorted(lens), lambda: 'lengths %s requested %s' % (ls, lens))
                for q in g.sequences:
                    need(any(tuple(q) in e for e in exp), lambda: 'impossible trace %s' % (q,))
                st.outcome(sorted(map(tuple, g.sequences)))
            st.step(n)
            if geom:
                a = {par[1] + geo(par[0], (c + 0.5) / 2) for c in range(2)}
                seen = {(len(q) - 1) // 2 for g in out for q in g.sequences}
                need(seen <= a and min(a) in seen, lambda: 'geometric lengths %s expected %s' % (seen, a))
            need(tot + rest == 1, 'weights')
        else:
            # a scheduler that has already been used elsewhere
            i, a, n = case
            d = MODELS[i]
            sc = fm(AM[a], TM[a])
            if not self.live(d, sc, n, None):
                return

            def dirty():
                s = FiniteMemoryScheduler(AM[a], TM[a])
                for o in ('a', 'b', 'a'):
                    s.addObservation(o)
                return s
            self.compare(d, dirty, sc, n, None, st, case, {1: 6, 2: 8}[n])


CHECK = C17()
