import itertools, math
from collections import Counter
from fractions import Fraction as F
from statistics import NormalDist
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, ref


def trace_dist(kind, d, n, start=None):
    """exact distribution (Fractions) over the traces of n steps"""
    if kind == 'mc':
        labels, rows, D = d
        init = ref.uniform_init(labels) if start is None else [F(int(i == start)) for i in range(len(labels))]
        cur = {(s, (labels[s],)): p for s, p in enumerate(init) if p}
        for _ in range(n):
            nxt = {}
            for (s, w), p in cur.items():
                for t, x in enumerate(rows[s]):
                    if x:
                        k = (t, w + (labels[t],))
                        nxt[k] = nxt.get(k, 0) + p * F(x, D)
            cur = nxt
    else:
        alphabet, rows, outs, init, D = d
        init = [F(x, D) for x in init] if start is None else [F(int(i == start)) for i in range(len(rows))]
        cur = {(s, ()): p for s, p in enumerate(init) if p}
        for _ in range(n):
            nxt = {}
            for (s, w), p in cur.items():
                for o, y in enumerate(outs[s]):
                    for t, x in enumerate(rows[s]):
                        if x and y:
                            k = (t, w + (alphabet[o],))
                            nxt[k] = nxt.get(k, 0) + p * F(x, D) * F(y, D)
            cur = nxt
    res = {}
    for (s, w), p in cur.items():
        res[w] = res.get(w, 0) + p
    return res


def explore(base, fn, conv):
    """exact distribution of the results of fn over all draws"""
    out = {}
    n = 0
    for k, r in seams.enumerate_draws(base, fn):
        r = conv(r)
        out[r] = out.get(r, 0) + F(1, base ** k)
        n += 1
    return out, n


def geo(p, u):
    return 1 if p == 1 else max(1, math.ceil(math.log1p(-u) / math.log1p(-p)))


def sets_dist(dists):
    """distribution of the multiset of independent traces"""
    cur = {(): F(1)}
    for d in dists:
        nxt = {}
        for w, p in cur.items():
            for t, q in d.items():
                k = tuple(sorted(w + (t,)))
                nxt[k] = nxt.get(k, 0) + p * q
        cur = nxt
    return cur


def multiset(s):
    # the multiset of traces in a Set, as a sorted tuple of traces
    out = []
    for q, t in zip(s.sequences, s.times):
        need(int(t) == t and t > 0, lambda: 'multiplicity %r' % (t,))
        out += [tuple(q)] * int(t)
    need(len(s.sequences) == len(s.times), 'as many multiplicities as traces')
    need(len(set(map(tuple, s.sequences))) == len(s.sequences), lambda: 'a trace is listed twice instead of being counted: %s' % (s.sequences,))
    return tuple(sorted(out))


class C16(Check):
    id = 'C16'
    rule = ('every answer to every random draw (uniform draws restricted to the grid of denominators of the model, hence exact weights): all 3-state MCs with denominator 4 (quick: thinned), several initial states, all 2-state '
            'HMMs with denominator 2, HMMs with denominator 4 and 3 symbols, one step of models with probabilities down to 1/250 (1/1000) and categorical draws down to 1/5000 (1/20000): the distribution over traces equals the exact one computed in fractions; all sets of 1-4 traces with integer, per-trace and geometric lengths; '
            'GoHMM observations at every quantile of the grid; categorical draws on every distribution of denominator 2..8 at boundary draws 0 and 1-2^-53 and on distributions whose sum is off by rounding; long runs on large models. '
            'Runs after queries, learning and uses of another model are those of the same model rebuilt. Non-trivial: distinct distributions.')
    assumptions = ['random numbers come from random / numpy.random', 'each trace element is drawn by inversion of uniform draws', 'every visited state has an outgoing transition']

    def families(self, tier):
        T = tier == 'thorough'
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('mc', 'hmm', 'gohmm') for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or True)
        R = dists(3, 4)
        mcs = (((a, b, 'init'), (r0, r1, r2), 4) for r0 in R for r1 in R for r2 in R for a, b in (('a', 'b'), ('a', 'a')))
        yield 'mc', ((m, 3 if T else 2) for i, m in enumerate(mcs) if T or keep(i, 2))
        yield 'mc_long', ((m, 5 if T else 4) for i, m in enumerate((('a', 'b', 'init'), (r0, r1, (2, 2, 0)), 4) for r0 in R for r1 in R) if T or keep(i, 8))
        yield 'mc_inits', (((ls, (r0, r1, (1, 1, 2)), 4), s, 2) for ls in (('init', 'a', 'init'), ('init', 'init', 'a'), ('init', 'a', 'b'), ('a', 'init', 'a')) for r0 in R[::2] for r1 in R[1::3] for s in (None, 0, 1, 2))
        R2, O2 = dists(2, 2), dists(2, 2)
        yield 'hmm', (((('x', 'y'), (r0, r1), (o0, o1), i, 2), s, n) for r0 in R2 for r1 in R2 for o0 in O2 for o1 in O2 for i in R2 for s in (None, 0, 1) for n in ((1, 2, 3, 4) if T else (1, 3)))
        R4 = [r for r in dists(2, 4)]
        O4 = [(2, 1, 1), (0, 4, 0), (1, 0, 3), (0, 1, 3), (4, 0, 0)]
        yield 'hmm3', (((('x', 'y', 'z'), (r0, r1), (o0, o1), i, 4), None, 2) for r0 in R4 for r1 in R4 for o0 in O4 for o1 in O4 for i in (R4 if T else (R4[1], R4[4])))
        M = [zoo.MC1, zoo.MC2, zoo.MC3]
        H = [(('x', 'y'), ((1, 1), (2, 0)), ((1, 1), (0, 2)), (1, 1), 2), (('x', 'y'), ((0, 2), (1, 1)), ((2, 0), (1, 1)), (2, 0), 2)]
        yield 'sets', ([('mc', m, spec) for m in M for spec in ((1, 2), (2, 1), (3, 1), (2, 0), (0, 3), (1, [2]), (2, [1, 0]), (2, [0, 1, 5]), (3, [0, 1, 0]), (1, [3]))] +
                       [('hmm', h, spec) for h in H for spec in ((1, 2), (2, 1), (3, 1), (4, 1), (2, 2), (0, 3), (2, [1, 2]), (3, [1, 0, 2]), (2, [2, 1, 9]), (3, 0), (1, 4))] +
                       ([('mc', m, spec) for m in M for spec in ((2, 2), (4, 1), (3, [1, 2, 0]))] if T else []))
        yield 'geo', ([('mc', m, (k, p, mn)) for m in M[:2] for k, p, mn in ((1, 0.5, 0), (1, 0.75, 1), (2, 0.75, 0), (1, 1.0, 2), (1, 1 / 2, 1))] + [('hmm', h, (k, p, mn)) for h in H for k, p, mn in ((1, 0.5, 0), (1, 0.5, 1), (1, 0.75, 2), (2, 0.75, 0), (2, 1.0, 1), (2, 1.0, 0))])
        yield 'gohmm', ((i, j, sig, n) for i in range(4) for j in range(3) for sig in (0, 1, 2) for n in (1, 2))
        yield 'gosets', [(k, n) for k in (1, 2) for n in (0, 1)] + [(1, 2)]
        yield 'categorical', ((d, n, g) for d in range(2, 9) for n in range(1, 5 if T else 4) for g in dists(n, d))
        # rare outcomes
        yield 'categorical', ((D, n, g) for D in (1000, 20000 if T else 5000) for n in range(2, 6 if T else 5) for g in skews(n, D))
        D = 1000 if T else 250
        sk = skews(3, D)
        yield 'mc_fine', (((ls, (r0, r1, r2), D), s, 1) for ls in (('a', 'b', 'init'), ('a', 'a', 'init')) for r0 in sk for i, (r1, r2) in enumerate(itertools.product(sk, repeat=2)) if keep(i, 20) for s in (0, 1, 2))
        s2 = skews(2, 40)
        hm = list(itertools.product(itertools.product(s2, repeat=2), itertools.product(s2, repeat=2), s2))
        yield 'hmm_fine', (((('x', 'y'), r, o, i, 40), s, 1) for k, (r, o, i) in enumerate(hm) for s in (0, 1) if T or keep(k, 4))
        yield 'rounding', range(len(OFF) * 6)
        yield 'big', itertools.product((60, 300), range(5))

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='run')
            return
        ja, np = api(), np_()
        if fam in ('mc', 'mc_long'):
            m, n = case
            self.same_dist('mc', m, n, None, st, case)
        elif fam in ('mc_inits', 'mc_fine'):
            m, s, n = case
            self.same_dist('mc', m, n, s, st, case)
        elif fam in ('hmm', 'hmm3', 'hmm_fine'):
            m, s, n = case
            self.same_dist('hmm', m, n, s, st, case)
        elif fam in ('sets', 'geo'):
            kind, d, spec = case
            m = (mk_mc if kind == 'mc' else mk_hmm)(d)
            before = zoo.snap(m)
            D = d[-1]
            if fam == 'sets':
                k, par = spec
                lens = [par[i] if isinstance(par, list) else par for i in range(k)]
                exp = sets_dist([trace_dist(kind, d, L) for L in lens])
                arg = list(par) if isinstance(par, list) else par
                got, n = explore(self.grid(D, d), lambda: m.generateSet(k, arg), multiset)
                need(arg == par, 'the list of lengths was modified')
            else:
                k, p, mn = spec
                B = self.grid(D, d)
                ld = Counter(mn + geo(p, (c + 0.5) / B) for c in range(B))
                one = {}
                for L, c in ld.items():
                    for t, q in trace_dist(kind, d, L).items():
                        one[t] = one.get(t, 0) + q * F(c, B)
                exp = sets_dist([one] * k)
                got, n = explore(B, lambda: m.generateSet(k, p, 'geo', mn), multiset)
            st.step(n)
            need(got == exp, lambda: 'the generated sets %s have distribution\n%s\nexpected\n%s\nmodel %s' % (spec, got, exp, d))
            need(zoo.snap(m) == before, 'generating changed the model')
            s = m.generateSet(max(1, spec[0]), 2)
            need(s.type == 0, lambda: 'type %s' % s.type)
            st.outcome((spec, sorted(got.items())))
        elif fam == 'gohmm':
            self.gohmm(case, st)
        elif fam == 'gosets':
            k, n = case
            m = mk_gohmm((((1, 1), (0, 2)), 2, (((0.0, 1.0),), ((5.0, 2.0),)), (1, 1)))
            tot = F(0)
            for L, s in seams.enumerate_draws(2, lambda: m.generateSet(k, n)):
                tot += F(1, 2 ** L)
                x = [len(q) for q in s.sequences for _ in range(0)]
                need(sum(int(t) for t in s.times) == k, lambda: '%s traces instead of %d' % (s.times, k))
                need(all(len(q) == n for q in s.sequences), lambda: 'lengths of %s, requested %d' % (s.sequences, n))
                keys = [repr(q) for q in s.sequences]
                need(len(set(keys)) == len(keys), 'a repeated trace is not counted')
                need(n == 0 or s.type == 3, lambda: 'type %s' % s.type)
                st.step()
                st.outcome(keys)
            need(tot == 1, 'weights')
        elif fam == 'categorical':
            d, n, g = case
            v = [x / d for x in g]
            for arg in (list(v), np.array(v)):
                got, k = explore(d, lambda: int(ja.resolveRandom(arg)), lambda x: x)
                st.step(k)
                exp = {i: F(x, d) for i, x in enumerate(g) if x}
                need(got == exp, lambda: 'resolveRandom(%s) has distribution %s' % (arg, got))
            need(list(arg) == v, 'the argument was modified')
            for u in (0.0, 2.0 ** -60, 1 - 2.0 ** -53):
                seams.CTL.script([u])
                x = ja.resolveRandom(list(v))
                seams.CTL.real()
                need(v[int(x)] > 0, lambda: 'resolveRandom(%s) returns %s for the draw %r' % (v, x, u))
            st.outcome((got, d))
        elif fam == 'rounding':
            v, k = OFF[case // 6], case % 6
            if k < 3:
                for u in (0.0, 1e-300, 0.5, 0.9994, 0.9999, 1 - 2.0 ** -52, 1 - 2.0 ** -53):
                    seams.CTL.script([u])
                    x = ja.resolveRandom(list(v))
                    seams.CTL.real()
                    st.step()
                    need(0 <= int(x) < len(v) and v[int(x)] > 0, lambda: 'resolveRandom(%s) returns %s for the draw %r' % (v, x, u))
                    st.outcome((v, u, int(x)))
            else:
                # the same distribution as the row of a chain or as an emission
                n = len(v)
                if k == 3:
                    rows = np.array([list(v) + [0.0]] * n + [list(v) + [0.0]])
                    m = ja.MC(rows, ['l%d' % i for i in range(n)] + ['init'], 'm')
                    syms = ['l%d' % i for i in range(n)]
                else:
                    m = ja.HMM(np.array([list(v)] * n), np.array([list(v)] * n), ['l%d' % i for i in range(n)], list(v) if k == 4 else 0, 'h')
                    syms = ['l%d' % i for i in range(n)]
                ok = {s for s, p in zip(syms, v) if p > 0}
                for u in (0.0, 0.3, 0.9994, 0.9999, 1 - 2.0 ** -53):
                    seams.CTL.script([u] * 40)
                    t = m.run(4)
                    seams.CTL.real()
                    st.step()
                    need(len(t) == (5 if k == 3 else 4), 'length')
                    need(set(t) - {'init'} <= ok, lambda: 'the impossible trace %s is generated with %s' % (t, v))
                    st.outcome(t)
        else:
            n, k = case
            rows = np.zeros((n + 1, n + 1))
            for i in range(n):
                rows[i, (i + 1) % n] += 0.25
                rows[i, (i * 7 + 3) % n] += 0.75
            rows[n, :n] = 1.0 / n
            lab = ['s%d' % i for i in range(n)] + ['init']
            m = ja.MC(rows, lab, 'big')
            h = ja.HMM(rows[:n, :n], np.eye(n), lab[:n], (rows[n, :n]).tolist(), 'bigh')
            us = [((i * 37 + k * 11) % 101) / 101.0 for i in range(1000)] + [1 - 2.0 ** -53] * 10
            for mod, off in ((m, 1), (h, 0)):
                for s in range(0, len(us) - 900, 40):
                    seams.CTL.script((us[s:] + us) * 2)
                    t = mod.run(200)
                    seams.CTL.real()
                    st.step()
                    need(len(t) == 200 + off, lambda: 'length %d' % len(t))
                    ids = [lab.index(x) for x in t]
                    need(not off or ids[0] == n, 'starts in init')
                    for a, b in zip(ids, ids[1:]):
                        need(rows[a, b] > 0, lambda: 'impossible transition %d -> %d' % (a, b))
                    st.outcome(t)

    def grid(self, D, d):
        """a base all probabilities of the model are multiples of"""
        if len(d) == 3:
            k = d[0].count('init')
            return D * k // math.gcd(D, k)
        return D

    def same_dist(self, kind, d, n, start, st, what):
        m = (mk_mc if kind == 'mc' else mk_hmm)(d)
        before = zoo.snap(m)
        exp = trace_dist(kind, d, n, start)
        fn = (lambda: m.run(n)) if start is None else (lambda: m.run(n, start))
        got, k = explore(self.grid(d[-1], d), fn, tuple)
        st.step(k)
        need(got == exp, lambda: 'simulated distribution\n%s\nexact\n%s\nfor %s' % (sorted(got.items()), sorted(exp.items()), what))
        need(zoo.snap(m) == before, 'simulating changed the model')
        st.outcome(sorted(exp.items()))

    def gohmm(self, case, st):
        i, j, sig, n = case
        rows = (((1, 1), (2, 0)), ((0, 2), (1, 1)), ((1, 1), (1, 1)), ((2, 0), (0, 2)))[i]
        init = ((1, 1), (2, 0), (0, 2))[j]
        outs = ((((0.0, 1.0),), ((5.0, 2.0),)), (((0.0, 1.0), (100.0, 0.5)), ((-7.5, 3.0), (3.0, 0.0))), (((1e6, 10.0),), ((-1e-3, 1e-6),)))[sig]
        m = mk_gohmm((rows, 2, outs, init))
        B = 2
        nd = NormalDist()
        z = [nd.inv_cdf((c + 0.5) / B) for c in range(B)]
        emit = []
        for s in range(2):
            e = {}
            for cs in itertools.product(range(B), repeat=len(outs[s])):
                k = tuple(round(mu + sd * z[c], 6) for (mu, sd), c in zip(outs[s], cs))
                e[k] = e.get(k, 0) + F(1, B ** len(cs))
            emit.append(e)
        for start in (None, 0, 1):
            cur = {(s, ()): F(x, 2) for s, x in enumerate(init) if x} if start is None else {(start, ()): F(1)}
            for _ in range(n):
                nxt = {}
                for (s, w), p in cur.items():
                    for o, q in emit[s].items():
                        for t, x in enumerate(rows[s]):
                            if x:
                                k = (t, w + (o,))
                                nxt[k] = nxt.get(k, 0) + p * q * F(x, 2)
                cur = nxt
            exp = {}
            for (s, w), p in cur.items():
                exp[w] = exp.get(w, 0) + p
            fn = (lambda: m.run(n)) if start is None else (lambda: m.run(n, start))
            got, k = explore(B, fn, lambda t: tuple(tuple(round(float(x), 6) for x in o) for o in t))
            st.step(k)
            need(got == exp, lambda: 'simulated distribution\n%s\nexact\n%s\nfor %s from %s' % (sorted(got.items()), sorted(exp.items()), case, start))
            st.outcome(sorted(exp.items()))


OFF = [(0.1,) * 10, (0.9996,), (0.9996, 0.0), (0.0, 0.9996, 0.0), (1.0004,), (0.3, 0.6999), (0.3, 0.3, 0.3996, 0.0), (1 / 3, 1 / 3, 1 / 3), (0.7, 0.1, 0.1, 0.1), tuple([1 / 49] * 49), (0.0, 0.9999999999999998, 0.0),
       (1e-300, 0.9999999999999998), (0.2, 0.0, 0.7999999999999996, 0.0), (0.5, 0.5003, 0.0), (0.0, 0.0, 1.0)]
CHECK = C16()
