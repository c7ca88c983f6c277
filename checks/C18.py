import itertools, math
from fractions import Fraction as F
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, ref
from checks.C04 import mk_pctmc
from checks.C16 import geo

MAG = (1e-12, 1e-5, 9.7e-4, 1.0, 3.0, 1e3, 2.5e8)
NAMES = ('p', 'q', 'r', 's')


def both(labels, R, name='m'):
    """the chain as a CTMC and as an instantiated PCTMC (rates = parameters, constants and products)"""
    out = [mk_ctmc((labels, R), name)]
    ex, vals, k = [], {}, 0
    for row in R:
        e = []
        for v in row:
            if v == 0:
                e.append('0')
            elif k % 3 == 2:
                e.append(repr(float(v)))
                k += 1
            else:
                p = 'p%d' % k
                vals[p] = v if k % 3 == 0 else v / 2
                e.append(p if k % 3 == 0 else '2*' + p)
                k += 1
        ex.append(tuple(e))
    out.append(mk_pctmc(labels, tuple(ex), tuple(vals), vals, name))
    return out


def q(u, rate):
    return -math.log1p(-u) / rate


def rnd(x):
    return float('%.8e' % float(x))


def race(row, us):
    """winner and time when the i-th positive clock draws us[i]"""
    best = None
    i = 0
    for t, v in enumerate(row):
        if v > 0:
            x = q(us[i], v)
            i += 1
            if best is None or x < best[1]:
                best = (t, x)
    return best


def grid_race(row, base):
    """distribution of (winner, time) over the grid (weights in Fractions)"""
    k = sum(1 for v in row if v > 0)
    d = {}
    for cs in itertools.product(range(base), repeat=k):
        t, x = race(row, [(c + 0.5) / base for c in cs])
        d[t, rnd(x)] = d.get((t, rnd(x)), 0) + F(1, base ** k)
    return d


def timed_dist(labels, R, n, base, D=None):
    """distribution over timed traces with draws on the grid"""
    init = ref.uniform_init(labels)
    cur = {(s, ()): p for s, p in enumerate(init) if p}
    races = {}
    for _ in range(n):
        nxt = {}
        for (s, w), p in cur.items():
            if not any(v > 0 for v in R[s]):
                nxt[s, w] = nxt.get((s, w), 0) + p      # absorbing: the run is over
                continue
            if s not in races:
                races[s] = grid_race(R[s], base)
            for (t, x), y in races[s].items():
                k = (t, w + (labels[s], x))
                nxt[k] = nxt.get(k, 0) + p * y
        cur = nxt
    res = {}
    for (s, w), p in cur.items():
        k = w + (labels[s],)
        res[k] = res.get(k, 0) + p
    return res


def norm(t):
    return tuple(x if isinstance(x, str) else rnd(x) for x in t)


class C18(Check):
    id = 'C18'
    rule = ('CTMCs and the same chains as instantiated PCTMCs; races of 1-4 clocks with rates over 20 orders of magnitude (incl. equal rates, self loops and zero rates in every position), every assignment of distinct draws to the clocks: the multiset of '
            '(winner, dwell time) over all draws equals that of the independent race; every sequence of grid draws for runs up to 3 jumps of 3-state chains: exact distribution over timed traces; the untimed run for the same draws is the timed one without '
            'dwell times; generated sets (counts, lengths, geometric lengths); absorbing states. Runs after queries, learning and uses of another model are those of the same model rebuilt. Non-trivial: distinct races and distributions.')
    assumptions = ['random numbers come from random / numpy.random', 'each clock is one exponential draw', 'a run ends when it reaches an absorbing state']

    def families(self, tier):
        T = tier == 'thorough'
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('ctmc', 'ctmc_untimed', 'pctmc', 'pctmc_untimed') for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or 'p' not in k)
        def rows():
            for k in (1, 2):
                for rs in itertools.product(MAG, repeat=k):
                    for pos in itertools.combinations(range(4), k):
                        r = [0.0] * 4
                        for p, v in zip(pos, rs):
                            r[p] = v
                        yield tuple(r)
            for rs in itertools.product(MAG[::2] if not T else MAG, repeat=3):
                for pos in ((0, 1, 2), (1, 2, 3), (0, 2, 3)):
                    r = [0.0] * 4
                    for p, v in zip(pos, rs):
                        r[p] = v
                    yield tuple(r)
        yield 'race', ((s, r) for r in rows() for s in (0, 3))
        yield 'race4', ((s, r) for r in itertools.product((1e-4, 2.0, 5.0), repeat=4) for s in (1,))
        rates = (0.0, 0.75, 3.1)
        ch = [((a, b, 'init'), ((x, y, 0.0), (z, w, 0.0), (u, v, 0.0))) for a, b in (('a', 'b'),) for x, y, z, w in itertools.product(rates, repeat=4) for u, v in ((1.3, 0.0), (1e-4, 2.9), (0.0, 7.0))]
        yield 'run', ((m, n, 3 if T else 2) for m in ch for n in ((1, 2, 3) if T else (1, 2)))
        yield 'run3', ((((a, b, 'init'), ((0.0, 1e-4 * k, 1e-5), (2e3, 0.0, 1e-7), (1.0, 2.5, 0.3))), 2, 2) for k in (1, 7) for a, b in (('a', 'b'), ('a', 'a'), ('a', 'init'), ('init', 'b')))
        yield 'long', itertools.product((1e-6, 1.0, 1e6), range(6), (True, False))
        yield 'sets', ((i, spec, timed) for i in range(3) for spec in ((0, 2), (1, 3), (2, 1), (3, 1), (2, [1, 2]), (2, [0, 1]), (3, [1, 0, 1]), (2, 0), (1, (0.5, 0)), (1, (0.5, 1)), (2, (0.75, 0)), (1, (1.0, 2))) for timed in (True, False))
        yield 'absorb', ((p, n, t) for p in (0, 1, 2) for n in range(4) for t in (True, False))

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='run')
            return
        ja, np = api(), np_()
        if fam in ('race', 'race4'):
            s, row = case
            labels = ['a', 'b', 'a', 'init']
            R = [[1.0, 0.0, 0.0, 0.0] for _ in range(4)]
            R[s] = list(row)
            k = sum(1 for v in row if v > 0)
            U = [0.001, 0.3, 0.62, 0.9999, 0.51][:k + 1 if k < 4 else 4]
            for m in both(labels, R):
                b = zoo.snap(m)
                got, exp = [], []
                for us in itertools.permutations(U, k):
                    seams.CTL.script(list(us))
                    o, t, x = m.next(s)
                    used = seams.CTL.pos
                    seams.CTL.real()
                    st.step()
                    need(o == labels[s], lambda: 'observation %s in state %d' % (o, s))
                    need(used == k, lambda: '%d draws for %d clocks' % (used, k))
                    got.append((int(t), rnd(x)))
                    w, y = race(row, us)
                    exp.append((w, rnd(y)))
                need(sorted(got) == sorted(exp), lambda: 'rates %s: winners and times\n%s\nexpected\n%s' % (row, sorted(got), sorted(exp)))
                need(zoo.snap(m) == b, 'the model was modified')
                st.outcome((row, sorted(got)))
        elif fam in ('run', 'run3'):
            (labels, R), n, base = case
            B = base * labels.count('init')
            exp = timed_dist(labels, R, n, B)
            for m in both(labels, R)[:2 if fam == 'run3' or n < 2 else 1] + (both(labels, R)[1:] if n == 2 and h64(case) % 3 == 0 else []):
                got = {}
                cnt = 0
                for L, t in seams.enumerate_draws(B, lambda: m.run(n, True)):
                    cnt += 1
                    draws = [(c + 0.5) / B for c in seams.CTL.choices]
                    need(len(t) % 2 == 1 and all(isinstance(x, str) for x in t[0::2]) and not any(isinstance(x, str) for x in t[1::2]), lambda: 'not an alternating trace: %s' % (t,))
                    k = norm(t)
                    got[k] = got.get(k, 0) + F(1, B ** L)
                    if cnt % 5 == 1:
                        save = list(seams.CTL.choices)
                        seams.CTL.script(draws)
                        u = m.run(n)
                        seams.CTL.grid(B, save)
                        seams.CTL.choices = save
                        need(list(u) == list(t[0::2]), lambda: 'untimed %s, timed %s for the same draws' % (u, t))
                st.step(cnt)
                need(got == exp, lambda: 'distribution of the runs\n%s\nexpected\n%s\nfor %s' % (sorted(got.items()), sorted(exp.items()), case))
            st.outcome(sorted(exp.items()))
        elif fam == 'long':
            sc, k, timed = case
            n = 6
            R = [[0.0] * (n + 1) for _ in range(n + 1)]
            for i in range(n):
                R[i][(i + 1) % n] = sc * (i + 1)
                R[i][(i + 3) % n] = sc / (i + 1)
                if i % 2:
                    R[i][i] = sc
            R[n][k] = sc
            labels = ['s%d' % i for i in range(n)] + ['init']
            for m in both(labels, R):
                us = [((i * 37 + k * 11) % 101) / 101.0 for i in range(4000)]
                seams.CTL.script(us)
                t = m.run(60, timed)
                seams.CTL.script(us)
                t2 = m.run(60, not timed)
                seams.CTL.real()
                st.step(2)
                a, b = (t, t2) if timed else (t2, t)
                need(len(a) == 121 and len(b) == 61 and list(a[0::2]) == list(b), lambda: 'timed and untimed runs differ: %s %s' % (a, b))
                ids = [labels.index(x) for x in b]
                for x, y in zip(ids, ids[1:]):
                    need(R[x][y] > 0, lambda: 'transition %d -> %d has rate zero' % (x, y))
                need(all(0 <= x < 60 / sc for x in a[1::2]), lambda: 'dwell times %s' % (a,))
                st.outcome(norm(a))
        elif fam == 'sets':
            i, (k, par), timed = case
            labels, R = [(('a', 'b', 'init'), ((0, 2.0, 0), (0.5, 1.5, 0), (1.0, 3.0, 0))), (('a', 'b', 'init'), ((0, 2.0, 0), (0.7, 0, 0), (1.0, 0, 0))), (('a', 'a', 'init'), ((0, 1.0, 0), (1.0, 0, 0), (0, 1.0, 0)))][i]
            for m in both(labels, R):
                tot = F(0)
                runs = 0
                for L, s in seams.enumerate_draws(2, lambda: m.generateSet(k, par[0], 'geo', par[1], timed=timed) if isinstance(par, tuple) else m.generateSet(k, list(par) if isinstance(par, list) else par, timed=timed)):
                    tot += F(1, 2 ** L)
                    runs += 1
                    need(sum(int(x) for x in s.times) == k and all(int(x) > 0 for x in s.times), lambda: 'multiplicities %s for %d traces' % (s.times, k))
                    keys = [norm(x) for x in s.sequences]
                    need(len(set(map(repr, s.sequences))) == len(keys), 'a repeated trace is not counted')
                    lens = sorted((len(x) - 1) // (2 if timed else 1) for x, t in zip(s.sequences, s.times) for _ in range(int(t)))
                    if isinstance(par, list):
                        need(lens == sorted(par[:k]), lambda: 'lengths %s requested %s' % (lens, par))
                    elif isinstance(par, tuple):
                        ok = {par[1] + geo(par[0], u) for u in (0.25, 0.75)}
                        need(set(lens) <= ok, lambda: 'geometric lengths %s' % lens)
                    else:
                        need(all(x == par for x in lens), lambda: 'lengths %s requested %s' % (lens, par))
                    if any(len(x) > 1 for x in s.sequences):
                        need(s.type == (4 if timed else 0), lambda: 'type %s' % s.type)
                    if runs < 20:
                        st.outcome((keys, [int(x) for x in s.times]))
                need(tot == 1, 'weights')
                st.step(runs)
        else:
            p, n, timed = case
            labels = ('a', 'b', 'c', 'init')
            R = (((0, 2.0, 0, 0), (0, 0, 0, 0), (0, 0, 0, 0), (1.0, 0, 0, 0)), ((0, 0, 1e-4, 0), (0, 0, 0, 0), (1.0, 0, 0, 0), (0, 2.0, 0.5, 0)), ((0, 0, 0, 0), (1.0, 0, 0, 0), (0, 0, 0, 0), (1.0, 1.0, 0, 0)))[p]
            exp = timed_dist(labels, R, n, 2)
            for m in both(labels, R):
                got = {}
                for L, t in seams.enumerate_draws(2, lambda: m.run(n, timed)):
                    kx = norm(t)
                    got[kx] = got.get(kx, 0) + F(1, 2 ** L)
                    st.step()
                e = {}
                for t, w in exp.items():
                    kx = t if timed else t[0::2]
                    e[kx] = e.get(kx, 0) + w
                need(got == e, lambda: 'runs into absorbing states %s expected %s for %s' % (got, e, case))
                for s in range(4):
                    if not any(R[s]):
                        try:
                            x = m.next(s)
                        except ValueError:
                            continue
                        raise Violation('the absorbing state %d has the successor %s' % (s, x))
                st.outcome(sorted(e.items()))


CHECK = C18()
