import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo
from mc.iso import isomorphic

POS2 = [(0, 0), (0, 1), (1, 0), (1, 1)]
RATE = {1: {(i, j): 0.5 + 1.25 * i + 0.375 * j for i in range(40) for j in range(40)}, 2: {(i, j): 7.0 + 3.5 * i + 0.8125 * j for i in range(40) for j in range(40)}}
SYNC = [(), ((0, 'a', 1),), ((1, 'a', 0), (0, 'b', 1)), ((0, 'a', 1), (0, 'a', 0), (1, 'a', 1)), ((1, 'b', 1), (0, 'b', 1), (1, 'a', 0))]
SR = {(0, 'a', 1): 1.5, (1, 'a', 0): 0.25, (0, 'b', 1): 3.0, (0, 'a', 0): 2.5, (1, 'a', 1): 0.125, (1, 'b', 1): 4.0}
INIT = [(1.0, 0.0), (0.25, 0.75), (0.0, 1.0), (1e-7, 1 - 1e-7)]
# components 3 and 4: tiny and huge rates side by side
RATE[3] = {(i, j): (1.0 + i + 0.375 * j) * 10.0 ** (-11 + 4 * ((i + 2 * j) % 3)) for i in range(4) for j in range(4)}
RATE[4] = {(i, j): (2.5 + i + 0.125 * j) * 10.0 ** (7 - 6 * ((2 * i + j) % 3)) for i in range(4) for j in range(4)}
FACTOR = {1: 1, 2: 2, 3: 1e-6, 4: 1e5}


def comp(which, n, trans, sync, init, labs, first=False):
    """a CTMC built through the constructor; init state last (or first)"""
    ja, np = api(), np_()
    M = np.zeros((n + 1, n + 1))
    off = 1 if first else 0
    ini = 0 if first else n
    for i, j in trans:
        M[i + off, j + off] = RATE[which][i, j]
    for i, p in enumerate(init):
        M[ini, i + off] = p
    L = ['init'] + list(labs) if first else list(labs) + ['init']
    s = [(a + off, x, b + off, SR.get((a, x, b), 1.0 + a + 0.5 * b) * FACTOR[which]) for a, x, b in sync]
    return ja.CTMC(M, L, 'c%d' % which, s)


def reference(parts):
    """parts: list of (labels, R dict, sync list, init vector).  The reachable product of two or more chains with
    numeric rates: labels, initial vector, rate matrix (over reachable states)."""
    ns = [len(p[0]) for p in parts]
    states = list(itertools.product(*[range(n) for n in ns]))
    R = {}

    def add(a, b, v):
        R[a, b] = R.get((a, b), 0) + v
    for k, (labs, r, sync, init) in enumerate(parts):
        for s in states:
            for (i, j), v in r.items():
                if s[k] == i:
                    add(s, s[:k] + (j,) + s[k + 1:], v)
    acts = sorted({t[1] for p in parts for t in p[2]})
    for a in acts:
        own = [k for k, p in enumerate(parts) if any(t[1] == a for t in p[2])]
        if len(own) < 2:
            continue
        for combo in itertools.product(*[[t for t in parts[k][2] if t[1] == a] for k in own]):
            v = 1
            src, dst = {}, {}
            for k, t in zip(own, combo):
                src[k], dst[k] = t[0], t[2]
                v = v * t[3]
            for s in itertools.product(*[(src[k],) if k in src else range(ns[k]) for k in range(len(parts))]):
                add(s, tuple(dst.get(k, x) for k, x in enumerate(s)), v)
    ini = {}
    for s in states:
        v = 1
        for k, p in enumerate(parts):
            v = v * p[3][s[k]]
        if v != 0:
            ini[s] = v
    reach, seen, nxt = list(ini), set(ini), {}
    for (x, y) in R:
        nxt.setdefault(x, []).append(y)
    for s in reach:
        for y in nxt.get(s, ()):
            if y not in seen:
                seen.add(y)
                reach.append(y)
    states = [s for s in states if s in seen]
    labels = [','.join(p[0][i] for p, i in zip(parts, s)) for s in states] + ['init']
    n = len(states)
    M = [[R.get((a, b), 0) for b in states] + [0] for a in states] + [[ini.get(b, 0) for b in states] + [0]]
    return labels, M


def values(c, n):
    """the current rates; large models: only the parameters of the entry are substituted (much faster)"""
    if n <= 20:
        return [[c.evaluateTransition(i, j) for j in range(n)] for i in range(n)]
    M = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            e = c.transitionExpression(i, j)
            if not e.is_zero:
                M[i][j] = c.evaluateTransition(i, j, {x.name: c.parameterValue(x.name) for x in e.free_symbols})
    return M


class C22(Check):
    id = 'C22'
    case_timeout = 300
    rule = ('all pairs of two-state CTMCs (all 16 transition structures incl. self loops, 5 sets of synchronised transitions, 3 initial distributions, every transition with its own rate) plus pairs with three-state, disconnected, '
            'duplicate-label and init-first components; components with rates from 1e-11 to 1e7; action names that look alike; scaling families (up to 16 x 16 states; fully synchronised 17 x 17, more than 65535 transitions). Each composition is compared with the reachable product computed independently, up to label-preserving isomorphism; '
            'parameters: values, positions = exactly the transitions mentioning them, re-instantiating one moves exactly those rates. Non-trivial: distinct products.')
    assumptions = ['exactly one initial state per component, no transition back to it', 'every synchronised action belongs to both components']

    def families(self, tier):
        T = tier == 'thorough'
        st = [tuple(p for p, b in zip(POS2, m) if b) for m in itertools.product((0, 1), repeat=4)]
        A = [(s, y, i) for s in st for y in range(5) for i in range(3)]
        if T:
            yield 'pairs', itertools.product(A, A)
        else:
            yield 'pairs', (((s1, y1, i1), (s2, y2, i2)) for s1 in st for s2 in st for y1, y2, i1, i2 in ((0, 0, 0, 0), (1, 1, 1, 0), (2, 4, 0, 2), (3, 2, 1, 1), (4, 3, 2, 0), (2, 2, 0, 0)))
        X = [((0, 1), (1, 2), (2, 0)), ((0, 1), (1, 0), (2, 2)), ((0, 1), (2, 1)), ((0, 0), (1, 1), (2, 2), (0, 2)), ((1, 2), (2, 1)), ((0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1), (1, 1))]
        SX = [(), ((0, 'a', 2),), ((0, 'a', 1), (1, 'b', 2), (2, 'a', 2)), ((2, 'b', 0), (0, 'b', 1))]
        IX = [(1.0, 0.0, 0.0), (0.0, 0.5, 0.5), (0.25, 0.25, 0.5)]
        yield 'three', ((x, s, i, y, t, j, f) for x in X for s in SX for i in (IX if T else IX[:2]) for y in ((2, st[6]), (2, st[15]), (3, X[0]), (3, X[5])) for t, j, f in (((0, 1, 1), (1, 0, 2), (2, 1, 0)) if not T else itertools.product(range(4), range(3), range(4))))
        yield 'magnitudes', ((s1, s2, y1, y2, i1, i2, k) for n, (s1, s2, (y1, y2, i1, i2), k) in enumerate(itertools.product(st, st, ((0, 0, 0, 3), (2, 4, 3, 0), (3, 2, 1, 3), (1, 1, 3, 3)), ((3, 4), (4, 3), (3, 3), (4, 1), (1, 3)))) if keep(n, 2 if T else 12))
        yield 'scale', [(n, m, b) for n, m in ((2, 16), (16, 2), (5, 5), (12, 12), (14, 14), (16, 16)) for b in (False, True)] if T else [(2, 17, True), (17, 2, True), (12, 12, False), (14, 14, True)]
        # more transitions than sixteen bits can number
        yield 'wide', [(17, 17)] if not T else [(16, 16), (17, 17), (10, 26)]
        # actions synchronise when their names are the same, not when they look alike
        yield 'names', itertools.permutations(('a', 'a ', 'A', 'aa', 'a_', '', '1', '01', 'b'), 2)
        yield 'create', ((i, j, v) for i in range(16) for j in range(16) for v in range(3) if T or j % 4 == 1)
        yield 'twice', itertools.product(range(16), range(5), range(3))

    def check(self, m1, m2, parts, st, what, deep=False):
        ja = api()
        b1, b2 = zoo.snap(m1), zoo.snap(m2)
        c = ja.synchronousCompositionCTMCs(m1, m2, 'comp')
        st.step()
        need(zoo.snap(m1) == b1 and zoo.snap(m2) == b2, lambda: 'a component was modified: %s' % (what,))
        labels, M = reference(parts)
        n = len(labels)
        need(c.nb_states == n, lambda: '%d states (%s) expected %d (%s): %s' % (c.nb_states, c.labelling, n, labels, what))
        need(c.isInstantiated(), lambda: 'not instantiated: %s' % (what,))
        eq = lambda a, b: close(a, b, 1e-9, 0.0)
        got = values(c, n)
        perm = isomorphic(c.labelling, got, labels, M, eq)
        need(perm is not None, lambda: 'wrong product for %s:\n%s %s\nexpected\n%s %s' % (what, c.labelling, got, labels, M))
        need(c.name == 'comp', 'name')
        need(sorted(c.getAlphabet()) == sorted(set(labels)), 'alphabet')
        need([float(x) for x in c.initial_state] == [1.0 if l == 'init' else 0.0 for l in c.labelling], 'initial state')
        # parameters
        need(len(set(c.parameter_str)) == len(c.parameter_str) and set(c.parameter_values) == set(c.parameter_str), lambda: 'parameters %s values %s' % (c.parameter_str, c.parameter_values))
        rates = sorted(v for k in (0, 1) for v in parts[k][1].values())
        free = {}
        memo = {}
        for i in range(n):
            for j in range(n):
                e = c.transitionExpression(i, j)
                if id(e) not in memo:
                    memo[id(e)] = (e, {x.name for x in e.free_symbols})
                free[i, j] = memo[id(e)][1]
        for p in c.parameter_str:
            exp = sorted(k for k in free if p in free[k])
            pos = sorted(tuple(int(y) for y in x) for x in c.parameterIndexes(p))
            need(pos == exp, lambda: 'parameter %s declared at %s but used at %s: %s' % (p, pos, exp, what))
        mentioned = {x for (i, j), f in free.items() if i < n - 1 for x in f}
        vals = sorted(c.parameterValue(p) for p in mentioned)
        for v in vals:
            need(any(eq(v, r) for r in rates), lambda: 'a parameter has value %r, no rate of the components: %s' % (v, what))
        # changing one parameter changes exactly the rate of one transition of one component
        if deep:
            for p in sorted(mentioned):
                v = c.parameterValue(p)
                need(c.instantiate([p], [v + 1.0]), 'instantiate refused')
                got2 = values(c, n)
                okk = False
                for k in (0, 1):
                    for tr, r in parts[k][1].items():
                        if eq(r, v):
                            p2 = [list(x) for x in parts]
                            p2[k][1] = dict(parts[k][1])
                            p2[k][1][tr] = r + 1.0
                            l2, M2 = reference(p2)
                            if l2 == labels and all(eq(got2[i][j], M2[perm[i]][perm[j]]) for i in range(n) for j in range(n)):
                                okk = True
                need(okk, lambda: 'parameter %s does not stand for one transition of a component: %s' % (p, what))
                c.instantiate([p], [v])
                st.step()
        st.outcome((labels, M))
        return c

    def part(self, which, n, trans, sync, init, labs):
        return (list(labs), {t: RATE[which][t] for t in trans}, [(a, x, b, SR.get((a, x, b), 1.0 + a + 0.5 * b) * FACTOR[which]) for a, x, b in sync], list(init))

    def run(self, fam, case, st):
        ja = api()
        if fam == 'pairs':
            (s1, y1, i1), (s2, y2, i2) = case
            a = (2, s1, SYNC[y1], INIT[i1], ('u', 'v'))
            b = (2, s2, SYNC[y2], INIT[i2], ('x', 'y') if (y1 + y2) % 2 else ('x', 'x'))
            self.sync_assumption(a, b)
            self.check(comp(1, *a), comp(2, *b), [self.part(1, *a), self.part(2, *b)], st, case)
        elif fam == 'magnitudes':
            s1, s2, y1, y2, i1, i2, (k1, k2) = case
            a = (2, s1, SYNC[y1], INIT[i1], ('u', 'v'))
            b = (2, s2, SYNC[y2], INIT[i2], ('x', 'y'))
            self.check(comp(k1, *a), comp(k2, *b), [self.part(k1, *a), self.part(k2, *b)], st, case)
        elif fam == 'three':
            x, s, i, (n, y), t, j, f = case
            a = (3, x, s, i, ('u', 'v', 'u') if f % 2 else ('u', 'v', 'w'))
            b = (n, y, SYNC[t] if n == 2 else (((0, 'a', 1), (1, 'b', 2)), ((2, 'a', 1),), ((2, 'b', 2), (0, 'a', 0)), ())[t % 4], INIT[j] if n == 2 else ((1.0, 0.0, 0.0), (0.0, 0.5, 0.5), (0.0, 0.0, 1.0))[j], ('x', 'y', 'z')[:n])
            c1, c2 = comp(1, *a, first=bool(f & 1)), comp(2, *b, first=bool(f & 2))
            self.check(c1, c2, [self.part(1, *a), self.part(2, *b)], st, case)
        elif fam == 'names':
            x, y = case
            a = (2, ((0, 1), (1, 0)), ((0, x, 1), (1, y, 0), (1, x, 1)), INIT[1], ('u', 'v'))
            b = (2, ((1, 0),), ((1, y, 0), (0, x, 1), (0, y, 0)), INIT[0], ('x', 'y'))
            self.check(comp(1, *a), comp(2, *b), [self.part(1, *a), self.part(2, *b)], st, case, True)
        elif fam == 'wide':
            n, m = case
            a, b = ((k, ((0, 0),), tuple((i, 'a', j) for i in range(k) for j in range(k)), tuple([1.0] + [0.0] * (k - 1)), tuple('%s%d' % (x, i) for i in range(k))) for k, x in ((n, 'u'), (m, 'x')))
            self.check(comp(1, *a), comp(2, *b), [self.part(1, *a), self.part(2, *b)], st, case)
        elif fam == 'scale':
            n, m, loops = case
            ring = lambda k: tuple((i, (i + 1) % k) for i in range(k)) + (tuple((i, i) for i in range(k)) if loops else ())
            full = lambda k: tuple((i, j) for i in range(k) for j in range(k)) if k > 16 else ring(k)
            a = (n, full(n), ((0, 'a', n - 1),), tuple([1.0] + [0.0] * (n - 1)), tuple('u%d' % i for i in range(n)))
            b = (m, full(m), ((m - 1, 'a', 0),), tuple([0.5, 0.5] + [0.0] * (m - 2)), tuple('x%d' % i for i in range(m)))
            self.check(comp(1, *a), comp(2, *b), [self.part(1, *a), self.part(2, *b)], st, case)
        elif fam == 'create':
            i, j, v = case
            st_ = [tuple(p for p, b in zip(POS2, m) if b) for m in itertools.product((0, 1), repeat=4)]
            a = (2, st_[i] + ((0, 1),) if (0, 1) not in st_[i] else st_[i], SYNC[1 + v], INIT[0], ('u', 'v'))
            b = (2, st_[j] + ((1, 0),) if (1, 0) not in st_[j] else st_[j], SYNC[2], INIT[v], ('x', 'y'))
            P = [self.part(1, *a), self.part(2, *b)]
            m1 = ja.createCTMC([(x, y, r) for (x, y), r in P[0][1].items()], ['u', 'v'], 0, 'c1', P[0][2])
            m2 = ja.createCTMC([(x, y, r) for (x, y), r in P[1][1].items()], ['x', 'y'], list(INIT[v]), 'c2', P[1][2])
            self.check(m1, m2, P, st, case, True)
        else:
            # the same components composed several times, and with themselves
            i, y, v = case
            st_ = [tuple(p for p, b in zip(POS2, m) if b) for m in itertools.product((0, 1), repeat=4)]
            a = (2, st_[i], SYNC[y], INIT[v], ('u', 'v'))
            b = (2, ((0, 1), (1, 0)), SYNC[y], INIT[0], ('x', 'y'))
            m1, m2 = comp(1, *a), comp(2, *b)
            P1, P2 = self.part(1, *a), self.part(2, *b)
            x = self.check(m1, m2, [P1, P2], st, case)
            x.instantiate(list(x.parameter_values)[:1], [0.7])
            self.check(m1, m2, [P1, P2], st, case)
            self.check(m2, m1, [P2, P1], st, case)
            self.check(m1, m1, [P1, P1], st, case)

    def sync_assumption(self, a, b):
        pass


CHECK = C22()
