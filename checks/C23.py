import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo
from mc.iso import isomorphic
from checks.C22 import reference

R01, R10, R00, R11 = ('p', '2*q'), ('q', '1.5'), (None, 'p'), (None, '0.5')
STRUCT = list(itertools.product(R01, R10, R00, R11))
# 16..: coefficients and constants of very different magnitudes
STRUCT += list(itertools.product(('1.0e-9*p', '3.0e7*q'), ('4.5e-12', 'q', '2.0e-6*p*q'), (None, '2.5e-10'), (None, '1.0e6')))
# 40..: structures with missing transitions (unreachable and absorbing states)
STRUCT += list(itertools.product((None, 'p'), (None, 'q', '1.5'), (None, '2*q'), (None, 'p*q')))
SYNC = [(), ((0, 'a', 1, 2.0),), ((0, 'a', 1, 1.5), (1, 'b', 0, 3.0)), ((0, 'a', 1, 2.0), (1, 'a', 0, 0.5)), ((1, 'b', 1, 0.25), (0, 'c', 0, 4.0)), ((0, 'a', 1, 3e-9),), ((0, 'a', 1, 2e5), (1, 'a', 0, 1e-7))]
SYM = [((0, 'a', 1, 'p'),), ((0, 'a', 1, 'q'), (1, 'b', 0, 3.0)), ((1, 'a', 0, 'p*q'),)]
INIT = [0, [0.25, 0.75], [0.0, 1.0], 1, [1e-7, 1 - 1e-7]]
ASSIGN = [{'p': 0.7310585, 'q0': 1.2345678, 'q1': 3.1415926, 'q2': 2.2360679, 'q3': 0.57721}, {'p': 5.4365636, 'q0': 0.1432101, 'q1': 0.9159655, 'q2': 1.6449341, 'q3': 4.2}]
LABS = [('u', 'v'), ('x', 'y'), ('s', 't'), ('k', 'l')]


def make(k, d):
    """component k: d = (struct index, sync, init index, values index, labels kind)"""
    ja = api()
    s, y, i, v, lk = d
    q = 'q%d' % k
    r = dict(zip(((0, 1), (1, 0), (0, 0), (1, 1)), [x and x.replace('q', q) for x in STRUCT[s]]))
    tr = [(a, b, x) for (a, b), x in r.items() if x]
    syn = [(a, x, b, w.replace('q', q) if isinstance(w, str) else w) for a, x, b, w in y]
    labs = list(LABS[k]) if lk == 0 else [LABS[k][0]] * 2
    vals = ({}, {'p': 0.5}, {q: 2.5 + k}, {'p': 0.5, q: 2.5 + k})[v]
    m = ja.createPCTMC(list(tr), list(labs), ['p', q] if (s + k) % 2 else [q, 'p'], INIT[i] if isinstance(INIT[i], int) else list(INIT[i]), dict(vals), list(syn), 'c%d' % k)
    return m, part(k, labs, tr, syn, i), vals


def part(k, labs, tr, syn, i):
    import sympy
    ini = [1.0 if j == INIT[i] else 0.0 for j in range(2)] if isinstance(INIT[i], int) else INIT[i]
    return (labs, {(a, b): sympy.sympify(x) for a, b, x in tr}, [(a, x, b, sympy.sympify(w)) for a, x, b, w in syn], ini)


class C23(Check):
    id = 'C23'
    rule = ('all pairs and (quick tier: thinned deterministically) triples of two-state PCTMCs over 16 symbolic rate structures (shared parameter, own parameter, constants, self loops), 5 numeric + 3 symbolic sets of synchronised '
            'transitions (actions owned by all, some or one component), coefficients from 1e-12 to 1e7, 4 initial distributions and 4 partial instantiations; four components; nested compositions; action names that look alike; repeated compositions of the same objects; wider components, sparse ones (pairs and triples), components whose initial distribution chooses between parametric states. '
            'Each composition is compared with the symbolic reachable product computed independently (up to label-preserving isomorphism; rates compared at two generic assignments), with recorded positions, values and untouched components. Non-trivial: distinct products.')
    assumptions = ['exactly one initial state per component, no transition back to it', 'components agree on the values of shared parameters', 'an action owned by a single component never fires']

    def families(self, tier):
        T = tier == 'thorough'
        A = [(s, y) for s in range(16) for y in range(5)]
        if T:
            yield 'pairs', (((s1, y1, i, v, 0), (s2, y2, j, w, l)) for (s1, y1), (s2, y2) in itertools.product(A, A) for i, v, j, w, l in ((0, 0, 0, 0, 0), (1, 1, 2, 2, 1), (3, 3, 1, 0, 0)))
        else:
            yield 'pairs', (((s1, y1, i, v, 0), (s2, y2, j, w, l)) for n, ((s1, y1), (s2, y2)) in enumerate(itertools.product(A, A)) if keep(n, 4) for i, v, j, w, l in (((0, 0, 0, 0, 0), (1, 1, 2, 2, 1), (3, 3, 1, 0, 0), (2, 2, 1, 1, 0))[n % 4],))
        yield 'config', (((s, y, i, v, l), (15 - s, 3, j, w, 0)) for s in (0, 6, 15) for y in (1, 3) for i in range(4) for v in range(4) for l in (0, 1) for j in range(4) for w in range(4) if T or (i + v + j + w + l) % 4 == 0)
        S = [0, 5, 10, 15] if T else [3, 12]
        yield 'triples', (((s1, y1, i, v, 0), (s2, y2, 0, 0, 0), (s3, y3, j, w, 1)) for n, (s1, y1, s2, y2, s3, y3) in enumerate(itertools.product(S, range(5), S, range(5), S, range(5))) if T or keep(n, 3)
                          for i, v, j, w in (((0, 0, 0, 0), (1, 1, 0, 2), (0, 2, 1, 1), (2, 3, 3, 0))[n % 4],))
        yield 'magnitudes', (((s1, y1, i, v, 0), (s2, y2, j, w, 0)) for n, (s1, s2, y1, y2, (i, j, v, w)) in enumerate(itertools.product(range(16, 40), range(16, 40), (0, 1, 5, 6), (5, 6), ((0, 4, 0, 0), (4, 0, 3, 3)))) if keep(n, 4 if T else 40))
        sy = ((1, 1), (3, 1), (2, 3), (1, 4), (4, 2), (3, 3))
        yield 'sparse', (((s1, y1, i, v, 0), (s2, y2, j, w, l)) for n, (s1, s2, (y1, y2), (i, j, v, w, l)) in enumerate(itertools.product(range(40, 64), range(40, 64), sy, ((0, 0, 0, 0, 0), (3, 1, 3, 3, 1), (2, 3, 1, 2, 0)))) if keep(n, 3 if T else 24))
        yield 'sparse3', (((s1, y1, i, 0, 0), (s2, y2, 3, 0, 0), (s3, y3, 0, 3, 1)) for n, (s1, s2, s3, (y1, y2), y3, i) in enumerate(itertools.product((41, 47, 52, 55, 60), (40, 45, 53, 58), (43, 44, 54, 63), sy, (0, 1, 2), (0, 3))) if keep(n, 3 if T else 24))
        yield 'initparam', ((a, b, y, z, l) for a in range(4) for b in range(4) for (y, z) in ((0, 0), (1, 1), (2, 3)) for l in (0, 1))
        yield 'symsync', ((a, b, c) for a in range(3) for b in range(3) for c in (None, 0, 1, 2))
        yield 'four', [(a, b) for a in range(5) for b in range(5)] if T else [(1, 1), (2, 3), (4, 2)]
        # actions synchronise when their names are the same, not when they look alike
        yield 'names', ((x, y, k) for x, y in itertools.permutations(('a', 'a ', 'A', 'aa', 'a_', '', '1', '01', 'b'), 2) for k in (2, 3))
        yield 'nested', itertools.product((0, 7, 9, 14), (3, 15), (0, 6), (0, 1), (0, 1))
        yield 'repeat', itertools.product((3, 5, 12), range(5), range(5), (0, 1))
        yield 'wide', [(n, m) for n, m in ((3, 3), (2, 8), (8, 2), (7, 7), (10, 10))] if T else [(3, 3), (2, 8), (8, 2), (6, 6)]
        yield 'degenerate', [0, 1]

    def compose(self, ms, parts, vals, st, what, extra=()):
        import sympy
        ja = api()
        before = [zoo.snap(m) for m in ms]
        c = ja.synchronousCompositionPCTMCs(list(ms), 'comp')
        st.step()
        need([zoo.snap(m) for m in ms] == before, lambda: 'a component was modified: %s' % (what,))
        labels, M = reference(parts)
        n = len(labels)
        need(c.nb_states == n, lambda: '%d states (%s) expected %d (%s): %s' % (c.nb_states, c.labelling, n, labels, what))
        M = [[sympy.sympify(x) for x in r] for r in M]
        ref = [[tuple(float(x.subs(a)) for a in ASSIGN) if x != 0 else (0.0, 0.0) for x in r] for r in M]
        def at(i, j):
            e = c.transitionExpression(i, j)
            if e == 0:
                return (0.0, 0.0)
            return tuple(c.evaluateTransition(i, j, a) for a in ASSIGN)
        got = [[at(i, j) for j in range(n)] for i in range(n)]
        eq = lambda x, y: isinstance(x[0], float) and isinstance(x[1], float) and close(x[0], y[0], 1e-9, 0.0) and close(x[1], y[1], 1e-9, 0.0)
        perm = isomorphic(c.labelling, got, labels, ref, eq)
        need(perm is not None, lambda: 'wrong product for %s:\n%s %s\nexpected\n%s %s' % (what, c.labelling, [[str(c.transitionExpression(i, j)) for j in range(n)] for i in range(n)], labels, M))
        need(c.name == 'comp' and sorted(c.getAlphabet()) == sorted(set(labels)), 'name or alphabet')
        need([float(x) for x in c.initial_state] == [1.0 if l == 'init' else 0.0 for l in c.labelling], lambda: 'initial state %s' % c.initial_state)
        # parameters
        names = {p for m in ms for p in m.parameter_str}
        need(sorted(c.parameter_str) == sorted(names), lambda: 'parameters %s expected %s: %s' % (c.parameter_str, sorted(names), what))
        need(c.nb_parameters == len(names) if hasattr(c, 'nb_parameters') else True, 'number of parameters')
        union = {}
        for v in vals:
            union.update(v)
        for p in names:
            x = c.parameterValue(p)
            need((x == union[p]) if p in union else x != x, lambda: 'value of %s is %s, components give %s: %s' % (p, x, union, what))
            need(c.isInstantiated(param=p) == (p in union), 'isInstantiated(%s)' % p)
            pos = sorted(tuple(int(y) for y in x) for x in c.parameterIndexes(p))
            exp = sorted((i, j) for i in range(n) for j in range(n) if any(y.name == p for y in M[perm[i]][perm[j]].free_symbols))
            need(pos == exp, lambda: 'parameter %s declared at %s but used at %s: %s' % (p, pos, exp, what))
        need(c.isInstantiated() == (names <= set(union)), 'isInstantiated')
        st.outcome((labels, M, union))
        return c

    def run(self, fam, case, st):
        ja = api()
        if fam in ('pairs', 'config', 'triples', 'magnitudes', 'sparse', 'sparse3'):
            cs = [make(k, (d[0], SYNC[d[1]]) + tuple(d[2:])) for k, d in enumerate(case)]
            self.compose([c[0] for c in cs], [c[1] for c in cs], [c[2] for c in cs], st, case)
        elif fam == 'initparam':
            # the initial choice is itself parametric
            import sympy
            from checks.C04 import mk_pctmc
            a, b, y, z, last = case
            rows = (('0.25', '0.75'), ('p', '1-p'), ('q%d/(q%d+p)', 'p/(q%d+p)'), ('0', 'p*q%d'))
            ms, parts, vals = [], [], []
            for k, (r, sy) in enumerate(((rows[a], y), (rows[b], z))):
                q = 'q%d' % k
                r = [x.replace('q%d', q) for x in r]
                labs = list(LABS[k])
                R = {(0, 1): 'p' if k else q, (1, 0): '2*' + q, (1, 1): 'p*' + q}
                ex = [[R.get((i, j), '0') for j in range(2)] for i in range(2)]
                if last:
                    m = mk_pctmc(labs + ['init'], [e + ['0'] for e in ex] + [r + ['0']], ('p', q), {'p': 0.25} if k else {q: 1.5}, 'c%d' % k)
                    off = 0
                else:
                    m = mk_pctmc(['init'] + labs, [['0'] + r] + [['0'] + e for e in ex], ('p', q), {'p': 0.25} if k else {q: 1.5}, 'c%d' % k)
                    off = 1
                m.synchronous_transitions = [(i + off, x, j + off, w) for i, x, j, w in SYNC[sy]]
                ms.append(m)
                parts.append((labs, {t: sympy.sympify(x) for t, x in R.items()}, [(i, x, j, sympy.sympify(w)) for i, x, j, w in SYNC[sy]], [sympy.sympify(x) for x in r]))
                vals.append({'p': 0.25} if k else {q: 1.5})
            self.compose(ms, parts, vals, st, case)
        elif fam == 'symsync':
            a, b, c = case
            cs = [make(0, (3, SYM[a], 0, 1, 0)), make(1, (6, SYM[b], 1, 0, 0))] + ([make(2, (12, SYM[c], 0, 2, 0))] if c is not None else [])
            self.compose([c[0] for c in cs], [c[1] for c in cs], [c[2] for c in cs], st, case)
        elif fam == 'four':
            cs = [make(0, (3, SYNC[case[0]], 0, 0, 0)), make(1, (4, SYNC[case[1]], 0, 1, 0)), make(2, (8, SYNC[case[0]], 1, 0, 0)), make(3, (0, SYNC[2], 0, 2, 0))]
            self.compose([c[0] for c in cs], [c[1] for c in cs], [c[2] for c in cs], st, case)
        elif fam == 'names':
            x, y, k = case
            cs = [make(j, (12 if j else 3, ((0, x, 1, 2.0), (1, y, 0, 3.0), (1, x, 1, 0.5)) if j % 2 == 0 else ((1, y, 0, 1.5), (0, x, 1, 0.25), (0, y, 0, 4.0)), (1, 0, 3)[j], 1, 0)) for j in range(k)]
            self.compose([c[0] for c in cs], [c[1] for c in cs], [c[2] for c in cs], st, case)
        elif fam == 'nested':
            a, b, d, i, left = case
            cs = [make(0, (a, (), i, 1, 0)), make(1, (b, (), 0, 2, 0)), make(2, (d, (), 1, 0, 0))]
            if left:
                x = ja.synchronousCompositionPCTMCs([cs[0][0], cs[1][0]], 'x')
                ms = [x, cs[2][0]]
            else:
                x = ja.synchronousCompositionPCTMCs([cs[1][0], cs[2][0]], 'x')
                ms = [cs[0][0], x]
            self.compose(ms, [c[1] for c in cs], [c[2] for c in cs], st, case)
        elif fam == 'repeat':
            s, y, z, kind = case
            a, b = make(0, (s, SYNC[y], 0, 1, 0)), make(1, (15 - s, SYNC[z], 1, 0, 0))
            L = [a, b] if kind == 0 else [a, a]
            c1 = self.compose([c[0] for c in L], [c[1] for c in L], [c[2] for c in L], st, (case, 'first'))
            s1 = zoo.snap(c1)
            L2 = [b, a] if kind == 0 else [a, a, b]
            self.compose([c[0] for c in L2], [c[1] for c in L2], [c[2] for c in L2], st, (case, 'other order'))
            c2 = self.compose([c[0] for c in L], [c[1] for c in L], [c[2] for c in L], st, (case, 'again'))
            need(zoo.snap(c1) == s1, lambda: 'an earlier composition was changed by a later one: %s' % (case,))
            # the result is independent of its components and the components of the result
            b4 = [zoo.snap(c[0]) for c in L]
            need(c2.instantiate(['p'], [9.0]), 'instantiate refused')
            need([zoo.snap(c[0]) for c in L] == b4, lambda: 'instantiating the composition changed a component: %s' % (case,))
            s2 = zoo.snap(c2)
            need(a[0].instantiate(['p', 'q0'], [3.0, 4.0]), 'instantiate refused')
            need(zoo.snap(c2) == s2 and zoo.snap(c1) == s1, lambda: 'instantiating a component changed the composition: %s' % (case,))
        elif fam == 'wide':
            import sympy
            n, m = case
            out = []
            for k, z in ((0, n), (1, m)):
                tr = [(i, (i + 1) % z, 'p' if i % 3 == 0 else ('%s*q%d' % (1.5 + i, k) if i % 3 == 1 else 0.25 * (i + 1))) for i in range(z)] + [(i, i, 'q%d' % k) for i in range(0, z, 2)]
                syn = [(i, 'a', (i + 2) % z, 1.0 + i) for i in range(z)]
                labs = ['%s%d' % ('ux'[k], i) for i in range(z)]
                mod = ja.createPCTMC([tuple(t) for t in tr], list(labs), ['p', 'q%d' % k], 0, {}, list(syn), 'c')
                out.append((mod, (labs, {(a, b): sympy.sympify(x) for a, b, x in tr}, [(a, x, b, sympy.sympify(w)) for a, x, b, w in syn], [1.0] + [0.0] * (z - 1)), {}))
            self.compose([c[0] for c in out], [c[1] for c in out], [c[2] for c in out], st, case)
        else:
            if case == 0:
                try:
                    ja.synchronousCompositionPCTMCs([])
                except ValueError:
                    st.step()
                    st.outcome('refused')
                    return
                raise Violation('the composition of nothing is accepted')
            m, p, v = make(0, (3, SYNC[1], 0, 1, 0))
            b = zoo.snap(m)
            c = ja.synchronousCompositionPCTMCs([m])
            st.step()
            need(zoo.snap(m) == b and c.nb_states == m.nb_states and c.labelling == m.labelling and [[c.transitionExpression(i, j) for j in range(3)] for i in range(3)] == [[m.transitionExpression(i, j) for j in range(3)] for i in range(3)], 'the composition of one model is that model')
            st.outcome('one')


CHECK = C23()
