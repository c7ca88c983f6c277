import itertools, os
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo
from mc.iso import isomorphic

THIRD = 1 / 3
R3 = [(0.0, 1.0, 0.0), (1.0, 0.0, 0.0), (0.5, 0.5, 0.0), (0.25, 0.25, 0.5), (THIRD, 1 - THIRD, 0.0), (0.1, 0.2, 0.7), (1e-09, 1 - 1e-09, 0.0), (3.34567e-12, 1 - 3.34567e-12, 0.0), (0.0, 0.0, 0.0)]
Q3 = [(0.0, 2.0, 0.0), (0.5, 0.0, 0.0), (1.5, 3.0, 0.0), (0.25, 0.25, 0.5), (THIRD, 12345.678901234567, 0.0), (1e-05, 0.1 + 0.2, 123456789012345680.0), (3.34567e-12, 7.1e-16, 1e-30), (0.0, 0.0, 0.0)]
I3 = [(1.0, 0.0, 0.0), (0.25, 0.75, 0.0)]
J3 = [(1.0, 0.0, 0.0), (0.25, 3.0, 0.0)]
NAMES = ['m', 'my model', '', 's', '1a', 'é', 'mdp', 'a-b', 'init', "it's", 'module', 'x' * 60, 'MC (2)', 'true', 'endmodule', 'P', 'max']
LABS = ['a', 'b', 's', 'm', 'empty', 'x' * 30, '_', 'A1_b', 'c_red_p_red', 'module_', 'Init']
ACTS = ['l', 'r', 's', 'm', 'a0', 'a1', 'a', 'x_1', 'Z', 'go_to']
PARS = ['p', 's', 'beta', 'gamma', 'E', 'I', 'N', 'Q', 'pi', 's_', 'x1', 'a']
PC = ['0', 'p', '2*p + q', 'p*q', 'p**2', 'p/(q + 1)', '1/3', '0.30000000000000004', '1.5', '3', '12345678.901234567*q', '0.1*q**3', 'p - q/8', 'p**(-2)', '1.0e-7*p', '1e22', 'p*(q + 1)**2']
VALS = [{'p': 0.5, 'q': 2.0}, {'p': 3, 'q': 1}, {'p': 0.1 + 0.2, 'q': 0.7}, {'p': 1e-09, 'q': 12345.678}]


def quiet():
    ja = api()
    from jajapy.with_stormpy import model_converter as mc
    mc.os.system = lambda *a: 0  # only clears the terminal
    return ja


def view(m):
    """labels, initial index, {action: matrix}"""
    np = np_()
    t = type(m).__name__
    n = m.nb_states
    lab = [m.getLabel(s) if hasattr(m, 'getLabel') else m.labelling[s] for s in range(n)]
    init = [s for s in range(n) if m.pi(s) == 1.0]
    need(len(init) == 1, lambda: 'no single initial state: %s' % [m.pi(s) for s in range(n)])
    if t == 'MDP':
        M = {a: [[float(m.matrix[s, i, d]) for d in range(n)] for s in range(n)] for i, a in enumerate(m.actions)}
        need(len(M) == len(m.actions) == m.matrix.shape[1], lambda: 'actions %s' % (m.actions,))
    elif t == 'PCTMC':
        M = {'': [[float(m.transitionValue(s, d)) for d in range(n)] for s in range(n)]}
    else:
        M = {'': [[float(m.matrix[s, d]) for d in range(n)] for s in range(n)]}
    return lab, init[0], M


def reach(v):
    lab, i, M = v
    seen, todo = {i}, [i]
    while todo:
        s = todo.pop()
        for m in M.values():
            for d, x in enumerate(m[s]):
                if x != 0 and d not in seen:
                    seen.add(d)
                    todo.append(d)
    k = sorted(seen)
    return [lab[s] for s in k], k.index(i), {a: [[m[s][d] for d in k] for s in k] for a, m in M.items()}


def used(M):
    return {a: m for a, m in M.items() if any(any(r) for r in m)}


def equal(v, w, tol, what):
    """same numbering"""
    need(v[0] == w[0], lambda: '%s: labels %s became %s' % (what, v[0], w[0]))
    need(v[1] == w[1], lambda: '%s: initial state %s became %s' % (what, v[1], w[1]))
    need(sorted(v[2]) == sorted(w[2]), lambda: '%s: actions %s became %s' % (what, sorted(v[2]), sorted(w[2])))
    for a in v[2]:
        need(all(close(x, y, tol, 0.0) for r, q in zip(v[2][a], w[2][a]) for x, y in zip(r, q)) and len(v[2][a]) == len(w[2][a]),
             lambda: '%s: transitions (action %r) %s became %s' % (what, a, v[2][a], w[2][a]))


def equal_iso(v, w, what):
    """same reachable labelled transition structure"""
    v, w = reach(v), reach(w)
    A, B = used(v[2]), used(w[2])
    need(sorted(A) == sorted(B), lambda: '%s: actions %s became %s' % (what, sorted(A), sorted(B)))
    ka = sorted(A)

    def pack(x, M):
        n = len(x[0])
        return [l + ('*' if i == x[1] else '') for i, l in enumerate(x[0])], [[[M[a][s][d] for a in ka] for d in range(n)] for s in range(n)]
    lv, Mv = pack(v, A)
    lw, Mw = pack(w, B)
    need(isomorphic(lv, Mv, lw, Mw, lambda x, y: all(close(i, j, 1e-11, 0.0) for i, j in zip(x, y))) is not None,
         lambda: '%s: the model came back different\n%s %s\n%s %s' % (what, lv, Mv, lw, Mw))


def storm_view(s):
    """read a Storm model without jajapy"""
    n = s.nr_states
    lab = [set(s.labeling.get_labels_of_state(i)) for i in range(n)]
    kind = type(s).__name__
    M = {}
    for st_ in s.states:
        for a in st_.actions:
            tr = [(t.column, t.value()) for t in a.transitions]
            if kind == 'SparseMdp':
                if not tr:
                    need(len(st_.actions) == 1, lambda: 'a choice without transition in state %d' % st_.id)
                    continue
                l = s.choice_labeling.get_labels_of_choice(s.get_choice_index(st_.id, a.id))
                need(len(l) == 1, lambda: 'choice of state %d labelled %s' % (st_.id, l))
                key = list(l)[0]
            else:
                key = ''
            m = M.setdefault(key, [[0.0] * n for _ in range(n)])
            for c, x in tr:
                need(m[st_.id][c] == 0.0, lambda: 'two choices %r in state %d' % (key, st_.id))
                m[st_.id][c] = x
    return lab, [i for i in s.initial_states], M


def check_storm(m, s, what):
    """the Storm model denotes the jajapy model"""
    lab, init, M = view(m)
    sl, si, sM = storm_view(s)
    kinds = dict(MC='SparseDtmc', CTMC='SparseCtmc', PCTMC='SparseCtmc', MDP='SparseMdp')
    need(type(s).__name__ == kinds[type(m).__name__], lambda: '%s: %s' % (what, type(s)))
    need(sl == [{l} for l in lab], lambda: '%s: labels %s -> %s' % (what, lab, sl))
    need(si == [init], lambda: '%s: initial states %s' % (what, si))
    A, B = used(M), used(sM)
    need(sorted(A) == sorted(B), lambda: '%s: actions %s -> %s' % (what, sorted(A), sorted(B)))
    for a in A:
        need(all(close(x, y, 1e-12, 0.0) for r, q in zip(A[a], B[a]) for x, y in zip(r, q)), lambda: '%s: transitions (%r) %s -> %s' % (what, a, A[a], B[a]))
    if kinds[type(m).__name__] == 'SparseCtmc':
        e = [float(x) for x in s.exit_rates]
        want = [sum(r) for r in M['']]
        need(all(close(x, y, 1e-12, 0.0) for x, y in zip(e, want)) and len(e) == len(want), lambda: '%s: exit rates %s should be %s' % (what, e, want))


def mk(kind, d):
    ja, np = api(), np_()
    if kind == 'mc':
        labs, rows, name = d
        return ja.MC(np.array(rows), list(labs), name)
    if kind == 'ctmc':
        labs, rows, name = d
        return ja.CTMC(np.array(rows), list(labs), name)
    if kind == 'mdp':
        labs, acts, rows, name = d
        return ja.MDP(np.array(rows), list(labs), list(acts), name)
    labs, exprs, pars, vals, name = d
    import sympy
    te = [sympy.sympify('0.0')]
    n = len(labs)
    mat = np.zeros((n, n), dtype='uint16')
    pi = [[] for _ in pars]
    loc = {p: sympy.Symbol(p) for p in pars}
    for s in range(n):
        for t in range(n):
            if exprs[s][t] != '0':
                e = sympy.sympify(exprs[s][t], loc)
                te.append(e)
                mat[s, t] = len(te) - 1
                for p in e.free_symbols:
                    pi[list(pars).index(p.name)].append([s, t])
    return ja.PCTMC(mat, list(labs), te, dict(vals), pi, list(pars), name)


def inst(m, vals):
    v = [p for p in m.parameter_str if not m.isInstantiated(param=p)]
    if v:
        m.instantiate(v, [vals[p] for p in v])
    return m


# Prism programs written without jajapy: (text, expected (labels, init, {action: matrix}) after conversion)
def built(case):
    """case = (kind, initial label?, second label?, self loop, deadlock, initial variable value)"""
    kind, il, two, loop, dead, start, named = case
    rate = kind != 'dtmc'
    rows = {0: {1: 2.0 if kind == 'ctmc' else 0.25, 2: 0.5 if kind == 'ctmc' else 0.75}, 1: {1: 1.0} if loop else {0: 1.0}, 2: {} if dead else {0: 3.0 if kind == 'ctmc' else 1.0}}
    t = kind + '\nmodule m\n v: [0..2] init %d;\n' % start
    acts = {}
    for s, r in rows.items():
        if not r:
            continue
        if kind == 'ctmc':
            for d, x in r.items():
                t += " [] v=%d -> %r:(v'=%d);\n" % (s, x, d)
        else:
            t += " [%s] v=%d -> " % ('go' if named and kind == 'mdp' else '', s) + ' + '.join("%r:(v'=%d)" % (x, d) for d, x in r.items()) + ';\n'
    extra = {}
    if kind == 'mdp':
        # a second choice in state 2 (before) and 0
        t += " [%s] v=0 -> 1:(v'=0);\n" % ('stay' if named else '')
        extra = {0: {0: 1.0}}
        if not dead:
            t += " [%s] v=2 -> 1:(v'=1);\n" % ('back' if named else '')
    t += 'endmodule\nlabel "a" = v=1%s;\nlabel "b" = v=2;\n' % (' | v=0' if il else '')
    if two:
        t += 'label "c" = v=1%s;\n' % (' | v=0' if il else '')
    lab = ['a_c' if two and il else 'a' if il else None, 'a_c' if two else 'a', 'b']
    M = {}

    def put(key, s, r):
        m = M.setdefault(key, [[0.0] * 3 for _ in range(3)])
        for d, x in r.items():
            m[s][d] = x
    for s, r in rows.items():
        if kind == 'mdp':
            put('go' if named else 'a0', s, r)
        else:
            put('', s, r)
    if kind == 'mdp':
        put('stay' if named else 'a1', 0, {0: 1.0})
        if not dead:
            put('back' if named else 'a1', 2, {1: 1.0})
    if dead and kind == 'dtmc':
        M[''][2][2] = 1.0  # Prism: a deadlock of a DTMC is a self loop
    M = {a: m for a, m in M.items() if a in used(reach((lab, start, M))[2])}  # actions of the reachable part
    if lab[start] is None:
        lab[start] = 'init'
        for s in range(3):
            if lab[s] is None:
                lab[s] = 'empty'
        return t, (lab, start, M)
    for s in range(3):
        if lab[s] is None:
            lab[s] = 'empty'
    lab = lab + ['init']
    for a in M:
        M[a] = [r + [0.0] for r in M[a]] + [[1.0 if d == start else 0.0 for d in range(4)]]
    return t, (lab, 3, M)


PB = ['p', '2*p+q', 'p*q', 'p*p*q', 'p/(q+1)', '0.75', '3', 'q/4', '(p+q)*(p+q)']


def builtp(case):
    """parametric programs: (text, function of the valuation -> expected (labels, init, matrices), free parameters)"""
    e, il, two, dead, start = case
    rows = {0: {1: e[0], 2: e[1]}, 1: {0: e[2]}, 2: {} if dead else {0: e[0], 2: e[2]}}
    t = 'ctmc\nconst double p;\nconst double q;\nmodule m\n v: [0..2] init %d;\n' % start
    for s, r in rows.items():
        for d, x in r.items():
            t += " [] v=%d -> %s:(v'=%d);\n" % (s, x, d)
    t += 'endmodule\nlabel "a" = v=1%s;\nlabel "b" = v=2;\n' % (' | v=0' if il else '')
    if two:
        t += 'label "c" = v=1%s;\n' % (' | v=0' if il else '')
    lab = ['a_c' if two and il else 'a' if il else 'empty', 'a_c' if two else 'a', 'b']

    def want(v):
        M = [[float(eval(rows[s][d], {}, dict(v))) if d in rows[s] else 0.0 for d in range(3)] for s in range(3)]
        if lab[start] == 'empty':
            return lab[:start] + ['init'] + lab[start + 1:], start, {'': M}
        return lab + ['init'], 3, {'': [r + [0.0] for r in M] + [[1.0 if d == start else 0.0 for d in range(4)]]}
    seen, todo = {start}, [start]
    while todo:
        for d in rows[todo.pop()]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    free = {x for s in seen for r in rows[s].values() for x in 'pq' if x in r}
    return t, want, free


def indexes(b):
    for p in b.parameter_str:
        for s in range(b.nb_states):
            for t in range(b.nb_states):
                inv = p in b.involvedParameters(s, t)
                need(inv == ([s, t] in b.parameterIndexes(p)), lambda: 'parameterIndexes(%s) of the loaded model' % p)


class C15(Check):
    id = 'C15'
    rule = ('all 3-state MCs/CTMCs/MDPs (two core states + init) with rows from palettes of awkward rows (thirds, tiny, huge, absorbing, self loops, back to init), all labellings, all positions of the initial state, all patterns of '
            'available actions for 2 actions; all pairs of expressions of a menu for parametric CTMCs x total/partial/no instantiation; palettes of model, label, action and parameter names: conversion to Storm (the Storm model is read '
            'directly and compared), back from Storm (same numbering), Prism file and back (isomorphism of the reachable part); Prism programs (also parametric ones) built by Storm without jajapy and with up to 1600 (thorough: 66564) distinct rates; learners called with the default Storm output and a Prism '
            'output file. Non-trivial: distinct models.')
    assumptions = ['labels, actions and parameters are Prism identifiers other than the reserved words init and deadlock', 'one initial state', 'agreement to 1e-11 relative (Storm rounds decimal constants)',
                   'a state without transition in a DTMC file is a self loop (Prism semantics)', 'parametric rates are rational functions']

    case_timeout = 400

    def many(self, n, st):
        ja, np = api(), np_()
        f = os.path.join(self.scratch, 'many%d.sm' % os.getpid())
        rate = lambda i, j: 'p' if i == j == n - 1 else repr(1.0 + i + j / 1000.0)
        L = ['ctmc', 'const double p;', 'module m', 's : [0..%d] init 0;' % (n - 1)]
        L += ['[] s=%d -> %s;' % (i, ' + '.join("%s : (s'=%d)" % (rate(i, j), j) for j in range(n))) for i in range(n)]
        L += ['endmodule'] + ['label "l%d" = s=%d;' % (i, i) for i in range(n)]
        with open(f, 'w') as g:
            g.write('\n'.join(L))
        m = ja.loadPrism(f)
        at = [m.labelling.index('l%d' % i) for i in range(n)]
        m.instantiate(['p'], [0.125])
        for i in range(n):
            for j in range(n):
                e = 0.125 if i == j == n - 1 else 1.0 + i + j / 1000.0
                got = float(m.transitionExpression(at[i], at[j])) if (i, j) != (n - 1, n - 1) else float(m.transitionValue(at[i], at[j]))
                need(close(got, e), lambda: 'rate from l%d to l%d is %r, the program says %r' % (i, j, got, e))
        st.step(n * n)
        st.outcome(('many', n))

    def families(self, tier):
        T = tier == 'thorough'
        L2 = (('a', 'b'), ('a', 'a'), ('b', 'a'))
        perms = list(itertools.permutations(range(3)))

        def three(R, I, k):
            i = 0
            for r0, r1 in itertools.product(R, repeat=2):
                for ri in I:
                    for l in L2:
                        for p in perms:
                            i += 1
                            if keep(i, k):
                                yield l + ('init',), (r0, r1, ri), p
        yield 'mc', three(R3, I3, 1 if T else 3)
        yield 'ctmc', three(Q3, J3, 1 if T else 2)

        def mdps(k):
            i = 0
            for c in itertools.product(R3[1::2], repeat=4):
                for ri in ((I3[0], I3[0]), (I3[1], R3[8])):
                    for l in L2[:2]:
                        for acts in (('l', 'r'), ('r', 'l'), ('a1', 'a0')):
                            for p in perms:
                                i += 1
                                if keep(i, k):
                                    yield l + ('init',), acts, ((c[0], c[1]), (c[2], c[3]), ri), p
        yield 'mdp', mdps(2 if T else 12)

        def pcs(k):
            i = 0
            for e in itertools.product(PC, repeat=3):
                for v in range(len(VALS)):
                    for part in (0, 1, 2):
                        i += 1
                        if keep(i, k):
                            yield e, v, part
        yield 'pctmc', pcs(8 if T else 90)
        yield 'names', (('name', k, n) for k in ('mc', 'ctmc', 'mdp', 'pctmc') for n in NAMES)
        yield 'names', (('label', k, l) for k in ('mc', 'ctmc', 'mdp', 'pctmc') for l in itertools.permutations(LABS, 2))
        yield 'names', (('action', 'mdp', a) for a in itertools.permutations(ACTS, 2))
        yield 'names', (('param', 'pctmc', a) for a in itertools.permutations(PARS, 2))
        yield 'built', itertools.product(('dtmc', 'ctmc', 'mdp'), (False, True), (False, True), (False, True), (False, True), (0, 1, 2), (False, True))
        yield 'built_parametric', (x for i, x in enumerate(itertools.product(itertools.product(PB, repeat=3), (False, True), (False, True), (False, True), (0, 1, 2))) if keep(i, 1 if T else 29))
        yield 'renamed', itertools.product((('l', 'r'), ('r', 'l')), ((), ('x',), ('x', 'y'), ('l', 'r'), ('r', 'l'), ('r', 'l', 'z'), ('y', 'x')), (0, 1))
        yield 'learned', (x for x in itertools.product(range(len(LEARN)), range(4)))
        yield 'many', ((n,) for n in ((17, 40, 258) if T else (17, 40)))     # more transitions than an 8-bit, and a 16-bit, number can count
        yield 'errors', ('hmm', 'gohmm', 'int', 'none', 'pctmc')

    def permute(self, labs, rows, p, depth):
        """p[i] is the new number of state i"""
        n = len(labs)
        q = [p.index(i) for i in range(n)]
        labs = tuple(labs[i] for i in q)
        if depth == 2:
            return labs, tuple(tuple(rows[i][j] for j in q) for i in q)
        return labs, tuple(tuple(tuple(r[j] for j in q) for r in rows[i]) for i in q)

    def both(self, m, st, what, prism=True):
        ja = quiet()
        before = zoo.snap(m)
        v = view(m)
        s = ja.jajapyModeltoStormpy(m)
        check_storm(m, s, what)
        b = ja.stormpyModeltoJajapy(s)
        need(type(b).__name__ == type(m).__name__.replace('PCTMC', 'CTMC'), lambda: '%s became %s' % (type(m), type(b)))
        equal(v, view(b), 1e-12, 'Storm round trip of %s' % (what,))
        if hasattr(m, 'toStormpy'):
            check_storm(m, m.toStormpy(), what)
        st.step(3)
        if prism:
            f = self.scratch + '/m.sm'
            m.savePrism(f)
            b = ja.loadPrism(f)
            need(type(b).__name__ == type(m).__name__.replace('PCTMC', 'CTMC'), lambda: '%s became %s' % (type(m), type(b)))
            equal_iso(v, view(b), 'Prism round trip of %s' % (what,))
            st.step(2)
        need(zoo.snap(m) == before, lambda: 'exporting changed the model %s' % (what,))
        st.outcome(v)

    def run(self, fam, case, st):
        ja = quiet()
        if fam == 'many':
            return self.many(case[0], st)
        if fam in ('mc', 'ctmc'):
            labs, rows, p = case
            labs, rows = self.permute(labs, rows, p, 2)
            m = mk(fam, (labs, rows, 'm'))
            r = reach(view(m))
            dead = fam == 'mc' and any(not any(x) for x in r[2][''])
            self.both(m, st, case, not dead)
        elif fam == 'mdp':
            labs, acts, rows, p = case
            labs, rows = self.permute(labs, rows, p, 3)
            self.both(mk('mdp', (labs, acts, rows, 'm')), st, case)
        elif fam == 'pctmc':
            e, v, part = case
            d = (('a', 'b', 'init'), (('0', e[0], '0'), (e[1], e[2], '0'), ('0.5', '2', '0')), ('p', 'q'))
            vals = VALS[v]
            given = vals if part == 0 else {'p': vals['p']} if part == 1 else {}
            full = mk('pctmc', d + (vals, 'm'))
            if any(x < 0 for r in view(full)[2][''] for x in r):
                return
            m = mk('pctmc', d + (given, 'm'))
            if part == 0 or m.isInstantiated():
                self.both(m, st, case)
                return
            before = zoo.snap(m)
            f = self.scratch + '/m.sm'
            m.savePrism(f)
            need(zoo.snap(m) == before, lambda: 'exporting changed the model %s' % (case,))
            b = ja.loadPrism(f)
            free = {x for r in d[1] for c in r for x in ('p', 'q') if x in c and x not in given}
            need(type(b).__name__ == 'PCTMC' or not free, lambda: '%s became %s' % (type(m), type(b)))
            if free:
                need(sorted(b.parameter_str) == sorted(free), lambda: 'parameters %s became %s' % (sorted(free), b.parameter_str))
                indexes(b)
                for w in VALS[v:] + VALS[:v]:
                    w = dict(w, **given)
                    b.instantiate(b.parameter_str, [w[p] for p in b.parameter_str])
                    x = mk('pctmc', d + (w, 'm'))
                    if any(y < 0 for r in view(x)[2][''] for y in r):
                        continue
                    equal_iso(view(x), view(b), 'Prism round trip of %s' % (case,))
                    st.step()
            else:
                equal_iso(view(full), view(b), 'Prism round trip of %s' % (case,))
            try:
                ja.jajapyModeltoStormpy(m)
            except ValueError:
                pass
            else:
                need(m.isInstantiated(), 'a non-instantiated PCTMC was converted')
            st.step(2)
            st.outcome(case)
        elif fam == 'names':
            what, kind, n = case
            name, labs, acts, pars = 'm', ('a', 'b'), ('l', 'r'), ('p', 'q')
            if what == 'name':
                name = n
            elif what == 'label':
                labs = n
            elif what == 'action':
                acts = n
            else:
                pars = n
            labs = tuple(labs) + ('init',)
            if kind == 'mc':
                m = mk('mc', (labs, (R3[3], R3[4], I3[1]), name))
            elif kind == 'ctmc':
                m = mk('ctmc', (labs, (Q3[6], Q3[4], J3[1]), name))
            elif kind == 'mdp':
                m = mk('mdp', (labs, acts, ((R3[3], R3[7]), (R3[7], R3[4]), (I3[1], I3[0])), name))
            else:
                x = ((('0', '%s*%s' % pars, '0'), ('%s/(%s + 1)' % pars, pars[1], '0'), ('1.0', '0.25', '0')))
                m = mk('pctmc', (labs, x, pars, dict(zip(pars, (0.5, 3.0))), name))
                m2 = mk('pctmc', (labs, x, pars, {}, name))
                f = self.scratch + '/q.sm'
                m2.savePrism(f)
                b = ja.loadPrism(f)
                need(sorted(b.parameter_str) == sorted(pars), lambda: 'parameters %s became %s' % (pars, b.parameter_str))
                b.instantiate(list(pars), [0.5, 3.0])
                equal_iso(view(m), view(b), 'Prism round trip of %s' % (case,))
                m2.save(f)
                b = ja.loadPCTMC(f)
                b.instantiate(list(pars), [0.5, 3.0])
                equal(view(m), view(b), 1e-12, 'save and load of %s' % (case,))
            self.both(m, st, case)
        elif fam == 'built':
            kind, il, two, loop, dead, start, named = case
            if named and kind != 'mdp':
                return
            text, want = built(case)
            if not want[2]:
                return  # no action at all
            f = self.scratch + '/b.sm'
            with open(f, 'w') as o:
                o.write(text)
            b = ja.loadPrism(f)
            need(type(b).__name__ == dict(dtmc='MC', ctmc='CTMC', mdp='MDP')[kind], lambda: str(type(b)))
            equal_iso(want, view(b), 'loading %s' % text)
            import stormpy as sp
            s = sp.build_model(sp.parse_prism_program(f, kind == 'ctmc'))
            b = ja.stormpyModeltoJajapy(s)
            if named:  # no choice labels were built: the actions are numbered
                v = view(b)
                need(sorted(v[2]) == (['a0', 'a1'] if 'stay' in want[2] else ['a0']), lambda: 'actions %s' % sorted(v[2]))
            else:
                equal_iso(want, view(b), 'converting %s' % text)
            st.step(2)
            st.outcome(text)
        elif fam == 'built_parametric':
            text, want, free = builtp(case)
            f = self.scratch + '/b.sm'
            with open(f, 'w') as o:
                o.write(text)
            b = ja.loadPrism(f)
            if not free:
                need(type(b).__name__ in ('CTMC', 'PCTMC'), lambda: '%s: %s' % (text, type(b)))
                equal_iso(want(VALS[0]), view(b), 'loading %s' % text)
            else:
                need(type(b).__name__ == 'PCTMC', lambda: '%s: %s' % (text, type(b)))
                need(sorted(b.parameter_str) == sorted(free), lambda: 'parameters %s of %s' % (b.parameter_str, text))
                need(not any(b.isInstantiated(param=p) for p in free), lambda: 'a parameter has a value in %s' % text)
                indexes(b)
                for v in VALS:
                    b.instantiate(list(b.parameter_str), [v[p] for p in b.parameter_str])
                    equal_iso(want(v), view(b), 'loading %s' % text)
                    check_storm(b, ja.jajapyModeltoStormpy(b), text)
                    st.step(2)
            st.outcome(text)
        elif fam == 'renamed':
            acts, given, shape = case
            rows = ((R3[3], R3[5]), (R3[7], R3[4]), (I3[1], I3[0] if shape else R3[7]))
            m = mk('mdp', (('a', 'b', 'init'), acts, rows, 'm'))
            b = ja.stormpyModeltoJajapy(ja.jajapyModeltoStormpy(m), list(given))
            v, w = view(m), view(b)
            need((v[0], v[1]) == (w[0], w[1]), 'states')
            if set(acts) <= set(given):
                need(list(b.actions) == list(given), lambda: 'actions %s instead of %s' % (b.actions, given))
                equal(v, (w[0], w[1], {a: w[2][a] for a in acts}), 1e-12, str(case))
            else:
                need(list(b.actions)[:len(given)] == list(given)[:2] and len(b.actions) == 2, lambda: 'actions %s instead of %s' % (b.actions, given))
                x = sorted(v[2].values())
                need(sorted(w[2].values()) == x, lambda: 'transitions %s -> %s' % (v[2], w[2]))
            st.step()
            st.outcome(case)
        elif fam == 'learned':
            l, ts = case
            ja_, out = LEARN[l], self.scratch + '/o.sm'
            if os.path.exists(out):
                os.unlink(out)
            m = ja_(ts, dict(stormpy_output=False))
            s = ja_(ts, dict(output_file_prism=out))
            check_storm(m, s, 'learned model %s' % (case,))
            r = reach(view(m))
            dead = type(m).__name__ == 'MC' and any(not any(x) for x in r[2][''])
            if not dead:
                equal_iso(view(m), view(ja.loadPrism(out)), 'the Prism file of the learned model %s' % (case,))
            st.step(2)
            st.outcome(view(m))
        else:
            m = {'hmm': lambda: zoo.make('hmm', 0)[0], 'gohmm': lambda: zoo.make('gohmm', 0)[0], 'int': lambda: 3, 'none': lambda: None,
                 'pctmc': lambda: mk('pctmc', (('a', 'init'), (('p', '0'), ('1.0', '0')), ('p',), {}, 'm'))}[case]()
            try:
                ja.jajapyModeltoStormpy(m)
            except (TypeError, ValueError):
                st.outcome(case)
            else:
                raise Violation('%s was converted' % case)
            if case != 'pctmc':
                try:
                    ja.stormpyModeltoJajapy(m)
                except TypeError:
                    pass
                else:
                    raise Violation('%s was converted' % case)
            st.step(2)


LEARN = []


def _bw(kind, i):
    def f(ts, kw):
        ja = api()
        seams.CTL.cpus = 2
        m, t, pos, imp = zoo.make(kind, i)
        return ja.BW().fit(ja.Set(pos[:ts + 1], [3, 1, 2, 5][:ts + 1], t), initial_model=m, max_it=2, epsilon=1e-9, pp='', **kw)
    return f


for _k, _i in (('mc', 0), ('mc', 1), ('mdp', 0), ('mdp', 1), ('ctmc', 0), ('ctmc', 1), ('ctmc_untimed', 0), ('ctmc_untimed', 1), ('pctmc', 0), ('pctmc', 1), ('pctmc_untimed', 1)):
    LEARN.append(_bw(_k, _i))


def _al(ts, kw):
    ja = api()
    s = [['init', 'a', 'b'], ['init', 'a', 'a'], ['init', 'b', 'b'], ['init', 'b', 'a', 'b']][:ts + 1]
    return ja.Alergia().fit(ja.Set(s, [3, 2, 1, 4][:ts + 1], 0), 0.5, **kw)


def _io(ts, kw):
    ja = api()
    s = [['init', 'l', 'a', 'l', 'b'], ['init', 'r', 'a', 'l', 'a'], ['init', 'r', 'b', 'l', 'b'], ['init', 'l', 'b', 'r', 'b']][:ts + 1]
    return ja.IOAlergia().fit(ja.Set(s, [3, 2, 1, 4][:ts + 1], 1), 0.5, **kw)


LEARN += [_al, _io]
CHECK = C15()
