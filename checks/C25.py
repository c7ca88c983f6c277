import itertools, math
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo

KINDS = ('mc', 'hmm', 'mdp', 'ctmc', 'gohmm', 'pctmc')

# kind -> list of (transitions, rest): small valid descriptions, states 0..n-1
DESC = {
    'mc': [([(0, 1, 1.0), (1, 0, 0.6), (1, 1, 0.4)], ['b', 'a']),
           ([(0, 1, 0.5), (0, 2, 0.5), (1, 2, 1.0)], ['a', 'b', 'a']),
           ([(0, 0, 1)], ['x']),
           ([(2, 0, 0.25), (2, 1, 0.25), (2, 2, 0.5), (0, 1, 1.0)], ['a', 'a', 'b'])],
    'mdp': [([(0, 'l', 1, 1.0), (0, 'r', 0, 0.5), (0, 'r', 1, 0.5), (1, 'l', 0, 1.0)], ['b', 'a']),
            ([(0, 'z', 0, 0.25), (0, 'z', 1, 0.75), (1, 'a', 1, 1.0)], ['a', 'b']),
            ([(0, 'l', 2, 1.0), (1, 'r', 0, 1.0), (2, 'l', 1, 0.5), (2, 'l', 2, 0.5)], ['a', 'b', 'b'])],
    'ctmc': [([(0, 1, 1.0), (1, 0, 0.3), (1, 1, 0.2)], ['b', 'a']),
             ([(0, 1, 2), (2, 1, 0.5), (0, 2, 1e-6)], ['a', 'b', 'a']),
             ([(0, 0, 7.5)], ['x'])],
    'pctmc': [([(0, 1, 'p'), (1, 0, 'q'), (1, 1, 1.5)], ['b', 'a']),
              ([(0, 1, 'p*q'), (1, 2, 'p'), (2, 0, 'p'), (2, 1, 0.5)], ['a', 'b', 'a']),
              ([(0, 1, 2.0), (1, 0, 2.0), (0, 0, '2*p'), (1, 1, 'q+1')], ['a', 'b']),
              ([(0, 0, 'p')], ['x'])],
    'hmm': [([(0, 1, 1.0), (1, 0, 0.6), (1, 1, 0.4)], [(0, 'a', 0.8), (0, 'b', 0.2), (1, 'b', 1.0)]),
            ([(0, 1, 0.5), (0, 0, 0.5), (1, 2, 1.0), (2, 0, 1.0)], [(0, 'x', 1.0), (1, 'y', 1), (2, 'z', 0.25), (2, 'x', 0.75)]),
            ([(0, 0, 1.0)], [(0, 'x', 1.0)])],
    'gohmm': [([(0, 1, 1.0), (1, 0, 0.6), (1, 1, 0.4)], [[(0.0, 1.0), (2.0, 0.5)], [(-1.0, 2.0), (3, 1)]]),
              ([(0, 1, 0.5), (0, 0, 0.5), (1, 1, 1.0)], [[(0.0, 1.0)], [(5.0, 2.5)]]),
              ([(0, 0, 1.0)], [[(0.0, 1.0)]])],
}
SYNC = [[], [(0, 'go', 1, 2.0)], [(1, 'go', 0, 0.5), (0, 'stop', 0, 1.5)]]
PVALS = [{}, {'p': 0.5}, {'p': 0.5, 'q': 2.0}, {'q': 0.25, 'zz': 1.0}]
NEW = {'mc': 'createMC', 'mdp': 'createMDP', 'ctmc': 'createCTMC', 'pctmc': 'createPCTMC', 'hmm': 'createHMM', 'gohmm': 'createGoHMM'}


def nstates(kind, trans):
    j = 2 if kind == 'mdp' else 1
    return 1 + max(max(t[0], t[j]) for t in trans)


def inits(n, np):
    """every initial description: state numbers and distributions on a 1/4 grid, as list and as array"""
    for i in range(n):
        yield ('int', i)
    for d in dists(n, 4):
        yield ('list', d)
        yield ('array', d)


def mk_init(i):
    k, v = i
    if k == 'int':
        return v
    l = [x / 4 for x in v]
    return np_().array(l) if k == 'array' else l


def init_vec(i, n):
    return [1.0 if j == i[1] else 0.0 for j in range(n)] if i[0] == 'int' else [x / 4 for x in i[1]]


def build(kind, trans, rest, init, extra=0, **kw):
    """call the user-friendly builder on fresh copies"""
    ja = api()
    f = getattr(ja, NEW[kind])
    if kind == 'pctmc':
        return f(list(trans), list(rest), ['p', 'q'], init, dict(PVALS[extra]), **kw)
    if kind == 'gohmm':
        return f(list(trans), [list(x) for x in rest], init, **kw)
    return f(list(trans), list(rest), init, **kw)


class C25(Check):
    id = 'C25'
    rule = ('for every kind of model: every permutation of the transitions (and emissions) of each small valid description, every initial state and every initial distribution on a 1/4 grid given as number, list or array, with and '
            'without synchronous transitions, compared entry by entry with the description; every single-fault corruption of every description (each transition, emission or initial weight perturbed, each label dropped, reserved '
            'or added, initial state out of range or of the wrong size, negative deviation, undeclared parameter) must raise; every ordered pair and triple of constructions sharing arguments or defaults leaves arguments and '
            'earlier models as they were. Non-trivial: distinct models and distinct rejected descriptions.')
    assumptions = ['state numbers 0..n-1 all occur in the transitions', 'no pair of states listed twice']

    def families(self, tier):
        T = tier == 'thorough'
        np = np_()
        for k in KINDS:
            yield 'order_' + k, ((k, d, p, i) for d in range(len(DESC[k])) for p in itertools.permutations(range(len(DESC[k][d][0]))) for i in ([('int', 0)] if k != 'gohmm' else [('int', 0), ('list', None)]))
        yield 'init', ((k, d, i) for k in KINDS for d in range(len(DESC[k])) for i in inits(nstates(k, DESC[k][d][0]), np))
        yield 'emission', ((d, p, q) for d in range(3) for p in itertools.permutations(range(len(DESC['hmm'][d][1]))) for q in itertools.permutations(range(len(DESC['hmm'][d][0]))))
        yield 'grid_mc', ((n, r, l) for n in (1, 2) for r in itertools.product(dists(n, 4), repeat=n) for l in itertools.product(('a', 'b'), repeat=n))
        g = ((r, p) for r in itertools.product(dists(3, 2), repeat=3) for p in itertools.permutations(range(sum(1 for x in r for y in x if y))))
        yield 'grid3_order', (x for i, x in enumerate(g) if keep(i, 3 if T else 40))
        yield 'grid_ctmc', ((r, p) for r in itertools.product((0, 0.5, 3), repeat=4) for p in itertools.permutations(range(4)))
        yield 'grid_pctmc', (x for i, x in enumerate((r, p, v) for r in itertools.product((0, 'p', 'q', 'p*q', 2.0), repeat=4) for p in itertools.permutations(range(4)) for v in range(len(PVALS))) if T or keep(i, 25))
        yield 'grid_mdp', (x for i, x in enumerate((r, p) for r in itertools.product(((4, 0), (1, 3), (0, 0)), repeat=4) for p in itertools.permutations(range(8)) if p[0] < 2) if keep(i, 20 if T else 300))
        yield 'sync', ((k, d, s, p) for k in ('ctmc', 'pctmc') for d in range(len(DESC[k])) for s in range(len(SYNC)) for p in itertools.permutations(range(len(DESC[k][d][0]))))
        yield 'params', ((d, v, o) for d in range(len(DESC['pctmc'])) for v in range(len(PVALS)) for o in (('p', 'q'), ('q', 'p'), ('q', 'u', 'p')))
        yield 'bad', (x for k in KINDS for d in range(len(DESC[k])) for x in self.faults(k, d))
        yield 'shared', itertools.product(KINDS, range(3), range(3), range(3))
        yield 'defaults', itertools.product(KINDS, KINDS)

    # --- reference
    def verify(self, m, kind, trans, rest, init, st, sync=(), vals=None, params=('p', 'q')):
        np = np_()
        n = nstates(kind, trans)
        if sync:
            n = max(n, 1 + max(max(t[0], t[2]) for t in sync))
        iv = init_vec(init, n)
        st.step()
        if kind in ('hmm', 'gohmm'):
            need(m.nb_states == n, lambda: '%d states, expected %d' % (m.nb_states, n))
            exp = np.zeros((n, n))
            for s, t, v in trans:
                exp[s, t] = v
            need((np.asarray(m.matrix) == exp).all(), lambda: 'transitions %s expected %s' % (m.matrix, exp))
            need(allclose(m.initial_state, iv, 1e-12), lambda: 'initial distribution %s expected %s' % (m.initial_state, iv))
            if kind == 'hmm':
                al = sorted({e[1] for e in rest})
                need(sorted(m.alphabet) == al, lambda: 'alphabet %s' % m.alphabet)
                em = {(s, l): v for s, l, v in rest}
                for s in range(n):
                    for l in al:
                        need(m.b(s, l) == em.get((s, l), 0.0), lambda: 'b(%d,%s) = %r expected %r' % (s, l, m.b(s, l), em.get((s, l), 0.0)))
            else:
                need(np.asarray(m.output).shape == (n, len(rest[0]), 2) and (np.asarray(m.output) == np.array(rest, dtype=float)).all(), lambda: 'distributions %s expected %s' % (m.output, rest))
                need(m.nb_distributions == len(rest[0]), 'number of distributions')
            return
        need(m.nb_states == n + 1, lambda: '%d states, expected %d' % (m.nb_states, n + 1))
        need(list(m.labelling) == list(rest) + ['init'], lambda: 'labels %s expected %s' % (m.labelling, rest))
        need(sorted(m.alphabet) == sorted(set(rest) | {'init'}), lambda: 'alphabet %s' % m.alphabet)
        need([m.pi(s) for s in range(n + 1)] == [0.0] * n + [1.0], lambda: 'initial state: %s' % m.initial_state)
        if kind == 'mdp':
            acts = sorted({t[1] for t in trans})
            need(sorted(m.actions) == acts and m.nb_actions == len(acts), lambda: 'actions %s' % m.actions)
            exp = {}
            for s, a, t, v in trans:
                exp[(s, a, t)] = v
            for s in range(n + 1):
                for a in acts:
                    for t in range(n + 1):
                        e = exp.get((s, a, t), 0.0) if s < n else (iv + [0.0])[t]
                        need(m.a(s, t, a) == e, lambda: 'a(%d,%d,%s) = %r expected %r' % (s, t, a, m.a(s, t, a), e))
            return
        exp = {}
        for s, t, v in trans:
            exp[(s, t)] = v
        for j in range(n):
            exp[(n, j)] = iv[j]
        if kind in ('mc', 'ctmc'):
            for s in range(n + 1):
                for t in range(n + 1):
                    x = m.matrix[s][t]
                    need(x == exp.get((s, t), 0.0), lambda: 'transition %d->%d: %r expected %r' % (s, t, x, exp.get((s, t), 0.0)))
        else:
            vals = {k: v for k, v in (vals or {}).items() if k in params}
            need(list(m.parameter_str) == list(params), lambda: 'parameters %s' % m.parameter_str)
            need(m.parameter_values == vals, lambda: 'values %s expected %s' % (m.parameter_values, vals))
            G = {'p': 1.732, 'q': 0.577, 'u': 3.0}
            for s in range(n + 1):
                for t in range(n + 1):
                    e = exp.get((s, t), 0.0)
                    used = {c for c in str(e) if c in 'pqu'}
                    v = float(eval(str(e), {}, G))
                    x = m.transitionExpression(s, t)
                    need(close(x.subs(G), v, 1e-12), lambda: 'transition %d->%d: %s expected %s' % (s, t, x, e))
                    need(sorted(m.involvedParameters(s, t)) == sorted(used), lambda: 'parameters of %d->%d: %s' % (s, t, x))
                    for p in params:
                        need(([s, t] in [list(map(int, i)) for i in m.parameterIndexes(p)]) == (p in used), lambda: 'parameterIndexes(%s) = %s' % (p, m.parameterIndexes(p)))
        if kind in ('ctmc', 'pctmc'):
            need([tuple(x) for x in m.synchronous_transitions] == [tuple(x) for x in sync], lambda: 'synchronous transitions %s' % m.synchronous_transitions)

    def run(self, family, case, st):
        if family.startswith('order_'):
            return self.f_order(case, st)
        getattr(self, 'f_' + family)(case, st)

    def f_order(self, case, st):
        k, d, p, i = case
        trans, rest = DESC[k][d]
        n = nstates(k, trans)
        if i[1] is None:
            i = ('list', (1,) * 1 + (3,) + (0,) * (n - 2)) if n > 1 else ('list', (4,))
        t = [trans[j] for j in p]
        m = build(k, t, rest, mk_init(i))
        self.verify(m, k, trans, rest, i, st)
        st.outcome((k, d, p, repr(sorted(zoo.snap(m).items()))))

    def f_init(self, case, st):
        k, d, i = case
        trans, rest = DESC[k][d]
        x = mk_init(i)
        before = zoo._plain(x)
        m = build(k, trans, rest, x, name='nm')
        self.verify(m, k, trans, rest, i, st)
        need(m.name == 'nm', 'name')
        need(zoo._plain(x) == before, 'the initial distribution given was changed')
        # what was given is not part of the model
        if i[0] != 'int':
            s0 = zoo.snap(m)
            x[0] = 0.123
            need(zoo.snap(m) == s0 or k in ('hmm', 'gohmm'), 'changing the initial distribution afterwards changed the model')
        st.outcome((k, d, i))

    def f_emission(self, case, st):
        d, p, q = case
        trans, rest = DESC['hmm'][d]
        m = build('hmm', [trans[j] for j in q], [rest[j] for j in p], 0)
        self.verify(m, 'hmm', trans, rest, ('int', 0), st)
        st.outcome(case)

    def f_grid_mc(self, case, st):
        n, r, l = case
        trans = [(s, t, r[s][t] / 4) for s in range(n) for t in range(n) if r[s][t]]
        if nstates('mc', trans) != n or {t[0] for t in trans} | {t[1] for t in trans} != set(range(n)):
            return
        for i in inits(n, np_()):
            m = build('mc', trans[::-1], list(l), mk_init(i))
            self.verify(m, 'mc', trans, list(l), i, st)
        st.outcome(case)

    def f_grid3_order(self, case, st):
        r, p = case
        trans = [(s, t, r[s][t] / 2) for s in range(3) for t in range(3) if r[s][t]]
        m = build('mc', [trans[j] for j in p], ['a', 'b', 'c'], 1)
        self.verify(m, 'mc', trans, ['a', 'b', 'c'], ('int', 1), st)
        h = build('hmm', [trans[j] for j in p], [(2, 'x', 1.0), (0, 'y', 1.0), (1, 'x', 1.0)], 1)
        self.verify(h, 'hmm', trans, [(2, 'x', 1.0), (0, 'y', 1.0), (1, 'x', 1.0)], ('int', 1), st)
        st.outcome(case)

    def f_grid_ctmc(self, case, st):
        r, p = case
        trans = [(j // 2, j % 2, r[j]) for j in range(4)]
        t = [trans[j] for j in p]
        self.verify(build('ctmc', t, ['a', 'b'], 1), 'ctmc', trans, ['a', 'b'], ('int', 1), st)
        st.outcome(r)

    def f_grid_pctmc(self, case, st):
        r, p, v = case
        trans = [(j // 2, j % 2, r[j]) for j in range(4)]
        t = [trans[j] for j in p]
        self.verify(build('pctmc', t, ['a', 'b'], [0.25, 0.75], v), 'pctmc', trans, ['a', 'b'], ('list', (1, 3)), st, vals=PVALS[v])
        st.outcome((r, v))

    def f_grid_mdp(self, case, st):
        r, p = case
        trans = [(j // 4, 'lr'[j // 2 % 2], j % 2, r[j // 2][j % 2] / 4) for j in range(8)]
        t = [trans[j] for j in p]
        self.verify(build('mdp', t, ['a', 'b'], [0.5, 0.5]), 'mdp', trans, ['a', 'b'], ('list', (2, 2)), st)
        st.outcome(r)

    def f_sync(self, case, st):
        k, d, s, p = case
        trans, rest = DESC[k][d]
        if nstates(k, trans) < 2 and s:
            rest = rest + ['extra']
        sy = [tuple(x) for x in SYNC[s]]
        given = list(sy)
        m = build(k, [trans[j] for j in p], rest, 0, synchronous_transitions=given)
        self.verify(m, k, trans, rest, ('int', 0), st, sync=sy)
        need(given == sy, 'the synchronous transitions given were changed')
        given.append((0, 'later', 0, 1.0))
        need([tuple(x) for x in m.synchronous_transitions] == sy, 'synchronous transitions added to the list afterwards reach the model')
        m2 = build(k, [trans[j] for j in p], rest, 0, synchronous_transitions=sy)
        m2.synchronous_transitions.append((0, 'later', 0, 1.0))
        m3 = build(k, trans, rest, 0, synchronous_transitions=sy)
        need([tuple(x) for x in m3.synchronous_transitions] == sy and len(sy) == len(SYNC[s]), 'models built from one list of synchronous transitions are not independent')
        st.outcome(case)

    def f_params(self, case, st):
        d, v, o = case
        trans, rest = DESC['pctmc'][d]
        ja = api()
        params, vals = list(o), dict(PVALS[v])
        m = ja.createPCTMC(list(trans), list(rest), params, 0, vals)
        self.verify(m, 'pctmc', trans, rest, ('int', 0), st, vals=vals, params=o)
        need(params == list(o) and vals == PVALS[v], 'the parameters or their instantiation were changed')
        s0 = zoo.snap(m)
        params.append('zz')
        vals['p'] = 99.0
        vals['q'] = 99.0
        need(zoo.snap(m) == s0, 'changing the given parameters afterwards changed the model')
        vals = dict(PVALS[v])
        m2 = ja.createPCTMC(list(trans), list(rest), list(o), 0, vals)
        m.instantiate(['p', 'q'], [3.0, 4.0])
        self.verify(m2, 'pctmc', trans, rest, ('int', 0), st, vals=PVALS[v], params=o)
        need(vals == PVALS[v], 'instantiating the model changed the given instantiation')
        st.outcome(case)

    # --- faults
    def faults(self, k, d):
        trans, rest = DESC[k][d]
        n = nstates(k, trans)
        if k not in ('ctmc', 'pctmc'):
            for j in range(len(trans)):
                for dv in (0.25, -0.125, 0.01, -0.01, 5):
                    yield (k, d, 'trans', j, dv)
        if k == 'hmm':
            for j in range(len(rest)):
                for dv in (0.25, -0.125, 0.01):
                    yield (k, d, 'emit', j, dv)
            yield (k, d, 'emitstate', n, 0)
            yield (k, d, 'emitstate', -1, 0)
        if k == 'gohmm':
            for s in range(len(rest)):
                for j in range(len(rest[s])):
                    yield (k, d, 'sigma', (s, j), -0.5)
                    if len(rest) > 1:
                        yield (k, d, 'ragged', (s, j), 0)
                    yield (k, d, 'short', (s, j), 0)
            yield (k, d, 'gostate', 'drop', 0)
            yield (k, d, 'gostate', 'add', 0)
        if k in ('mc', 'mdp', 'ctmc', 'pctmc'):
            for j in range(len(rest)):
                yield (k, d, 'label', j, 'drop')
                yield (k, d, 'label', j, 'init')
            yield (k, d, 'label', 0, 'none')
            yield (k, d, 'label', len(rest), 'init')
        if k == 'pctmc':
            for j in range(len(trans)):
                yield (k, d, 'unknown', j, 'w')
                yield (k, d, 'unknown', j, 'p*w + 1')
        for x in (n, n + 1, -1, -n - 1):
            yield (k, d, 'init', x, 0)
        for v in dists(n, 2):
            base = [x / 2 for x in v]
            yield (k, d, 'initlist', tuple(base + [0.0]), 0)
            yield (k, d, 'initlist', tuple(base[:-1]), 0)
            yield (k, d, 'initlist', tuple(base + [1.0]), 0)
            for j in range(n):
                for dv in (0.4, -0.3, 0.25):
                    w = list(base)
                    w[j] += dv
                    if abs(sum(w)) > 0.1:
                        yield (k, d, 'initlist', tuple(w), 0)
        yield (k, d, 'initlist', (), 0)

    def f_bad(self, case, st):
        k, d, what, j, dv = case
        trans, rest = [tuple(t) for t in DESC[k][d][0]], [list(x) if isinstance(x, list) else x for x in DESC[k][d][1]]
        init = 0
        if what == 'trans':
            trans[j] = trans[j][:-1] + (trans[j][-1] + dv,)
        elif what == 'emit':
            rest[j] = rest[j][:-1] + (rest[j][-1] + dv,)
        elif what == 'emitstate':
            rest.append((j, 'a', 1.0))
        elif what == 'sigma':
            rest[j[0]][j[1]] = (rest[j[0]][j[1]][0], dv)
        elif what == 'ragged':
            rest[j[0]].append((0.0, 1.0))
        elif what == 'short':
            rest[j[0]][j[1]] = (1.0,)
        elif what == 'gostate':
            if j == 'drop':
                rest.pop()
            else:
                rest.append(rest[0])
        elif what == 'label':
            if dv == 'drop':
                del rest[j]
            elif dv == 'none':
                rest = []
            elif j < len(rest):
                rest[j] = 'init'
            else:
                rest.append('init')
        elif what == 'unknown':
            trans[j] = trans[j][:-1] + (dv,)
        elif what == 'init':
            init = j
        elif what == 'initlist':
            init = list(j)
        for x in ((init, np_().array(init)) if what == 'initlist' and len(init) else (init,)):
            st.step()
            try:
                m = build(k, trans, rest, x)
            except Exception as e:
                st.outcome((case, type(e).__name__))
                continue
            raise Violation('an ill-formed description was accepted: %s %s initial %s gave matrix %s' % (trans, rest, x, m.matrix.tolist()))

    # --- independence
    def args(self, k, d):
        trans, rest = DESC[k][d % len(DESC[k])]
        return [tuple(t) for t in trans], [list(x) if isinstance(x, list) else x for x in rest]

    def f_shared(self, case, st):
        """the same argument objects are used for three constructions; the models are used in between"""
        k, a, b, c = case
        ja = api()
        f = getattr(ja, NEW[k])
        trans, rest = self.args(k, a)
        t0, r0 = zoo._plain(trans), zoo._plain(rest)
        n = nstates(k, trans)
        init = [1.0] + [0.0] * (n - 1)
        params, vals, sync = ['p', 'q'], {'p': 0.5}, [(0, 'go', 0, 1.0)]
        made = []
        for step in (b, c, 0):
            if k == 'pctmc':
                m = f(trans, rest, params, init, vals, sync)
            elif k == 'ctmc':
                m = f(trans, rest, init, 'x', sync)
            else:
                m = f(trans, rest, init)
            st.step()
            need(zoo._plain(trans) == t0, lambda: 'the list of transitions given was changed to %s' % trans)
            need(zoo._plain(rest) == r0, lambda: 'the labels (or emissions) given were changed to %s' % rest)
            need(init == [1.0] + [0.0] * (n - 1), 'the initial distribution given was changed')
            need(params == ['p', 'q'] and vals == {'p': 0.5} and sync == [(0, 'go', 0, 1.0)], 'the parameters given were changed')
            s = zoo.snap(m)
            if made:
                need(s == made[0][1], 'the same description gave another model')
            for o, so in made:
                need(zoo.snap(o) == so, 'an earlier model changed')
            made = [(o, so) for o, so in made] + [(m, s)]
            # use the model
            if step == 1:
                self.spoil(m)
                made.pop()
                if not made:
                    made = [(build_again(self, k, a, init), None)]
                    made[0] = (made[0][0], zoo.snap(made[0][0]))
                    if k in ('ctmc', 'pctmc'):
                        made = []
            elif step == 2:
                str(m)
        st.outcome(case)

    def spoil(self, m):
        np = np_()
        m.matrix[...] = 0
        m.initial_state[...] = 0.0
        for a in ('labelling', 'alphabet', 'actions', 'synchronous_transitions', 'parameter_str', 'parameter_indexes', 'transition_expr'):
            if hasattr(m, a):
                getattr(m, a).append('spoiled')
        if hasattr(m, 'output'):
            m.output[...] = 0.0
        if hasattr(m, 'parameter_values'):
            m.parameter_values['p'] = -5.0
        m.rename('spoiled')

    def f_defaults(self, case, st):
        """models relying on the default arguments are independent of one another"""
        k1, k2 = case
        for d1 in range(len(DESC[k1])):
            for d2 in range(len(DESC[k2])):
                m1 = build(k1, *self.args(k1, d1), 0)
                ref = zoo.snap(build(k2, *self.args(k2, d2), 0))
                need(m1.name == 'unknown_' + {'mc': 'MC', 'hmm': 'HMM', 'mdp': 'MDP', 'ctmc': 'CTMC', 'gohmm': 'GoHMM', 'pctmc': 'PCTMC'}[k1], lambda: 'default name %r' % m1.name)
                m2 = build(k2, *self.args(k2, d2), 0)
                self.spoil(m1)
                need(zoo.snap(m2) == ref, 'changing one model changed another')
                m3 = build(k2, *self.args(k2, d2), 0)
                need(zoo.snap(m3) == ref, lambda: 'a model built with the defaults after another one was changed: %s' % {k: (v, zoo.snap(m3)[k]) for k, v in ref.items() if zoo.snap(m3)[k] != v})
                self.verify(m3, k2, DESC[k2][d2][0], DESC[k2][d2][1], ('int', 0), st, vals={})
        st.outcome(case)


def build_again(self, k, a, init):
    return build(k, *self.args(k, a), list(init))


CHECK = C25()
