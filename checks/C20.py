import itertools, math
from fractions import Fraction as F
from mc.lib import *
from mc.gen import *
from mc import zoo, ref, merge
from checks.C15 import check_storm, equal_iso, view

EPS = (2.0, 1.0, 0.5, 0.1, 0.000005)


def expected_counts(labels, acts, rows, D, L, scale=1):
    """every alternating trace of L steps, actions uniform among the available ones, with its expected multiplicity"""
    i = labels.index('init')
    cur = {((labels[i],), i): F(1)}
    for _ in range(L):
        nxt = {}
        for (w, s), c in cur.items():
            av = [k for k in range(len(acts)) if any(rows[s][k])]
            for k in av:
                for t in range(len(labels)):
                    if rows[s][k][t]:
                        q = (w + (acts[k], labels[t]), t)
                        nxt[q] = nxt.get(q, 0) + c * F(rows[s][k][t], D * len(av))
        cur = nxt
    res = {}
    for (w, s), c in cur.items():
        res[w] = res.get(w, 0) + c
    m = 1
    for c in res.values():
        m = m * c.denominator // math.gcd(m, c.denominator)
    return [(list(w), int(c * m * scale)) for w, c in sorted(res.items())]


MODELS = [(('a', 'b', 'init'), ('l', 'r'), (((2, 2, 0), (0, 4, 0)), ((4, 0, 0), (0, 0, 0)), ((2, 2, 0), (4, 0, 0))), 4),
          (('a', 'b', 'init'), ('r', 'l'), (((0, 4, 0), (4, 0, 0)), ((0, 0, 0), (1, 3, 0)), ((2, 2, 0), (0, 0, 0))), 4),
          (('a', 'b', 'a', 'init'), ('l', 'r'), (((0, 4, 0, 0), (0, 0, 0, 0)), ((0, 0, 4, 0), (4, 0, 0, 0)), ((0, 0, 4, 0), (0, 2, 2, 0)), ((2, 2, 0, 0), (0, 0, 0, 0))), 4)]
# all steps of at most one action, then two
W1 = [(a, o) for a in 'lr' for o in 'xy']
W2 = [w + v for w in W1 for v in W1]


class C20(Check):
    id = 'C20'
    rule = ('all multisets of up to 3 of the 20 words of at most two steps over two actions and two labels (multiplicities 1, 3, 20), count vectors over the 16 words of two steps, words of three steps with one action per label, exact frequencies of small MDPs for up to 4 steps, every '
            'order and splitting of the entries, traces longer than the recursion limit, learner objects used twice, branches that agree for up to 2 steps before they differ (counts to 4000), traces starting with several observations or with the initial label, x compatibility parameters: the real IOAlergia against an independent state-merging reference, up to the numbering of the states (normal form of the '
            'deterministic automaton). Non-trivial: distinct automata, merges performed.')
    assumptions = ["the label 'init' occurs only at the beginning of the traces, in all or in none", 'compatibility tests within 1e-9 of the bound are not compared', 'at least one action occurs',
                   'traces starting with different observations: every first observation is kept as a state, entered from an additional initial state whatever the first action']

    def families(self, tier):
        T = tier == 'thorough'
        mult = (1, 3, 20)
        yield 'small', ((tuple(zip(ws, ms)), e, p) for k in (1, 2, 3) for j, ws in enumerate(itertools.combinations(W1 + W2, k)) if T or k < 3 or keep(j, 6) for ms in itertools.product(mult, repeat=k) for e in (EPS if T or k < 2 else (2.0, 0.5, 0.000005)) for p in ((0, 1) if T or k < 2 else (0,)))
        W2s = [w for w in W2 if w[0] == 'l' or w[2] == 'r'][:10]
        yield 'counts', ((tuple((w, c) for w, c in zip(W2s, cs) if c), e, 0) for j, cs in enumerate(itertools.product((0, 2, 30), repeat=len(W2s))) if any(cs) and keep(j, 5 if T else 15) for e in (EPS if T else (0.5, 0.000005)))
        # one action, words of three steps
        W3 = [tuple(x for o in w for x in ('l', o)) for w in words('xy', 3, 3)]
        yield 'deep', ((tuple((w, c) for w, c in zip(W3, cs) if c), e, p) for j, cs in enumerate(itertools.product((0, 1, 12, 40), repeat=8)) if any(cs) and keep(j, 4 if T else 15) for e in (EPS if T else (0.5, 0.000005)) for p in ((0, 1) if T else (0,)))
        # two actions, three steps, a few words
        W4 = [('l', 'x', 'l', 'x', 'l', 'y'), ('l', 'x', 'r', 'x', 'l', 'x'), ('r', 'x', 'l', 'x', 'r', 'x'), ('r', 'y', 'r', 'y', 'r', 'y'), ('l', 'y', 'l', 'y', 'r', 'x'), ('l', 'x', 'l', 'y', 'l', 'x'), ('r', 'x', 'r', 'x'), ('r', 'y', 'l', 'y')]
        yield 'mixed', ((tuple((w, c) for w, c in zip(W4, cs) if c), e, p) for j, cs in enumerate(itertools.product((0, 1, 12, 40), repeat=8)) if any(cs) and keep(j, 4 if T else 15) for e in (EPS if T else (0.5, 0.000005)) for p in ((0, 1) if T else (0,)))
        yield 'exact', ((i, L, s, e) for i in range(len(MODELS)) for L in range(1, 6 if T else 5) for s in (1, 7) for e in EPS)
        yield 'roots', ((rs, cs, ms, e) for rs in (('x',), ('y',), ('x', 'y'), ('y', 'x'), ('z', 'x', 'y')) for cs in itertools.product(range(0, len(W2), 3), repeat=2) for ms in ((1, 1), (20, 3), (5, 30)) for e in ((2.0, 0.1) if not T else EPS))
        yield 'order', ((ws, perm, split, e) for ws in (((('l', 'x', 'l', 'y'), 3), (('r', 'x', 'l', 'x'), 20), (('l', 'y'), 1)), ((('l', 'x', 'r', 'x', 'l', 'x'), 5), (('l', 'x'), 12), (('r', 'x', 'r', 'x'), 12), (('l', 'y', 'u', 'y'), 2))) for perm in itertools.permutations(range(len(ws))) for split in range(3) for e in (2.0, 0.1))
        # branches that agree for a while and differ further down
        yield 'branches', ((w, v, t, n, e) for k in range(0, 3) for w in itertools.product(('lx', 'rx', 'ly'), repeat=k) for v in itertools.product(('lx', 'rx', 'ly'), repeat=k) if w == v or T or k < 2
                           for t in (('lx', 'ly'), ('lx', 'rx'), ('lx', 'lx'), ('rx', 'lxrx'), ('', 'lx')) for n in ((40, 40), (4000, 4000), (3000, 40), (5, 4000)) for e in ((0.5, 0.05) if not T else EPS))
        # traces longer than the recursion limit of Python
        yield 'long', ((L, k) for L in ((1020,) if not T else (1020, 1500)) for k in range(4))
        yield 'chain', ((L, e) for L in ((5, 12, 25) if not T else (5, 12, 30, 60)) for e in EPS)

    def check(self, items, e, st, S=None):
        ja, np = api(), np_()
        items = [(list(w), t) for w, t in items]
        if not any(len(w) > 1 for w, _ in items):
            return
        exp, acts, amb, k = merge.ioalergia(items, e)
        if amb:
            st.note('skipped: on the bound')
            return
        S = S or ja.Set([list(w) for w, _ in items], [t for _, t in items], 1)
        before = (S.type, [list(q) for q in S.sequences], [int(t) for t in S.times], type(S.times))
        m = ja.IOAlergia().fit(S, e, stormpy_output=False)
        st.step()
        need(before == (S.type, [list(q) for q in S.sequences], [int(t) for t in S.times], type(S.times)), 'the training set was modified')
        need(type(m) == ja.MDP, lambda: 'a %s was returned' % type(m))
        M, lab, ac = np.array(m.matrix, dtype=float), list(m.labelling), list(m.actions)
        need(sorted(ac) == acts, lambda: 'actions %s expected %s' % (ac, acts))
        need(lab.count('init') == 1, lambda: 'labels %s' % lab)
        start = lab.index('init')
        need(m.initial_state.tolist() == [float(i == start) for i in range(len(lab))], 'initial distribution')
        order = [start]
        for n, s in enumerate(order):
            need(n < len(exp), lambda: '%d states expected %d, in %s at %s' % (len(order), len(exp), items, e))
            lb, rows = exp[n]
            need(lab[s] == lb, lambda: 'label %s expected %s' % (lab[s], lb))
            for a in acts:
                row = rows.get(a, {})
                succ = {}
                for t in np.nonzero(M[s][ac.index(a)])[0].tolist():
                    need(lab[t] not in succ, lambda: 'not deterministic: state %d has several successors %s with %s' % (s, lab[t], a))
                    succ[lab[t]] = t
                need(set(succ) == set(row), lambda: 'successors of state %d (%s) with %s: %s expected %s for %s at %s' % (n, lb, a, succ, row, items, e))
                for o in sorted(succ):
                    if succ[o] not in order:
                        order.append(succ[o])
                    need(order.index(succ[o]) == row[o][0], lambda: 'merged differently: %s at %s' % (items, e))
                    need(close(M[s][ac.index(a)][succ[o]], row[o][1] / row[o][2], 1e-9, 0), lambda: 'probability %s -%s> %s: %s expected %s/%s for %s at %s' % (lb, a, o, M[s][ac.index(a)][succ[o]], row[o][1], row[o][2], items, e))
        need(len(order) == len(exp) == m.nb_states, lambda: '%d states (%d reachable), expected %d for %s at %s' % (m.nb_states, len(order), len(exp), items, e))
        # every training trace has the likelihood the frequencies say
        firsts = [None] if items[0][0][0] == 'init' else acts
        for a0 in firsts:
            ws = [(w if a0 is None else ['init', a0] + w, t) for w, t in items]
            num, tot = 0.0, sum(t for _, t in ws)
            for w, t in ws:
                s, p = 0, F(1)
                for a, o in zip(w[1::2], w[2::2]):
                    j, c, n = exp[s][1][a][o]
                    p *= F(c, n)
                    s = j
                need(p > 0, 'harness')
                num += t * ref.flog(p)
            ll = m.logLikelihood(ja.Set([list(w) for w, _ in ws], [t for _, t in ws], 1))
            need(close(ll, num / tot, 1e-9), lambda: 'likelihood of the training set %s expected %s: %s at %s' % (ll, num / tot, items, e))
        st.note('merges', k)
        st.outcome(repr(exp))
        return m

    def run(self, fam, case, st):
        ja, np = api(), np_()
        if fam == 'long':
            L, k = case
            w = ['init'] + ['l', 'a', 'r', 'b'] * (L // 2)
            ws = [(w, 3)] if k == 0 else [(w, 5), (w[:-1] + ['c'], 4)] if k == 1 else [(w, 30), (w[:41] + ['l', 'a'], 20)] if k == 2 else [(w[1:][1:], 7), (w[2:9], 2)]
            self.check(ws, 0.5, st)
            return
        if fam in ('small', 'counts', 'deep', 'mixed'):
            ws, e, p = case
            self.check([(['x' if p else 'init'] + list(w), t) for w, t in ws], e, st)
        elif fam == 'exact':
            i, L, s, e = case
            self.check(expected_counts(*MODELS[i], L, s), e, st)
        elif fam == 'roots':
            rs, cs, ms, e = case
            self.check([([r] + list(W2[(c + 2 * j) % len(W2)]), t + j) for j, r in enumerate(rs) for c, t in zip(cs, ms)], e, st)
            need(True, '')
        elif fam == 'order':
            ws, perm, split, e = case
            items = [(['init'] + list(ws[i][0]), ws[i][1]) for i in perm]
            if split == 0:
                S = ja.Set([list(w) for w, _ in items], [t for _, t in items], 1)
            elif split == 1:
                ent = [(w, 1) for w, t in items] + [(w, t - 1) for w, t in reversed(items) if t > 1]
                S = ja.Set([list(w) for w, _ in ent], [t for _, t in ent], 1)
            else:
                S = ja.Set([list(w) for w, t in items for _ in range(t)], t=1)
            self.check(items, e, st, S)
            al = ja.IOAlergia()
            a = al.fit(S, e, stormpy_output=False)
            al.fit(ja.Set([['init', 'z', 'z'], ['init', 'a', 'x']], [3, 4], 1), 0.3, stormpy_output=False)
            b = al.fit(S, e, stormpy_output=False)
            need(zoo.snap(a) == zoo.snap(b), 'a second use gives another model')
            # without Storm the native model is returned whatever is asked
            with without_storm():
                b = ja.IOAlergia().fit(S, e)
                need(zoo.snap(a) == zoo.snap(b), 'another model without Storm')
            # the default result is the same model for Storm, and the Prism file holds it
            f = self.scratch + '/al.sm'
            b = ja.IOAlergia().fit(S, e, output_file_prism=f)
            need(type(b).__module__.startswith('stormpy'), lambda: 'Storm output: %s' % type(b))
            check_storm(a, b, 'Storm output')
            equal_iso(view(a), view(ja.loadPrism(f)), 'the Prism file')
            b = ja.IOAlergia().fit(S, e, stormpy_output=False, output_file_prism=f)
            need(zoo.snap(a) == zoo.snap(b), 'writing a Prism file changes the model')
            equal_iso(view(a), view(ja.loadPrism(f)), 'the Prism file')
            st.step(3)
        elif fam == 'branches':
            w, v, t, n, e = case
            w, v = ''.join(w), ''.join(v)
            self.check([(['init'] + list('lx' + w + t[0]), n[0]), (['init'] + list('ry' + v + t[1]), n[1])], e, st)
            self.check([(['init'] + list('lx' + w + t[0]), n[0]), (['init'] + list('rx' + v + t[1]), n[1]), (['init'] + list('ry' + w + t[1]), n[1] // 3), (['init', 'l', 'y'], n[0] // 2)], e, st)
        else:
            L, e = case
            w1, w2 = ['init'], ['init']
            for k in range(L):
                w1 += ['lr'[k % 2], 'xy'[k % 3 == 0]]
                w2 += ['lr'[k % 2], 'xy'[k % 2]]
            self.check([(w1, 5), (w2, 3)], e, st)


CHECK = C20()
