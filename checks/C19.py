import itertools, math
from fractions import Fraction as F
from mc.lib import *
from mc.gen import *
from mc import zoo, ref, merge
from checks.C15 import check_storm, equal_iso, view

EPS = (2.0, 1.0, 0.5, 0.1, 0.000005)


def expected_counts(labels, rows, D, L, scale=1):
    """every trace of L steps with a multiplicity equal to its expected number among D**L generated traces"""
    P = rows
    i = labels.index('init')
    cur = {((labels[i],), i): 1}
    for _ in range(L):
        nxt = {}
        for (w, s), c in cur.items():
            for t in range(len(labels)):
                if P[s][t]:
                    k = (w + (labels[t],), t)
                    nxt[k] = nxt.get(k, 0) + c * P[s][t]
        cur = nxt
    res = {}
    for (w, s), c in cur.items():
        res[w] = res.get(w, 0) + c
    return [(list(w), c * scale) for w, c in sorted(res.items())]


MODELS = [(('init', 'a', 'b'), ((0, 2, 2), (0, 1, 3), (0, 4, 0)), 4), (('init', 'a', 'b', 'c'), ((0, 4, 0, 0), (0, 0, 2, 2), (0, 3, 1, 0), (0, 0, 0, 4)), 4),
          (('init', 'a', 'b', 'a'), ((0, 2, 2, 0), (0, 4, 0, 0), (0, 0, 1, 3), (0, 0, 4, 0)), 4), (('init', 'a', 'a', 'b'), ((0, 2, 2, 0), (0, 0, 0, 4), (0, 4, 0, 0), (0, 0, 0, 4)), 4),
          (('init', 'B', 'T', 'E', 'P'), ((0, 4, 0, 0, 0), (0, 0, 2, 0, 2), (0, 0, 2, 2, 0), (0, 0, 0, 4, 0), (0, 0, 1, 0, 3)), 4)]


class C19(Check):
    id = 'C19'
    rule = ('all multisets of up to 3 of the 14 words of length at most 3 over two labels (multiplicities 1, 3, 20), all count vectors over the words of length 3, the exact frequencies of small models for traces of up to 6 steps, every order and splitting of the entries, traces longer than the recursion limit, pairs of branches that agree for up to 2 (3) steps before they differ (counts to 4000), '
            'x compatibility parameters from no merge to very permissive, with and without the initial label: the real Alergia against an independent state-merging reference, up to the numbering of the states (normal form of the deterministic automaton). '
            'Non-trivial: distinct automata, merges performed.')
    assumptions = ["the label 'init' occurs only at the beginning of the traces, in all or in none", 'compatibility tests within 1e-9 of the bound are not compared', 'at least one trace is not empty']

    def families(self, tier):
        T = tier == 'thorough'
        W = [''.join(w) for w in words('ab', 1, 3)]
        mult = (1, 3, 20)
        yield 'small', ((tuple(zip(ws, ms)), e, p) for k in (1, 2, 3) for j, ws in enumerate(itertools.combinations(W, k)) for ms in itertools.product(mult, repeat=k) for e in (EPS if T or k < 3 else (2.0, 0.5, 0.000005)) for p in ((0, 1) if T or k < 2 else (0,)))
        W3 = [''.join(w) for w in words('ab', 3, 3)]
        yield 'counts', ((tuple((w, c) for w, c in zip(W3, cs) if c), e, 0) for j, cs in enumerate(itertools.product((0, 1, 12, 40), repeat=8)) if any(cs) and (keep(j, 2 if T else 20)) for e in (EPS if T else (0.5, 0.000005)))
        V = [''.join(w) for w in words('abc', 2, 2)]
        yield 'three', ((tuple((w, c) for w, c in zip(V, cs) if c), e, p) for j, cs in enumerate(itertools.product((0, 2, 30), repeat=9)) if any(cs) and keep(j, 1 if T else 8) for e in ((1.0, 0.1) if not T else EPS) for p in (0, 1))
        yield 'exact', ((i, L, s, e) for i in range(len(MODELS)) for L in range(1, 8 if T else 6) for s in (1, 7) for e in EPS)
        # states that agree for a while and differ further down; every pattern of labels in between
        yield 'deep', ((w, v, t, n, e) for k in range(0, 4 if T else 3) for w in itertools.product('abx', repeat=k) for v in itertools.product('abx', repeat=k) if w == v or T or k < 2 for t in ('bc', 'bb', 'ac', ('b', 'bc'), ('', 'a')) for n in ((40, 40), (4000, 4000), (3000, 40), (5, 4000)) for e in ((0.5, 0.05) if not T else EPS))
        yield 'order', ((ws, perm, split, e) for ws in ((('aab', 3), ('aba', 20), ('b', 1)), (('abab', 5), ('aa', 12), ('abb', 12), ('b', 2)), (('ab', 1), ('abba', 30), ('bb', 4), ('a', 9))) for perm in itertools.permutations(range(len(ws))) for split in range(3) for e in (2.0, 0.1))
        yield 'labels', ((ws, e) for ws in ((('a', 'aa', 'a'), ('aa', 'a')), (('Z', 'b', ' x y'), ('Z', 'B')), (('10', '9', '10'), ('9', '9')), (('init2', 'a'), ('a', 'init2'))) for e in EPS)
        # traces longer than the recursion limit of Python
        yield 'long', ((L, k) for L in ((1100,) if not T else (1100, 4000)) for k in range(4))
        yield 'chain', ((L, e) for L in ((20, 40) if not T else (20, 60, 150, 300)) for e in EPS)

    def check(self, items, e, pre, st, S=None, what=None):
        ja, np = api(), np_()
        items = [((['init'] if pre else []) + list(w), t) for w, t in items]
        exp, amb, k = merge.alergia(items, e)
        if amb:
            st.note('skipped: on the bound')
            return
        S = S or ja.Set([list(w) for w, _ in items], [t for _, t in items], 0)
        before = (S.type, [list(q) for q in S.sequences], [int(t) for t in S.times], type(S.times))
        m = ja.Alergia().fit(S, e, stormpy_output=False)
        st.step()
        need(before == (S.type, [list(q) for q in S.sequences], [int(t) for t in S.times], type(S.times)), 'the training set was modified')
        need(type(m) == ja.MC, lambda: 'a %s was returned' % type(m))
        M, lab = np.array(m.matrix, dtype=float), list(m.labelling)
        need(lab.count('init') == 1, lambda: 'labels %s' % lab)
        start = lab.index('init')
        need(m.initial_state.tolist() == [float(i == start) for i in range(len(lab))], 'initial distribution')
        # normal form
        order, num = [start], 0
        for n, s in enumerate(order):
            need(n < len(exp), lambda: '%d states expected %d, in %s at %s' % (len(order), len(exp), items, e))
            lb, row = exp[n]
            row = row.get(None, {})
            need(lab[s] == lb, lambda: 'label %s expected %s' % (lab[s], lb))
            succ = {}
            for t in np.nonzero(M[s])[0].tolist():
                need(lab[t] not in succ, lambda: 'not deterministic: state %d has several successors %s' % (s, lab[t]))
                succ[lab[t]] = t
            need(set(succ) == set(row), lambda: 'successors of the state reached by ... %s: %s expected %s for %s at %s' % (lb, succ, row, items, e))
            for o in sorted(succ):
                if succ[o] not in order:
                    order.append(succ[o])
                need(order.index(succ[o]) == row[o][0], lambda: 'merged differently: %s at %s' % (items, e))
                need(close(M[s][succ[o]], row[o][1] / row[o][2], 1e-9, 0), lambda: 'probability %s -> %s: %s expected %s/%s for %s at %s' % (lb, o, M[s][succ[o]], row[o][1], row[o][2], items, e))
        need(len(order) == len(exp) == m.nb_states, lambda: '%d states (%d reachable), expected %d' % (m.nb_states, len(order), len(exp)))
        # training traces are possible and weigh what the frequencies say
        tot = F(0)
        num = 0.0
        for w, t in items:
            if not pre:
                w = ['init'] + w
            s, p = 0, F(1)
            for o in w[1:]:
                j, c, n = exp[s][1][None][o]
                p *= F(c, n)
                s = j
            tot += t
            num += t * ref.flog(p)
        ll = m.logLikelihood(ja.Set([w if pre else ['init'] + w for w, _ in items], [t for _, t in items], 0))
        need(close(ll, num / float(tot), 1e-9), lambda: 'likelihood of the training set %s expected %s' % (ll, num / float(tot)))
        for w, t in items:
            l1 = m.logLikelihood(ja.Set([w if pre else ['init'] + w], [1], 0))
            if len(w) + (not pre) > 1:
                s, p = 0, F(1)
                for o in (w[1:] if pre else w):
                    j, c, n = exp[s][1][None][o]
                    p *= F(c, n)
                    s = j
                need(close(l1, ref.flog(p), 1e-9), lambda: 'likelihood of %s: %s expected %s' % (w, l1, p))
        st.note('merges', k)
        st.outcome(repr(exp))
        return m

    def run(self, fam, case, st):
        ja, np = api(), np_()
        if fam == 'long':
            L, k = case
            w = list('ab' * (L // 2))
            ws = [(w, 3)] if k == 0 else [(w, 5), (w[:-1] + ['c'], 4)] if k == 1 else [(w, 30), (list('b' + 'ab' * (L // 2)), 20)] if k == 2 else [(list('abc' * (L // 3)), 7), (list('abc' * (L // 3 - 10)) + ['c'], 2)]
            self.check(ws, 0.5, k != 1, st)
            return
        if fam in ('small', 'counts', 'three'):
            ws, e, p = case
            self.check(ws, e, not p, st)
        elif fam == 'exact':
            i, L, s, e = case
            items = expected_counts(*MODELS[i], L, s)
            self.check([(w[1:], t) for w, t in items], e, True, st)
        elif fam == 'order':
            ws, perm, split, e = case
            items = [(['init'] + list(ws[i][0]), ws[i][1]) for i in perm]
            if split == 0:
                S = ja.Set([list(w) for w, _ in items], [t for _, t in items], 0)
            elif split == 1:
                # every trace given twice, with different multiplicities
                ent = [(w, 1) for w, t in items] + [(w, t - 1) for w, t in reversed(items) if t > 1]
                S = ja.Set([list(w) for w, _ in ent], [t for _, t in ent], 0)
            else:
                S = ja.Set([list(w) for w, t in items for _ in range(t)])
            self.check([(list(ws[i][0]), ws[i][1]) for i in perm], e, True, st, S)
            # the same object can be used again
            al = ja.Alergia()
            a = al.fit(S, e, stormpy_output=False)
            al.fit(ja.Set([['init', 'z', 'z'], ['init', 'a']], [3, 4], 0), 0.3, stormpy_output=False)
            b = al.fit(S, e, stormpy_output=False)
            need(zoo.snap(a) == zoo.snap(b), 'a second use gives another model')
            # without Storm the native model is returned whatever is asked
            with without_storm():
                b = ja.Alergia().fit(S, e)
                need(zoo.snap(a) == zoo.snap(b), 'another model without Storm')
            # the default result is the same model for Storm, and the Prism file holds it
            f = self.scratch + '/al.sm'
            b = ja.Alergia().fit(S, e, output_file_prism=f)
            need(type(b).__module__.startswith('stormpy'), lambda: 'Storm output: %s' % type(b))
            check_storm(a, b, 'Storm output')
            equal_iso(view(a), view(ja.loadPrism(f)), 'the Prism file')
            b = ja.Alergia().fit(S, e, stormpy_output=False, output_file_prism=f)
            need(zoo.snap(a) == zoo.snap(b), 'writing a Prism file changes the model')
            equal_iso(view(a), view(ja.loadPrism(f)), 'the Prism file')
            st.step(3)
        elif fam == 'deep':
            w, v, t, n, e = case
            self.check([(('x',) + w + tuple(t[0]), n[0]), (('y',) + v + tuple(t[1]), n[1])], e, True, st)
            self.check([(('x',) + w + tuple(t[0]), n[0]), (('y',) + v + tuple(t[1]), n[1]), (('a',) + w + tuple(t[1]), n[1] // 3), (('y',), n[0] // 2)], e, True, st)
        elif fam == 'labels':
            ws, e = case
            self.check([(list(w), k + 1) for k, w in enumerate(ws)], e, True, st)
            self.check([(list(w), k + 1) for k, w in enumerate(ws)], e, False, st)
        else:
            L, e = case
            self.check([(['ab'[k % 3 == 0] for k in range(L)], 5), (['ab'[k % 2] for k in range(L)], 3)], e, True, st)


CHECK = C19()
