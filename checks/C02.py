import itertools
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo, tiny
from mc import ref
from checks.C01 import SER

ACTS = ('A', 'B')


def act_rows(n, d):
    return list(dists(n, d)) + [tuple([0] * n)]


class C02(Check):
    id = 'C02'
    rule = ('all MDPs with 2 labelled states + init, 2 actions, rows in a denominator-2 grid or disabled (sub-grid for the initial state), all labellings '
            'over {a,b}; all observation/action traces with up to 2 actions (plus unknown action/label), multiplicity vectors over trace triples, both '
            'evaluation paths; scaling families. Probabilities down to far below the smallest double (known findings). Histories: answers after queries, learning rounds and uses of another model equal those of the same model rebuilt. Non-trivial: distinct values.')
    assumptions = ['floating point agreement to 1e-8 relative']

    def families(self, tier):
        T = tier == 'thorough'
        # probabilities from 1e-60 to far below the smallest double
        yield 'tiny', ((k, L, plat) for k in ('mdp',) for L in tiny.lengths(k) for plat in (None, 'darwin'))
        # the answers after histories of queries and of learning rounds
        yield 'after', ((k, i, q) for k in ('mdp',) for i in range(len(zoo.ZOO[k])) for q in zoo.AFTER if T or len(q) < 3 or True)
        r = [(2, 0, 0), (0, 2, 0), (1, 1, 0), (0, 1, 1), (0, 0, 0)]
        ini = [((2, 0, 0), (2, 0, 0)), ((1, 1, 0), (0, 2, 0)), ((0, 0, 0), (1, 0, 1))]

        def models():
            i = 0
            for labs in itertools.product('ab', repeat=2):
                for rows in itertools.product(r, repeat=4):
                    for it in ini:
                        i += 1
                        if T or keep(i, 3):
                            yield (labs + ('init',), ACTS, (rows[:2], rows[2:], it), 2)
        yield 'mdp3', models()

        def sets():
            for labs in itertools.product('ab', repeat=2):
                for i, rows in enumerate(itertools.product(r, repeat=4)):
                    if T or keep(i, 23):
                        yield (labs + ('init',), ACTS, (rows[:2], rows[2:], ini[i % 3]), 2)
        def skew():
            i = 0
            for D in (10 ** 4, 10 ** 9, 10 ** 14):
                r = [(D - 1, 1, 0), (1, D - 1, 0), (D - 2, 1, 1), (1, 0, D - 1), (0, 0, 0)]
                for rows in itertools.product(r, repeat=4):
                    for it in (((D - 1, 1, 0), (D, 0, 0)), ((1, D - 1, 0), (0, 0, 0))):
                        i += 1
                        if T or keep(i, 7):
                            yield (('a', 'b' if i % 3 else 'a', 'init'), ACTS, (rows[:2], rows[2:], it), D)
        yield 'mdp_skew', skew()
        yield 'mdp_sets', sets()
        yield 'mdp_scale', ((n, a) for n in range(1, 11) for a in range(1, 6))

    def cmp(self, model, seqs, times, exp, st, what):
        for plat in SER:
            with platform_(plat):
                got = model.logLikelihood(mk_set(seqs, times, 1))
            st.step()
            need(close(got, exp), lambda: 'logLikelihood(%s)=%r expected %r [%s] %s' % (list(zip(seqs, times)), got, exp, plat or 'linux', what))
        st.outcome(round(exp, 9))

    def run(self, fam, case, st):
        if fam == 'after':
            zoo.after(*case, st, only='loglikelihood')
            return
        if fam == 'tiny':
            tiny.likelihood(*case, st)
            return
        if fam == 'mdp_scale':
            n, na = case
            acts = tuple('act%d' % i for i in range(na))
            d = n * (n + 1) // 2
            rows = []
            for s in range(n):
                rs = []
                for a in range(na):
                    if (s + a) % 4 == 3:
                        rs.append((0,) * (n + 1))
                    else:
                        rs.append(tuple((s + a + j) % n + 1 for j in range(n)) + (0,))
                rows.append(tuple(rs))
            rows.append(tuple((d,) + (0,) * n for a in range(na)))
            labels = tuple('l%d' % (s % 3) for s in range(n)) + ('init',)
            desc = (labels, acts, tuple(rows), d)
            P = [ref.fracs(x, d) for x in rows]
            m = mk_mdp(desc)
            trs = []
            for L in (0, 1, 3, 9, 25):
                tr, s = ['init'], 0
                for j in range(L):
                    if j == 0:
                        tr += [acts[L % na], labels[0]]
                        s = 0
                    else:
                        ok = [a for a in range(na) if sum(P[s][a]) > 0]
                        if not ok:
                            break
                        a = ok[(j * 5 + L) % len(ok)]
                        s = (s + j) % n
                        tr += [acts[a], labels[s]]
                trs.append(tr)
            pr = [ref.mdp_prob(labels, list(acts), P, t) for t in trs]
            st.note('scale_possible', sum(p > 0 for p in pr))
            for perm in ((0, 1, 2, 3, 4), (4, 2, 3, 1, 0)):
                S = [trs[i] for i in perm]
                U = [i for k, i in enumerate(perm) if trs[i] not in [trs[j] for j in perm[:k]]]
                self.cmp(m, [trs[i] for i in U], [i + 2 for i in U], ref.wmean([pr[i] for i in U], [i + 2 for i in U]), st, case)
            return
        labels, acts, rows, d = case
        P = [ref.fracs(x, d) for x in rows]
        m = mk_mdp(case)
        if fam in ('mdp3', 'mdp_skew'):
            imp, pos = [['zz'], ['init', 'C', 'a'], ['init', 'A', 'zz']], []
            tr = [['init']] + [['init', x, o] for x in ACTS for o in ('a', 'b', 'init')]
            tr += [['init', x, o, y, q] for x in ACTS for o in 'ab' for y in ACTS for q in 'ab']
            tr += [['init', 'A', 'a', 'B', 'b', 'A', 'a'], ['init', 'B', 'b', 'B', 'a', 'A', 'a'], ['a', 'A', 'b'], ['init', 'A', 'a', 'A', 'a', 'A', 'a', 'B', 'b']]
            for w in tr:
                p = ref.mdp_prob(labels, list(acts), P, w)
                if p > 0:
                    pos.append(w)
                    self.cmp(m, [w], [1], ref.flog(p), st, case)
                else:
                    imp.append(w)
            w = pos[-1]
            lp = ref.flog(ref.mdp_prob(labels, list(acts), P, w))
            for v in imp[::3]:
                self.cmp(m, [v, w], [3, 2], 2 * lp / 5, st, case)
        else:
            tri = [['init'], ['init', 'A', 'a'], ['init', 'A', 'a', 'A', 'b'], ['init', 'B', 'a', 'A', 'b'], ['init', 'A', 'a', 'B', 'b']]
            pr = [ref.mdp_prob(labels, list(acts), P, w) for w in tri]
            for mult in multisets(5, 2):
                idx = [i for i in range(5) if mult[i]]
                idx = idx[1:] + idx[:1]
                if any(pr[i] for i in idx):
                    self.cmp(m, [tri[i] for i in idx], [mult[i] for i in idx], ref.wmean([pr[i] for i in idx], [mult[i] for i in idx]), st, case)
            for i, j in itertools.permutations(range(5), 2):    # a trace listed several times
                if pr[i]:
                    self.cmp(m, [tri[i], tri[j], list(tri[i])], [2, 1, 5], ref.wmean([pr[i], pr[j]], [7, 1]), st, case)


CHECK = C02()
