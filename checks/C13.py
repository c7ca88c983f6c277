import itertools
from collections import Counter
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo

# per kind: (type, universe of traces)
U = {
    'labels': (0, [['init', 'a'], ['init', 'a', 'b'], ['init'], ["it's", 'a\n"b\\', 'é,[1]'], ['1', '2.0', 'None'], ['b', 'a', 'a', 'a', 'b']]),
    'mdp': (1, [['init', 'l', 'a'], ['init', 'r', 'a', 'l', 'init'], ['init', 'l', 'b'], ['a', "a'ct", 'b'], ['l', 'a', 'l'], ['init', 'l', 'a', 'l', 'a', 'l', 'a']]),
    'vectors': (3, [[[0.5, 1.0], [2.0, -3.0]], [[0.5, 1.0]], [[0.1 + 0.2, 1e-17]], [[1.0, 0.5]], [[2.0, -3.0], [0.5, 1.0]], [[-0.0, 123456789.123456789]]]),
    'timed': (4, [['init', 0.5, 'a'], ['init', 0.5, 'a', 0.25, 'b'], ['init', 0.1 + 0.2, 'a'], ['init', 1e-300, "it's"], ['init', 3, 'b'], ['a', 0.25, 'a', 0.5, 'init']]),
}
# initial and merged sets: (indexes, multiplicities); None: built from a plain list
SETS = [((0, 1), (1, 2)), ((1,), (4,)), ((2, 0, 3), (1, 1, 7)), ((4, 5, 1), (2, 3, 100000)), ((), ()), ((0, 1, 0), (2, 1, 3)), ((3, 3, 0, 5), None), ((5, 4, 3, 2, 1, 0), (1, 1, 1, 1, 1, 1))]
OPS = [('add', j) for j in range(8)] + [('self',), ('sort',), ('list',), ('save',), ('bad',), ('copy',)]


def key(t, s):
    return repr([float(x) if isinstance(x, (int, float)) else x for x in s]) if t != 3 else repr([[float(y) for y in x] for x in s])


class C13(Check):
    id = 'C13'
    rule = ('breadth first over operation histories (merge with each of 8 sets, merge with itself, sort, list and rebuild, save and load, merge with a set of another kind, copy) from 8 initial sets of each of the 4 kinds of traces, '
            'up to depth 3 (thorough 4), against a Counter: after every operation contents, multiplicities, alphabet, actions, equality with every permuted/perturbed reconstruction, and the sets merged in unchanged. '
            'Traces given as tuples, arrays or with numpy numbers. Canonical states are the Counters with the entry order. Non-trivial: distinct multisets reached.')
    assumptions = ['positive multiplicities', 'finite dwell times']

    def families(self, tier):
        T = tier == 'thorough'
        d = 4 if T else 3
        # one case = one history; prefixes are shared only logically, every history is executed from scratch
        yield 'history', ((k, i, h) for n in range(0, d + 1) for k in U for i in range(8) for h in itertools.product(range(len(OPS)), repeat=n))
        yield 'equal', ((k, a, b) for k in U for a in itertools.product(range(3), repeat=3) for b in itertools.product(range(3), repeat=3))
        yield 'kinds', ((a, b) for a in U for b in U)
        yield 'guess', ((k, p) for k in U for p in range(720))
        yield 'form', ((k, p, f) for k in U for p in range(0, 720, 1 if T else 8) for f in ('tuple', 'mixed', 'array', 'numpy'))
        yield 'file', ((a, i, b, j) for a in U for b in U for i in range(8) for j in range(8))

    def mk(self, kind, i, st):
        t, u = U[kind]
        idx, mult = SETS[i]
        ja = api()
        st.step()
        if mult is None:
            return ja.Set([list(u[x]) for x in idx], t=t), Counter(key(t, u[x]) for x in idx)
        c = Counter()
        for x, m in zip(idx, mult):
            c[key(t, u[x])] += m
        return ja.Set([list(u[x]) for x in idx], list(mult), t), c

    def contents(self, s):
        c = Counter()
        need(len(s.sequences) == len(s.times), 'sequences and times have different lengths')
        for q, m in zip(s.sequences, s.times):
            need(int(m) == m, lambda: 'multiplicity %r' % m)
            c[key(s.type, q)] += int(m)
        return c

    def check(self, s, kind, c, st, what):
        t, u = U[kind]
        need(s.type == t, lambda: 'type became %r: %s' % (s.type, what))
        got = self.contents(s)
        need(got == c, lambda: 'the set contains %s expected %s: %s' % (dict(got), dict(c), what))
        tr = [x for x in u if c[key(t, x)]]
        al = s.getAlphabet()
        if t == 3:
            exp = set()
        elif t == 0:
            exp = {o for x in tr for o in x}
        else:
            exp = {o for x in tr for o in x[0::2]}
        need(sorted(al) == sorted(exp), lambda: 'alphabet %s expected %s: %s' % (al, exp, what))
        if t == 1:
            acts, obs = s.getActionsObservations()
            need(sorted(acts) == sorted({o for x in tr for o in x[1::2]}) and sorted(obs) == sorted(exp), lambda: 'actions/observations %s %s: %s' % (acts, obs, what))
        st.step(2)

    def history(self, case, st):
        ja = api()
        kind, i, h = case
        s, c = self.mk(kind, i, st)
        t, u = U[kind]
        trail = ['Set%d' % i]
        self.check(s, kind, c, st, trail)
        for o in h:
            op = OPS[o]
            trail.append(op)
            st.step()
            if op[0] == 'add':
                s2, c2 = self.mk(kind, op[1], st)
                before = self.contents(s2)
                r = s.addSet(s2)
                c = c + c2
                need(self.contents(s2) == before, lambda: 'the set merged in changed: %s' % trail)
                # what is merged in is not shared: further merges in s leave s2 alone
                s3, c3 = self.mk(kind, 7, st)
                f = ja.Set(list(s.sequences), list(s.times), t)
                f.addSet(s3)
                need(self.contents(s2) == before, lambda: 'the set merged in changed later: %s' % trail)
            elif op[0] == 'self':
                s.addSet(s)
                c = Counter({k: 2 * v for k, v in c.items()})
            elif op[0] == 'sort':
                s.sort()
                need(all(s.sequences[j] <= s.sequences[j + 1] for j in range(len(s.sequences) - 1)), lambda: 'not sorted: %s %s' % (s.sequences, trail))
            elif op[0] == 'list':
                if sum(c.values()) > 5000:
                    continue
                l = s.to_list()
                need(Counter(key(t, x) for x in l) == c, lambda: 'to_list gives %s: %s' % (Counter(map(str, l)), trail))
                need(self.contents(s) == c, lambda: 'listing changed the set: %s' % trail)
                l2 = s.to_list()
                l.append('marker')
                need(self.contents(s) == c, lambda: 'the list is shared with the set: %s' % trail)
                l.pop()
                need(Counter(key(t, x) for x in l2) == c and Counter(key(t, x) for x in s.to_list()) == c, lambda: 'listed a second time: %s' % trail)
                s = ja.Set(l2, t=t)
            elif op[0] == 'save':
                f = self.scratch + '/s.txt'
                s.save(f)
                self.check(s, kind, c, st, trail + ['(the saved one)'])
                s2 = ja.loadSet(f)
                need(s.isEqual(s2) and s2.isEqual(s), lambda: 'loaded set not equal to the saved one: %s' % trail)
                s = s2
            elif op[0] == 'bad':
                other = [k for k in U if k != kind][len(trail) % 3]
                s2, c2 = self.mk(other, 0, st)
                try:
                    s.addSet(s2)
                    raise Violation('merging a set of kind %s was accepted: %s' % (other, trail))
                except TypeError:
                    pass
                need(self.contents(s2) == c2, lambda: 'refused merge changed the other set: %s' % trail)
                need(not s.isEqual(s2) or not c, lambda: 'equal to a set of another kind: %s' % trail)
            elif op[0] == 'copy':
                # two sets built from one list are independent
                l = list(s.sequences)
                m = list(s.times)
                a, b = ja.Set(l, m, t), ja.Set(l, m, t)
                x, cx = self.mk(kind, 7, st)
                b.addSet(x)
                need(self.contents(a) == c, lambda: 'sets built from the same list are not independent: %s' % trail)
                need(self.contents(b) == c + cx, lambda: 'merge in a copy: %s' % trail)
                s = a
            self.check(s, kind, c, st, trail)
            st.state((kind, tuple(sorted(c.items())), tuple(key(t, q) for q in s.sequences)))
        # equality against reconstructions
        ent = [(x, c[key(t, x)]) for x in u if c[key(t, x)]]
        for order in (ent, ent[::-1], ent[1:] + ent[:1]):
            e = ja.Set([list(x) for x, _ in order], [m for _, m in order], t)
            need(s.isEqual(e) and e.isEqual(s), lambda: 'not equal to the same multiset in another order: %s' % trail)
            st.step(2)
        for j in range(len(ent)):
            m = [v for _, v in ent]
            m[j] += 1
            e = ja.Set([list(x) for x, _ in ent], m, t)
            need(not s.isEqual(e) and not e.isEqual(s), lambda: 'equal although a multiplicity differs: %s' % trail)
            if len(ent) > 1:
                m[(j + 1) % len(ent)] -= 1
                if m[(j + 1) % len(ent)] > 0:
                    e = ja.Set([list(x) for x, _ in ent], m, t)
                    need(not s.isEqual(e) and not e.isEqual(s), lambda: 'equal although multiplicities differ: %s' % trail)
            new = [x for x in u if not c[key(t, x)]]
            if new:
                q = [list(x) for x, _ in ent]
                q[j] = list(new[0])
                e = ja.Set(q, [v for _, v in ent], t)
                need(not s.isEqual(e) and not e.isEqual(s), lambda: 'equal although a trace differs: %s' % trail)
            st.step(2)
        st.outcome((kind, tuple(sorted(c.items()))))

    def run(self, fam, case, st):
        ja = api()
        if fam == 'history':
            self.history(case, st)
        elif fam == 'equal':
            k, a, b = case
            t, u = U[k]
            sets = []
            for m in (a, b):
                idx = [i for i in range(3) if m[i]]
                sets.append(ja.Set([list(u[i]) for i in idx], [m[i] for i in idx], t))
            x, y = sets
            need(x.isEqual(y) == (a == b) and y.isEqual(x) == (a == b), lambda: 'isEqual wrong for multiplicities %s and %s of %s' % (a, b, u[:3]))
            st.step(2)
            st.outcome(case)
            x.addSet(y)
            idx = [i for i in range(3) if a[i] + b[i]]
            z = ja.Set([list(u[i]) for i in idx], [a[i] + b[i] for i in idx], t)
            need(x.isEqual(z), lambda: 'merge of %s and %s of %s' % (a, b, u[:3]))
            need(sum(z.times) == sum(a) + sum(b), 'times')
        elif fam == 'kinds':
            a, b = case
            for i in range(8):
                s1, c1 = self.mk(a, i, st)
                s2, c2 = self.mk(b, (i + 3) % 8, st)
                if a == b:
                    s1.addSet(s2)
                    c1 = c1 + c2
                else:
                    try:
                        s1.addSet(s2)
                        raise Violation('merging %s and %s accepted' % case)
                    except TypeError:
                        pass
                self.check(s1, a, c1, st, case)
                self.check(s2, b, c2, st, case)
                st.outcome((case, i))
        elif fam == 'guess':
            # kind recognised from the data, whatever trace comes first (all have at least two elements)
            k, p = case
            t, u = U[k]
            o = list(itertools.permutations(range(6)))[p]
            tr = [list(u[x]) for x in o if len(u[x]) > 1]
            if k == 'timed':
                tr = [x for x in tr if not any(type(y) == int for y in x)]
            s = ja.Set(tr + tr[:2])
            e = 0 if k == 'mdp' else t
            need(s.type == e, lambda: 'kind %r recognised for %s' % (s.type, tr))
            need(Counter({key(t, q): int(m) for q, m in zip(s.sequences, s.times)}) == Counter(key(t, x) for x in tr + tr[:2]), lambda: 'contents of Set(%s)' % tr)
            st.step()
            st.outcome((k, p))
        elif fam == 'form':
            # the same traces given as tuples, partly as tuples, in an array of objects, or with numpy numbers
            k, p, f = case
            np = np_()
            t, u = U[k]
            o = list(itertools.permutations(range(6)))[p]
            tr = [list(u[x]) for x in o if len(u[x]) > 1]
            if k == 'timed':
                tr = [x for x in tr if not any(type(y) == int for y in x)]
            data = tr + tr[:2] + tr[1:3]
            want = Counter(key(t, x) for x in data)
            num = lambda y: np.float64(y) if type(y) == float else ([np.float64(z) for z in y] if type(y) == list else y)
            if f == 'tuple':
                given = [tuple(x) for x in data]
            elif f == 'mixed':
                given = [tuple(x) if i >= len(tr) else list(x) for i, x in enumerate(data)]
            elif f == 'array':
                given = np.empty(len(data), dtype=object)
                for i, x in enumerate(data):
                    given[i] = list(x)
            else:
                given = [[num(y) for y in x] for x in data]
            s = ja.Set(given)
            e = 0 if k == 'mdp' else t
            need(s.type == e, lambda: 'kind %r recognised for %s' % (s.type, given))
            need(Counter({key(t, q): int(m) for q, m in zip(s.sequences, s.times)}) == want and len(s.sequences) == len(want), lambda: 'contents of Set(%s): %s %s' % (given, s.sequences, s.times))
            s.addSet(ja.Set([list(x) for x in tr], t=e))
            want.update(key(t, x) for x in tr)
            need(Counter({key(t, q): int(m) for q, m in zip(s.sequences, s.times)}) == want and len(s.sequences) == len(want), lambda: 'merge into Set(%s): %s %s' % (given, s.sequences, s.times))
            if k != 'mdp':
                s.save(self.scratch + '/g.txt')
                q = ja.loadSet(self.scratch + '/g.txt')
                need(q.isEqual(s) and s.isEqual(q), lambda: 'saving and loading Set(%s): %s' % (given, q.sequences))
            st.step(3)
            st.outcome(case)
        elif fam == 'file':
            # overwriting the file of another set
            a, i, b, j = case
            f = self.scratch + '/f.txt'
            s1, c1 = self.mk(a, i, st)
            s2, c2 = self.mk(b, j, st)
            s1.save(f)
            s2.save(f)
            self.check(ja.loadSet(f), b, c2, st, case)
            s1.save(f)
            self.check(ja.loadSet(f), a, c1, st, case)
            st.outcome((case))


CHECK = C13()
