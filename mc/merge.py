"""State merging (Alergia and IOAlergia) written from the published description on plain dictionaries."""
import math, sys


def bound_ok(f1, n1, f2, n2, eps, amb):
    d = abs(f1 / n1 - f2 / n2)
    b = (math.sqrt(1 / n1) + math.sqrt(1 / n2)) * math.sqrt(0.5 * math.log(2 / eps))
    if b > 0 and abs(d - b) < 1e-9:
        amb.append((f1, n1, f2, n2))
    return d < b


class Aut:
    """deterministic frequency automaton: state -> input -> output -> [target, count]"""

    def __init__(self):
        self.obs, self.out, self.key = [], [], []

    def node(self, obs, key):
        self.obs.append(obs)
        self.out.append({})
        self.key.append(key)
        return len(self.obs) - 1

    def tree(self, root, items, start):
        """items: (list of (input, output), multiplicity)"""
        for w, t in items:
            n = root
            for k, (i, o) in enumerate(w):
                row = self.out[n].setdefault(i, {})
                if o not in row:
                    row[o] = [self.node(o, self.key[n] + ((i, o) if i is not None else (o,))), 0]
                row[o][1] += t
                n = row[o][0]

    def compatible(self, r, b, eps, amb):
        if self.obs[r] != self.obs[b]:
            return False
        for i in set(self.out[r]) & set(self.out[b]):
            R, B = self.out[r][i], self.out[b][i]
            n1, n2 = sum(c for _, c in R.values()), sum(c for _, c in B.values())
            for o in set(R) | set(B):
                if not bound_ok(R[o][1] if o in R else 0, n1, B[o][1] if o in B else 0, n2, eps, amb):
                    return False
            for o in set(R) & set(B):
                if not self.compatible(R[o][0], B[o][0], eps, amb):
                    return False
        return True

    def fold(self, r, b):
        for i, row in self.out[b].items():
            for o, (t, c) in row.items():
                R = self.out[r].setdefault(i, {})
                if o in R:
                    R[o][1] += c
                    self.fold(R[o][0], t)
                else:
                    R[o] = [t, c]

    def merge(self, r, b):
        for row in self.out:
            for R in row.values():
                for x in R.values():
                    if x[0] == b:
                        x[0] = r
        self.fold(r, b)

    def learn(self, red, eps, pick):
        lim = sys.getrecursionlimit()
        sys.setrecursionlimit(100000)       # this reference is recursive; the code under test keeps its own limit
        try:
            return self._learn(red, eps, pick)
        finally:
            sys.setrecursionlimit(lim)

    def _learn(self, red, eps, pick):
        """returns the red states and the compatibility tests too close to the bound to be decided in floating point"""
        amb, merged = [], 0
        while True:
            blue = []
            for r in red:
                for i in sorted(self.out[r], key=str):
                    for o in sorted(self.out[r][i]):
                        t = self.out[r][i][o][0]
                        if t not in red and t not in blue:
                            blue.append(t)
            if not blue:
                return red, amb, merged
            b = pick(blue)
            for r in red:
                if self.compatible(r, b, eps, amb):
                    self.merge(r, b)
                    merged += 1
                    break
            else:
                red = red + [b]

    def canon(self, start):
        """breadth first normal form: [(label, {input: {output: (number, count, total)}})]"""
        order, res = [start], []
        for n in order:
            d = {}
            for i in sorted(self.out[n], key=str):
                tot = sum(c for _, c in self.out[n][i].values())
                for o in sorted(self.out[n][i]):
                    t, c = self.out[n][i][o]
                    if t not in order:
                        order.append(t)
                    d.setdefault(i, {})[o] = (order.index(t), c, tot)
            res.append((self.obs[n], d))
        return res


def alergia(items, eps):
    """items: (list of labels, multiplicity).  Root label '' stands for the beginning of the traces."""
    A = Aut()
    root = A.node('', ())
    A.tree(root, [([(None, o) for o in w], t) for w, t in items], 0)
    red, amb, k = A.learn([root], eps, lambda blue: blue[0])
    if all(w[0] == 'init' for w, _ in items if w):
        start = A.out[root][None]['init'][0]
    else:
        start = root
        A.obs[root] = 'init'
    return A.canon(start), amb, k


def ioalergia(items, eps):
    A = Aut()
    roots, cnt = {}, {}
    for w, t in items:
        cnt[w[0]] = cnt.get(w[0], 0) + t
    for o in sorted(cnt):
        roots[o] = A.node(o, (o,))
    for w, t in items:
        A.tree(roots[w[0]], [([(w[k], w[k + 1]) for k in range(1, len(w), 2)], t)], 0)
    acts = sorted({a for w, _ in items for a in w[1::2]})
    red, amb, k = A.learn([roots[o] for o in sorted(roots)], eps, lambda blue: min(blue, key=lambda n: A.key[n]))
    if list(roots) == ['init']:
        start = roots['init']
    else:
        start = A.node('init', ())
        for a in acts:
            A.out[start][a] = {o: [roots[o], cnt[o]] for o in roots}
    return A.canon(start), acts, amb, k
