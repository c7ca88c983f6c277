import itertools, math
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo
from checks.C04 import mk_pctmc

# labels, expressions, parameters
MODELS = {
    'prod': (('a', 'b', 'init'), (('0', 'p', '0'), ('q', '1.5', '0'), ('1.0', '2*p*q', '0')), ('p', 'q')),
    'diff': (('a', 'b', 'init'), (('0', 'p-q', '0'), ('q', '0', 'p*q'), ('1.0', '0', '0')), ('q', 'p')),
    'frac': (('a', 'a', 'init'), (('p', '1-p', '0'), ('p**2', '0', '0'), ('0', '1.0', '0')), ('p',)),
    'three': (('a', 'b', 'c', 'init'), (('0', 'p+q-r', '0.25', '0'), ('r', '0', 'p', '0'), ('0', '0', '0', '0'), ('0.5', '0.5', '0', '0')), ('p', 'r', 'q')),
    'unused': (('a', 'b', 'init'), (('0', 'p', '0'), ('q-1', '0', '0'), ('1.0', '0', '0')), ('u', 'p', 'q')),
    'quot': (('a', 'b', 'init'), (('0', 'p/(q + 3)', '0'), ('3.0', 'q', '0'), ('0', '1.0', '0')), ('p', 'q')),
    'neg': (('a', 'b', 'init'), (('0', '-p', '0'), ('2*p + 3', '0', '0'), ('1.0', '0', '0')), ('p',)),
}
START = {'none': {}, 'some': {'p': 0.75}, 'all': {'p': 0.75, 'q': 0.25, 'r': 0.5, 'u': 4.0}}
# a parameter that is exactly zero is instantiated too
ZERO = {'zero': {'p': 0.0, 'q': 0.25, 'r': 0.0}, 'zeros': {'p': 0.0, 'u': 0.0}}
ANY = dict(START, **ZERO)
VALS = (-1.0, 0.0, 0.5, 2.0)
GEN = {'p': 1.73205, 'q': 0.57722, 'r': 2.71828, 'u': 0.91597}


def ops(params, vals):
    for k in range(1, len(params) + 1):
        for sub in itertools.combinations(params, k):
            for v in itertools.product(vals, repeat=k):
                yield (sub, v)


CACHE = {}


class Ref:
    def __init__(self, name, values):
        self.labels, self.ex, self.params = MODELS[name]
        self.v = dict(values)
        if name in CACHE:
            self.e, self.f = CACHE[name]
            return
        import sympy
        self.e = [[sympy.sympify(x) for x in r] for r in self.ex]
        self.f = {}
        for r in self.e:
            for x in r:
                self.f[x] = (sorted(y.name for y in x.free_symbols), sympy.lambdify(sorted(x.free_symbols, key=lambda y: y.name), x, 'math'))
        CACHE[name] = self.e, self.f

    def val(self, x, v):
        names, f = self.f[x]
        if all(n in v for n in names):
            return float(f(*[v[n] for n in names]))
        if x.subs({n: v[n] for n in names if n in v}).is_number:
            return float(x.subs({n: v[n] for n in names if n in v}))
        return None

    def request(self, ps, vs):
        new = dict(self.v)
        new.update(zip(ps, vs))
        for r in self.e:
            for x in r:
                y = self.val(x, new)
                if y is not None and y < 0:
                    return False
        self.v = new
        return True


class C24(Check):
    id = 'C24'
    rule = ('all sequences of instantiation requests (every non-empty subset of the parameters, values from {-1,0,1/2,2}) up to depth 2 (quick tier: thinned deterministically by two; 3 in the thorough tier; 3 on a reduced value set in quick) on seven PCTMCs (products, differences, quotients, squares, '
            'unused parameters, absorbing states) from several starting instantiations (parameters at zero included), every query compared with the symbolic expressions evaluated at the accepted assignment after every request; random instantiation under every '
            'sequence of draws on a grid, with rejections; the default bounds; seeds. Non-trivial: distinct assignments and answers.')
    assumptions = ['requests name parameters of the model', 'a transition that still has an uninstantiated parameter cannot make a request invalid', 'random instantiation: bounds given, or at least two instantiated parameters (the documented defaults differ from the implemented ones)']

    def families(self, tier):
        T = tier == 'thorough'
        yield 'one', ((m, s, (o,)) for m in MODELS for s in ANY for o in ops(MODELS[m][2], VALS + (1, 1e-9, 1e6)))
        two = ((m, s, (a, b)) for m in MODELS for s in START for a in ops(MODELS[m][2], VALS if len(MODELS[m][2]) < 3 else (-1.0, 0.5) + ((2.0,) if T else ()))
                      for b in ops(MODELS[m][2], VALS if len(MODELS[m][2]) < 3 else (-1.0, 0.5) + ((2.0,) if T else ())))
        yield 'two', (x for i, x in enumerate(two) if T or keep(i, 2))
        v3 = (-1.0, 0.5, 2.0) if T else (-1.0, 0.5)
        yield 'three', ((m, s, x) for m in ('prod', 'diff', 'frac', 'neg') for s in (('none', 'all') if T else ('none',)) for x in itertools.product(list(ops(MODELS[m][2], v3)), repeat=3))
        if T:
            yield 'four', ((m, 'none', x) for m in ('diff', 'frac') for x in itertools.product(list(ops(MODELS[m][2], (-1.0, 0.5))), repeat=4))
        yield 'types', itertools.product(MODELS, range(4))
        yield 'random', ((m, s, sub, b) for m in MODELS for s in ANY for sub in [None] + [c for k in (1, 2) for c in itertools.combinations(MODELS[m][2], k)] for b in ((0.0, 1.0), (0.5, 4.0), (-1.0, 1.0), (2.0, 2.0), (None, None), (None, 3.0), (0.125, None)))
        yield 'defaults', ((m, s, pat) for m in MODELS for s in ANY for pat in itertools.product((0.05, 0.5, 0.95), repeat=2))
        yield 'seeded', ((m, s, sd) for m in MODELS for s in START for sd in (range(40) if T else (0, 1, 7)))

    def compare(self, m, ref, st, what):
        v = ref.v
        n = m.nb_states
        need(sorted(m.parameter_str) == sorted(ref.params), 'parameter names changed')
        for p in ref.params:
            x = m.parameterValue(p)
            need(x == v[p] if p in v else x != x, lambda: 'parameterValue(%s) = %r, accepted %r: %s' % (p, x, v, what))
            need(m.isInstantiated(param=p) == (p in v), lambda: 'isInstantiated(param=%s): %s' % (p, what))
        need(m.parameterValue('zz') != m.parameterValue('zz') and list(m.parameterIndexes('zz')) == [] and not m.isInstantiated(param='zz'), lambda: 'unknown parameter: %s' % (what,))
        need(m.isInstantiated() == all(p in v for p in ref.params), lambda: 'isInstantiated(): %s' % (what,))
        out = []
        for i in range(n):
            row = [ref.val(x, v) for x in ref.e[i]]
            # instantiated: every parameter the expressions mention has a value
            inst = [all(p in v for p in ref.f[x][0]) for x in ref.e[i]]
            need(m.isInstantiated(i) == all(inst), lambda: 'isInstantiated(%d): %s' % (i, what))
            for j in range(n):
                need(m.isInstantiated(i, j) == inst[j], lambda: 'isInstantiated(%d,%d): %s' % (i, j, what))
                need(sorted(m.involvedParameters(i, j)) == ref.f[ref.e[i][j]][0], lambda: 'involvedParameters(%d,%d)' % (i, j))
                a, b = m.evaluateTransition(i, j), m.transitionValue(i, j)
                lab = ref.labels[i]
                c = m.l(i, j, lab)
                if inst[j]:
                    for nm, x in (('evaluateTransition', a), ('transitionValue', b), ('l', c)):
                        need(close(x, row[j], 1e-9, 1e-12), lambda: '%s(%d,%d) = %s expected %r with %s: %s' % (nm, i, j, x, row[j], v, what))
                else:
                    full = dict(GEN)
                    full.update(v)
                    exp = ref.val(ref.e[i][j], full)
                    for nm, x in (('evaluateTransition', a), ('transitionValue', b), ('l', c)):
                        try:
                            y = float(x.subs(full)) if hasattr(x, 'subs') else float(x)
                        except Exception as e:
                            y = e
                        need(isinstance(y, float) and close(y, exp, 1e-7, 1e-9), lambda: '%s(%d,%d) = %s is not %s at %s: %s' % (nm, i, j, x, ref.e[i][j], v, what))
                # an explicit assignment is used instead of the current one
                y = m.evaluateTransition(i, j, GEN)
                need(close(y, ref.val(ref.e[i][j], GEN), 1e-9, 1e-12), lambda: 'evaluateTransition(%d,%d,given) = %s: %s' % (i, j, y, what))
                # an explicit assignment of nothing (or of some) leaves the others symbolic
                for given in ({}, {ref.params[0]: 1.25}):
                    y = m.evaluateTransition(i, j, dict(given))
                    full = dict(GEN, **given)
                    if all(p in given for p in ref.f[ref.e[i][j]][0]):
                        need(isinstance(y, float) or not y.free_symbols, lambda: 'evaluateTransition(%d,%d,%s) = %s: %s' % (i, j, given, y, what))
                    else:
                        need(hasattr(y, 'free_symbols') and {x.name for x in y.free_symbols} <= set(ref.params) - set(given), lambda: 'evaluateTransition(%d,%d,%s) = %s: %s' % (i, j, given, y, what))
                    y = float(y.subs(full)) if hasattr(y, 'subs') else float(y)
                    need(close(y, ref.val(ref.e[i][j], full), 1e-7, 1e-9), lambda: 'evaluateTransition(%d,%d,%s) = %s: %s' % (i, j, given, y, what))
                need(m.l(i, j, 'zz') == 0.0, 'rate of another label')
            if all(inst):
                e = sum(row)
                need(close(m.e(i), e, 1e-9, 1e-12), lambda: 'e(%d) = %s expected %s: %s' % (i, m.e(i), e, what))
                x = m.expected_time(i)
                need(close(x, 1 / e, 1e-9, 1e-12) if e > 0 else x == math.inf, lambda: 'expected_time(%d) = %s with exit rate %s: %s' % (i, x, e, what))
                need(close(m.lkl(i, 0.75), e * math.exp(-0.75 * e), 1e-9, 1e-12), lambda: 'lkl(%d): %s' % (i, what))
                for j in range(n):
                    x = m.tau(i, j, ref.labels[i])
                    need(close(x, row[j] / e if e > 0 else 0.0, 1e-9, 1e-12), lambda: 'tau(%d,%d) = %s: %s' % (i, j, x, what))
                out.append((e, tuple(row)))
            else:
                try:
                    x = m.e(i)
                except ValueError:
                    x = None
                need(x is None, lambda: 'e(%d) = %s although not instantiated: %s' % (i, x, what))
                # no number is made up from an incomplete valuation
                for nm, f in (('lkl', lambda: m.lkl(i, 0.75)), ('expected_time', lambda: m.expected_time(i)), ('tau', lambda: m.tau(i, 0, ref.labels[i])), ('next', lambda: m.next(i))):
                    try:
                        x = f()
                    except ValueError:
                        x = None
                    need(x is None, lambda: '%s(%d) = %s although not instantiated: %s' % (nm, i, x, what))
        if not m.isInstantiated():
            for q, t in ((['init'], 0), (['init', 'a'], 0), (['init', 0.5, 'a'], 4)):
                try:
                    x = m.logLikelihood(mk_set([q], [1], t))
                except ValueError:
                    x = None
                need(x is None, lambda: 'log-likelihood %s although not instantiated: %s' % (x, what))
        st.step()
        st.outcome((ref.params, sorted(v.items()), out))

    def run(self, fam, case, st):
        np = np_()
        if fam in ('one', 'two', 'three', 'four'):
            name, s, seq = case
            start = {k: v for k, v in ANY[s].items() if k in MODELS[name][2]}
            ref = Ref(name, start)
            if not ref.request((), ()):
                return      # not a valid starting point
            m = mk_pctmc(*MODELS[name], start)
            self.compare(m, ref, st, case)
            for ps, vs in seq:
                before = zoo.snap(m)
                exp = ref.request(ps, vs)
                pl, vl = list(ps), list(vs)
                r = m.instantiate(pl, vl)
                need(r is True or r is False, 'instantiate returned %r' % (r,))
                need(r == exp, lambda: 'request %s=%s %s (now %s): %s' % (ps, vs, 'accepted' if r else 'refused', ref.v, case))
                need((pl, vl) == (list(ps), list(vs)), 'the request was modified')
                after = zoo.snap(m)
                if not exp:
                    need(before == after, lambda: 'a refused request changed the model: %s' % (case,))
                before.pop('parameter_values')
                after.pop('parameter_values')
                need(before == after, lambda: 'a request changed more than the values: %s' % (case,))
                self.compare(m, ref, st, case)
        elif fam == 'types':
            # tuples, arrays, integers; two models never share values
            name, k = case
            ps = MODELS[name][2]
            start = {}
            m, m2 = mk_pctmc(*MODELS[name], start), mk_pctmc(*MODELS[name], start)
            ref, ref2 = Ref(name, {}), Ref(name, {})
            vs = {0: [2] * len(ps), 1: np.array([0.5] * len(ps)), 2: tuple([0.25] * len(ps)), 3: [-2] * len(ps)}[k]
            exp = ref.request(ps, [float(x) for x in vs])
            need(m.instantiate(tuple(ps) if k == 2 else list(ps), vs) == exp, lambda: 'instantiate: %s' % (case,))
            self.compare(m, ref, st, case)
            self.compare(m2, ref2, st, (case, 'another model'))
            m2.instantiate([ps[0]], [1.0])
            self.compare(m, ref, st, (case, 'after instantiating another model'))
        elif fam == 'defaults':
            # fewer than two values known: the range is a default one
            name, s, pat = case
            ps = MODELS[name][2]
            start = {k: v for k, v in ANY[s].items() if k in ps}
            if not Ref(name, start).request((), ()) or len(start) > 1:
                return
            m = mk_pctmc(*MODELS[name], start)
            seams.CTL.script([x for x in pat] * 60)
            try:
                m.randomInstantiation()
            except seams.Draw:
                return  # no draw was acceptable
            finally:
                seams.CTL.real()
            v = {k: float(x) for k, x in m.parameter_values.items()}
            need(set(v) == set(ps), lambda: 'instantiated %s: %s' % (v, case))
            ref = Ref(name, start)
            need(ref.request(list(v), list(v.values())), lambda: 'the random instantiation %s makes a rate negative: %s' % (v, case))
            for p, x in v.items():
                need(x == start[p] if p in start else 0.0 < x <= 5.0, lambda: '%s = %r: %s' % (p, x, case))
            self.compare(m, ref, st, case)
            st.step()
        elif fam == 'random':
            self.random(case, st)
        else:
            name, s, sd = case
            start = {k: v for k, v in ANY[s].items() if k in MODELS[name][2]}
            if not Ref(name, start).request((), ()):
                return
            a, b = mk_pctmc(*MODELS[name], start), mk_pctmc(*MODELS[name], start)
            lo, hi = (0.5, 2.0) if name != 'frac' else (0.0, 1.0)
            if name == 'neg':
                lo, hi = -1.0, 0.0
            if name == 'unused':
                lo, hi = 1.0, 2.0
            import random
            np.random.seed(3)
            a.randomInstantiation(min_val=lo, max_val=hi, sseed=sd)
            np.random.seed(4)
            random.random()
            b.randomInstantiation(min_val=lo, max_val=hi, sseed=sd)
            st.step(2)
            need(a.parameter_values == b.parameter_values, lambda: 'seed %d gives %s and %s' % (sd, a.parameter_values, b.parameter_values))
            need(set(a.parameter_values) == set(a.parameter_str), 'not instantiated')
            ref = Ref(name, start)
            need(ref.request(list(a.parameter_values), [float(x) for x in a.parameter_values.values()]), 'negative rate')
            for p in start:
                need(a.parameter_values[p] == start[p], 'an instantiated parameter was changed')
            self.compare(a, ref, st, case)
            st.outcome(sorted(a.parameter_values.items()))

    def random(self, case, st):
        """every sequence of draws on the grid {0.05,0.45,0.95}, pruned at 3 rejections"""
        name, s, sub, (lo, hi) = case
        ps = MODELS[name][2]
        start = {k: v for k, v in ANY[s].items() if k in ps}
        if not Ref(name, start).request((), ()):
            return
        if (lo is None or hi is None) and len(start) < 2:
            return
        want = [p for p in ps if p not in start] if sub is None else list(sub)
        blo = min(start.values()) if lo is None else lo
        bhi = max(start.values()) if hi is None else hi
        if bhi < blo:
            return
        # is there an acceptable grid point at all?  (otherwise the request cannot be satisfied on the grid)
        G = (0.05, 0.45, 0.95)
        pts = list(itertools.product(G, repeat=len(want)))
        if not any(Ref(name, start).request(want, [blo + (bhi - blo) * x for x in pt]) for pt in pts):
            return
        stack = [()]
        seen = 0
        while stack:
            pre = stack.pop()
            m = mk_pctmc(*MODELS[name], start)
            seams.CTL.script([x for pt in pre for x in pt])
            try:
                r = m.randomInstantiation(None if sub is None else list(sub), lo, hi)
            except seams.Draw:
                # all the points so far were rejected
                need(seams.CTL.pos == len(want) * len(pre), lambda: 'draws: %s' % (case,))
                ref = Ref(name, start)
                if pre:
                    need(not ref.request(want, [blo + (bhi - blo) * x for x in pre[-1]]), lambda: 'the valid draw %s was rejected: %s' % (pre, case))
                if len(pre) < 3:
                    stack += [pre + (pt,) for pt in (pts if len(pre) < 2 else pts[:4])]
                continue
            finally:
                seams.CTL.real()
            seen += 1
            st.step()
            ref = Ref(name, start)
            v = {k: float(x) for k, x in m.parameter_values.items()}
            need(set(v) == set(start) | set(want), lambda: 'instantiated %s: %s' % (v, case))
            for p, x in v.items():
                if p in want:
                    need(blo - 1e-12 <= x <= bhi + 1e-12, lambda: '%s = %r out of [%s,%s]: %s' % (p, x, blo, bhi, case))
                else:
                    need(x == start[p], lambda: '%s = %r was not to be changed: %s' % (p, x, case))
            need(ref.request(list(v), list(v.values())), lambda: 'the random instantiation %s makes a rate negative: %s' % (v, case))
            if seen <= 2:
                self.compare(m, ref, st, (case, pre))
            st.outcome((case, sorted(v.items())))
        need(seen > 0, lambda: 'no instantiation succeeded: %s' % (case,))


CHECK = C24()
