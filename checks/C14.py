import itertools, os
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import zoo

THIRD = 1 / 3
ROWS = [(THIRD, 2 / 3, 0.0), (0.1 + 0.2, 0.7, 0.0), (1e-17, 1.0, 0.0), (5e-324, 0.0, 1.0), (0.0, 0.0, 0.0), (0.9999, -0.0, 1.2345678901234567e-05), (0.1, 0.2, 0.7000000000000001)]
RATES = [(THIRD, 2e300, 0.0), (0.1 + 0.2, 0.0, 12345.678901234567), (1e-17, 5e-324, 3.0), (0.0, 0.0, 0.0), (2.5, 7.0, 1e22)]
LABS = ['a', "it's", 'q"uo\\te', 'é∀,[1] ', '', ' ', '#x\n2nd', '1.0', 'None', 'tab\t']
NAMES = ['m', 'my model', '', 'MC', "[1.0] ' \"", ' é ', 'unknown_MC']
EXPRS = ['p', 'q', 'p*q', '2*p + q', 'p**2', '0.1*p', '1/3', '0.3333333333333333*q', 'p/(q + 1)', 'sqrt(q)*0.123456789012345678', '1.5', '100.0', '0.30000000000000004', '1e-17*p', '123456789.12345678*q']
PVALS = [{'p': 0.5, 'q': 2.0}, {'p': 0.1 + 0.2}, {}, {'q': 5e-324, 'p': 1e300}, {'p': 3, 'q': 0}]
KINDS = ['mc', 'hmm', 'mdp', 'ctmc', 'gohmm', 'pctmc']
LOAD = dict(mc='loadMC', hmm='loadHMM', mdp='loadMDP', ctmc='loadCTMC', gohmm='loadGoHMM', pctmc='loadPCTMC')


def norm_rows(rows):
    return rows


def build(kind, a):
    """a literal descriptor -> model"""
    ja, np = api(), np_()
    if kind == 'mc':
        rows, labs, name = a
        return ja.MC(np.array(rows), list(labs) + ['init'], name)
    if kind == 'ctmc':
        rows, labs, name = a
        return ja.CTMC(np.array(rows), list(labs) + ['init'], name)
    if kind == 'mdp':
        rows, labs, acts, name = a
        return ja.MDP(np.array(rows), list(labs) + ['init'], list(acts), name)
    if kind == 'hmm':
        rows, outs, al, init, name = a
        return ja.HMM(np.array(rows), np.array(outs), list(al), init if type(init) == int else list(init), name)
    if kind == 'gohmm':
        from jajapy.gohmm.GoHMM import GoHMM
        rows, outs, init, name = a
        return GoHMM(np.array(rows), np.array(outs), init if type(init) == int else list(init), name)
    from checks.C04 import mk_pctmc
    labs, exprs, vals, name = a
    return mk_pctmc(list(labs) + ['init'], exprs, ['p', 'q'], vals, name)


DEF = {
    'mc': ((ROWS[0], ROWS[1], ROWS[2]), ('a', 'b'), 'one'),
    'ctmc': ((RATES[0], RATES[1], RATES[2]), ('a', 'b'), 'two'),
    'mdp': (((ROWS[0], ROWS[4]), (ROWS[1], ROWS[2]), (ROWS[2], ROWS[2])), ('a', 'b'), ('l', 'r'), 'three'),
    'hmm': ((ROWS[0], ROWS[1], ROWS[2]), (ROWS[1], ROWS[2], ROWS[0]), ('x', 'y', 'z'), (0.5, 0.25, 0.25), 'four'),
    'gohmm': ((ROWS[0], ROWS[1], ROWS[2]), (((0.1, 1.0), (0.3, 2.0)), ((THIRD, 0.5), (-7.25, 1e-9)), ((0.0, 3.0), (1e9, 1.0))), 1, 'five'),
    'pctmc': (('a', 'b'), (('0', 'p', 'q'), ('p*q', '0', '1.5'), ('1.0', '0', '0')), {'p': 0.5, 'q': 2.0}, 'six'),
}


def exprs_of(m):
    """symbolic rates by position, with the floats bit exact"""
    import sympy
    res = []
    for i in range(m.nb_states):
        for j in range(m.nb_states):
            e = m.transitionExpression(i, j)
            res.append(sympy.srepr(sympy.sympify(e).xreplace({f: sympy.Symbol('f' + float(f).hex()) for f in sympy.sympify(e).atoms(sympy.Float)})))
    return res


def same(a, b):
    """bit identical models; returns the name of the differing attribute"""
    sa, sb = zoo.snap(a), zoo.snap(b)
    if type(a) != type(b):
        return 'type'
    for k in sa:
        if k == 'alphabet' and type(a).__name__ not in ('HMM',):
            if sorted(sa[k]) != sorted(sb.get(k, ())):
                return k
        elif k in ('transition_expr', 'matrix') and type(a).__name__ == 'PCTMC':
            if exprs_of(a) != exprs_of(b):
                return 'expressions'
            if k == 'matrix' and sa[k] != sb[k]:
                return k
        elif sa[k] != sb.get(k):
            return k
    return None


class C14(Check):
    id = 'C14'
    rule = ('all rows from a palette of 7 awkward float rows, all labels from a palette of 10 awkward strings, all names, initial distributions, parameter expressions and (partial) instantiations, for the 6 kinds: save, load, compare bit exact; '
            'models produced by every constructor of the library (create, random, learned, composed, converted); all (file kind, loader) pairs; all histories of length <= 3 of saving 4 models over one path and loading back. '
            'Non-trivial: distinct saved files.')
    assumptions = ['names without line breaks', 'finite parameters']

    def families(self, tier):
        T = tier == 'thorough'
        yield 'mc', (((r + (ROWS[2],)), l, n) for r in itertools.product(ROWS, repeat=2) for l, n in ((('a', 'b'), 'm'), ((LABS[3], LABS[6]), NAMES[4])))
        yield 'mc', (((ROWS[0], ROWS[1], ROWS[2]), l, n) for l in itertools.product(LABS, repeat=2) for n in NAMES)
        yield 'ctmc', ((r, l, n) for r in itertools.product(RATES, repeat=3) for l, n in ((('a', 'b'), 'm'), ((LABS[3], LABS[6]), NAMES[4])))
        yield 'ctmc', (((RATES[0], RATES[1], RATES[2]), l, n) for l in itertools.product(LABS, repeat=2) for n in NAMES)
        yield 'mdp', ((((a, b), (c, d), (ROWS[2], ROWS[4])), l, ac, n) for a, b, c, d in itertools.product(ROWS if T else ROWS[::2], repeat=4)
                      for l, ac, n in ((('a', 'b'), ('l', 'r'), 'm'), ((LABS[1], LABS[2]), (LABS[5], LABS[3]), NAMES[2])))
        yield 'mdp', ((DEF['mdp'][0], ('a', 'b'), (x, y), n) for x in LABS for y in LABS for n in NAMES if x != y)
        yield 'hmm', (((a, b, ROWS[0]), (c, d, ROWS[1]), LABS[i:i + 3], init, n) for a, b, c, d in itertools.product(ROWS if T else ROWS[1::2], repeat=4)
                      for i, init, n in ((0, 0, 'm'), (3, (THIRD, 0.1 + 0.2, 1 - THIRD - 0.1 - 0.2), NAMES[4])))
        yield 'hmm', ((DEF['hmm'][0], DEF['hmm'][1], (x, y, 'zz'), init, n) for x in LABS for y in LABS for n in NAMES for init in (2, (0.1, 0.2, 0.7000000000000001)) if x != y)
        FL = [0.1 + 0.2, -1e-300, 123456789.123456789, 0.0, -0.0, THIRD]
        yield 'gohmm', (((a, ROWS[2], ROWS[0]), (((m1, s1), (0.5, 1.0)), ((2.0, 3.0), (m2, s2)), ((0.0, 0.1), (0.0, 1e-12))), init, n) for a in ROWS for m1 in FL for m2 in FL for s1 in (0.0, THIRD) for s2 in (1.0, 1e-300)
                        for init, n in ((1, 'm'), ((THIRD, 0.1 + 0.2, 1 - THIRD - 0.1 - 0.2), NAMES[4])))
        yield 'pctmc', ((l, ((e1, e2, '0'), ('0', e3, 'p'), ('1.0', '0', '0')), v, n) for e1 in EXPRS for e2 in EXPRS for e3 in (EXPRS if T else ['0', 'q*p']) for v in PVALS[:(5 if T else 3)] for l, n in ((('a', 'b'), 'm'),))
        yield 'pctmc', ((l, DEF['pctmc'][1], v, n) for l in itertools.product(LABS, repeat=2) for v in PVALS for n in NAMES)
        yield 'params', itertools.permutations(('p', 'beta', 'gamma', 'E', 'I', 'N', 'Q', 'S', 'pi', 'x_1', 'zeta', 'O'), 2)
        yield 'sources', range(len(SRC))
        yield 'wrong', itertools.product(KINDS, KINDS)
        yield 'history', (h for n in (1, 2, 3) for h in itertools.product(range(12), repeat=n))
        yield 'hist4', (h for h in itertools.product(range(12), repeat=4) if T)

    def roundtrip(self, m, kind, st, what, name='m.txt'):
        ja = api()
        f = self.scratch + '/' + name
        before = zoo.snap(m)
        r = m.save(f)
        need(zoo.snap(m) == before, lambda: 'saving changed the model: %s' % (what,))
        m2 = getattr(ja, LOAD[kind])(f)
        st.step(2)
        d = same(m, m2)
        need(d is None, lambda: '%s differs after saving and loading %s:\n%r\n%r' % (d, what, zoo.snap(m).get(d), zoo.snap(m2).get(d)))
        if kind != 'pctmc' or h64(what) % 8 == 0:
            try:
                x = str(m)
            except Exception:  # (C27)
                x = None
            need(x is None or str(m2) == x, lambda: 'a loaded model is not printed as the original: %s\n%s\n%s' % (what, x, m2))
        # and once more
        m2.save(f + '2')
        with open(f) as x, open(f + '2') as y:
            tx, ty = x.read(), y.read()
        need(tx == ty, lambda: 'a loaded model is not saved as the original: %s\n%s\n%s' % (what, tx, ty))
        st.outcome(tx)
        return tx

    def run(self, fam, case, st):
        ja = api()
        if fam in KINDS:
            m = build(fam, case)
            self.roundtrip(m, fam, st, case)
        elif fam == 'params':
            a, b = case
            m = ja.createPCTMC([(0, 1, '%s*%s' % case), (1, 0, '%s/(2*%s + 1)' % case), (1, 1, 0.1 + 0.2)], ['b', 'a'], [a, b], 0, {a: 0.5, b: THIRD}, [], 'c')
            need(close(m.transitionValue(0, 1), 0.5 * THIRD) and close(m.transitionValue(1, 0), 0.5 / (2 * THIRD + 1)), lambda: 'rates of a model with parameters %s' % (case,))
            self.roundtrip(m, 'pctmc', st, case)
        elif fam == 'sources':
            kind, m = SRC[case](self.scratch)
            self.roundtrip(m, kind, st, 'source %s' % SRC[case].__name__)
        elif fam == 'wrong':
            a, b = case
            m = build(a, DEF[a])
            f = self.scratch + '/w.txt'
            m.save(f)
            st.step()
            if a == b:
                need(same(m, getattr(ja, LOAD[b])(f)) is None, 'round trip')
                return
            try:
                m2 = getattr(ja, LOAD[b])(f)
            except Exception:
                st.outcome(case)
                return
            raise Violation('the file of a %s is read as a %s by %s' % (a, b, LOAD[b]))
        else:
            # 12 operations: save model k over the path (k of 6 kinds) / rename model k and save it
            f = self.scratch + '/h.txt'
            if os.path.exists(f):
                os.unlink(f)
            pool = {}
            for o in case:
                k = KINDS[o % 6]
                if k not in pool:
                    pool[k] = build(k, DEF[k])
                m = pool[k]
                if o >= 6:
                    m.rename('x' * (7 if m.name != 'xxxxxxx' else 50))
                before = zoo.snap(m)
                m.save(f)
                need(zoo.snap(m) == before, 'saving changed the model')
                m2 = getattr(ja, LOAD[k])(f)
                d = same(m, m2)
                need(d is None, lambda: '%s differs after history %s' % (d, case))
                with open(f) as x:
                    t = x.read()
                g = self.scratch + '/fresh.txt'
                if os.path.exists(g):
                    os.unlink(g)
                m.save(g)
                with open(g) as x:
                    need(x.read() == t, lambda: 'old content left in the file: %s' % (case,))
                st.step(3)
                st.state(t)
                if o % 2:
                    pool[k] = m2
            st.outcome(case)


SRC = []


def src(f):
    SRC.append(f)
    return f


@src
def create_mc(d):
    return 'mc', api().createMC([(0, 1, 1.0), (1, 0, THIRD), (1, 1, 1 - THIRD)], ['a', 'b'], [0.3, 0.7], 'n')


@src
def random_mc(d):
    return 'mc', api().MC_random(3, ['a', 'b'], sseed=3)


@src
def random_mdp(d):
    return 'mdp', api().MDP_random(3, ['a', 'b', 'c'], ['l', 'r'], sseed=3)


@src
def random_mdp_det(d):
    return 'mdp', api().MDP_random(3, ['a', 'b', 'a'], ['l', 'r'], deterministic=True, sseed=3)


@src
def create_mdp(d):
    return 'mdp', api().createMDP([(0, 'l', 1, 1.0), (1, 'r', 0, THIRD), (1, 'r', 1, 1 - THIRD)], ['a', 'b'], 0, 'n')


@src
def random_hmm(d):
    return 'hmm', api().HMM_random(3, ['x', 'y'], True, sseed=2)


@src
def random_hmm0(d):
    return 'hmm', api().HMM_random(3, ['x', 'y'], False, sseed=2)


@src
def create_hmm(d):
    return 'hmm', api().createHMM([(0, 1, 1.0), (1, 0, 0.6), (1, 1, 0.4)], [(0, 'a', 0.8), (0, 'b', 0.2), (1, 'b', 1.0)], 0, 'h')


@src
def random_gohmm(d):
    return 'gohmm', api().GoHMM_random(3, 2, True, sseed=2)


@src
def random_ctmc(d):
    return 'ctmc', api().CTMC_random(3, ['a', 'b'], 1, 5, sseed=2)


@src
def create_ctmc(d):
    return 'ctmc', api().createCTMC([(0, 1, 1.0), (1, 0, 0.3), (1, 1, 0.2)], ['b', 'a'], 0, 'c')


@src
def create_ctmc_sync(d):
    return 'ctmc', api().createCTMC([(0, 1, 1.0), (1, 0, 0.3), (1, 1, 0.2)], ['b', 'a'], 0, 'c', [(0, 'go', 1, 0.1 + 0.2), (1, "it's", 0, 3.0)])


@src
def create_pctmc(d):
    return 'pctmc', api().createPCTMC([(0, 1, 'p'), (1, 0, 'p*q'), (1, 1, 0.1 + 0.2)], ['b', 'a'], ['p', 'q'], 0, {'p': THIRD}, [], 'c')


@src
def create_pctmc_sync(d):
    return 'pctmc', api().createPCTMC([(0, 1, 'p'), (1, 0, 'p*q'), (1, 1, 0.1 + 0.2)], ['b', 'a'], ['p', 'q'], [0.1 + 0.2, 1 - 0.1 - 0.2], {'p': THIRD}, [(0, 'go', 1, 'p*q'), (1, 'st', 1, 0.1 + 0.2)], 'c')


@src
def random_inst(d):
    m = create_pctmc(d)[1]
    m.randomInstantiation(min_val=0.1, max_val=0.9, sseed=4)
    return 'pctmc', m


def _fit(kind, i, out=None):
    m, t, pos, imp = zoo.make(kind, i)
    ja = api()
    s = ja.Set(pos, [3, 1, 2, 5][:len(pos)], t)
    seams.CTL.cpus = 2
    return ja.BW().fit(s, initial_model=m, max_it=2, epsilon=1e-9, output_file=out, stormpy_output=False, pp='')


for _k, _n in (('mc', 'mc'), ('hmm', 'hmm'), ('mdp', 'mdp'), ('gohmm', 'gohmm'), ('ctmc', 'ctmc'), ('ctmc_untimed', 'ctmc'), ('pctmc', 'pctmc'), ('pctmc_untimed', 'pctmc')):
    for _i in range(len(zoo.ZOO[_k])):
        def _f(d, _k=_k, _n=_n, _i=_i):
            return _n, _fit(_k, _i)
        _f.__name__ = 'learned_%s_%d' % (_k, _i)
        SRC.append(_f)

        def _g(d, _k=_k, _n=_n, _i=_i):
            # the file written by the learner is the model returned
            m = _fit(_k, _i, d + '/out.txt')
            m2 = getattr(api(), LOAD[_n])(d + '/out.txt')
            x = same(m, m2)
            need(x is None, lambda: 'the output file differs from the model returned: %s' % x)
            return _n, m
        _g.__name__ = 'output_file_%s_%d' % (_k, _i)
        SRC.append(_g)


@src
def alergia(d):
    ja = api()
    return 'mc', ja.Alergia().fit(ja.Set([['init', 'a', 'b'], ['init', 'a', 'a'], ['init', 'b', 'b']], [3, 2, 1], 0), 0.5, stormpy_output=False)


@src
def ioalergia(d):
    ja = api()
    return 'mdp', ja.IOAlergia().fit(ja.Set([['init', 'l', 'a', 'l', 'b'], ['init', 'r', 'a', 'l', 'a'], ['init', 'r', 'b', 'l', 'b']], [3, 2, 1], 1), 0.5, stormpy_output=False)


@src
def to_mc(d):
    return 'mc', zoo.make('ctmc', 1)[0].toMC('chain')


@src
def composed(d):
    ja = api()
    a = ja.createCTMC([(0, 1, 1.5), (1, 0, 0.3)], ['b', 'a'], 0, 'c', [(0, 'go', 1, 0.5)])
    b = ja.createCTMC([(0, 1, 0.1 + 0.2), (1, 0, 2.0)], ['x', 'y'], 0, 'c', [(1, 'go', 0, THIRD)])
    return 'pctmc', ja.synchronousCompositionCTMCs(a, b)


@src
def composed_p(d):
    ja = api()
    a = ja.createPCTMC([(0, 1, 'p'), (1, 0, 'p*q')], ['b', 'a'], ['p', 'q'], 0, {'p': 0.5}, [(0, 'go', 1, 'p')], 'c')
    b = ja.createPCTMC([(0, 1, 'q'), (1, 0, 'r')], ['x', 'y'], ['q', 'r'], 0, {}, [(1, 'go', 0, 'r')], 'c')
    return 'pctmc', ja.synchronousCompositionPCTMCs([a, b])


@src
def relabelled(d):
    m = zoo.make('mc', 0)[0]
    m.updateLabelling(['init', 'x', 'y', 'init'])
    return 'mc', m


@src
def reloaded(d):
    m = build('pctmc', DEF['pctmc'])
    m.save(d + '/z.txt')
    m = api().loadPCTMC(d + '/z.txt')
    m.instantiate(['p'], [0.1 + 0.2])
    return 'pctmc', m


CHECK = C14()
