import copy
import itertools
import os
import pickle
from mc import seams
from mc.lib import *
from mc.gen import *
from mc import em, zoo

LOAD = dict(MC='loadMC', HMM='loadHMM', MDP='loadMDP', CTMC='loadCTMC', GoHMM='loadGoHMM', PCTMC='loadPCTMC')
# steps that must change nothing
NEUTRAL = ('none', 'save', 'pickle', 'copy', 'rebuild', 'storm')
SYNC1 = [(0, 'go', 1, 0.75), (1, 'go', 0, 2.0)]
SYNC2 = [(0, 'go', 1, 3.0)]
# steps that do something, per kind
ACTIVE = {
    'mc': ('learn', 'learn2', 'run'), 'hmm': ('learn', 'learn2', 'run'), 'mdp': ('learn', 'learn2', 'run'), 'gohmm': ('learn', 'learn2', 'run'),
    'ctmc': ('learn', 'learn2', 'run', 'tomc'), 'ctmc_untimed': ('learn', 'learn2', 'tomc'), 'csync': ('learn', 'compose', 'run'),
    'pctmc': ('learn', 'learnp', 'inst', 'inst2', 'run'), 'pctmc_untimed': ('learn', 'inst', 'run'), 'psync': ('learn', 'learnp', 'inst', 'compose', 'run'),
}
AS = {'csync': 'ctmc', 'psync': 'pctmc'}
NMODELS = {'mc': 3, 'csync': 1, 'psync': 1}


def start(kind, i):
    """model, set type, traces"""
    ja = api()
    if kind == 'csync':
        m = zoo.make('ctmc', 0)
        return (ja.CTMC(m[0].matrix, list(m[0].labelling), 'left', [tuple(x) for x in SYNC1]),) + m[1:3]
    if kind == 'psync':
        m, t, pos, _ = zoo.make('pctmc', 0)
        m = zoo.fresh(m)
        m.synchronous_transitions = [tuple(x) for x in SYNC1]
        return m, t, pos
    return zoo.make(kind, i)[:3]


def partner(kind):
    ja, np = api(), np_()
    if kind == 'csync':
        return ja.CTMC(np.array([[0, 0.5, 0], [4.0, 0, 0], [1.0, 0, 0]]), ['c', 'd', 'init'], 'right', [tuple(x) for x in SYNC2])
    return ja.createPCTMC([(0, 1, 'p'), (1, 0, '2*r')], ['c', 'd'], ['p', 'r'], 0, {'r': 0.25}, [tuple(x) for x in SYNC2], 'right')


class C28(Check):
    id = 'C28'
    rule = ('every kind of model (MC, HMM, MDP, GoHMM, CTMC and PCTMC, timed and untimed, with and without synchronised transitions) x every pipeline of at most 2 (thorough: 3) active steps (one or two learning rounds, learning of one '
            'parameter, instantiation, composition, conversion to an MC, simulation) x every choice of a neutral step (saving and loading, pickling, deep copy, rebuilding from its public attributes, conversion to Storm and back) before, '
            'between and after them, the training sets being saved and loaded in half of the pipelines: all answers of the final model (every query, likelihood, scripted simulations) equal those of the pipeline without neutral steps, and no '
            'neutral step changes the model it is applied to. Non-trivial: distinct final models.')
    assumptions = ['neutral steps keep the numbering of the states', 'the conversion to Storm does not keep synchronised transitions nor names (not combined with compositions)', 'floating point agreement to 1e-9 relative']
    case_timeout = 120

    def families(self, tier):
        T = tier == 'thorough'

        def pipes():
            i = 0
            for kind in ACTIVE:
                for j in range(NMODELS.get(kind, 2)):
                    neu = [x for x in NEUTRAL if x != 'storm' or kind not in ('hmm', 'gohmm', 'csync', 'psync', 'pctmc', 'pctmc_untimed') and (kind, j) != ('mc', 2)]
                    for n in (1, 2):
                        for act in itertools.product(ACTIVE[kind], repeat=n):
                            if 'compose' in act[:-1] and act[act.index('compose') + 1] == 'compose' or act.count('tomc') > 1 or act[0] == 'tomc' and 'inst' in act:
                                continue
                            if act[0] == 'tomc' and n > 1 and act[1] != 'run':
                                continue
                            for gaps in itertools.product(neu, repeat=n + 1):
                                k = sum(g != 'none' for g in gaps)
                                if k == 0:
                                    continue
                                i += 1
                                if T or k == 1 or keep(i, 4 if n == 1 else 30):
                                    yield (kind, j, act, gaps)
        yield 'pipeline', pipes()
        if T:
            def three():
                i = 0
                for kind in ACTIVE:
                    for j in range(NMODELS.get(kind, 2)):
                        neu = [x for x in NEUTRAL if x != 'storm' or kind not in ('hmm', 'gohmm', 'csync', 'psync', 'pctmc', 'pctmc_untimed') and (kind, j) != ('mc', 2)]
                        acts = [a for a in ACTIVE[kind] if a not in ('compose', 'tomc')]
                        for act in itertools.product(acts, repeat=3):
                            for gaps in itertools.product(neu, repeat=4):
                                i += 1
                                if any(g != 'none' for g in gaps) and keep(i, 16):
                                    yield (kind, j, act, gaps)
            yield 'pipeline3', three()

    # -- steps
    def neutral(self, g, m):
        ja = api()
        if g == 'none':
            return m
        before = zoo.snap(m)
        if g == 'save':
            f = os.path.join(self.scratch, 'm%d.txt' % os.getpid())
            m.save(f)
            r = getattr(ja, LOAD[type(m).__name__])(f)
        elif g == 'pickle':
            r = pickle.loads(pickle.dumps(m))
        elif g == 'copy':
            r = copy.deepcopy(m)
        elif g == 'rebuild':
            r = zoo.fresh(m)
        else:
            r = ja.stormpyModeltoJajapy(ja.jajapyModeltoStormpy(m), list(m.actions) if hasattr(m, 'actions') else [])
        need(zoo.snap(m) == before, lambda: '%s changed the model it is applied to' % g)
        need(type(r) is type(m), lambda: '%s gives a %s instead of a %s' % (g, type(r).__name__, type(m).__name__))
        return r

    def traces_of(self, m, kind, timed):
        """traces of a composed model, drawn with scripted answers"""
        out = []
        for j, u in enumerate((0.11, 0.44, 0.83)):
            seams.CTL.script([(u + 0.29 * x * (x + j)) % 1.0 or 0.5 for x in range(400)])
            try:
                out.append(m.run(3 + j, timed))
            finally:
                seams.CTL.real()
        return out

    def active(self, a, m, kind, t, traces, files):
        ja = api()
        if a == 'tomc':
            return m.toMC(), 'mc', 0, zoo.U_CTU
        if a == 'compose':
            p = partner(kind)
            if kind == 'csync':
                r = ja.synchronousCompositionCTMCs(m, p)
            else:
                r = ja.synchronousCompositionPCTMCs([m, p])
            return r, 'pctmc', t, self.traces_of(r, kind, t == 4)
        if a in ('inst', 'inst2'):
            q = m.parameter_str[-1]
            m.instantiate([q], [1.75 if a == 'inst' else 0.625])
            return m, kind, t, traces
        if a == 'run':
            zoo.answers(m, AS.get(kind, kind), traces[:1], t, True)
            return m, kind, t, traces
        s = ja.Set([list(x) for x in traces], [1 + i % 3 for i in range(len(traces))], t)
        if files:
            f = os.path.join(self.scratch, 's%d.txt' % os.getpid())
            s.save(f)
            s = ja.loadSet(f)
        if a == 'learnp':
            ja.BW().fit_parameters(s, m, [m.parameter_str[0]], max_it=1, verbose=False)     # updates the model given
        else:
            m, _ = em.fit(m, s, max_it=1 if a == 'learn' else 2, epsilon=-1e9)
        return m, kind, t, traces

    def pipe(self, case):
        kind, i, act, gaps = case
        m, t, traces = start(kind, i)
        files = sum(NEUTRAL.index(g) for g in gaps) % 2 == 1
        m = self.neutral(gaps[0], m)
        for a, g in zip(act, gaps[1:]):
            m, kind, t, traces = self.active(a, m, kind, t, traces, files)
            m = self.neutral(g, m)
        return m, kind, zoo.answers(m, AS.get(kind, kind), traces, t, True)

    cache = {}

    def run(self, fam, case, st):
        kind, i, act, gaps = case
        key = (kind, i, act)
        if key not in self.cache:
            self.cache[key] = self.pipe((kind, i, act, ('none',) * len(gaps)))[2]
        m, k, got = self.pipe(case)
        st.step(len(act) + sum(g != 'none' for g in gaps))
        zoo.same_answers(got, self.cache[key], '%s model %d: %s with %s around' % (kind, i, act, gaps))
        st.outcome((key, repr(sorted((str(x), str(y)) for x, y in got.items() if x[0] != 'run'))[:3000]))


CHECK = C28()
