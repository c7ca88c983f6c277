"""A small zoo: for every model kind a few literal models and a universe of traces (some impossible)."""
import numpy as _np
from mc.gen import *

MC1 = (('a', 'b', 'a', 'init'), ((1, 2, 1, 0), (0, 2, 2, 0), (3, 1, 0, 0), (2, 0, 2, 0)), 4)
MC2 = (('a', 'init', 'b'), ((1, 1, 2), (3, 0, 1), (4, 0, 0)), 4)
MC3 = (('init', 'a', 'init', 'b'), ((0, 4, 0, 0), (1, 1, 1, 1), (0, 2, 0, 2), (0, 2, 2, 0)), 4)
HMM1 = (('x', 'y'), ((1, 3), (2, 2)), ((3, 1), (0, 4)), (3, 1), 4)
HMM2 = (('x', 'y', 'z'), ((1, 3, 0), (0, 2, 2), (4, 0, 0)), ((2, 1, 1), (0, 4, 0), (1, 0, 3)), (1, 2, 1), 4)
MDP1 = (('a', 'b', 'init'), ('l', 'r'), (((1, 3, 0), (0, 4, 0)), ((4, 0, 0), (0, 0, 0)), ((2, 2, 0), (1, 3, 0))), 4)
MDP2 = (('a', 'b', 'a', 'init'), ('l', 'r', 'u'), (((1, 2, 1, 0), (0, 4, 0, 0), (0, 0, 0, 0)), ((0, 0, 0, 0), (0, 0, 4, 0), (1, 1, 2, 0)),
                                               ((4, 0, 0, 0), (0, 0, 4, 0), (0, 0, 0, 0)), ((1, 1, 2, 0), (0, 2, 2, 0), (0, 0, 0, 0))), 4)
CT1 = (('a', 'b', 'init'), ((0, 2.0, 0), (0.5, 1.5, 0), (1.0, 3.0, 0)))
CT2 = (('a', 'b', 'a', 'init'), ((0.25, 2.0, 0, 0), (0.5, 0, 3.0, 0), (1.0, 0.125, 0.5, 0), (0.5, 0.25, 0.5, 0)))
GO1 = (((1, 3), (2, 2)), 4, (((0.0, 1.0), (5.0, 2.0)), ((3.0, 0.5), (-1.0, 1.0))), (1, 3))
GO2 = (((1, 3, 0), (0, 2, 2), (2, 0, 2)), 4, (((0.0, 1.0),), ((3.0, 0.5),), ((-2.0, 2.0),)), (2, 1, 1))
PC1 = (('a', 'b', 'init'), (('0', 'p', '0'), ('q', '1.5', '0'), ('1.0', '2*p*q', '0')), ('p', 'q'), {'p': 2.0, 'q': 0.5})
PC2 = (('a', 'b', 'a', 'init'), (('p', 'q', '0', '0'), ('p*q', '0', '3.0', '0'), ('q', '0.125', 'p', '0'), ('0.5', '0.25', '0.5', '0')), ('p', 'q'), {'p': 0.5, 'q': 2.0})


def _pc(d):
    from checks.C04 import mk_pctmc
    return mk_pctmc(*d)


# kind -> list of (maker, descriptor, set type, possible traces, impossible traces)
U_MC = [['init', 'a'], ['init', 'a', 'b'], ['init', 'a', 'a', 'b'], ['init', 'b', 'a', 'b']]
U_MDP = [['init', 'l', 'a'], ['init', 'l', 'a', 'r', 'b'], ['init', 'r', 'b'], ['init', 'l', 'a', 'l', 'a', 'l', 'b']]
U_CT = [['init', 0.5, 'a', 0.25, 'b'], ['init', 0.5, 'b'], ['init', 0.5, 'a', 1.5, 'b', 0.1, 'a'], ['init', 2.0, 'a']]
U_CTU = [['init', 'a', 'b'], ['init', 'a'], ['init', 'b', 'a', 'b'], ['init', 'a', 'b', 'a']]
ZOO = {
    'mc': [(mk_mc, MC1, 0, [['init', 'a'], ['init', 'a', 'b'], ['init', 'a', 'a', 'b'], ['init', 'a', 'b', 'a', 'a']], ['a', 'init']),
           (mk_mc, MC2, 0, U_MC, ['init', 'zz', 'a']),
           (mk_mc, MC3, 0, U_MC, ['b'])],
    'hmm': [(mk_hmm, HMM1, 0, [['x'], ['x', 'y'], ['x', 'y', 'y', 'x'], ['y', 'x']], ['x', 'zz']),
            (mk_hmm, HMM2, 0, [['x', 'y'], ['x', 'y', 'z'], ['z', 'x'], ['y', 'y', 'y', 'y']], ['zz'])],
    'mdp': [(mk_mdp, MDP1, 1, U_MDP, ['init', 'zz', 'a']), (mk_mdp, MDP2, 1, U_MDP, ['init', 'u', 'a', 'l', 'a'])],
    'gohmm': [(mk_gohmm, GO1, 3, [[[0.0, 4.0]], [[0.0, 4.0], [3.0, -1.0]], [[1.0, 5.0], [2.5, 0.0], [0.5, 4.5]], [[3.5, -2.0], [0.0, 5.0]]], None),
              (mk_gohmm, GO2, 3, [[[0.5], [2.0]], [[0.5], [2.0], [-1.0]], [[3.0]], [[3.0], [3.5]]], None)],
    'ctmc': [(mk_ctmc, CT1, 4, U_CT, ['init', 0.5, 'zz', 0.1, 'a']), (mk_ctmc, CT2, 4, U_CT, ['a', 1.0, 'b'])],
    'ctmc_untimed': [(mk_ctmc, CT1, 0, U_CTU, ['init', 'zz', 'a']), (mk_ctmc, CT2, 0, U_CTU, ['b'])],
    'pctmc': [(_pc, PC1, 4, U_CT, ['init', 0.5, 'zz', 0.1, 'a']), (_pc, PC2, 4, U_CT, ['a', 1.0, 'b'])],
    'pctmc_untimed': [(_pc, PC1, 0, U_CTU, ['init', 'zz', 'a']), (_pc, PC2, 0, U_CTU, ['b'])],
}


def make(kind, i):
    mk, d, t, pos, imp = ZOO[kind][i]
    return mk(d), t, [list(x) for x in pos], (list(imp) if imp is not None else None)


def _plain(x):
    if isinstance(x, _np.ndarray):
        return ('nd', x.shape, _plain(x.tolist()))
    if isinstance(x, _np.floating):
        return float.hex(float(x))
    if isinstance(x, _np.generic):
        return _plain(x.item())
    if isinstance(x, (list, tuple)):
        return tuple(_plain(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((str(k), _plain(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(str, x)))
    if isinstance(x, float):
        return float.hex(x)
    if isinstance(x, (str, int, bool, bytes)) or x is None:
        return x
    return str(x)


FIELDS = ('name', 'nb_states', 'labelling', 'alphabet', 'actions', 'initial_state', 'matrix', 'output',
          'parameter_values', 'parameter_str', 'parameter_indexes', 'transition_expr', 'synchronous_transitions', 'nb_distributions')


def snap(m):
    """every documented attribute of a model, bit exact"""
    return {k: _plain(getattr(m, k)) for k in FIELDS if hasattr(m, k)}


def snap_set(s):
    """the multiset a Set denotes"""
    d = {}
    for q, t in zip(s.sequences, s.times):
        k = repr(_plain(q))
        d[k] = d.get(k, 0) + int(t)
    return (s.type, tuple(sorted(d.items())))


def fresh(m):
    """the same model built anew from its public attributes"""
    import copy
    ja = api()
    c = copy.deepcopy
    k = type(m).__name__
    if k == 'MC':
        return ja.MC(c(m.matrix), list(m.labelling), m.name)
    if k == 'MDP':
        return ja.MDP(c(m.matrix), list(m.labelling), list(m.actions), m.name)
    if k == 'HMM':
        return ja.HMM(c(m.matrix), c(m.output), list(m.alphabet), c(m.initial_state), m.name)
    if k == 'GoHMM':
        from jajapy.gohmm.GoHMM import GoHMM
        return GoHMM(c(m.matrix), c(m.output), c(m.initial_state), m.name)
    if k == 'CTMC':
        return ja.CTMC(c(m.matrix), list(m.labelling), m.name, c(m.synchronous_transitions))
    return ja.PCTMC(c(m.matrix), list(m.labelling), c(m.transition_expr), dict(m.parameter_values), c(m.parameter_indexes), list(m.parameter_str), m.name, c(m.synchronous_transitions))


def answers(m, kind, traces=(), t=0, sims=False):
    """what the public methods of a model answer (name -> value)"""
    from mc import seams
    n = m.nb_states
    r = {}
    labs = sorted(set(m.labelling)) if hasattr(m, 'labelling') else None
    obs = labs if labs is not None else list(m.alphabet) if hasattr(m, 'alphabet') else [tr[0] for tr in traces]
    for s in range(n):
        r['pi', s] = float(m.pi(s))
        for o in list(obs) + (['zz'] if kind != 'gohmm' else []):
            r['b', s, str(o)] = float(m.b(s, o))
        if kind == 'gohmm':
            r['mu', s] = [float(x) for x in m.mu(s)]
        if labs is not None:
            r['label', s] = m.getLabel(s)
        if kind == 'hmm':
            r['alphabet', s] = sorted(m.getAlphabet(s))
        if kind == 'mdp':
            r['actions', s] = sorted(m.getActions(s))
        if 'ctmc' in kind:
            r['e', s] = float(m.e(s))
            r['time', s] = float(m.expected_time(s))
            r['lkl', s] = float(m.lkl(s, 0.75))
        for q in range(n):
            for o in obs:
                if kind == 'mdp':
                    for a in m.actions:
                        r['tau', s, a, q, o] = float(m.tau(s, a, q, o))
                elif 'ctmc' in kind:
                    r['tau', s, q, o] = float(m.tau(s, q, o))
                    r['l', s, q, o] = float(m.l(s, q, o))
                else:
                    r['tau', s, q, str(o)] = float(m.tau(s, q, o))
            if kind == 'mdp':
                for a in m.actions:
                    r['a', s, q, a] = float(m.a(s, q, a))
            elif 'ctmc' not in kind:
                r['a', s, q] = float(m.a(s, q))
            elif kind.startswith('p'):
                r['value', s, q] = float(m.transitionValue(s, q))
    if traces:
        r['loglikelihood'] = float(m.logLikelihood(api().Set([list(x) for x in traces], [1 + i % 3 for i in range(len(traces))], t)))
    if 'ctmc' in kind and not kind.startswith('p'):
        r['toMC'] = m.toMC().matrix.ravel().tolist()
    if sims:
        for j, u in enumerate((0.05, 0.35, 0.65, 0.93)):
            for L in (1, 3):
                seams.CTL.script([(u + 0.37 * x * (x + j)) % 1.0 or 0.5 for x in range(400)])
                try:
                    if kind == 'mdp':
                        from jajapy.mdp.Scheduler import UniformScheduler
                        w = m.run(L, UniformScheduler(list(m.actions)))
                    elif 'ctmc' in kind:
                        w = m.run(L, 'untimed' not in kind)
                    else:
                        w = m.run(L)
                finally:
                    seams.CTL.real()
                r['run', j, L] = repr(_plain(w))
    return r


def same_answers(a, b, what):
    need_(set(a) == set(b), what, set(a) ^ set(b), None)
    for k in a:
        x, y = a[k], b[k]
        ok = x == y or (isinstance(x, (float, list)) and _near(x, y))
        need_(ok, what, k, (x, y))


def _near(x, y):
    from mc.lib import close
    if isinstance(x, list):
        return len(x) == len(y) and all(close(p, q, 1e-9, 1e-12) for p, q in zip(x, y))
    return close(x, y, 1e-9, 1e-12)


def need_(ok, what, k, v):
    from mc.lib import need
    need(ok, lambda: '%s: %s answers %s' % (what, k, v))


AFTER = [q for n in (1, 2, 3) for q in __import__('itertools').product(('ask', 'learn', 'learn2', 'other'), repeat=n) if any(x.startswith('l') for x in q)]


def after(kind, i, ops, st, only=None):
    """a history of queries and of learning (which updates the model given): the answers always are those of the same model built anew"""
    from mc import em
    m, t, pos, imp = make(kind, i)
    h = m
    sims = only == 'run'

    def same(a, b, what):
        if only is not None:
            a, b = ({k: v for k, v in x.items() if (k if type(k) == str else k[0]) == only or only == 'accessors' and k != 'loglikelihood'} for x in (a, b))
        same_answers(a, b, what)
    for j, op in enumerate(ops):
        if op == 'ask':
            answers(h, kind, pos, t, sims)
        elif op == 'other':
            # another model of the same kind is used in between
            o, t2, pos2, _ = make(kind, 1 - i if i < 2 else 0)
            answers(o, kind, pos2, t2, sims)
            if kind.startswith('p'):
                h.instantiate(['q', 'p'], [0.75 * (j + 1), 1.25])
        else:
            s = api().Set([list(x) for x in (pos if j % 2 == 0 else pos[:2])], [1 + (x + j) % 2 for x in range(len(pos if j % 2 == 0 else pos[:2]))], t)
            h, _ = em.fit(h, s, max_it=1 if op == 'learn' else 2, epsilon=-1e9, processes=1)
        same(answers(h, kind, pos, t, sims), answers(fresh(h), kind, pos, t, sims), 'after %s' % (ops[:j + 1],))
        same(answers(m, kind, pos, t, sims), answers(fresh(m), kind, pos, t, sims), 'the model given, after %s' % (ops[:j + 1],))
        st.step()
    st.outcome((kind, i, repr(sorted((str(k), str(v)) for k, v in answers(h, kind).items()))))
