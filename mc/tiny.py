"""Traces whose probability (density) is very small, down to far below the smallest double: answers are known in closed
form because the hidden state is determined by the trace.  Used by C01-C04 (likelihood) and C06-C09 (one learning round)."""
import math
import numpy as np
from mc.gen import *
from mc import em
from mc.lib import need, close, allclose, Violation

Q = 1e-6
# probabilities from about 1e-60 down to below 1e-600
LENGTHS = (1, 10, 40, 51, 60)


def lengths(kind):
    return LENGTHS[:3] if kind == 'gohmm' else LENGTHS


def chain(L):
    """visible chain: a loops with probability Q"""
    import jajapy as ja
    M = np.array([[Q, 1 - Q, 0.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]])
    tr = ['init'] + ['a'] * L
    return M, ['a', 'b', 'init'], tr, (L - 1) * math.log(Q)


def make(kind, L):
    """model, set type, trace, log-probability, short trace, its log-probability"""
    import jajapy as ja
    M, labs, tr, lp = chain(L)
    short, ls = ['init', 'a', 'b'], math.log(1 - Q)
    if kind == 'mc':
        return ja.MC(M, labs), 0, tr, lp, short, ls
    if kind == 'hmm':
        h = ja.HMM(np.eye(2), np.array([[Q, 1 - Q], [0.0, 1.0]]), ['x', 'y'], [1.0, 0.0])
        return h, 0, ['x'] * L, L * math.log(Q), ['x', 'y'], math.log(Q) + math.log(1 - Q)
    if kind == 'mdp':
        m = ja.MDP(np.array([[r] for r in M]), labs, ['act'])
        f = lambda w: [x for o in w for x in (o, 'act')][:-1]
        return m, 1, f(tr), lp, f(short), ls
    if kind in ('ctmc', 'untimed', 'pctmc', 'puntimed'):
        if kind[0] == 'p':
            from mc.zoo import _pc
            m = _pc((tuple(labs), (('p', repr(1 - Q), '0'), ('0', '1.0', '0'), ('1.0', '0', '0')), ('p',), {'p': Q}))
        else:
            m = ja.CTMC(M, labs)
        if kind.endswith('untimed'):
            return m, 0, tr, lp, short, ls
        f = lambda w: [x for o in w for x in (o, 0.5)][:-1]
        return m, 4, f(tr), lp - 0.5 * L, f(short), ls - 1.0
    if kind == 'gohmm':
        d = 30.0
        g = ja.GoHMM(np.eye(2), [[(0.0, 1.0)], [(9.0, 1.0)]], [1.0, 0.0])
        c = -0.5 * math.log(2 * math.pi)
        w = [[d + 0.5 * (i % 2)] for i in range(L)]
        return g, 3, w, math.fsum(c - x[0] ** 2 / 2 for x in w), [[0.0], [1.0]], 2 * c - 0.5
    raise KeyError(kind)


def ignored(key, msg):
    """the failure recorded in known_findings.txt: a possible trace is treated exactly as an impossible one"""
    raise Violation(msg, key=key)


def likelihood(kind, L, plat, st):
    m, t, tr, lp, short, ls = make(kind, L)
    lost = []
    with platform_(plat):
        for seqs, mult, exp, ign in (([tr], [1], lp, (0.0, -9999)), ([tr, short], [1, 3], (lp + 3 * ls) / 4, (3 * ls / 4,))):
            got = m.logLikelihood(mk_set(seqs, mult, t))
            st.step()
            if not close(got, exp):
                what = 'logLikelihood of a trace of log-probability %r%s is %r, expected %r' % (lp, '' if len(seqs) == 1 else ' with a short one', got, exp)
                need(any(close(got, x) for x in ign), what)
                lost.append(what)
    st.outcome((kind, round(lp, 6)))
    if lost:
        ignored('underflow:%r' % ((kind, L, plat),), lost[0])


def learned(kind, L, st):
    m, t, tr, lp, short, ls = make(kind, L)
    out, info = em.fit(m, mk_set([tr, short], [1, 3], t), max_it=1)
    st.step()
    st.outcome((kind, L))
    ll = info['training_set_loglikelihood']
    if not close(ll, lp + 3 * ls):
        what = 'training log-likelihood %r expected %r' % (ll, lp + 3 * ls)
        need(close(ll, 3 * ls), what)
        out2, _ = em.fit(make(kind, L)[0], mk_set([short], [3], t), max_it=1)
        for x in ('matrix', 'output', 'initial_state'):
            if hasattr(out, x):
                need(allclose(np.array(getattr(out, x), dtype=float), np.array(getattr(out2, x), dtype=float)), what + ', and the other trace is counted differently')
        ignored('underflow:%r' % ((kind, L),), what)
    if kind in ('mc', 'mdp', 'ctmc', 'untimed'):
        # a -> a: L-1 times; a -> b: 3 times
        loop, leave = L - 1, 3
        if kind in ('mc', 'untimed'):       # the last observation is followed by one more, unobserved, transition
            loop, leave = loop + Q, leave + 1 - Q
        got = np.array(out.matrix, dtype=float)
        got = got[:, 0] if kind == 'mdp' else got
        if kind == 'ctmc':
            T = 0.5 * (L - 1) + 3 * 0.5
            exp = [loop / T, leave / T]
        else:
            exp = [loop / (loop + leave), leave / (loop + leave)]
        need(allclose(got[0][:2], exp), lambda: 'row of the visited state %s expected %s' % (got[0].tolist(), exp))
    elif kind == 'hmm':
        exp = [(L + 3) / (L + 6), 3 / (L + 6)]
        need(allclose(out.output[0], exp), lambda: 'emissions %s expected %s' % (np.array(out.output)[0].tolist(), exp))
    else:
        n = L + 6
        mu = (math.fsum(x[0] for x in tr) + 3.0) / n
        need(close(float(np.array(out.output)[0][0][0]), mu), lambda: 'mean %r expected %r' % (out.output[0], mu))
