"""Boring reference semantics (exact fractions where the input is rational)."""
from fractions import Fraction as F
import math


def uniform_init(labels):
    k = [1 if l == 'init' else 0 for l in labels]
    return [F(x, sum(k)) for x in k]


def mc_prob(labels, P, trace, init=None):
    """probability of observing exactly `trace`; states s0..s_{n-1}"""
    cur = list(init) if init is not None else uniform_init(labels)
    n = len(labels)
    for k, o in enumerate(trace):
        cur = [cur[s] if labels[s] == o else 0 for s in range(n)]
        if k + 1 < len(trace):
            cur = [sum(cur[s] * P[s][t] for s in range(n)) for t in range(n)]
    return sum(cur)


def hmm_prob(alphabet, P, O, init, trace):
    n = len(P)
    cur = list(init)
    for k, o in enumerate(trace):
        cur = [cur[s] * (O[s][alphabet.index(o)] if o in alphabet else 0) for s in range(n)]
        if k + 1 < len(trace):
            cur = [sum(cur[s] * P[s][t] for s in range(n)) for t in range(n)]
    return sum(cur)


def mdp_prob(labels, actions, P, trace):
    """trace = obs, act, obs, act, ..., obs"""
    n = len(labels)
    cur = uniform_init(labels)
    obs, acts = trace[0::2], trace[1::2]
    for k, o in enumerate(obs):
        cur = [cur[s] if labels[s] == o else 0 for s in range(n)]
        if k < len(acts):
            if acts[k] not in actions:
                return F(0)
            a = actions.index(acts[k])
            cur = [sum(cur[s] * P[s][a][t] for s in range(n)) for t in range(n)]
    return sum(cur)


def ctmc_density(labels, R, trace):
    """timed trace o0 t0 o1 t1 ... o_n ; density of the labelled timed word"""
    n = len(labels)
    obs, ts = trace[0::2], trace[1::2]
    cur = [float(x) for x in uniform_init(labels)]
    E = [math.fsum(float(x) for x in r) for r in R]
    for k, o in enumerate(obs):
        cur = [cur[s] if labels[s] == o else 0.0 for s in range(n)]
        if k < len(ts):
            cur = [math.fsum(cur[s] * math.exp(-E[s] * ts[k]) * float(R[s][t]) for s in range(n)) for t in range(n)]
    return math.fsum(cur)


def jump(R):
    res = []
    for r in R:
        e = sum(F(x) for x in r)
        res.append([F(x) / e if e else F(0) for x in r])
    return res


def fracs(rows, d):
    return [[F(x, d) for x in r] for r in rows]


def flog(p):
    """log of an exact fraction or float without underflow"""
    if isinstance(p, F):
        return math.log(p.numerator) - math.log(p.denominator)
    return math.log(p)


def wmean(probs, times):
    """numerator over possible traces, denominator over all of them"""
    tot = 0.0
    for p, t in zip(probs, times):
        if p > 0 and t:
            tot += t * flog(p)
    return tot / sum(times)


def normal_pdf(x, mu, sd):
    if sd <= 0:
        return 1.0 if x == mu else 0.0
    return math.exp(-0.5 * ((x - mu) / sd) ** 2) / (sd * math.sqrt(2 * math.pi))
