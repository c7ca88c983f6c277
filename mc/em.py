"""Reference re-estimation: posterior expectations by explicit path enumeration (tiny cases) or a plain
forward-backward recursion written from the definition."""
import itertools, math


def expect_paths(n, init, W, final):
    """enumerate every hidden path; returns (p, gamma[k][s], xi[k][s][t]) un-normalised"""
    K = len(W)
    p = 0
    gam = [[0] * n for _ in range(K + 1)]
    xi = [[[0] * n for _ in range(n)] for _ in range(K)]
    for path in itertools.product(range(n), repeat=K + 1):
        w = init[path[0]] * final[path[-1]]
        for k in range(K):
            if w == 0:
                break
            w = w * W[k][path[k]][path[k + 1]]
        if w == 0:
            continue
        p += w
        for k in range(K + 1):
            gam[k][path[k]] += w
        for k in range(K):
            xi[k][path[k]][path[k + 1]] += w
    return p, gam, xi


def expect(n, init, W, final, brute=False):
    if brute:
        return expect_paths(n, init, W, final)
    K = len(W)
    A = [list(init)]
    for k in range(K):
        A.append([sum(A[k][s] * W[k][s][t] for s in range(n)) for t in range(n)])
    B = [None] * K + [list(final)]
    for k in range(K - 1, -1, -1):
        B[k] = [sum(W[k][s][t] * B[k + 1][t] for t in range(n)) for s in range(n)]
    p = sum(A[K][s] * B[K][s] for s in range(n))
    gam = [[A[k][s] * B[k][s] for s in range(n)] for k in range(K + 1)]
    xi = [[[A[k][s] * W[k][s][t] * B[k + 1][t] for t in range(n)] for s in range(n)] for k in range(K)]
    return p, gam, xi


def logp(p):
    try:
        return math.log(p.numerator) - math.log(p.denominator)
    except AttributeError:
        return math.log(p)


def em_chain(n, init, P, emits, data, brute=False):
    """MC, HMM, untimed CTMC.  emits(s, o); data = [(trace, mult)].
    returns dict(den, num, obs (symbol -> state weights list of (weights, observation)), init, ll, used)"""
    den = [0] * n
    num = [[0] * n for _ in range(n)]
    ini = [0] * n
    post = []
    ll = 0.0
    used = 0
    for tr, m in data:
        W = []
        for o in tr:
            e = [emits(s, o) for s in range(n)]
            W.append([[e[s] * P[s][t] for t in range(n)] for s in range(n)])
        p, gam, xi = expect(n, init, W, [1] * n, brute)
        if p == 0:
            continue
        used += 1
        ll += m * logp(p)
        for k, o in enumerate(tr):
            g = [m * gam[k][s] / p for s in range(n)]
            post.append((g, o))
            for s in range(n):
                den[s] += g[s]
                for t in range(n):
                    num[s][t] += m * xi[k][s][t] / p
        for s in range(n):
            ini[s] += m * gam[0][s] / p
    return dict(den=den, num=num, post=post, init=ini, ll=ll, used=used)


def em_mdp(labels, actions, P, init, data, brute=False):
    n = len(labels)
    den = [[0] * len(actions) for _ in range(n)]
    num = [[[0] * n for _ in actions] for _ in range(n)]
    ll, used = 0.0, 0
    for tr, m in data:
        obs, acts = tr[0::2], tr[1::2]
        if any(a not in actions for a in acts):
            continue
        ai = [actions.index(a) for a in acts]
        W = [[[P[s][a][t] if labels[s] == o else 0 for t in range(n)] for s in range(n)] for o, a in zip(obs, ai)]
        p, gam, xi = expect(n, init, W, [1 if l == obs[-1] else 0 for l in labels], brute)
        if p == 0:
            continue
        used += 1
        ll += m * logp(p)
        for k, a in enumerate(ai):
            for s in range(n):
                den[s][a] += m * gam[k][s] / p
                for t in range(n):
                    num[s][a][t] += m * xi[k][s][t] / p
    return dict(den=den, num=num, ll=ll, used=used)


def em_timed(labels, R, init, data, brute=False):
    n = len(labels)
    time = [0.0] * n
    num = [[0.0] * n for _ in range(n)]
    cnt = [0.0] * n
    ll, used = 0.0, 0
    E = [math.fsum(r) for r in R]
    for tr, m in data:
        obs, ts = tr[0::2], tr[1::2]
        W = [[[R[s][t] * math.exp(-E[s] * x) if labels[s] == o else 0.0 for t in range(n)] for s in range(n)] for o, x in zip(obs, ts)]
        p, gam, xi = expect(n, init, W, [1.0 if l == obs[-1] else 0.0 for l in labels], brute)
        if p == 0:
            continue
        used += 1
        ll += m * logp(p)
        for k, x in enumerate(ts):
            for s in range(n):
                cnt[s] += m * gam[k][s] / p
                time[s] += m * gam[k][s] / p * x
                for t in range(n):
                    num[s][t] += m * xi[k][s][t] / p
    return dict(time=time, cnt=cnt, num=num, ll=ll, used=used)


def fit(model, s, **kw):
    """one call of the real learner, silent, jajapy output"""
    import jajapy
    a = dict(initial_model=model, stormpy_output=False, verbose=0, return_data=True)
    a.update(kw)
    return jajapy.BW().fit(s, **a)
