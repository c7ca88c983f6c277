"""Label preserving isomorphism of small labelled graphs (identity first, then backtracking)."""


def isomorphic(l1, M1, l2, M2, eq):
    """labels lists and dict/list-of-list weights; eq(w1, w2).  Returns a bijection (tuple) or None."""
    n = len(l1)
    if n != len(l2) or sorted(l1) != sorted(l2):
        return None

    def ok(perm, k):
        j = perm[k]
        if l1[k] != l2[j]:
            return False
        for a in range(k + 1):
            if not eq(M1[k][a], M2[j][perm[a]]) or not eq(M1[a][k], M2[perm[a]][j]):
                return False
        return True
    ident = tuple(range(n))
    if all(ok(ident, k) for k in range(n)):
        return ident
    perm = [None] * n
    used = [False] * n
    budget = [200000]

    def rec(k):
        if k == n:
            return True
        for j in range(n):
            if used[j] or l1[k] != l2[j]:
                continue
            budget[0] -= 1
            if budget[0] < 0:
                raise RuntimeError('isomorphism search too long')
            perm[k] = j
            if ok(perm, k):
                used[j] = True
                if rec(k + 1):
                    return True
                used[j] = False
        perm[k] = None
        return False
    return tuple(perm) if rec(0) else None
