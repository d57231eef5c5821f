"""Runge-Kutta order conditions from rooted trees (Butcher), evaluated on a constant table."""
from functools import lru_cache


@lru_cache(None)
def trees(n):
    """All rooted trees with n nodes, as sorted tuples of subtrees."""
    if n == 1:
        return ((),)
    out = set()

    def parts(rem, mk, mi):
        if rem == 0:
            yield ()
            return
        for k in range(min(rem, mk), 0, -1):
            ts = trees(k)
            for i in range(len(ts)):
                if k == mk and i > mi:
                    break
                for r in parts(rem - k, k, i):
                    yield (ts[i],) + r
    for p in parts(n - 1, n - 1, 10**9):
        out.add(tuple(sorted(p)))
    return tuple(sorted(out))


@lru_cache(None)
def size(t):
    return 1 + sum(size(s) for s in t)


@lru_cache(None)
def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


class Table:
    def __init__(self, A, s):
        self.A, self.s = A, s
        self.memo = {}

    def phi(self, t):
        """Phi(t)_i = prod over subtrees of sum_j a_ij Phi(sub)_j"""
        r = self.memo.get(t)
        if r is None:
            r = [1.0] * self.s
            for sub in t:
                p = self.phi(sub)
                for i in range(self.s):
                    r[i] *= sum(self.A[i][j] * p[j] for j in range(i))
            self.memo[t] = r
        return r

    def residual(self, b, n):
        """largest defect over all order-n conditions"""
        m = 0.0
        for t in trees(n):
            p = self.phi(t)
            m = max(m, abs(sum(x * y for x, y in zip(b, p)) * gamma(t) - 1.0))
        return m
