"""Rooted trees and formal h-expansions used as the oracle for order conditions."""
from fractions import Fraction
from functools import lru_cache
from math import factorial


@lru_cache(None)
def trees(n):
    """rooted trees with n vertices, a tree = sorted tuple of subtrees"""
    if n == 1:
        return [()]
    out = set()

    def forests(total, maxtree):
        # multisets of trees with `total` vertices, as sorted tuples
        if total == 0:
            yield ()
            return
        for k in range(min(total, maxtree[0]), 0, -1):
            ts = trees(k)
            hi = maxtree[1] if k == maxtree[0] else len(ts) - 1
            for i in range(hi, -1, -1):
                for rest in forests(total - k, (k, i)):
                    yield (ts[i],) + rest
    for f in forests(n - 1, (n - 1, len(trees(n - 1)) - 1)):
        out.add(tuple(sorted(f)))
    return sorted(out)


@lru_cache(None)
def order(t):
    return 1 + sum(order(s) for s in t)


@lru_cache(None)
def gamma(t):
    g = order(t)
    for s in t:
        g *= gamma(s)
    return g


def tname(t):
    return '[' + ''.join(tname(s) for s in t) + ']'


def rk_defects(A, b, pmax):
    """largest |sum b_i Phi_i(t) - 1/gamma(t)| per order, over all rooted trees with at most pmax vertices"""
    s = len(A)
    memo = {}

    def phi(t):
        # internal weights: vector over stages
        v = memo.get(t)
        if v is None:
            v = [1.0] * s
            for u in t:
                pu = phi(u)
                for i in range(s):
                    acc = 0.0
                    for j, a in A[i].items():
                        acc += a * pu[j]
                    v[i] *= acc
            memo[t] = v
        return v
    res = {}
    count = 0
    for n in range(1, pmax + 1):
        w = 0.0; wt = None
        for t in trees(n):
            count += 1
            p = phi(t)
            d = abs(sum(b[j] * p[j] for j in b) - 1.0 / gamma(t)) if isinstance(b, dict) else None
            if d > w:
                w = d; wt = t
        res[n] = (w, wt)
    return res, count


def weight(A, b, t):
    """elementary weight sum_i b_i Phi_i(t)"""
    memo = {}

    def phi(t):
        v = memo.get(t)
        if v is None:
            v = [1.0] * len(A)
            for u in t:
                pu = phi(u)
                for i in range(len(A)):
                    v[i] *= sum(a * pu[j] for j, a in A[i].items())
            memo[t] = v
        return v
    p = phi(t)
    return sum(b[j] * p[j] for j in b)
