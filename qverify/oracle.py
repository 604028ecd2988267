"""Independent reference values for concrete runs (never used by the symbolic side except for literal indices)."""
import functools
from math import factorial, gamma, sqrt, comb


def numbering(p):
    """p-th state in order of 2n+|m|+1, then m"""
    s = 0
    while p > s:
        p -= s + 1
        s += 1
    m = -s + 2 * p
    return (s - abs(m)) // 2, m


def levels(count):
    return [numbering(p) for p in range(count)]


@functools.lru_cache(None)
def coulomb(ni, mi, nj, mj, nr, mr, ns, ms):
    """<ij|1/r12|rs> in the 2D oscillator (Anisimovas & Matulis 1998), omega = 1"""
    nk, mk, nl, ml = ns, ms, nr, mr
    if mi + mj != mk + ml:
        return 0.0
    up = lambda m: max(m, 0)
    dn = lambda m: max(-m, 0)
    pref = 1.0
    for n, m in ((ni, mi), (nj, mj), (nk, mk), (nl, ml)):
        pref *= factorial(n) / factorial(n + abs(m))
    tot = 0.0
    for a in range(ni + 1):
        for b in range(nj + 1):
            for c in range(nk + 1):
                for d in range(nl + 1):
                    w = (-1) ** (a + b + c + d)
                    for n, m, x in ((ni, mi, a), (nj, mj, b), (nk, mk, c), (nl, ml, d)):
                        w *= comb(n + abs(m), n - x) / factorial(x)
                    g1 = a + d + up(mi) + dn(ml)
                    g2 = b + c + up(mj) + dn(mk)
                    g3 = c + b + up(mk) + dn(mj)
                    g4 = d + a + up(ml) + dn(mi)
                    G = g1 + g2 + g3 + g4
                    t = 0.0
                    for l1 in range(g1 + 1):
                        for l2 in range(g2 + 1):
                            for l3 in range(g3 + 1):
                                l4 = l1 + l2 - l3
                                if not 0 <= l4 <= g4:
                                    continue
                                L = l1 + l2 + l3 + l4
                                t += ((-1) ** (g2 + g3 - l2 - l3) * comb(g1, l1) * comb(g2, l2) * comb(g3, l3) * comb(g4, l4)
                                      * gamma(1 + L / 2) * gamma((G - L + 1) / 2))
                    tot += w * t / 2 ** ((G + 1) / 2)
    return sqrt(pref) * tot
