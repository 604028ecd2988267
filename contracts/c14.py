"""C14: closed form and symmetries of the 2D oscillator's one- and two-body elements."""
from .base import Contract

K = Contract("C14")
H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
C = "quantum_systems.quantum_dots.two_dim.coulomb_elements"
O = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
K.assumptions = [
    "exp, log, lgamma and sqrt are the real functions; lgamma(e/2) for integer e is kept as an uninterpreted value, "
    "identical on both sides; fastmath re-association is treated as exact real arithmetic",
    "the symmetries are lemmas over the closed form: ranges and summands are proved invariant under the permutation of "
    "orbitals and summation variables, and finite sums may be reordered",
    "get_indices_nm is used through its contract (verified in C13)"]


@K.case(samples=20)
def log_factorial(ctx):
    n = ctx.int("n", 0, chi=20, far=5000)
    ctx.split(n > 0)
    r = ctx.mod(C).log_factorial(n)
    if n > 0:
        ctx.ensure_eq("log n!", r, ctx.fn("logfact", n))
    else:
        ctx.ensure_eq("log 0!", r, 0)


def gammas(ctx, q, x):
    """upper bounds of the four inner sums"""
    (ni, mi), (nj, mj), (nk, mk), (nl, ml) = q
    a, b, c, d = x
    up = lambda m: ctx.ite(m >= 0, m, 0)
    dn = lambda m: ctx.ite(m >= 0, 0, -m)
    return (a + d + up(mi) + dn(ml), b + c + up(mj) + dn(mk), c + b + up(mk) + dn(mj), d + a + up(ml) + dn(mi))


def weight(ctx, q, x):
    """what multiplies the inner sums"""
    F = lambda n: ctx.fn("factorial", n)
    w = ctx.powi(-1, x[0] + x[1] + x[2] + x[3])
    pref = 1
    for (n, m), xi in zip(q, x):
        w = w * F(n + ctx.iabs(m)) / (F(n - xi) * F(xi + ctx.iabs(m)) * F(xi))
        pref = pref * F(n) / F(n + ctx.iabs(m))
    g = gammas(ctx, q, x)
    return ctx.sqrt(pref) * w / ctx.sqrt(ctx.powi(2, g[0] + g[1] + g[2] + g[3] + 1))


def inner(ctx, g, l):
    """summand of the inner sums"""
    F = lambda n: ctx.fn("factorial", n)
    t = ctx.powi(-1, g[1] + g[2] - l[1] - l[2]) * ctx.delta(l[0] + l[1], l[2] + l[3])
    for gi, li in zip(g, l):
        t = t * F(gi) / (F(li) * F(gi - li))
    G, L = g[0] + g[1] + g[2] + g[3], l[0] + l[1] + l[2] + l[3]
    return t * ctx.fn("gamma", 1 + L / 2) * ctx.fn("gamma", (G - L + 1) / 2)


def closed_form(ctx, ni, mi, nj, mj, nl, ml, nk, mk):
    """Anisimovas & Matulis 1998 for <ij|1/r|lk> (their last pair interchanged), angular momentum conserved"""
    q = ((ni, mi), (nj, mj), (nk, mk), (nl, ml))

    def outer(*x):
        g = gammas(ctx, q, x)
        s = ctx.sum(g[0] + 1, lambda l1: ctx.sum(g[1] + 1, lambda l2: ctx.sum(g[2] + 1, lambda l3: ctx.sum(
            g[3] + 1, lambda l4: inner(ctx, g, (l1, l2, l3, l4))))))
        return weight(ctx, q, x) * s
    return ctx.sum(ni + 1, lambda a: ctx.sum(nj + 1, lambda b: ctx.sum(nk + 1, lambda c: ctx.sum(
        nl + 1, lambda d: outer(a, b, c, d)))))


def numbers(ctx):
    a = []
    for i in range(4):
        a += [ctx.int("n%d" % i, 0, chi=2), ctx.int("m%d" % i, None, None, clo=-2, chi=2)]
    return a


@K.case(samples=12)
def coulomb(ctx):
    ctx.use_contracts("log_factorial")
    a = numbers(ctx)
    if a[1] + a[3] == a[5] + a[7]:
        ctx.split(*[m >= 0 for m in a[1::2]])
    r = ctx.mod(C).coulomb_ho(*a)
    if a[1] + a[3] != a[5] + a[7]:
        ctx.ensure_eq("vanishes unless angular momentum is conserved", r, 0)
        return
    ctx.ensure_eq("closed form", r, closed_form(ctx, *a))


def symmetry(ctx, perm):
    """lemma over the contract: permuting the orbitals by perm permutes the summation variables of the closed form
    (finite sums may be taken in any order): same ranges, same summands"""
    a = numbers(ctx)
    q = [(a[0], a[1]), (a[2], a[3]), (a[6], a[7]), (a[4], a[5])]
    ctx.assume(a[1] + a[3] == a[5] + a[7])
    ctx.split(*[m >= 0 for m in a[1::2]])
    x = [ctx.int("x%d" % i, 0, chi=1) for i in range(4)]
    for xi, (n, m) in zip(x, q):
        ctx.assume(xi <= n)
    g = gammas(ctx, q, x)
    P = lambda v: [v[i] for i in perm]
    g2 = gammas(ctx, P(q), P(x))
    for i in range(4):
        ctx.ensure("range %d" % i, g2[i] == g[perm[i]])
    ctx.ensure_eq("weights", weight(ctx, P(q), P(x)), weight(ctx, q, x))
    l = [ctx.int("l%d" % i, 0, chi=2) for i in range(4)]
    for i in range(4):
        ctx.assume(l[i] <= g[i])
    ctx.ensure_eq("summands", inner(ctx, P(g), P(l)), inner(ctx, g, l))


@K.case(samples=40)
def exchange_symmetry(ctx):
    symmetry(ctx, (1, 0, 3, 2))


@K.case(samples=40)
def hermiticity(ctx):
    symmetry(ctx, (3, 2, 1, 0))


def u_of(ctx, factor=1):
    def val(p, q, r, s):
        a = []
        for x in (p, q, r, s):
            a += list(ctx.nm(x))
        return factor * ctx.coulomb(*a)
    return val


@K.case(samples=6)
def elements(ctx):
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    h = ctx.mod(H)
    N = ctx.dim("N", 1, 5)

    def e(p, q):
        n, m = ctx.nm(p)
        return ctx.delta(p, q) * (2 * n + ctx.iabs(m) + 1)
    ctx.ensure_arr("one-body", h.get_one_body_elements(N), (N, N), e, kind="f")
    u = h.get_coulomb_elements(N)
    ctx.ensure_arr("two-body", u, (N,) * 4, u_of(ctx), kind="f")


@K.case(samples=4)
def oscillator(ctx):
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    l = ctx.dim("l", 1, 3)
    omega = ctx.real("omega", pos=True)
    kw = {}
    if ctx.choice("mass given", [False, True]):
        kw["mass"] = ctx.real("mass", pos=True)
    b = ctx.mod(O).TwoDimensionalHarmonicOscillator(l, 2, 3, omega=omega, **kw)

    def e(p, q):
        n, m = ctx.nm(p)
        return ctx.delta(p, q) * omega * (2 * n + ctx.iabs(m) + 1)
    ctx.ensure_arr("h", b.h, (l, l), e)
    ctx.ensure_arr("s", b.s, (l, l), lambda p, q: ctx.delta(p, q))
    ctx.ensure_arr("u", b.u, (l,) * 4, u_of(ctx, ctx.sqrt(omega)))


@K.case(samples=4)
def oscillator_symmetric(ctx):
    """the symmetries as observed on u; uses the lemmas above (exchange_symmetry, hermiticity, conservation)"""
    ctx.use_contracts("get_indices_nm", "coulomb_ho", "coulomb lemmas")
    l = ctx.dim("l", 1, 4)
    omega = ctx.real("omega", pos=True)
    b = ctx.mod(O).TwoDimensionalHarmonicOscillator(l, 2, 3, omega=omega)
    u = ctx.snap(b.u)
    ctx.ensure("real", ctx.kind(u) == "f")

    def check(p, q, r, s):
        M = [ctx.nm(x)[1] for x in (p, q, r, s)]
        v = ctx.el(u, p, q, r, s)
        ctx.ensure_eq("zero unless m is conserved", (1 - ctx.delta(M[0] + M[1], M[2] + M[3])) * v, 0)
        ctx.ensure_eq("exchange", v, ctx.el(u, q, p, s, r))
        ctx.ensure_eq("bra and ket", v, ctx.el(u, r, s, p, q))
    ctx.for_all((l,) * 4, check)
