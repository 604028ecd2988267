"""C17: the 1D quantum dot's orbitals solve the discretised Schroedinger equation."""
from .base import Contract

K = Contract("C17")
K.assumptions = [
    "np.linalg.eigh: for Hermitian A returns all eigenvalues in ascending order with multiplicity and "
    "a unitary matrix of eigenvectors (assumed contract of the dependency)"]
M = "quantum_systems.quantum_dots.one_dim.one_dim_qd"


def build(ctx, potential, real=True):
    G = ctx.dim("G", 5, 8)
    l = ctx.int("l", 1, G - 2, chi=6)
    X = ctx.real("X", pos=True)
    kw = {} if potential is None else {"potential": potential}
    if ctx.choice("other parameters", [False, True]):
        kw.update(a=ctx.real("a", pos=True), alpha=ctx.real("alpha"), beta=ctx.real("beta"))
    return ctx.mod(M).ODQD(l, X, G, **kw), l, G, X


def check(ctx, b, l, G, X, V):
    dx = 2 * X / (G - 1)
    x = lambda i: -X + i * dx
    ctx.ensure_arr("grid", b.grid, (G,), x)
    phi = lambda p, i: ctx.el(b.spf, p, i)
    e = b.eigen_energies
    ctx.ensure_shape("eigenvalues", e, (l,))
    ctx.ensure_shape("orbitals", b.spf, (l, G))

    def end(p):
        ctx.ensure_eq("vanishes at the left end", phi(p, 0), 0)
        ctx.ensure_eq("vanishes at the right end", phi(p, G - 1), 0)
    ctx.for_all((l,), end)

    def eigen(p, k):
        i = k + 1
        lap = (phi(p, i - 1) - 2 * phi(p, i) + phi(p, i + 1)) / (dx * dx)
        ctx.ensure_eq("discretised Schroedinger equation", -lap / 2 + V(x(i)) * phi(p, i), ctx.el(e, p) * phi(p, i))
    ctx.for_all((l, G - 2), eigen)
    # trapezoidal quadrature; the end points carry no weight
    ctx.for_all((l, l), lambda p, q: ctx.ensure_eq(
        "orthonormal", dx * ctx.sum(G - 1, lambda i: (ctx.conj(phi(p, i)) * phi(q, i)
                                                      + ctx.conj(phi(p, i + 1)) * phi(q, i + 1)) / 2), ctx.delta(p, q)))
    lam = ctx.spectrum(G - 2, lambda i, j: ctx.delta(i, j) * (1 / (dx * dx) + V(x(i + 1)))
                       - (ctx.delta(i, j + 1) + ctx.delta(i + 1, j)) / (2 * dx * dx))
    ctx.ensure_arr("the lowest eigenvalues in ascending order", e, (l,), lam)
    ctx.ensure_arr("h", b.h, (l, l), lambda p, q: ctx.delta(p, q) * ctx.el(e, p), "c")
    ctx.ensure_arr("s", b.s, (l, l), lambda p, q: ctx.delta(p, q))


@K.case(samples=20)
def any_potential(ctx):
    V = ctx.function("V", wild=True)
    b, l, G, X = build(ctx, V)
    check(ctx, b, l, G, X, V)


@K.case(samples=10)
def default_potential(ctx):
    b, l, G, X = build(ctx, None)
    check(ctx, b, l, G, X, lambda x: x * x / 32)


@K.case(samples=10)
def set_up_again(ctx):
    """after the potential was replaced, setup_basis gives the orbitals of the new one"""
    V, W = ctx.function("V", wild=True), ctx.function("W", wild=True)
    b, l, G, X = build(ctx, V)
    b.potential = W
    b.setup_basis()
    check(ctx, b, l, G, X, W)
