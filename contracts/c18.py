"""C18: 1D two-body and dipole elements are the trapezoidal quadrature of their integrals."""
from .base import Contract

K = Contract("C18")
M = "quantum_systems.quantum_dots.one_dim.one_dim_qd"


def trap(ctx, G, dx, f):
    return dx * ctx.sum(G - 1, lambda i: (f(i) + f(i + 1)) / 2)


def uniform(ctx, lo=2):
    G = ctx.dim("G", lo, 4)
    x0, dx = ctx.real("x0"), ctx.real("dx", pos=True)
    grid = x0 + ctx.np.arange(G) * dx
    return G, x0, dx, grid


def check_u(ctx, name, u, l, G, dx, x, phi, alpha, a):
    def w(i, j):
        d = x(i) - x(j)
        return alpha / ctx.sqrt(d * d + a * a)

    def val(p, q, r, s):
        return trap(ctx, G, dx, lambda i: ctx.conj(phi(p, i)) * phi(r, i) * trap(
            ctx, G, dx, lambda j: ctx.conj(phi(q, j)) * w(i, j) * phi(s, j)))
    ctx.ensure_arr(name, u, (l,) * 4, val)


def symmetries(ctx, u, l):
    ctx.ensure_arr("exchange symmetry", u, (l,) * 4, lambda p, q, r, s: ctx.el(u, q, p, s, r))
    ctx.ensure_arr("Hermiticity", u, (l,) * 4, lambda p, q, r, s: ctx.conj(ctx.el(u, r, s, p, q)))


@K.case(samples=10)
def two_body(ctx):
    """the integral routines, for any orbitals (real or complex) on any uniform grid"""
    m = ctx.mod(M)
    l = ctx.dim("l", 1, 2)
    G, x0, dx, grid = uniform(ctx)
    alpha, a = ctx.real("alpha"), ctx.real("a", pos=True)
    spf = ctx.tensor("spf", (l, G), ctx.choice("real orbitals", [False, True]))
    s0, g0 = ctx.snap(spf), ctx.snap(grid)
    inner = m._compute_inner_integral(spf, l, G, grid, alpha, a)
    u = m._compute_orbital_integrals(spf, l, inner, grid)
    check_u(ctx, "u", u, l, G, dx, lambda i: x0 + i * dx, lambda p, i: ctx.el(spf, p, i), alpha, a)
    symmetries(ctx, u, l)
    ctx.unchanged("spf", spf, s0)
    ctx.unchanged("grid", grid, g0)


@K.case(samples=8)
def helpers(ctx):
    m = ctx.mod(M)
    G, x0, dx, grid = uniform(ctx)
    f = ctx.tensor("f", (G,), ctx.choice("real f", [False, True]))
    ctx.ensure_eq("trapezoidal rule", m._trapz(f, grid), trap(ctx, G, dx, lambda i: ctx.el(f, i)))
    x1, x2, al = ctx.real("x1"), ctx.real("x2"), ctx.real("alpha")
    a = ctx.real("a", pos=True)
    ctx.ensure_eq("shielded Coulomb", m._shielded_coulomb(x1, x2, al, a), al / ctx.sqrt((x1 - x2) * (x1 - x2) + a * a))


def odqd(ctx):
    G = ctx.dim("G", 5, 7)
    l = ctx.int("l", 1, G - 2, chi=2)
    X = ctx.real("X", pos=True)
    alpha, a, beta = ctx.real("alpha"), ctx.real("a", pos=True), ctx.real("beta")
    V = ctx.function("V")
    b = ctx.mod(M).ODQD(l, X, G, a=a, alpha=alpha, beta=beta, potential=V)
    return b, l, G, X, alpha, a, beta


@K.case(samples=6)
def quantum_dot(ctx):
    """through the constructor: elements of the stored orbitals"""
    b, l, G, X, alpha, a, beta = odqd(ctx)
    dx = 2 * X / (G - 1)
    x = lambda i: -X + i * dx
    ctx.ensure_arr("grid", b.grid, (G,), x)
    phi = lambda p, i: ctx.el(b.spf, p, i)
    check_u(ctx, "u", b.u, l, G, dx, x, phi, alpha, a)
    symmetries(ctx, b.u, l)
    d = b.dipole_moment
    ctx.ensure_arr("dipole", d, (1, l, l), lambda k, p, q: trap(
        ctx, G, dx, lambda i: ctx.conj(phi(p, i)) * (x(i) + beta * x(i) * x(i)) * phi(q, i)))
    ctx.ensure_arr("dipole Hermitian", d, (1, l, l), lambda k, p, q: ctx.conj(ctx.el(d, k, q, p)))


@K.case(samples=6)
def dipole_of_given_orbitals(ctx):
    """construct_dipole_moment for any orbitals, also after the orbitals or beta were replaced"""
    b, l, G, X, alpha, a, beta = odqd(ctx)
    b.spf = ctx.tensor("spf", (l, G))
    b.beta = ctx.real("beta2")
    b.construct_dipole_moment()
    dx = 2 * X / (G - 1)
    x = lambda i: -X + i * dx
    phi = lambda p, i: ctx.el(b.spf, p, i)
    ctx.ensure_arr("dipole", b.dipole_moment, (1, l, l), lambda k, p, q: trap(
        ctx, G, dx, lambda i: ctx.conj(phi(p, i)) * (x(i) + b.beta * x(i) * x(i)) * phi(q, i)))


@K.case(samples=6)
def oscillator(ctx):
    """analytic oscillator basis: two-body elements of its orbitals (whose values are C19's contract)"""
    ctx.use_contracts("ODHO.ho_function")
    G = ctx.dim("G", 2, 5)
    l = ctx.dim("l", 1, 2)
    X = ctx.real("X", pos=True)
    alpha, a, om = ctx.real("alpha"), ctx.real("a", pos=True), ctx.real("omega", pos=True)
    b = ctx.mod(M).ODHO(l, X, G, omega=om, a=a, alpha=alpha)
    dx = 2 * X / (G - 1)
    check_u(ctx, "u", b.u, l, G, dx, lambda i: -X + i * dx, lambda p, i: ctx.el(b.spf, p, i), alpha, a)
    symmetries(ctx, b.u, l)
