"""C15: 2D orbitals, dipole and double-well elements follow the polar formulas."""
from .base import Contract

K = Contract("C15")
H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
O = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
K.assumptions = [
    "scipy's and SymPy's associated Laguerre polynomials are the same function L_n^k; factorials, exp and sqrt exact",
    "sympy.integrate(f, (r, 0, oo)) is the integral: a linear functional of the integrand (assumed contract)",
    "angular integrals of cos, sin, |cos|, |sin| times exp(-i k theta): closed forms stated in the contract, compared "
    "with numerical quadrature in the concrete runs",
    "the elements of the numbering (get_indices_nm) are used through its contract, verified in C13; "
    "coulomb_ho likewise (C14)"]


def R(ctx, n, m, a, r):
    return ctx.powi(a * r, ctx.iabs(m)) * ctx.fn("genlaguerre", n, ctx.iabs(m), a * a * r * r) * ctx.exp(-a * a * r * r / 2)


def norm(ctx, n, m, a):
    return a * ctx.sqrt(ctx.fn("factorial", n) / (ctx.pi * ctx.fn("factorial", n + ctx.iabs(m))))


def matrix_element(ctx, p, q, a, what, power):
    """<p| r^power what(theta) |q>"""
    n, m = ctx.nm(p)
    k, l = ctx.nm(q)
    I = ctx.radial(lambda r: r * ctx.powi(r, power) * R(ctx, n, m, a, r) * R(ctx, k, l, a, r))
    return norm(ctx, n, m, a) * norm(ctx, k, l, a) * I * ctx.angular(what, m - l)


def setting(ctx, cls, hi=4, **kw):
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    l = ctx.dim("l", 1, hi)
    N = ctx.dim("N", 2, 4)
    L = ctx.real("L", pos=True)
    w, mass = ctx.real("omega", pos=True), ctx.real("mass", pos=True)
    b = getattr(ctx.mod(O), cls)(l, L, N, omega=w, mass=mass, **kw)
    return b, l, N, L, w, mass


@K.case(samples=4)
def orbitals(ctx):
    b, l, N, L, w, mass = setting(ctx, "TwoDimensionalHarmonicOscillator")
    a = ctx.sqrt(mass * w)
    rad = lambda j: L * j / (N - 1)
    ang = lambda i: 2 * ctx.pi * i / (N - 1)
    ctx.ensure_arr("radii", b.radius, (N,), rad)
    ctx.ensure_arr("angles", b.theta, (N,), ang)

    def val(p, i, j):
        n, m = ctx.nm(p)
        return norm(ctx, n, m, a) * R(ctx, n, m, a, rad(j)) * ctx.exp(1j * m * ang(i))
    ctx.ensure_arr("spf", b.spf, (l, N, N), val)


@K.case(samples=3)
def dipole(ctx):
    b, l, N, L, w, mass = setting(ctx, "TwoDimensionalHarmonicOscillator")
    a = ctx.sqrt(mass * w)
    for c, what in enumerate(("cos", "sin")):
        ctx.ensure_arr("<%s>" % "xy"[c], b.dipole_moment[c], (l, l),
                       lambda p, q: matrix_element(ctx, p, q, a, what, 1))
    D = ctx.snap(b.dipole_moment)

    def check(p, q):
        for c in range(2):
            v = ctx.el(D, c, p, q)
            ctx.ensure_eq("hermitian %d" % c, v, ctx.conj(ctx.el(D, c, q, p)))
            k = ctx.iabs(ctx.nm(p)[1] - ctx.nm(q)[1])
            ctx.ensure_eq("selection rule %d" % c, (1 - ctx.delta(k, 1)) * v, 0)
    ctx.for_all((l, l), check)


@K.case(samples=4)
def double_well(ctx):
    Lb = ctx.real("barrier", nonneg=True)
    axis = ctx.choice("axis", [0, 1])
    b, l, N, L, w, mass = setting(ctx, "TwoDimensionalDoubleWell", barrier_strength=Lb, axis=axis)
    a = ctx.sqrt(mass * w)

    def val(p, q):
        n, m = ctx.nm(p)
        d = ctx.delta(p, q) * (w * (2 * n + ctx.iabs(m) + 1) + w * w * Lb * Lb / 8)
        return d - w * w * Lb / 2 * matrix_element(ctx, p, q, a, ("abs cos", "abs sin")[axis], 1)
    ctx.ensure_arr("h", b.h, (l, l), val)
    h = ctx.snap(b.h)
    ctx.for_all((l, l), lambda p, q: ctx.ensure_eq("hermitian", ctx.el(h, p, q), ctx.conj(ctx.el(h, q, p))))
    ctx.ensure_arr("s", b.s, (l, l), lambda p, q: ctx.delta(p, q))

    def u(p, q, r, s):
        a = []
        for x in (p, q, r, s):
            a += list(ctx.nm(x))
        return ctx.sqrt(w) * ctx.coulomb(*a)
    ctx.ensure_arr("u", b.u, (l,) * 4, u)
    for c, what in enumerate(("cos", "sin")):
        ctx.ensure_arr("<%s>" % "xy"[c], b.dipole_moment[c], (l, l),
                       lambda p, q: matrix_element(ctx, p, q, a, what, 1))
