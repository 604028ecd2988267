"""C19: the analytic 1D harmonic-oscillator basis."""
from .base import Contract

K = Contract("C19")
M = "quantum_systems.quantum_dots.one_dim.one_dim_qd"
K.assumptions = ["scipy.special.hermite(n)(x) is the physicists' Hermite polynomial H_n(x) and "
                 "scipy.special.factorial(n) is n! (assumed contracts of the dependency)"]


def orbital(ctx, n, om, x):
    return (ctx.sqrt(ctx.sqrt(om / ctx.pi)) / ctx.sqrt(ctx.powi(2, n) * ctx.fn("factorial", n))
            * ctx.exp(-om * x * x / 2) * ctx.fn("hermite", n, ctx.sqrt(om) * x))


@K.case(samples=20)
def basis(ctx):
    G = ctx.dim("G", 2, 6)
    l = ctx.dim("l", 1, 5, far=24)
    X = ctx.real("X", pos=True)
    if ctx.choice("omega given", [True, False]):
        om = ctx.real("omega", pos=True)
        b = ctx.mod(M).ODHO(l, X, G, omega=om, a=ctx.real("a", pos=True), alpha=ctx.real("alpha"))
    else:
        om = 0.25
        b = ctx.mod(M).ODHO(l, X, G)
    dx = 2 * X / (G - 1)
    x = lambda i: -X + i * dx
    ctx.ensure_arr("grid", b.grid, (G,), x)
    ctx.ensure_arr("energies", b.eigen_energies, (l,), lambda p: om * (p + 0.5))
    ctx.ensure_arr("h", b.h, (l, l), lambda p, q: ctx.delta(p, q) * om * (p + 0.5), "c")
    ctx.ensure_arr("s", b.s, (l, l), lambda p, q: ctx.delta(p, q))
    ctx.ensure_arr("orbitals", b.spf, (l, G), lambda p, i: orbital(ctx, p, om, x(i)))
    ctx.ensure_arr("dipole", b.dipole_moment, (1, l, l), lambda k, p, q:
                   ctx.delta(q, p + 1) * ctx.sqrt((p + 1) / (2 * om)) + ctx.delta(p, q + 1) * ctx.sqrt((q + 1) / (2 * om)))


@K.case(samples=20)
def functions(ctx):
    """the orbital function at any position, for any quantum number"""
    n = ctx.int("n", 0, chi=24)
    om = ctx.real("omega", pos=True)
    b = ctx.mod(M).ODHO(1, 1, 2, omega=om)
    x = ctx.real("x")
    ctx.ensure_eq("ho_function", b.ho_function(x, n), orbital(ctx, n, om, x))
    ctx.ensure_eq("normalization", b.normalization(n),
                  ctx.sqrt(ctx.sqrt(om / ctx.pi)) / ctx.sqrt(ctx.powi(2, n) * ctx.fn("factorial", n)))
