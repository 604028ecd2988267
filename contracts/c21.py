"""C21: one-dimensional potentials."""
from .base import Contract

K = Contract("C21")
MOD = "quantum_systems.quantum_dots.one_dim.one_dim_potentials"


def both(ctx, make, V, wall=False, away_from_zero=False):
    """value on arrays and (where offered) on numbers; derivative is the derivative of the value"""
    pot = make()
    g = ctx.dim("g", 1, 4)
    xs = ctx.tensor("xs", (g,), True)
    x0 = ctx.snap(xs)
    ctx.ensure_arr("value", pot(xs), (g,), lambda i: V(ctx.el(x0, i)))
    ctx.unchanged("x", xs, x0)
    if wall:
        return
    x = ctx.real("x")
    if away_from_zero:
        ctx.assume(x > 0 if ctx.choice("side", ["right", "left"]) == "right" else x < 0)
    ctx.ensure_eq("scalar value", pot(x), V(x))
    d = pot.derivative(x)
    ctx.ensure_deriv("derivative", d, lambda y: pot(y), x)
    da = pot.derivative(xs)
    ctx.ensure_arr("derivative on arrays", da, (g,), lambda i: pot.derivative(ctx.el(x0, i)))
    ctx.unchanged("x", xs, x0)


@K.case()
def harmonic(ctx):
    w = ctx.real("omega")
    both(ctx, lambda: ctx.mod(MOD).HOPotential(w), lambda x: w * w * x * x / 2)


@K.case()
def double_well(ctx):
    w, l = ctx.real("omega"), ctx.real("l")
    both(ctx, lambda: ctx.mod(MOD).DWPotential(w, l), lambda x: w * w * (x * x + l * l / 4 - l * abs(x)) / 2,
         away_from_zero=True)


@K.case()
def smooth_double_well(ctx):
    if ctx.choice("default", [False, True]):
        a = 4
        make = lambda: ctx.mod(MOD).DWPotentialSmooth()
    else:
        a = ctx.real("a", pos=True)
        make = lambda: ctx.mod(MOD).DWPotentialSmooth(a)
    both(ctx, make, lambda x: (x + a / 2) * (x + a / 2) * (x - a / 2) * (x - a / 2) / (2 * a * a))


@K.case()
def symmetric_well(ctx):
    if ctx.choice("default", [False, True]):
        a, b, c = 0.5, 1, -7
        make = lambda: ctx.mod(MOD).SymmetricDWPotential()
    else:
        a, b, c = ctx.real("a"), ctx.real("b"), ctx.real("c")
        make = lambda: ctx.mod(MOD).SymmetricDWPotential(a, b, c)
    both(ctx, make, lambda x: a * x ** 6 + b * x ** 4 + c * x ** 2)


@K.case()
def asymmetric_well(ctx):
    if ctx.choice("default", [False, True]):
        a, b, c = 1, 1, -2.5
        make = lambda: ctx.mod(MOD).AsymmetricDWPotential()
    else:
        a, b, c = ctx.real("a"), ctx.real("b"), ctx.real("c")
        make = lambda: ctx.mod(MOD).AsymmetricDWPotential(a, b, c)
    both(ctx, make, lambda x: a * x ** 4 + b * x ** 3 + c * x ** 2)


@K.case()
def gaussian(ctx):
    w, c, d = ctx.real("w"), ctx.real("c"), ctx.real("d", pos=True)
    both(ctx, lambda: ctx.mod(MOD).GaussianPotential(w, c, d, ctx.np),
         lambda x: -w * ctx.exp(-(x - c) * (x - c) / (2 * d * d)))


@K.case(samples=10)
def gaussian_hard_wall(ctx):
    w, c, d, xw = ctx.real("w"), ctx.real("c"), ctx.real("d", pos=True), ctx.real("xw", nonneg=True)
    both(ctx, lambda: ctx.mod(MOD).GaussianPotentialHardWall(w, c, d, xw),
         lambda x: -w * ctx.exp(-(x - c) * (x - c) / (2 * d * d)) + ctx.ite(abs(x) > xw, 100000, 0), wall=True)


@K.case()
def atomic(ctx):
    if ctx.choice("default", [False, True]):
        Z, c = 2, 0.54878464
        make = lambda: ctx.mod(MOD).AtomicPotential()
    else:
        Z, c = ctx.real("Z"), ctx.real("c", pos=True)
        make = lambda: ctx.mod(MOD).AtomicPotential(Z, c)
    both(ctx, make, lambda x: -Z / ctx.sqrt(x * x + c))


@K.case()
def reachable_from_basis_sets(ctx):
    """the potentials offered by the 1D basis sets are these"""
    m = ctx.mod(MOD)
    od = ctx.mod("quantum_systems.quantum_dots.one_dim.one_dim_qd").ODQD
    dvr = ctx.mod("quantum_systems.sinc_dvr.one_dim.sinc_dvr").ODSincDVR
    for n in ("HOPotential", "DWPotential", "DWPotentialSmooth", "SymmetricDWPotential", "AsymmetricDWPotential",
              "GaussianPotential", "AtomicPotential"):
        ctx.ensure("ODQD." + n, getattr(od, n) is getattr(m, n))
        ctx.ensure("ODSincDVR." + n, getattr(dvr, n) is getattr(m, n))
