"""C03: spin doubling."""
from .base import Contract
from .common import basis

K = Contract("C03")


def one(ctx, h):
    return lambda p, q: ctx.ite((p - q) % 2 == 0, ctx.el(h, p // 2, q // 2), 0)


def two(ctx, u):
    return lambda p, q, r, s: ctx.ite(ctx.all_((p - r) % 2 == 0, (q - s) % 2 == 0),
                                      ctx.el(u, p // 2, q // 2, r // 2, s // 2), 0)


def anti(f):
    return lambda p, q, r, s: f(p, q, r, s) - f(p, q, s, r)


def build(ctx, real):
    l = ctx.dim("l", 1, 3)
    dim = ctx.choice("dim", [1, 2])
    bs = basis(ctx, l, dim, real=real)
    dip = ctx.choice("dipole", [False, True])
    if dip:
        bs.dipole_moment = ctx.tensor("d", (dim, l, l), real)
    orb = ctx.choice("orbitals", ["none", "spf", "spf and duals"])
    grid = (ctx.dim("g0", 1, 3), ctx.dim("g1", 1, 2))[:dim]
    if orb != "none":
        bs.spf = ctx.tensor("spf", (l,) + grid, real)
    if orb == "spf and duals":
        bs.bra_spf = ctx.tensor("bra", (l,) + grid, real)
    bs.nuclear_repulsion_energy = ctx.real("enuc")
    return bs, l, dim, dip, orb, grid


def state(ctx, bs):
    return {n: ctx.snap(getattr(bs, n)) for n in ("h", "s", "u", "dipole_moment", "_spf", "_bra_spf")}


def check(ctx, bs, old, l, dim, grid, is_anti):
    L = 2 * l
    ctx.ensure_eq("l", bs.l, L)
    ctx.ensure("includes_spin", bs.includes_spin)
    ctx.ensure("anti flag", bs.anti_symmetrized_u == is_anti)
    ctx.ensure_arr("h", bs.h, (L, L), one(ctx, old["h"]), kind="c")
    ctx.ensure_arr("s", bs.s, (L, L), one(ctx, old["s"]), kind="c")
    f = two(ctx, old["u"])
    ctx.ensure_arr("u", bs.u, (L,) * 4, anti(f) if is_anti else f, kind="c")
    d = old["dipole_moment"]
    if d is None:
        ctx.ensure("dipole unset", bs.dipole_moment is None)
    else:
        ctx.ensure_arr("dipole", bs.dipole_moment, (dim, L, L), lambda k, p, q: ctx.ite(
            (p - q) % 2 == 0, ctx.el(d, k, p // 2, q // 2), 0), kind="c")
    spf, bra = old["_spf"], old["_bra_spf"]
    if spf is None:
        ctx.ensure("spf unset", bs.spf is None)
        ctx.ensure("bra unset", bs.bra_spf is None)
    else:
        ctx.ensure_arr("spf", bs.spf, (L,) + grid, lambda p, *x: ctx.el(spf, p // 2, *x), kind="c")
        ctx.ensure_arr("bra", bs.bra_spf, (L,) + grid, lambda p, *x: ctx.el(bra, p // 2, *x) if bra is not None else
                       ctx.conj(ctx.el(spf, p // 2, *x)), kind="c")
    for n in ("spin_x", "spin_y", "spin_z", "spin_2"):
        ctx.ensure_shape(n, getattr(bs, n), (L, L))
        ctx.ensure(n + " complex", ctx.kind(getattr(bs, n)) == "c")
    ctx.ensure_shape("spin_2_tb", bs.spin_2_tb, (L,) * 4)


@K.case(samples=14)
def doubling(ctx):
    bs, l, dim, dip, orb, grid = build(ctx, ctx.choice("real", [True, False]))
    ask = ctx.choice("anti", ["default", True, False])
    old = state(ctx, bs)
    en = bs.nuclear_repulsion_energy
    kw = {} if ask == "default" else {"anti_symmetrize": ask}
    if ctx.choice("spin basis", ["default", "arbitrary"]) == "arbitrary":
        kw["a"], kw["b"] = ctx.spin_pair()
    r = bs.change_to_general_orbital_basis(**kw)
    ctx.ensure("in place", r is bs)
    check(ctx, bs, old, l, dim, grid, ask in ("default", True))
    ctx.ensure_eq("repulsion", bs.nuclear_repulsion_energy, en)


@K.case(samples=6)
def twice(ctx):
    """a second conversion changes nothing (whatever it is asked for)"""
    bs, l, dim, dip, orb, grid = build(ctx, False)
    ask = ctx.choice("anti", [True, False])
    bs.change_to_general_orbital_basis(anti_symmetrize=ask)
    names = ["h", "s", "u", "dipole_moment", "_spf", "_bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]
    old = {n: ctx.snap(getattr(bs, n)) for n in names}
    bs.change_to_general_orbital_basis(anti_symmetrize=ctx.choice("again", [True, False]))
    for n in names:
        ctx.unchanged(n, getattr(bs, n), old[n])
    ctx.ensure_eq("l", bs.l, 2 * l)
    ctx.ensure("flags", bs.includes_spin and bs.anti_symmetrized_u == ask)


@K.case(samples=12)
def through_system(ctx):
    """spatial system -> general system: doubled elements; the spatial system keeps its own"""
    bs, l, dim, dip, orb, grid = build(ctx, ctx.choice("real", [True, False]))
    n = ctx.int("n", 0, l)
    s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    old = state(ctx, bs)
    np0 = s.np
    ask = ctx.choice("anti", [True, False])
    g = s.construct_general_orbital_system(anti_symmetrize=ask)
    check(ctx, g._basis_set, old, l, dim, grid, ask)
    ctx.ensure("other basis", g._basis_set is not bs and s._basis_set is bs)
    for k in ("h", "s", "u", "dipole_moment", "_spf"):
        ctx.unchanged("spatial " + k, getattr(bs, k), old[k])
    if old["_bra_spf"] is not None:
        ctx.unchanged("spatial bra", bs._bra_spf, old["_bra_spf"])
    elif old["_spf"] is not None:
        ctx.ensure_arr("spatial bra", bs.bra_spf, (l,) + grid, lambda p, *x: ctx.conj(ctx.el(old["_spf"], p, *x)))
    ctx.ensure("spatial flags", not bs.includes_spin and not bs.anti_symmetrized_u and bs.spin_x is None)
    ctx.ensure_eq("spatial l", bs.l, l)
    ctx.ensure_eq("spatial n", s.n, n)
    ctx.ensure("modules", s.np is np0 and g.np is np0 and bs.np is np0 and g._basis_set.np is np0)
    # later changes of the general system are not seen by the spatial one
    g._basis_set.h[0, 0] = 17
    g._basis_set.u[0, 0, 0, 0] = 17
    ctx.unchanged("spatial h", s.h, old["h"])
    ctx.unchanged("spatial u", s.u, old["u"])


@K.case(samples=6)
def helpers(ctx):
    """the static helpers are pure"""
    l, g = ctx.dim("l", 1, 3), ctx.dim("g", 1, 3)
    B = ctx.mod("quantum_systems.basis_set").BasisSet
    real = ctx.choice("real", [True, False])
    h, u, f = ctx.tensor("h", (l, l), real), ctx.tensor("u", (l,) * 4, real), ctx.tensor("f", (l, g), real)
    h0, u0, f0 = ctx.snap(h), ctx.snap(u), ctx.snap(f)
    ctx.ensure_arr("one-body", B.add_spin_one_body(h, np=ctx.np), (2 * l,) * 2, one(ctx, h0))
    ctx.ensure_arr("two-body", B.add_spin_two_body(u, np=ctx.np), (2 * l,) * 4, two(ctx, u0))
    ctx.ensure_arr("orbitals", B.add_spin_spf(f, ctx.np), (2 * l, g), lambda p, x: ctx.el(f0, p // 2, x))
    ctx.ensure_arr("duals", B.add_spin_bra_spf(f, ctx.np), (2 * l, g), lambda p, x: ctx.el(f0, p // 2, x))
    ctx.ensure("no duals", B.add_spin_bra_spf(None, ctx.np) is None)
    for n, a, b in (("h", h, h0), ("u", u, u0), ("f", f, f0)):
        ctx.unchanged(n, a, b)
