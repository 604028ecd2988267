"""C25: changing the array module or casting to complex preserves every value."""
from .base import Contract

K = Contract("C25")
QS = ["h", "s", "u", "dipole_moment", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]


def build(ctx, groups, real):
    """basis set with the chosen groups of quantities set"""
    l = ctx.dim("l", 1, 3)
    dim = ctx.choice("dim", [1, 2])
    spin = "spin" in groups
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=dim, includes_spin=spin, anti_symmetrized_u=spin)
    if "basic" in groups:
        bs.h = ctx.tensor("h", (l, l), real)
        bs.u = ctx.tensor("u", (l,) * 4, real)
    if "s" in groups:
        bs.s = ctx.tensor("s", (l, l), real)
    if "dipole" in groups:
        bs.dipole_moment = ctx.tensor("d", (dim, l, l), real)
    if spin:
        for n in QS[4:8]:
            setattr(bs, n, ctx.tensor(n, (l, l), real))
        bs.spin_2_tb = ctx.tensor("spin_2_tb", (l,) * 4, real)
    grid = (ctx.dim("g0", 1, 3), ctx.dim("g1", 1, 3))[:dim]
    if "spf" in groups:
        bs.spf = ctx.tensor("spf", (l,) + grid, real)
    if "bra" in groups:
        bs.bra_spf = ctx.tensor("bra", (l,) + grid, real)
    bs.grid = ctx.tensor("grid", (grid[0],), True)
    bs.nuclear_repulsion_energy = ctx.real("enuc")
    return bs, l, dim


GROUPS = [("basic", "s"), ("basic", "s", "dipole", "spf"), ("basic", "s", "dipole", "spf", "bra"), ("basic", "spf"),
          ("basic", "s", "spin"), ("basic", "s", "spin", "dipole", "spf", "bra"), ()]


def state(ctx, bs):
    return {n: ctx.snap(getattr(bs, n)) for n in QS}, ctx.snap(bs._spf), ctx.snap(bs._bra_spf)


def values_kept(ctx, bs, old, cast):
    d, spf, bra = old
    for n in QS:
        a = getattr(bs, n)
        if d[n] is None:
            ctx.ensure(n + " unset", a is None)
        elif cast:
            ctx.ensure_arr(n, a, d[n].shape, lambda *i: ctx.el(d[n], *i), kind="c")
        else:
            ctx.ensure_arr(n, a, d[n].shape, lambda *i: ctx.el(d[n], *i), kind=ctx.kind(d[n]))
    if spf is None:
        ctx.ensure("spf unset", bs.spf is None)
        if bra is None:
            ctx.ensure("bra unset", bs.bra_spf is None)
    else:
        ctx.ensure_arr("spf", bs.spf, spf.shape, lambda *i: ctx.el(spf, *i), kind="c" if cast else ctx.kind(spf))
    if bra is not None:
        ctx.ensure_arr("bra", bs.bra_spf, bra.shape, lambda *i: ctx.el(bra, *i), kind="c" if cast else ctx.kind(bra))
    elif spf is not None:
        ctx.ensure_arr("bra", bs.bra_spf, spf.shape, lambda *i: ctx.conj(ctx.el(spf, *i)),
                       kind="c" if cast else ctx.kind(spf))


def meta(ctx, bs, l, dim, groups, grid, en):
    ctx.ensure_eq("l", bs.l, l)
    ctx.ensure_eq("dim", bs.dim, dim)
    ctx.ensure("spin flag", bs.includes_spin == ("spin" in groups) and bs.anti_symmetrized_u == ("spin" in groups))
    ctx.ensure_eq("repulsion", bs.nuclear_repulsion_energy, en)
    ctx.unchanged("grid", bs.grid, grid)


@K.case(samples=20)
def cast(ctx):
    g = ctx.choice("set", GROUPS)
    bs, l, dim = build(ctx, g, ctx.choice("real", [True, False]))
    old = state(ctx, bs)
    grid, en, np0 = ctx.snap(bs.grid), bs.nuclear_repulsion_energy, bs.np
    for k in range(ctx.choice("times", [1, 2])):
        bs.cast_to_complex()
        values_kept(ctx, bs, old, True)
        meta(ctx, bs, l, dim, g, grid, en)
        ctx.ensure("module", bs.np is np0)


@K.case(samples=20)
def module_of_basis(ctx):
    g = ctx.choice("set", GROUPS)
    bs, l, dim = build(ctx, g, ctx.choice("real", [True, False]))
    old = state(ctx, bs)
    grid, en = ctx.snap(bs.grid), bs.nuclear_repulsion_energy
    new = ctx.other_module()
    back = ctx.choice("back", [False, True])
    bs.change_module(new)
    ctx.ensure("module", bs.np is new)
    for n in QS + ["spf", "bra_spf"]:
        a = getattr(bs, n)
        if a is not None:
            ctx.ensure(n + " in the new module", ctx.module_of(a) == "other")
    values_kept(ctx, bs, old, False)
    if back:
        bs.change_module(ctx.np)
        ctx.ensure("module", bs.np is ctx.np)
        for n in QS + ["spf", "bra_spf"]:
            a = getattr(bs, n)
            if a is not None:
                ctx.ensure(n + " back in NumPy", ctx.module_of(a) == "numpy")
        values_kept(ctx, bs, old, False)
    meta(ctx, bs, l, dim, g, grid, en)


@K.case(samples=20)
def module_of_system(ctx):
    g = ctx.choice("set", GROUPS[:6])
    bs, l, dim = build(ctx, g, ctx.choice("real", [True, False]))
    n = ctx.int("n", 0, l)
    if "spin" in g:
        s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs)
    else:
        s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    old = state(ctx, bs)
    grid, en = ctx.snap(bs.grid), bs.nuclear_repulsion_energy
    new = ctx.other_module()
    s.change_module(new)
    ctx.ensure("system module", s.np is new)
    ctx.ensure("basis module", s._basis_set.np is new)
    ctx.ensure("same basis", s._basis_set is bs)
    values_kept(ctx, bs, old, False)
    meta(ctx, bs, l, dim, g, grid, en)
    for a in (s.h, s.u):
        ctx.ensure("in the new module", ctx.module_of(a) == "other")
    ctx.ensure_eq("n", s.n, n)


@K.case(samples=6)
def sinc_dvr(ctx):
    """sinc-DVR in either representation of u: values kept, new module recorded"""
    l = ctx.dim("l", 2, 3)
    bs = ctx.mod("quantum_systems.sinc_dvr.one_dim.sinc_dvr").ODSincDVR(
        l, ctx.real("X", pos=True), u_repr=ctx.choice("repr", ["2d", "4d"]))
    old = {n: ctx.snap(getattr(bs, n)) for n in ("h", "s", "u", "dipole_moment", "spf")}
    what = ctx.choice("what", ["module", "cast"])
    if what == "module":
        new = ctx.other_module()
        bs.change_module(new)
        ctx.ensure("module", bs.np is new)
    else:
        bs.cast_to_complex()
    for n, o in old.items():
        ctx.ensure_arr(n, getattr(bs, n), o.shape, lambda *i: ctx.el(o, *i), kind="c")
