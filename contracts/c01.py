"""C01: change of basis."""
from .base import Contract

K = Contract("C01")
ONE = ["h", "s", "spin_x", "spin_y", "spin_z", "spin_2"]


def build(ctx, l, spin, dim, dip, spf, bra, s_set=True, two_spin=True):
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=dim, includes_spin=spin, anti_symmetrized_u=spin)
    bs.h = ctx.tensor("h", (l, l))
    if s_set:
        bs.s = ctx.tensor("s", (l, l))
    bs.u = ctx.tensor("u", (l,) * 4)
    if spin:
        for n in ONE[2:]:
            setattr(bs, n, ctx.tensor(n, (l, l)))
        if two_spin:
            bs.spin_2_tb = ctx.tensor("spin_2_tb", (l,) * 4)
    if dip:
        bs.dipole_moment = ctx.tensor("dip", (dim, l, l))
    grid = ()
    if spf:
        grid = tuple(ctx.dim("g%d" % i, 1, 3) for i in range(dim))
        bs.spf = ctx.tensor("spf", (l,) + grid)
        if bra:
            bs.bra_spf = ctx.tensor("bra", (l,) + grid)
    return bs, grid


def snapshot(ctx, bs):
    d = {n: ctx.snap(getattr(bs, n)) for n in ONE + ["u", "spin_2_tb", "dipole_moment"]}
    d["spf"] = ctx.snap(bs._spf)
    d["bra_spf"] = ctx.snap(bs._bra_spf)
    return d


def check_changed(ctx, bs, old, l, m, C, B, grid, dim):
    """every stored quantity is the transformed old one"""
    def one(x):
        return lambda p, q: ctx.sum(l, lambda a: ctx.sum(l, lambda b: B(p, a) * x(a, b) * ctx.el(C, b, q)))

    def two(x):
        return lambda p, q, r, s: ctx.sum(l, lambda a: ctx.sum(l, lambda b: ctx.sum(l, lambda c: ctx.sum(
            l, lambda d: B(p, a) * B(q, b) * x(a, b, c, d) * ctx.el(C, c, r) * ctx.el(C, d, s)))))
    ctx.ensure_eq("l", bs.l, m)
    for n in ONE:
        if old[n] is None:
            ctx.ensure(n + ".unset", getattr(bs, n) is None)
        else:
            ctx.ensure_arr(n, getattr(bs, n), (m, m), one(lambda a, b, n=n: ctx.el(old[n], a, b)))
    for n in ["u", "spin_2_tb"]:
        if old[n] is None:
            ctx.ensure(n + ".unset", getattr(bs, n) is None)
        else:
            ctx.ensure_arr(n, getattr(bs, n), (m,) * 4, two(lambda *i, n=n: ctx.el(old[n], *i)))
    if old["dipole_moment"] is None:
        ctx.ensure("dipole.unset", bs.dipole_moment is None)
    else:
        ctx.ensure_arr("dipole", bs.dipole_moment, (dim, m, m), lambda k, p, q: one(
            lambda a, b: ctx.el(old["dipole_moment"], k, a, b))(p, q))
    if old["spf"] is None:
        ctx.ensure("spf.unset", bs.spf is None)
        ctx.ensure("bra_spf.unset", bs.bra_spf is None)
    else:
        ctx.ensure_arr("spf", bs.spf, (m,) + grid, lambda p, *x: ctx.sum(l, lambda a: ctx.el(C, a, p) * ctx.el(
            old["spf"], a, *x)))
        br = old["bra_spf"]
        ctx.ensure_arr("bra_spf", bs.bra_spf, (m,) + grid, lambda p, *x: ctx.sum(l, lambda a: B(p, a) * (
            ctx.el(br, a, *x) if br is not None else ctx.conj(ctx.el(old["spf"], a, *x)))))


def coeffs(ctx, l, m):
    C = ctx.tensor("C", (l, m), ctx.choice("real C", [False, True]))
    if ctx.choice("C_tilde", ["default", "given"]) == "default":
        return C, None, lambda p, a: ctx.conj(ctx.el(C, a, p))
    Ct = ctx.tensor("Ct", (m, l))
    return C, Ct, lambda p, a: ctx.el(Ct, p, a)


def run(ctx, spin, dim, dip, spf, bra, s_set, two_spin=True):
    l, m = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3)
    bs, grid = build(ctx, l, spin, dim, dip, spf, bra, s_set, two_spin)
    C, Ct, B = coeffs(ctx, l, m)
    old = snapshot(ctx, bs)
    Cs, Cts = ctx.snap(C), ctx.snap(Ct)
    nre = bs.nuclear_repulsion_energy
    n = None
    if ctx.choice("through", ["basis", "system"]) == "basis":
        bs.change_basis(C, Ct) if Ct is not None else bs.change_basis(C)
    else:
        n = ctx.int("n", 0)
        ctx.assume(n <= l)
        ctx.assume(n <= m)
        if spin:
            s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs)
        else:
            s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
        s.change_basis(C, Ct) if Ct is not None else s.change_basis(C)
        ctx.ensure_eq("system.n", s.n, n)
        ctx.ensure_eq("system.l", s.l, m)
        ctx.ensure_eq("system.m", s.m, m - n)
        ctx.ensure_eq("system.o.stop", s.o.stop, n)
        ctx.ensure_eq("system.v.start", s.v.start, n)
        ctx.ensure_eq("system.v.stop", s.v.stop, m)
        bs = s._basis_set
    check_changed(ctx, bs, old, l, m, C, B, grid, dim)
    ctx.unchanged("C", C, Cs)
    if Ct is not None:
        ctx.unchanged("C_tilde", Ct, Cts)
    ctx.ensure_eq("nuclear_repulsion_energy", bs.nuclear_repulsion_energy, nre)
    ctx.ensure("flags", bs.includes_spin == spin and bs.anti_symmetrized_u == spin)


@K.case(samples=4)
def spin_free(ctx):
    run(ctx, False, 1, ctx.choice("dipole", [False, True]), False, False, ctx.choice("s set", [True, False]))


@K.case(samples=4)
def spin_dependent(ctx):
    run(ctx, True, 1, False, False, False, True, ctx.choice("two-body spin", [True, False]))


@K.case(samples=6)
def orbitals_and_dipole(ctx):
    run(ctx, False, ctx.choice("dim", [1, 2, 3]), True, True, ctx.choice("explicit duals", [False, True]), True)


@K.case(samples=2)
def everything(ctx):
    run(ctx, True, 3, True, True, ctx.choice("explicit duals", [False, True]), True)


@K.case(samples=4)
def sequence(ctx):
    """a second change of basis acts on the result of the first"""
    l, m, k = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3), ctx.dim("k", 1, 3)
    bs, grid = build(ctx, l, True, 1, True, True, ctx.choice("explicit duals", [False, True]))
    C1 = ctx.tensor("C1", (l, m))
    bs.change_basis(C1)
    mid = snapshot(ctx, bs)
    C2 = ctx.tensor("C", (m, k))
    bs.change_basis(C2)
    check_changed(ctx, bs, mid, m, k, C2, lambda p, a: ctx.conj(ctx.el(C2, a, p)), grid, 1)
