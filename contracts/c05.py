"""C05: antisymmetrisation exactly once."""
from .base import Contract

K = Contract("C05")


def GOS(ctx):
    return ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem


def anti(ctx, u):
    return lambda p, q, r, s: ctx.el(u, p, q, r, s) - ctx.el(u, p, q, s, r)


def spin_basis(ctx, L, flag, tb=True):
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(L, dim=1, includes_spin=True, anti_symmetrized_u=flag)
    bs.h, bs.s, bs.u = ctx.tensor("h", (L, L)), ctx.tensor("s", (L, L)), ctx.tensor("u", (L,) * 4)
    if tb:
        bs.spin_2_tb = ctx.tensor("tb", (L,) * 4)
    return bs


@K.case()
def helper(ctx):
    l = ctx.dim("l", 1, 3)
    u = ctx.tensor("u", (l,) * 4, ctx.choice("real", [False, True]))
    us = ctx.snap(u)
    r = ctx.mod("quantum_systems.basis_set").BasisSet.anti_symmetrize_u(u)
    ctx.ensure_arr("value", r, (l,) * 4, anti(ctx, us))
    ctx.unchanged("u", u, us)


@K.case()
def exchange_symmetric(ctx):
    """u with particle-exchange symmetry becomes antisymmetric in the first pair too"""
    l = ctx.dim("l", 1, 3)
    u = ctx.exch("u", l)
    r = ctx.mod("quantum_systems.basis_set").BasisSet.anti_symmetrize_u(u)
    ctx.ensure_arr("last_pair", r, (l,) * 4, lambda p, q, r_, s: -ctx.el(r, p, q, s, r_))
    ctx.ensure_arr("first_pair", r, (l,) * 4, lambda p, q, r_, s: -ctx.el(r, q, p, r_, s))


@K.case()
def requests(ctx):
    """one, two or three requests: applied exactly when not yet antisymmetrised"""
    L = ctx.dim("L", 1, 3)
    flag = ctx.choice("already", [False, True])
    tb = ctx.choice("tb", [True, False])
    bs = spin_basis(ctx, L, flag, tb)
    us, ts, hs = ctx.snap(bs.u), ctx.snap(bs.spin_2_tb), ctx.snap(bs.h)
    for i in range(ctx.choice("times", [1, 2, 3])):
        bs.anti_symmetrize_two_body_elements()
        ctx.ensure("flag", bs.anti_symmetrized_u is True)
        if flag:
            ctx.unchanged("u", bs.u, us)
        else:
            ctx.ensure_arr("u", bs.u, (L,) * 4, anti(ctx, us))
        if not tb:
            ctx.ensure("tb.unset", bs.spin_2_tb is None)
        elif flag:
            ctx.unchanged("tb", bs.spin_2_tb, ts)
        else:
            ctx.ensure_arr("tb", bs.spin_2_tb, (L,) * 4, anti(ctx, ts))
        ctx.unchanged("h", bs.h, hs)


@K.case()
def system_over_spin_basis(ctx):
    L = ctx.dim("L", 1, 3)
    flag = ctx.choice("already", [False, True])
    ask = ctx.choice("ask", [True, False])
    bs = spin_basis(ctx, L, flag)
    us, ts = ctx.snap(bs.u), ctx.snap(bs.spin_2_tb)
    n = ctx.int("n", 0, L)
    s = GOS(ctx)(n, bs, anti_symmetrize=ask)
    if ask and not flag:
        ctx.ensure_arr("u", s.u, (L,) * 4, anti(ctx, us))
        ctx.ensure_arr("tb", s.spin_2_tb, (L,) * 4, anti(ctx, ts))
    else:
        ctx.unchanged("u", s.u, us)
        ctx.unchanged("tb", s.spin_2_tb, ts)
    ctx.ensure("flag", s._basis_set.anti_symmetrized_u == (flag or ask))
    # a second system over the same basis
    s2 = GOS(ctx)(n, bs, anti_symmetrize=True)
    if flag:
        ctx.unchanged("u.second", s2.u, us)
    else:
        ctx.ensure_arr("u.second", s2.u, (L,) * 4, anti(ctx, us))


def doubled(ctx, u):
    def f(p, q, r, s):
        return ctx.ite(ctx.all_((p - r) % 2 == 0, (q - s) % 2 == 0), ctx.el(u, p // 2, q // 2, r // 2, s // 2), 0)
    return f


@K.case(samples=4)
def system_over_spatial_basis(ctx):
    """spatial basis: doubled by the system or beforehand; each combination of requests"""
    l = ctx.dim("l", 1, 2)
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=1)
    bs.h, bs.s, bs.u = ctx.tensor("h", (l, l)), ctx.tensor("s", (l, l)), ctx.tensor("u", (l,) * 4)
    us = ctx.snap(bs.u)
    pre = ctx.choice("pre", ["none", "doubled", "doubled_as"])
    ask = ctx.choice("ask", [True, False])
    extra = ctx.choice("extra", [False, True])
    if pre != "none":
        bs.change_to_general_orbital_basis(anti_symmetrize=pre == "doubled_as")
    n = ctx.int("n", 0, 2 * l)
    how = ctx.choice("how", ["system", "spatial"]) if pre == "none" else "system"
    if how == "system":
        s = GOS(ctx)(n, bs, anti_symmetrize=ask)
    else:
        ctx.assume(n <= l)
        s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(
            2 * n, bs).construct_general_orbital_system(anti_symmetrize=ask)
    if extra:
        s._basis_set.anti_symmetrize_two_body_elements()
    isas = ask or extra or pre == "doubled_as"
    D = doubled(ctx, us)
    if isas:
        ctx.ensure_arr("u", s.u, (2 * l,) * 4, lambda p, q, r, t: D(p, q, r, t) - D(p, q, t, r))
    else:
        ctx.ensure_arr("u", s.u, (2 * l,) * 4, D)
    ctx.ensure("flag", s._basis_set.anti_symmetrized_u == isas)


@K.case(samples=4)
def basis_change(ctx):
    """antisymmetric elements stay so under basis changes; nothing is antisymmetrised again"""
    L, m = ctx.dim("L", 1, 3), ctx.dim("m", 1, 3)
    bs = spin_basis(ctx, L, False)
    us = ctx.snap(bs.u)
    s = GOS(ctx)(0, bs)
    C = ctx.tensor("C", (L, m))
    Ct = ctx.tensor("Ct", (m, L))
    s.change_basis(C, Ct)
    ctx.ensure_arr("antisymmetric", s.u, (m,) * 4, lambda p, q, r, t: -ctx.el(s.u, p, q, t, r))
    before = ctx.snap(s.u)
    s._basis_set.anti_symmetrize_two_body_elements()
    ctx.unchanged("u", s.u, before)
    ctx.ensure("flag", s._basis_set.anti_symmetrized_u)
    ctx.ensure_arr("value", s.u, (m,) * 4, lambda p, q, r, t: ctx.sum(L, lambda a: ctx.sum(L, lambda b: ctx.sum(
        L, lambda c: ctx.sum(L, lambda d: ctx.el(Ct, p, a) * ctx.el(Ct, q, b) * anti(ctx, us)(a, b, c, d)
                             * ctx.el(C, c, r) * ctx.el(C, d, t))))))


@K.case(samples=4)
def sinc_dvr(ctx):
    """the sinc-DVR basis, compact or full two-body elements: antisymmetric whenever asked for"""
    l = ctx.dim("l", 2, 3)
    rep = ctx.choice("repr", ["2d", "4d"])
    X = ctx.real("X", pos=True)
    alpha, a = ctx.real("alpha"), ctx.real("a", pos=True)
    bs = ctx.mod("quantum_systems.sinc_dvr.one_dim.sinc_dvr").ODSincDVR(l, X, a=a, alpha=alpha, u_repr=rep)
    x = bs.grid
    pre = ctx.choice("pre", ["none", "doubled", "doubled_as"])
    if pre != "none":
        bs.change_to_general_orbital_basis(anti_symmetrize=pre == "doubled_as")
    s = GOS(ctx)(0, bs, anti_symmetrize=True)

    def D(p, q, r, t):
        d = ctx.el(x, p // 2) - ctx.el(x, q // 2)
        return ctx.ite(ctx.all_(p == r, q == t), alpha / ctx.sqrt(d * d + a * a), 0)
    ctx.ensure_arr("u", s.u, (2 * l,) * 4, lambda p, q, r, t: D(p, q, r, t) - D(p, q, t, r))
    ctx.ensure("flag", s._basis_set.anti_symmetrized_u)
    before = ctx.snap(s.u)
    s._basis_set.anti_symmetrize_two_body_elements()
    ctx.unchanged("u", s.u, before)
