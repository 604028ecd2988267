"""C07: reference energies, and agreement of spatial and spin-orbital form."""
from .base import Contract
from .common import spatial_system, general_system

K = Contract("C07")


def e_spatial(ctx, h, u, n):
    return 2 * ctx.sum(n, lambda i: ctx.el(h, i, i)) + ctx.sum(n, lambda i: ctx.sum(
        n, lambda j: 2 * ctx.el(u, i, j, i, j) - ctx.el(u, i, j, j, i)))


def e_general(ctx, h, u, n):
    return ctx.sum(n, lambda i: ctx.el(h, i, i)) + ctx.sum(n, lambda i: ctx.sum(
        n, lambda j: ctx.el(u, i, j, i, j))) / 2


def kinds(ctx):
    return {"real": ctx.choice("real h", [False, True]), "real_u": ctx.choice("real u", [False, True])}


@K.case()
def general_energy(ctx):
    s, L, n, h, u = general_system(ctx, **kinds(ctx))
    hs, us = ctx.snap(h), ctx.snap(u)
    ctx.ensure_eq("energy", s.compute_reference_energy(), e_general(ctx, hs, us, n))
    ctx.unchanged("h", s.h, hs)
    ctx.unchanged("u", s.u, us)
    ctx.ensure_eq("energy again", s.compute_reference_energy(), e_general(ctx, hs, us, n))


@K.case()
def spatial_energy(ctx):
    s, l, n, h, u = spatial_system(ctx, **kinds(ctx))
    hs, us = ctx.snap(h), ctx.snap(u)
    ctx.ensure_eq("energy", s.compute_reference_energy(), e_spatial(ctx, hs, us, n))
    ctx.unchanged("h", s.h, hs)
    ctx.unchanged("u", s.u, us)


@K.case(samples=4)
def general_energy_unsymmetrised(ctx):
    """general system over elements that are not antisymmetrised: the formula is the same"""
    from .common import basis
    L = ctx.dim("L", 1, 5)
    n = ctx.int("n", 0, L)
    bs = basis(ctx, L, 1, include_spin=True)
    s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs, anti_symmetrize=False)
    ctx.ensure_eq("energy", s.compute_reference_energy(), e_general(ctx, s.h, s.u, n))


@K.case(samples=4)
def after_basis_change(ctx):
    """the energy follows the stored elements and the current size"""
    s, l, n, h, u = spatial_system(ctx)
    m = ctx.int("m", n, None, chi=5)
    ctx.assume(m >= 1)
    s.change_basis(ctx.tensor("C", (l, m)))
    ctx.ensure_eq("energy", s.compute_reference_energy(), e_spatial(ctx, s.h, s.u, n))


@K.case(samples=4)
def agreement(ctx):
    """general system built from the spatial one: same energy, spin-doubled Fock matrix"""
    s, l, n, h, u = spatial_system(ctx, real=ctx.choice("real", [False, True]))
    hs, us = ctx.snap(h), ctx.snap(u)
    if ctx.choice("spin basis", ["default", "arbitrary"]) == "default":
        g = s.construct_general_orbital_system()
    else:
        a, b = ctx.spin_pair()
        g = s.construct_general_orbital_system(a=a, b=b)
    ctx.ensure_eq("same energy", g.compute_reference_energy(), e_spatial(ctx, hs, us, n))
    f = s.construct_fock_matrix(s.h, s.u)
    F = g.construct_fock_matrix(g.h, g.u)
    ctx.ensure_arr("doubled Fock", F, (2 * l, 2 * l), lambda p, q: ctx.ite(
        (p - q) % 2 == 0, ctx.el(f, p // 2, q // 2), 0))
    ctx.ensure_eq("spatial energy", s.compute_reference_energy(), e_spatial(ctx, hs, us, n))
