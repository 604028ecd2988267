"""Shared input generators for the contracts."""


def basis(ctx, l, dim=1, include_spin=False, anti=False, real=False, tag="", real_u=None):
    """BasisSet of arbitrary size with arbitrary elements"""
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=dim, includes_spin=include_spin,
                                                       anti_symmetrized_u=anti)
    bs.h = ctx.tensor("h" + tag, (l, l), real)
    bs.s = ctx.tensor("s" + tag, (l, l), real)
    bs.u = ctx.tensor("u" + tag, (l, l, l, l), real if real_u is None else real_u)
    return bs


def spatial_system(ctx, dim=1, lo_n=0, real=False, real_u=None):
    """SpatialOrbitalSystem with l orbitals of which n are occupied"""
    l = ctx.dim("l", 1, 4)
    n = ctx.int("n", lo_n, l)
    bs = basis(ctx, l, dim, real=real, real_u=real_u)
    s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    return s, l, n, s.h, s.u


def general_system(ctx, dim=1, real=False, real_u=None):
    """GeneralOrbitalSystem over a basis that already includes spin"""
    L = ctx.dim("L", 1, 6)
    n = ctx.int("n", 0, L)
    bs = basis(ctx, L, dim, include_spin=True, anti=True, real=real, real_u=real_u)
    s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs)
    return s, L, n, s.h, s.u
