"""C08: particle-number bookkeeping."""
from .base import Contract
from .common import basis

K = Contract("C08")


def partition(ctx, tag, s, n, l):
    ctx.ensure_eq(tag + ".n", s.n, n)
    ctx.ensure_eq(tag + ".l", s.l, l)
    ctx.ensure_eq(tag + ".m", s.m, l - n)
    for nm, sl, a, b in (("o", s.o, 0, n), ("v", s.v, n, l)):
        ctx.ensure(tag + "." + nm + ".slice", isinstance(sl, slice) and (sl.step is None or sl.step == 1))
        ctx.ensure_eq(tag + "." + nm + ".start", 0 if sl.start is None else sl.start, a)
        ctx.ensure_eq(tag + "." + nm + ".stop", sl.stop, b)
    ctx.ensure_eq(tag + ".basis l", s._basis_set.l, l)


def sos(ctx):
    return ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem


def gos(ctx):
    return ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem


@K.case(samples=12)
def spatial(ctx):
    l = ctx.dim("l", 1, 4)
    N = ctx.int("N", 0, None, chi=10)
    bs = basis(ctx, l)
    e, s = ctx.raises_iff("construct", lambda: sos(ctx)(N, bs), ctx.any_(N % 2 != 0, N > 2 * l))
    if e is None:
        partition(ctx, "spatial", s, N // 2, l)
        ctx.ensure("two per orbital", 2 * s.n == N)


@K.case(samples=4)
def spatial_needs_spin_free(ctx):
    l = ctx.dim("l", 1, 4)
    n = ctx.int("n", 0, l)
    bs = basis(ctx, l, include_spin=True)
    e, _ = ctx.raises(lambda: sos(ctx)(2 * n, bs))
    ctx.ensure("refused", e is not None)


@K.case(samples=12)
def general_spin(ctx):
    L = ctx.dim("L", 1, 5)
    n = ctx.int("n", 0, None, chi=8)
    bs = basis(ctx, L, include_spin=True, anti=ctx.choice("anti", [False, True]))
    e, s = ctx.raises_iff("construct", lambda: gos(ctx)(n, bs, anti_symmetrize=ctx.choice("ask", [True, False])), n > L)
    if e is None:
        partition(ctx, "general", s, n, L)


@K.case(samples=12)
def general_spatial(ctx):
    l = ctx.dim("l", 1, 3)
    n = ctx.int("n", 0, None, chi=8)
    bs = basis(ctx, l)
    e, s = ctx.raises_iff("construct", lambda: gos(ctx)(n, bs), n > 2 * l)
    if e is None:
        partition(ctx, "general", s, n, 2 * l)


@K.case(samples=8)
def doubled(ctx):
    l = ctx.dim("l", 1, 3)
    n = ctx.int("n", 0, l)
    s = sos(ctx)(2 * n, basis(ctx, l))
    g = s.construct_general_orbital_system(anti_symmetrize=ctx.choice("ask", [True, False]))
    partition(ctx, "general", g, 2 * n, 2 * l)
    partition(ctx, "spatial", s, n, l)
    c = s.copy_system() if ctx.choice("copy", ["spatial", "general"]) == "spatial" else g.copy_system()
    k = c.n
    partition(ctx, "copy", c, k, c._basis_set.l)
    ctx.ensure("copy size", ctx.any_(ctx.all_(c.n == n, c.l == l), ctx.all_(c.n == 2 * n, c.l == 2 * l)))


@K.case(samples=12)
def resizing(ctx):
    """set_system_size: accepted exactly when n <= l; refused leaves the system as it was"""
    spin = ctx.choice("spin", [False, True])
    l = ctx.dim("l", 1, 4)
    n = ctx.int("n", 0, l)
    bs = basis(ctx, l, include_spin=spin, anti=spin)
    s = gos(ctx)(n, bs) if spin else sos(ctx)(2 * n, bs)
    n2, l2 = ctx.int("n2", 0, None, chi=6), ctx.int("l2", 0, None, chi=6)
    e, _ = ctx.raises_iff("resize", lambda: s.set_system_size(n2, l2), n2 > l2)
    if e is None:
        n, l = n2, l2
    ctx.ensure_eq("n", s.n, n)
    ctx.ensure_eq("l", s.l, l)
    ctx.ensure_eq("m", s.m, l - n)
    ctx.ensure_eq("o.stop", s.o.stop, n)
    ctx.ensure_eq("v.start", s.v.start, n)
    ctx.ensure_eq("v.stop", s.v.stop, l)


@K.case(samples=12)
def basis_change(ctx):
    spin = ctx.choice("spin", [False, True])
    l, m = ctx.dim("l", 1, 4), ctx.dim("m", 1, 4)
    n = ctx.int("n", 0, l)
    bs = basis(ctx, l, include_spin=spin, anti=spin)
    s = gos(ctx)(n, bs) if spin else sos(ctx)(2 * n, bs)
    C = ctx.tensor("C", (l, m))
    e, _ = ctx.raises_iff("change", lambda: s.change_basis(C), n > m)
    if e is None:
        partition(ctx, "changed", s, n, m)
