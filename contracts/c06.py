"""C06: Fock matrices."""
from .base import Contract
from .common import spatial_system, general_system

K = Contract("C06")


@K.case()
def general_fock(ctx):
    sys_, l, n, h, u = general_system(ctx, real=ctx.choice("real h", [False, True]), real_u=ctx.choice("real u", [False, True]))
    hs, us = ctx.snap(h), ctx.snap(u)
    f = ctx.choice("buffer", [None, "buf"])
    if f is not None:
        f = ctx.tensor("F0", (l, l))
    r = sys_.construct_fock_matrix(h, u, f=f) if f is not None else sys_.construct_fock_matrix(h, u)
    ctx.ensure_arr("fock", r, (l, l), lambda p, q: ctx.el(hs, p, q) + ctx.sum(n, lambda i: ctx.el(us, p, i, q, i)))
    if f is not None:
        ctx.ensure("buffer_returned", r is f)
    ctx.unchanged("h", h, hs)
    ctx.unchanged("u", u, us)


@K.case()
def spatial_fock(ctx):
    sys_, l, n, h, u = spatial_system(ctx, real=ctx.choice("real h", [False, True]), real_u=ctx.choice("real u", [False, True]))
    hs, us = ctx.snap(h), ctx.snap(u)
    f = ctx.choice("buffer", [None, "buf"])
    if f is not None:
        f = ctx.tensor("F0", (l, l))
    r = sys_.construct_fock_matrix(h, u, f=f) if f is not None else sys_.construct_fock_matrix(h, u)
    ctx.ensure_arr("fock", r, (l, l), lambda p, q: ctx.el(hs, p, q) + ctx.sum(
        n, lambda i: 2 * ctx.el(us, p, i, q, i) - ctx.el(us, p, i, i, q)))
    if f is not None:
        ctx.ensure("buffer_returned", r is f)
    ctx.unchanged("h", h, hs)
    ctx.unchanged("u", u, us)
