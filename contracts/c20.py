"""C20: sinc-DVR basis."""
from .base import Contract

K = Contract("C20")
M = "quantum_systems.sinc_dvr.one_dim.sinc_dvr"


def make(ctx, rep, potential="function"):
    l = ctx.dim("l", 2, 4)
    X = ctx.real("X", pos=True)
    alpha, a, beta = ctx.real("alpha"), ctx.real("a", pos=True), ctx.real("beta")
    kw = dict(a=a, alpha=alpha, beta=beta, u_repr=rep)
    if potential == "function":
        kw["potential"] = ctx.function("V")
    bs = ctx.mod(M).ODSincDVR(l, X, **kw)
    dx = 2 * X / (l - 1)

    def x(i):
        return -X + i * dx

    def w(p, q):
        d = (p - q) * dx
        return alpha / ctx.sqrt(d * d + a * a)
    return bs, l, dx, x, w, beta, kw.get("potential")


def u4(ctx, w):
    return lambda p, q, r, s: ctx.ite(ctx.all_(p == r, q == s), w(p, q), 0)


def check_u(ctx, name, bs, L, f2):
    """compact or full elements of the operator with values f2[p,q] on u[p,q,p,q]"""
    if len(bs.u.shape) == 2:
        ctx.ensure_arr(name, bs.u, (L, L), f2)
    else:
        ctx.ensure_arr(name, bs.u, (L,) * 4, u4(ctx, f2))


@K.case(samples=20)
def elements(ctx):
    rep = ctx.choice("repr", ["2d", "4d"])
    pot = ctx.choice("potential", ["function", "default"])
    bs, l, dx, x, w, beta, V = make(ctx, rep, pot)
    if V is None:
        V = lambda y: y * y / 32            # omega = 1/4
    ctx.ensure("sizes", ctx.all_(bs.l == l, bs.dim == 1))
    ctx.ensure("spin flags", not bs.includes_spin and not bs.anti_symmetrized_u)
    ctx.ensure_arr("grid", bs.grid, (l,), x)
    ctx.ensure("repr", bs.u_repr == rep and len(bs.u.shape) == (2 if rep == "2d" else 4))

    def h(i, j):
        d = i - j
        off = ctx.powi(-1, ctx.iabs(d)) / (dx * dx * ctx.ite(d == 0, 1, d * d))
        return ctx.ite(i == j, ctx.pi * ctx.pi / (6 * dx * dx) + V(x(i)), off)
    ctx.ensure_arr("h", bs.h, (l, l), h, kind="c")
    ctx.ensure_arr("s", bs.s, (l, l), lambda i, j: ctx.delta(i, j), kind="c")
    check_u(ctx, "u", bs, l, w)
    ctx.ensure("u complex", ctx.kind(bs.u) == "c")
    ctx.ensure_arr("dipole", bs.dipole_moment, (1, l, l),
                   lambda k, i, j: ctx.ite(i == j, x(i) + beta * x(i) * x(i), 0), kind="c")
    ctx.ensure_arr("spf", bs.spf, (l, l), lambda i, k: ctx.fn("sinc", (x(k) - x(i)) / dx) / ctx.sqrt(dx), kind="c")


@K.case(samples=8)
def refused(ctx):
    l, X = ctx.dim("l", 2, 4), ctx.real("X", pos=True)
    e, _ = ctx.raises(lambda: ctx.mod(M).ODSincDVR(l, X, u_repr=ctx.choice("repr", ["sparse", "3d", ""])), ValueError)
    ctx.ensure("unknown representation refused", e is not None)
    bs = make(ctx, ctx.choice("from", ["2d", "4d"]))[0]
    u0, r0 = ctx.snap(bs.u), bs.u_repr
    e, _ = ctx.raises(lambda: bs.set_u_repr("3d"), ValueError)
    ctx.ensure("unknown target refused", e is not None)
    ctx.unchanged("u", bs.u, u0)


@K.case(samples=12)
def switching(ctx):
    """switching representations keeps the operator, before and after spin doubling"""
    bs, l, dx, x, w, beta, V = make(ctx, ctx.choice("repr", ["2d", "4d"]))
    L, f2 = l, w
    if ctx.choice("doubled", [False, True]):
        bs.change_to_general_orbital_basis(anti_symmetrize=False)
        L, f2 = 2 * l, lambda p, q: w(p // 2, q // 2)
    check_u(ctx, "before", bs, L, f2)
    hs = ctx.snap(bs.h)
    for k, to in enumerate([ctx.choice("first", ["2d", "4d"]), ctx.choice("second", ["2d", "4d"])]):
        bs.set_u_repr(to)
        ctx.ensure("repr %d" % k, bs.u_repr == to)
        check_u(ctx, "after %d" % k, bs, L, f2)
    ctx.ensure("sparse flag", bs.sparse_repr == (bs.u_repr == "2d"))
    ctx.unchanged("h", bs.h, hs)


@K.case(samples=8)
def doubling(ctx):
    """spin doubling and antisymmetrisation do not depend on the representation"""
    bs, l, dx, x, w, beta, V = make(ctx, ctx.choice("repr", ["2d", "4d"]))
    how = ctx.choice("how", ["plain", "antisymmetric", "antisymmetrised later"])
    pair = ctx.choice("pair", ["default", "other"])
    kw = {"a": [0, 1], "b": [1, 0]} if pair == "other" else {}
    bs.change_to_general_orbital_basis(anti_symmetrize=how == "antisymmetric", **kw)
    if how == "antisymmetrised later":
        bs.anti_symmetrize_two_body_elements()
    L = 2 * l
    ctx.ensure("size", ctx.all_(bs.l == L, bs.includes_spin))
    f = u4(ctx, lambda p, q: w(p // 2, q // 2))
    if how == "plain":
        check_u(ctx, "u", bs, L, lambda p, q: w(p // 2, q // 2))
        ctx.ensure("flag", not bs.anti_symmetrized_u)
        if bs.u_repr == "2d":
            bs.set_u_repr("4d")
        ctx.ensure_arr("u 4d", bs.u, (L,) * 4, f)
    else:
        ctx.ensure_arr("u", bs.u, (L,) * 4, lambda p, q, r, s: f(p, q, r, s) - f(p, q, s, r))
        ctx.ensure("flag", bs.anti_symmetrized_u)
    ctx.ensure_arr("dipole", bs.dipole_moment, (1, L, L),
                   lambda k, i, j: ctx.ite(i == j, x(i // 2) + beta * x(i // 2) * x(i // 2), 0))


def contracted(ctx, L, w, C, Ct):
    return lambda p, q, r, s: ctx.sum(L, lambda i: ctx.sum(L, lambda j: Ct(p, i) * Ct(q, j) * w(i, j)
                                                           * ctx.el(C, i, r) * ctx.el(C, j, s)))


@K.case(samples=8)
def basis_change(ctx):
    bs, l, dx, x, w, beta, V = make(ctx, ctx.choice("repr", ["2d", "4d"]))
    L, f2 = l, w
    if ctx.choice("doubled", [False, True]):
        bs.change_to_general_orbital_basis(anti_symmetrize=False)
        L, f2 = 2 * l, lambda p, q: w(p // 2, q // 2)
    hs, spf = ctx.snap(bs.h), ctx.snap(bs.spf)
    m = ctx.dim("m", 1, 3)
    C = ctx.tensor("C", (L, m))
    if ctx.choice("bra", ["default", "given"]) == "given":
        D = ctx.tensor("Ct", (m, L))
        Ct = lambda p, i: ctx.el(D, p, i)
        bs.change_basis(C, D)
    else:
        Ct = lambda p, i: ctx.conj(ctx.el(C, i, p))
        bs.change_basis(C)
    ctx.ensure("size", bs.l == m)
    g = contracted(ctx, L, f2, C, Ct)
    ctx.ensure_arr("u", bs.u, (m,) * 4, g)
    ctx.ensure_arr("h", bs.h, (m, m), lambda p, q: ctx.sum(L, lambda i: ctx.sum(
        L, lambda j: Ct(p, i) * ctx.el(hs, i, j) * ctx.el(C, j, q))))
    ctx.ensure_arr("spf", bs.spf, (m, l), lambda p, k: ctx.sum(L, lambda i: ctx.el(C, i, p) * ctx.el(spf, i, k)))
    if bs.includes_spin:
        bs.anti_symmetrize_two_body_elements()
        ctx.ensure_arr("antisymmetrised", bs.u, (m,) * 4, lambda p, q, r, s: g(p, q, r, s) - g(p, q, s, r))


@K.case(samples=8)
def transform(ctx):
    """direct transformation of given elements; in compact form optionally antisymmetrised on the way"""
    rep = ctx.choice("repr", ["2d", "4d"])
    bs, l, dx, x, w, beta, V = make(ctx, rep)
    m = ctx.dim("m", 1, 3)
    C, D = ctx.tensor("C", (l, m)), ctx.tensor("Ct", (m, l))
    u0, C0, D0 = ctx.snap(bs.u), ctx.snap(C), ctx.snap(D)
    given = ctx.choice("bra", ["default", "given"]) == "given"
    Ct = (lambda p, i: ctx.el(D, p, i)) if given else (lambda p, i: ctx.conj(ctx.el(C, i, p)))
    anti = rep == "2d" and ctx.choice("anti", [False, True])
    kw = {"C_tilde": D} if given else {}
    if anti:
        kw["anti_symmetrize"] = True
    r = bs.transform_two_body_elements(bs.u, C, ctx.np, **kw)
    g = contracted(ctx, l, w, C, Ct)
    ctx.ensure_arr("u'", r, (m,) * 4, (lambda p, q, r, s: g(p, q, r, s) - g(p, q, s, r)) if anti else g)
    ctx.unchanged("u", bs.u, u0)
    ctx.unchanged("C", C, C0)
    ctx.unchanged("C_tilde", D, D0)
