"""C02: element transformations."""
from .base import Contract

K = Contract("C02")


def _coeffs(ctx, l, m, tag=""):
    rC = ctx.choice("real C" + tag, [False, True])
    C = ctx.tensor("C" + tag, (l, m), rC)
    mode = ctx.choice("C_tilde" + tag, ["default", "given"])
    if mode == "default":
        return C, None, lambda p, a: ctx.conj(ctx.el(C, a, p))
    Ct = ctx.tensor("Ct" + tag, (m, l))
    return C, Ct, lambda p, a: ctx.el(Ct, p, a)


def _bs(ctx, l, cls="base"):
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=1)
    return bs


def _caller(ctx, l):
    """static method, bound method or through a system: all must behave alike"""
    how = ctx.choice("through", ["static", "system"])
    B = ctx.mod("quantum_systems.basis_set").BasisSet
    if how == "static":
        return (lambda h, C, Ct: B.transform_one_body_elements(h, C, ctx.np, C_tilde=Ct),
                lambda u, C, Ct: B.transform_two_body_elements(u, C, ctx.np, C_tilde=Ct))
    s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(
        0, B(l, dim=1, includes_spin=True, anti_symmetrized_u=True))
    return s.transform_one_body_elements, s.transform_two_body_elements


def _frame(ctx, pairs):
    for n, a, s in pairs:
        if a is not None:
            ctx.unchanged(n, a, s)


@K.case()
def one_body(ctx):
    l, m = ctx.dim("l"), ctx.dim("m")
    t1, _ = _caller(ctx, l)
    h = ctx.tensor("h", (l, l), ctx.choice("real h", [False, True]))
    C, Ct, B = _coeffs(ctx, l, m)
    sn = [("h", h, ctx.snap(h)), ("C", C, ctx.snap(C)), ("Ct", Ct, ctx.snap(Ct))]
    r = t1(h, C, Ct)
    ctx.ensure_arr("one_body", r, (m, m), lambda p, q: ctx.sum(l, lambda a: ctx.sum(l, lambda b: B(p, a) * ctx.el(
        h, a, b) * ctx.el(C, b, q))))
    _frame(ctx, sn)
    ctx.ensure("fresh", not (ctx.same_storage(r, h) or ctx.same_storage(r, C)))


@K.case(samples=4)
def two_body(ctx):
    l, m = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3)
    _, t2 = _caller(ctx, l)
    u = ctx.tensor("u", (l,) * 4, ctx.choice("real u", [False, True]))
    C, Ct, B = _coeffs(ctx, l, m)
    sn = [("u", u, ctx.snap(u)), ("C", C, ctx.snap(C)), ("Ct", Ct, ctx.snap(Ct))]
    r = t2(u, C, Ct)
    ctx.ensure_arr("two_body", r, (m,) * 4, lambda p, q, r_, s: ctx.sum(l, lambda a: ctx.sum(l, lambda b: ctx.sum(
        l, lambda c: ctx.sum(l, lambda d: B(p, a) * B(q, b) * ctx.el(u, a, b, c, d) * ctx.el(C, c, r_)
                             * ctx.el(C, d, s))))))
    _frame(ctx, sn)
    ctx.ensure("fresh", not (ctx.same_storage(r, u) or ctx.same_storage(r, C)))


@K.case()
def orbitals(ctx):
    l, m = ctx.dim("l"), ctx.dim("m")
    dim = ctx.choice("dim", [1, 2, 3])
    grid = tuple(ctx.dim("g%d" % i, 1, 3) for i in range(dim))
    Bs = ctx.mod("quantum_systems.basis_set").BasisSet
    C = ctx.tensor("C", (l, m))
    Ct = ctx.tensor("Ct", (m, l))
    spf = ctx.tensor("spf", (l,) + grid, ctx.choice("real spf", [False, True]))
    sn = [("spf", spf, ctx.snap(spf)), ("C", C, ctx.snap(C)), ("Ct", Ct, ctx.snap(Ct))]
    r = Bs.transform_spf(spf, C, ctx.np)
    ctx.ensure_arr("spf", r, (m,) + grid, lambda p, *x: ctx.sum(l, lambda a: ctx.el(C, a, p) * ctx.el(spf, a, *x)))
    r = Bs.transform_bra_spf(spf, Ct, ctx.np)
    ctx.ensure_arr("bra_spf", r, (m,) + grid, lambda p, *x: ctx.sum(l, lambda a: ctx.el(Ct, p, a) * ctx.el(
        spf, a, *x)))
    _frame(ctx, sn)


@K.case()
def getters(ctx):
    """get_transformed_h / get_transformed_u use the stored elements and do not modify them"""
    l, m = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3)
    bs = _bs(ctx, l)
    bs.h = ctx.tensor("h", (l, l))
    bs.u = ctx.tensor("u", (l,) * 4)
    hs, us = ctx.snap(bs.h), ctx.snap(bs.u)
    C = ctx.tensor("C", (l, m))
    Cs = ctx.snap(C)
    r = bs.get_transformed_h(C)
    ctx.ensure_arr("h", r, (m, m), lambda p, q: ctx.sum(l, lambda a: ctx.sum(l, lambda b: ctx.conj(
        ctx.el(C, a, p)) * ctx.el(hs, a, b) * ctx.el(C, b, q))))
    r = bs.get_transformed_u(C)
    ctx.ensure_arr("u", r, (m,) * 4, lambda p, q, r_, s: ctx.sum(l, lambda a: ctx.sum(l, lambda b: ctx.sum(
        l, lambda c: ctx.sum(l, lambda d: ctx.conj(ctx.el(C, a, p) * ctx.el(C, b, q)) * ctx.el(us, a, b, c, d)
                             * ctx.el(C, c, r_) * ctx.el(C, d, s))))))
    ctx.unchanged("h", bs.h, hs)
    ctx.unchanged("u", bs.u, us)
    ctx.unchanged("C", C, Cs)
    ctx.ensure_eq("l", bs.l, l)


@K.case(samples=4)
def compose(ctx):
    """transforming with C1 then C2 is transforming with C1 C2"""
    l, m, k = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3), ctx.dim("k", 1, 3)
    t1, t2 = _caller(ctx, l)
    h, u = ctx.tensor("h", (l, l)), ctx.tensor("u", (l,) * 4)
    C1, C2 = ctx.tensor("C1", (l, m)), ctx.tensor("C2", (m, k))
    C12 = ctx.np.dot(C1, C2)
    D1 = D2 = D21 = None
    if ctx.choice("bra", ["default", "given"]) == "given":
        D1, D2 = ctx.tensor("D1", (m, l)), ctx.tensor("D2", (k, m))
        D21 = ctx.np.dot(D2, D1)
    a, b = t1(t1(h, C1, D1), C2, D2), t1(h, C12, D21)
    ctx.ensure_arr("one_body", a, (k, k), lambda p, q: ctx.el(b, p, q))
    a2, b2 = t2(t2(u, C1, D1), C2, D2), t2(u, C12, D21)
    ctx.ensure_arr("two_body", a2, (k,) * 4, lambda p, q, r, s: ctx.el(b2, p, q, r, s))


@K.case(samples=4)
def symmetries(ctx):
    """with default bra coefficients: Hermiticity, exchange symmetry and antisymmetry are kept"""
    l, m = ctx.dim("l", 1, 3), ctx.dim("m", 1, 3)
    t1, t2 = _caller(ctx, l)
    h, u = ctx.herm("h", l), ctx.exch("u", l)
    C = ctx.tensor("C", (l, m))
    r = t1(h, C, None)
    ctx.ensure_arr("hermitian", r, (m, m), lambda p, q: ctx.conj(ctx.el(r, q, p)))
    r2 = t2(u, C, None)
    ctx.ensure_arr("exchange", r2, (m,) * 4, lambda p, q, r_, s: ctx.el(r2, q, p, s, r_))
    w = ctx.tensor("w", (l,) * 4)
    wa = w - w.transpose(0, 1, 3, 2)
    r3 = t2(wa, C, None)
    ctx.ensure_arr("antisymmetry", r3, (m,) * 4, lambda p, q, r_, s: -ctx.el(r3, p, q, s, r_))
