"""C10: particle density."""
from .base import Contract

K = Contract("C10")


def density(ctx, l, bra, rho, ket):
    return lambda *x: ctx.sum(l, lambda p: ctx.sum(l, lambda q: bra(p, *x) * ctx.el(rho, q, p) * ket(q, *x)))


def setup(ctx, dim, real_spf, explicit):
    l = ctx.dim("l", 1, 3)
    grid = tuple(ctx.dim("g%d" % i, 1, 3) for i in range(dim))
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=dim)
    bs.spf = ctx.tensor("spf", (l,) + grid, real_spf)
    if explicit:
        bs.bra_spf = ctx.tensor("bra", (l,) + grid, real_spf)
    return bs, l, grid


def run(ctx, dim):
    explicit = ctx.choice("explicit duals", [False, True])
    real_spf = ctx.choice("real orbitals", [False, True])
    bs, l, grid = setup(ctx, dim, real_spf, explicit)
    ks = ctx.snap(bs._spf)
    bsn = ctx.snap(bs._bra_spf)
    bra = (lambda p, *x: ctx.el(bsn, p, *x)) if explicit else (lambda p, *x: ctx.conj(ctx.el(ks, p, *x)))
    ket = lambda p, *x: ctx.el(ks, p, *x)
    how = ctx.choice("coefficients", ["none", "C", "C and C_tilde"])
    m = l
    C = Ct = None
    kind = ctx.choice("real C", [False, True]) if how != "none" else False
    if how != "none":
        m = ctx.dim("m", 1, 3)
        C = ctx.tensor("C", (l, m), kind)
        if how == "C and C_tilde":
            Ct = ctx.tensor("Ct", (m, l), kind)
    rho = ctx.tensor("rho", (m, m), ctx.choice("real rho", [False, True]))
    rs, Cs, Cts = ctx.snap(rho), ctx.snap(C), ctx.snap(Ct)
    target = bs
    if ctx.choice("through", ["basis", "system"]) == "system":
        bs.h = bs.s = ctx.tensor("h", (l, l))
        bs.u = ctx.tensor("u", (l,) * 4)
        target = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(0, bs)
    if how == "none":
        r = target.compute_particle_density(rho)
        ctx.ensure_arr("density", r, grid, density(ctx, l, bra, rs, ket))
    else:
        r = target.compute_particle_density(rho, C=C, C_tilde=Ct) if Ct is not None else \
            target.compute_particle_density(rho, C=C)
        B = (lambda p, a: ctx.el(Cts, p, a)) if Ct is not None else (lambda p, a: ctx.conj(ctx.el(Cs, a, p)))
        bra2 = lambda p, *x: ctx.sum(l, lambda a: B(p, a) * bra(a, *x))
        ket2 = lambda q, *x: ctx.sum(l, lambda a: ctx.el(Cs, a, q) * ket(a, *x))
        ctx.ensure_arr("density", r, grid, density(ctx, m, bra2, rs, ket2))
    ctx.unchanged("rho", rho, rs)
    ctx.unchanged("spf", bs.spf, ks)
    ctx.ensure_eq("l", bs.l, l)
    if explicit:
        ctx.unchanged("bra_spf", bs.bra_spf, bsn)
    else:
        ctx.ensure_arr("bra_spf", bs.bra_spf, (l,) + grid, lambda p, *x: ctx.conj(ctx.el(ks, p, *x)))
    if C is not None:
        ctx.unchanged("C", C, Cs)
    if Ct is not None:
        ctx.unchanged("C_tilde", Ct, Cts)


@K.case(samples=12)
def density_1d(ctx):
    run(ctx, 1)


@K.case(samples=8)
def density_2d(ctx):
    run(ctx, 2)


@K.case(samples=6)
def density_3d(ctx):
    run(ctx, 3)


@K.case(samples=4)
def helper(ctx):
    """the function itself, for any pair of orbital arrays of one kind"""
    l = ctx.dim("l", 1, 3)
    g = ctx.dim("g", 1, 3)
    f = ctx.mod("quantum_systems.system_helper").compute_particle_density
    real = ctx.choice("real", [False, True])
    ket, bra = ctx.tensor("ket", (l, g), real), ctx.tensor("bra", (l, g), real)
    rho = ctx.tensor("rho", (l, l), ctx.choice("real rho", [False, True]))
    k0, b0, r0 = ctx.snap(ket), ctx.snap(bra), ctx.snap(rho)
    r = f(rho, ket, bra, ctx.np)
    ctx.ensure_arr("density", r, (g,), density(ctx, l, lambda p, x: ctx.el(b0, p, x), r0, lambda p, x: ctx.el(k0, p, x)))
    for n, a, b in (("ket", ket, k0), ("bra", bra, b0), ("rho", rho, r0)):
        ctx.unchanged(n, a, b)


@K.case(samples=4)
def transformed_basis(ctx):
    """density with coefficients equals the density of the basis actually changed"""
    bs, l, grid = setup(ctx, 1, False, ctx.choice("explicit duals", [False, True]))
    bs.h = bs.s = ctx.tensor("h", (l, l))
    bs.u = ctx.tensor("u", (l,) * 4)
    m = ctx.dim("m", 1, 3)
    C = ctx.tensor("C", (l, m))
    Ct = ctx.tensor("Ct", (m, l)) if ctx.choice("C_tilde", [False, True]) else None
    rho = ctx.tensor("rho", (m, m))
    r = bs.compute_particle_density(rho, C=C, C_tilde=Ct)
    bs.change_basis(C, Ct)
    r2 = bs.compute_particle_density(rho)
    ctx.ensure_arr("same", r2, grid, lambda x: ctx.el(r, x))


@K.case(samples=2)
def needs_orbitals(ctx):
    l = ctx.dim("l", 1, 3)
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=1)
    e, _ = ctx.raises(lambda: bs.compute_particle_density(ctx.tensor("rho", (l, l))))
    ctx.ensure("refused", e is not None)
