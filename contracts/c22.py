"""C22: random basis sets."""
from .base import Contract

K = Contract("C22")
MOD = "quantum_systems.random_basis"


@K.case(samples=8)
def basis_set(ctx):
    l = ctx.dim("l", 1, 5)
    dim = ctx.choice("dim", [1, 2, 3])
    spin = ctx.choice("spin", [False, True])
    R = ctx.mod(MOD).RandomBasisSet
    bs = R(l, dim, includes_spin=spin) if spin else R(l, dim)
    for n in ("h", "s"):
        a = getattr(bs, n)
        ctx.ensure_arr(n + " Hermitian", a, (l, l), lambda p, q: ctx.conj(ctx.el(a, q, p)), kind="c")
    d = bs.dipole_moment
    ctx.ensure_arr("dipole Hermitian", d, (dim, l, l), lambda k, p, q: ctx.conj(ctx.el(d, k, q, p)), kind="c")
    u = bs.u
    ctx.ensure_arr("exchange symmetric", u, (l,) * 4, lambda p, q, r, s: ctx.el(u, q, p, s, r), kind="c")
    ctx.ensure_eq("l", bs.l, l)
    ctx.ensure_eq("dim", bs.dim, dim)
    ctx.ensure("flags", bs.includes_spin == spin and not bs.anti_symmetrized_u)
    ctx.ensure_eq("real repulsion", bs.nuclear_repulsion_energy, ctx.conj(bs.nuclear_repulsion_energy))


@K.case(samples=4)
def independent(ctx):
    """two draws are independent objects; redrawing keeps the symmetries"""
    l = ctx.dim("l", 1, 4)
    bs = ctx.mod(MOD).RandomBasisSet(l, 1)
    h0 = bs.h
    h0s = ctx.snap(h0)
    bs.setup_basis()
    ctx.ensure("fresh", not ctx.same_storage(bs.h, h0))
    ctx.unchanged("old h", h0, h0s)
    ctx.ensure_arr("h Hermitian", bs.h, (l, l), lambda p, q: ctx.conj(ctx.el(bs.h, q, p)), kind="c")


@K.case(samples=6)
def helpers(ctx):
    """the symmetrisers, for every array"""
    l = ctx.dim("l", 1, 4)
    k = ctx.dim("k", 1, 3)
    R = ctx.mod(MOD).RandomBasisSet
    h = ctx.tensor("h", (l, l))
    h0 = ctx.snap(h)
    r = R.make_hermitian(h)
    ctx.ensure_arr("hermitian", r, (l, l), lambda p, q: ctx.conj(ctx.el(r, q, p)))
    ctx.unchanged("h", h, h0)
    d = ctx.tensor("d", (k, l, l))
    r2 = R.make_dipole_moment_hermitian(d)
    ctx.ensure_arr("dipole", r2, (k, l, l), lambda j, p, q: ctx.conj(ctx.el(r2, j, q, p)))
    u = ctx.tensor("u", (l,) * 4)
    u0 = ctx.snap(u)
    r3 = R.make_two_body_symmetry(u)
    ctx.ensure_arr("two-body", r3, (l,) * 4, lambda p, q, s, t: ctx.el(r3, q, p, t, s))
    ctx.unchanged("u", u, u0)


@K.case(samples=6)
def random_elements(ctx):
    R = ctx.mod(MOD).RandomBasisSet
    rank = ctx.choice("rank", [1, 2, 3, 4])
    shape = tuple(ctx.int("n%d" % i, 0, None, chi=4) for i in range(rank))
    a = R.get_random_elements(shape, ctx.np)
    ctx.ensure_shape("shape", a, shape)
    ctx.ensure("complex", ctx.kind(a) == "c")
    n = ctx.dim("n", 1, 4)
    b = R.get_random_elements(n, ctx.np)
    ctx.ensure_shape("int shape", b, (n,))
    ctx.ensure("complex", ctx.kind(b) == "c")
