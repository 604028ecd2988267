"""C04: spin operators."""
from .base import Contract
from .common import basis

K = Contract("C04")
SIG = {"x": ((0, 1), (1, 0)), "y": ((0, -1j), (1j, 0)), "z": ((1, 0), (0, -1))}


def sigma(ctx, i, v, w):
    """<v|sigma_i|w>"""
    r = 0
    for j in range(2):
        for k in range(2):
            if SIG[i][j][k] != 0:
                r = r + ctx.conj(ctx.el(v, j)) * SIG[i][j][k] * ctx.el(w, k)
    return r


def pick(ctx, s, v):
    return ctx.ite(s == 0, v[0], v[1])


def sig(ctx, i, a, b):
    m = [[sigma(ctx, i, v, w) for w in (a, b)] for v in (a, b)]
    return lambda s, t: ctx.ite(s == 0, ctx.ite(t == 0, m[0][0], m[0][1]), ctx.ite(t == 0, m[1][0], m[1][1]))


def build(ctx, orth):
    l = ctx.dim("l", 1, 3)
    bs = ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=1)
    bs.h = ctx.tensor("h", (l, l))
    bs.u = ctx.tensor("u", (l,) * 4)
    bs.s = ctx.np.eye(l) if orth else ctx.herm("S", l, ctx.choice("real overlap", [False, True]))
    return bs, l


def pair(ctx):
    if ctx.choice("pair", ["default", "arbitrary"]) == "arbitrary":
        a, b = ctx.spin_pair()
        return a, b, {"a": a, "b": b}
    return ctx.np.array([1, 0]), ctx.np.array([0, 1]), {}


@K.case(samples=12)
def matrices(ctx):
    """Pauli matrices, spin matrices, two-body spin operator, for every overlap"""
    bs, l = build(ctx, ctx.choice("orthonormal orbitals", [False, True]))
    S = ctx.snap(bs.s)
    a, b, kw = pair(ctx)
    ask = ctx.choice("anti", [True, False])
    bs.change_to_general_orbital_basis(anti_symmetrize=ask, **kw)
    f = {i: sig(ctx, i, a, b) for i in "xyz"}
    sp = {i: (lambda p, q, i=i: ctx.el(S, p // 2, q // 2) * f[i](p % 2, q % 2) / 2) for i in "xyz"}
    for i in "xyz":
        ctx.ensure_arr("sigma_" + i, getattr(bs, "sigma_" + i), (2, 2), f[i])
        ctx.ensure_arr("spin_" + i, getattr(bs, "spin_" + i), (2 * l, 2 * l), sp[i])
        M = getattr(bs, "spin_" + i)
        ctx.ensure_arr("spin_%s Hermitian" % i, M, (2 * l, 2 * l), lambda p, q: ctx.conj(ctx.el(M, q, p)))

    def tb(p, q, r, s):
        return sum(sp[i](p, r) * sp[i](q, s) for i in "xyz")
    ctx.ensure_arr("spin_2_tb", bs.spin_2_tb, (2 * l,) * 4,
                   (lambda p, q, r, s: tb(p, q, r, s) - tb(p, q, s, r)) if ask else tb)


@K.case(samples=10)
def algebra(ctx):
    """commutators and S^2 = 3/4 for orthonormal orbitals, through a system as well"""
    bs, l = build(ctx, True)
    a, b, kw = pair(ctx)
    how = ctx.choice("through", ["basis", "general system", "spatial system"])
    if how == "basis":
        bs.change_to_general_orbital_basis(**kw)
        o = bs
    elif how == "general system":
        o = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(0, bs, **kw)
    else:
        o = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(0, bs)
        o = o.construct_general_orbital_system(**kw)
    L = 2 * l
    S = [o.spin_x, o.spin_y, o.spin_z]
    f = [sig(ctx, i, a, b) for i in "xyz"]
    for k in range(3):
        ctx.ensure_arr("spin %d" % k, S[k], (L, L), lambda p, q: ctx.ite(p // 2 == q // 2, f[k](p % 2, q % 2), 0) / 2)
    # commutator of the stored matrices, block by block: rows and columns are (orbital, spin)
    for k in range(3):
        A, B, C = S[k], S[(k + 1) % 3], S[(k + 2) % 3]
        prod = lambda X, Y, p, q: ctx.sum(l, lambda t: ctx.el(X, p, 2 * t) * ctx.el(Y, 2 * t, q)
                                          + ctx.el(X, p, 2 * t + 1) * ctx.el(Y, 2 * t + 1, q))
        ctx.for_all((l, 2, l, 2), lambda p, s, q, t: ctx.ensure_eq(
            "commutator %d" % k, prod(A, B, 2 * p + s, 2 * q + t) - prod(B, A, 2 * p + s, 2 * q + t),
            1j * ctx.el(C, 2 * p + s, 2 * q + t)))
    ctx.ensure_arr("S^2", o.spin_2, (L, L), lambda p, q: ctx.ite(p == q, 0.75, 0))


@K.case(samples=6)
def pauli(ctx):
    """the static helper, for any column vectors"""
    a, b = ctx.spin_pair()
    A, B = a.reshape(-1, 1), b.reshape(-1, 1)
    A0, B0 = ctx.snap(A), ctx.snap(B)
    r = ctx.mod("quantum_systems.basis_set").BasisSet.setup_pauli_matrices(A, B, ctx.np)
    for i, m in zip("xyz", r):
        ctx.ensure_arr("sigma_" + i, m, (2, 2), sig(ctx, i, a, b))
    ctx.unchanged("a", A, A0)
    ctx.unchanged("b", B, B0)


@K.case(samples=20)
def rejects(ctx):
    """a pair that is not orthonormal is refused"""
    bs, l = build(ctx, True)
    a, b = ctx.tensor("a", (2,)), ctx.tensor("b", (2,))
    if ctx.choice("scaled", ["none", "a", "b", "parallel"]) != "none":
        a, b = ctx.spin_pair()
        k = ctx.choices["scaled"]
        z = ctx.real("z", pos=True)
        if k == 1:
            a = z * a
        elif k == 2:
            b = z * b
        else:
            b = a
    dev = [ctx.sum(2, lambda i: ctx.conj(ctx.el(x, i)) * ctx.el(y, i)) - d for x, y, d in ((a, a, 1), (b, b, 1), (a, b, 0))]
    far = ctx.any_(*[abs(x) > 1e-6 for x in dev])
    e, _ = ctx.raises(lambda: bs.change_to_general_orbital_basis(a=a, b=b))
    ctx.ensure("refused unless orthonormal", ctx.any_(e is not None, ctx.not_(far)))
