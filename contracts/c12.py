"""C12: time-dependent Hamiltonians."""
from .base import Contract
from .common import basis

K = Contract("C12")
TE = "quantum_systems.time_evolution_operators.operator"


def system(ctx, dim, spin=None):
    spin = ctx.choice("spin", [False, True]) if spin is None else spin
    l = ctx.dim("l", 1, 3)
    n = ctx.int("n", 0, l)
    bs = basis(ctx, l, dim, include_spin=spin, anti=spin, real=ctx.choice("real elements", [False, True]))
    bs.dipole_moment = ctx.tensor("d", (dim, l, l))
    if spin:
        s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs)
    else:
        s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    return s, bs, l


def flags(ctx, s, one, two):
    ctx.ensure("one-body flag", s.has_one_body_time_evolution_operator == one)
    ctx.ensure("two-body flag", s.has_two_body_time_evolution_operator == two)


def static_u(ctx, s, l, us, t):
    ctx.ensure_arr("u_t", s.u_t(t), (l,) * 4, lambda *i: ctx.el(us, *i))


def static_h(ctx, s, l, hs, t):
    ctx.ensure_arr("h_t", s.h_t(t), (l, l), lambda *i: ctx.el(hs, *i))


def changed(ctx, bs, l):
    """new elements set by the user (or in place) between evaluations"""
    how = ctx.choice("then", ["same", "assign", "in place", "basis"])
    if how == "assign":
        bs.h, bs.u = ctx.tensor("h2", (l, l)), ctx.tensor("u2", (l,) * 4)
        bs.dipole_moment = ctx.tensor("d2", bs.dipole_moment.shape)
    elif how == "in place":
        bs.h[0, 0] = bs.h[0, 0] + 1
        bs.u[0, 0, 0, 0] = bs.u[0, 0, 0, 0] - 3
        bs.dipole_moment[0, 0, 0] = bs.dipole_moment[0, 0, 0] + 2
    elif how == "basis":
        bs.change_basis(ctx.tensor("C", (l, l)))


def twice(ctx, s, bs, l, check):
    """two evaluations at arbitrary times, elements possibly replaced in between"""
    t1, t2 = ctx.real("t1"), ctx.real("t2")
    for k, t in enumerate((t1, t2)):
        hs, us, ds = ctx.snap(bs.h), ctx.snap(bs.u), ctx.snap(bs.dipole_moment)
        check(t, hs, us, ds)
        ctx.unchanged("h", bs.h, hs)
        ctx.unchanged("u", bs.u, us)
        ctx.unchanged("dipole", bs.dipole_moment, ds)
        ctx.ensure("exposes basis elements", s.h is bs.h and s.u is bs.u and s.dipole_moment is bs.dipole_moment)
        if k == 0:
            changed(ctx, bs, l)


@K.case(samples=8)
def static(ctx):
    s, bs, l = system(ctx, 1)
    if ctx.choice("removed", [False, True]):
        op = ctx.mod(TE).LaserField(ctx.function("E"))
        s.set_time_evolution_operator(op)
        s.h_t(ctx.real("t0"))
        s.set_time_evolution_operator(None)
    flags(ctx, s, False, False)

    def check(t, hs, us, ds):
        static_h(ctx, s, l, hs, t)
        static_u(ctx, s, l, us, t)
    twice(ctx, s, bs, l, check)


def laser(ctx, dim):
    s, bs, l = system(ctx, dim, spin=False)
    pulse = ctx.choice("pulse", ["function", "constant", "complex"])
    if pulse == "function":
        f = ctx.function("E")
        E = f
    elif pulse == "complex":
        f = ctx.function("E", real=False)
        E = f
    else:
        f = ctx.real("E0")
        E = lambda t: f
    pol = ctx.choice("polarisation", ["default", "constant", "list", "function"])
    if pol == "default":
        op = ctx.mod(TE).LaserField(f)
        eps = lambda t, k: ctx.ite(k == 0, 1, 0)
    elif pol == "constant":
        v = ctx.tensor("eps", (dim,), True)
        v0 = ctx.snap(v)
        op = ctx.mod(TE).LaserField(f, polarization_vector=v)
        eps = lambda t, k: ctx.el(v0, k)
    elif pol == "list":
        cs = [ctx.real("eps%d" % k) for k in range(dim)]
        op = ctx.mod(TE).LaserField(f, polarization_vector=list(cs))

        def eps(t, k):
            r = 0
            for j in range(dim):
                r = r + ctx.ite(k == j, cs[j], 0)
            return r
    else:
        fs = [ctx.function("eps%d" % k) for k in range(dim)]
        op = ctx.mod(TE).LaserField(f, lambda t: ctx.np.array([g(t) for g in fs]))

        def eps(t, k):
            r = 0
            for j in range(dim):
                r = r + ctx.ite(k == j, fs[j](t), 0)
            return r
    s.set_time_evolution_operator(op)
    flags(ctx, s, True, False)

    def check(t, hs, us, ds):
        ctx.ensure_arr("h_t", s.h_t(t), (l, l), lambda p, q: ctx.el(hs, p, q) + E(t) * ctx.sum(
            dim, lambda k: eps(t, k) * ctx.el(ds, k, p, q)))
        static_u(ctx, s, l, us, t)
    twice(ctx, s, bs, l, check)
    flags(ctx, s, True, False)


@K.case(samples=12)
def laser_1d(ctx):
    laser(ctx, 1)


@K.case(samples=12)
def laser_2d(ctx):
    laser(ctx, 2)


@K.case(samples=12)
def laser_3d(ctx):
    laser(ctx, 3)


@K.case(samples=12)
def switching(ctx):
    s, bs, l = system(ctx, 1)
    kind = ctx.choice("kind", ["function", "constant", "complex"])
    if kind == "constant":
        f = ctx.real("f0")
        F = lambda t: f
    else:
        f = F = ctx.function("f", real=kind == "function")
    s.set_time_evolution_operator(ctx.mod(TE).AdiabaticSwitching(f))
    flags(ctx, s, False, True)

    def check(t, hs, us, ds):
        static_h(ctx, s, l, hs, t)
        ctx.ensure_arr("u_t", s.u_t(t), (l,) * 4, lambda *i: F(t) * ctx.el(us, *i))
    twice(ctx, s, bs, l, check)


@K.case(samples=12)
def custom(ctx):
    s, bs, l = system(ctx, 1)
    kind = ctx.choice("kind", ["function", "constant", "complex"])
    if kind == "constant":
        w = ctx.real("w0")
        W = lambda t: w
    else:
        w = W = ctx.function("w", real=kind == "function")
    O = ctx.tensor("O", (l, l))
    O0 = ctx.snap(O)
    s.set_time_evolution_operator(ctx.mod(TE).CustomOneBodyOperator(w, O))
    flags(ctx, s, True, False)

    def check(t, hs, us, ds):
        ctx.ensure_arr("h_t", s.h_t(t), (l, l), lambda p, q: ctx.el(hs, p, q) + W(t) * ctx.el(O0, p, q))
        static_u(ctx, s, l, us, t)
        ctx.unchanged("operator", O, O0)
    twice(ctx, s, bs, l, check)


@K.case(samples=8)
def replaced(ctx):
    """setting another operator replaces the previous one"""
    s, bs, l = system(ctx, 2, spin=False)
    m = ctx.mod(TE)
    E, f = ctx.function("E"), ctx.function("f")
    t = ctx.real("t")
    hs, us, ds = ctx.snap(bs.h), ctx.snap(bs.u), ctx.snap(bs.dipole_moment)
    if ctx.choice("order", ["laser first", "switching first"]) == "laser first":
        s.set_time_evolution_operator(m.LaserField(E))
        s.h_t(t)
        s.set_time_evolution_operator(m.AdiabaticSwitching(f))
        flags(ctx, s, False, True)
        static_h(ctx, s, l, hs, t)
        ctx.ensure_arr("u_t", s.u_t(t), (l,) * 4, lambda *i: f(t) * ctx.el(us, *i))
    else:
        s.set_time_evolution_operator(m.AdiabaticSwitching(f))
        s.u_t(t)
        s.set_time_evolution_operator(m.LaserField(E))
        flags(ctx, s, True, False)
        static_u(ctx, s, l, us, t)
        ctx.ensure_arr("h_t", s.h_t(t), (l, l), lambda p, q: ctx.el(hs, p, q) + E(t) * ctx.el(ds, 0, p, q))


@K.case(samples=12)
def moved(ctx):
    """one operator object set on a system, evaluated, and then set on another
    system (of another size and spatial dimension): each system is driven with
    its own elements"""
    m = ctx.mod(TE)
    A = plain(ctx, "A", ctx.choice("dimension of A", [1, 2, 3]))
    dim = ctx.choice("dimension of B", [1, 2, 3])
    B = plain(ctx, "B", dim)
    t1, t2 = ctx.real("t1"), ctx.real("t2")
    kind = ctx.choice("operator", ["laser", "laser at rest", "switching"])
    if kind == "switching":
        f = ctx.function("f")
        op = m.AdiabaticSwitching(f)
    elif kind == "laser":
        f = ctx.function("E")
        op = m.LaserField(f)
    else:
        E0 = ctx.real("E0")
        f = lambda t: E0
        op = m.LaserField(E0)
    A[0].set_time_evolution_operator(op)
    if ctx.choice("evaluated in A", [True, False]):
        A[0].h_t(t1)
        A[0].u_t(t1)
    B[0].set_time_evolution_operator(op)
    s, bs, l = B
    hs, us, ds = ctx.snap(bs.h), ctx.snap(bs.u), ctx.snap(bs.dipole_moment)
    if kind == "switching":
        flags(ctx, s, False, True)
        static_h(ctx, s, l, hs, t2)
        ctx.ensure_arr("u_t", s.u_t(t2), (l,) * 4, lambda *i: f(t2) * ctx.el(us, *i))
    else:
        flags(ctx, s, True, False)
        static_u(ctx, s, l, us, t2)
        ctx.ensure_arr("h_t", s.h_t(t2), (l, l), lambda p, q: ctx.el(hs, p, q) + f(t2) * ctx.el(ds, 0, p, q))


@K.case(samples=8)
def moved_custom(ctx):
    m = ctx.mod(TE)
    l = ctx.dim("l", 1, 3)
    A = plain(ctx, "A", 1, l)
    B = plain(ctx, "B", 1, l)
    W, O = ctx.function("w"), ctx.tensor("O", (l, l))
    t1, t2 = ctx.real("t1"), ctx.real("t2")
    op = m.CustomOneBodyOperator(W, O)
    A[0].set_time_evolution_operator(op)
    A[0].h_t(t1)
    B[0].set_time_evolution_operator(op)
    s, bs, _ = B
    hs, us, Os = ctx.snap(bs.h), ctx.snap(bs.u), ctx.snap(O)
    flags(ctx, s, True, False)
    static_u(ctx, s, l, us, t2)
    ctx.ensure_arr("h_t", s.h_t(t2), (l, l), lambda p, q: ctx.el(hs, p, q) + W(t2) * ctx.el(Os, p, q))


def plain(ctx, name, dim, l=None):
    l = ctx.dim("l" + name, 1, 3) if l is None else l
    bs = basis(ctx, l, dim, tag=name)
    bs.dipole_moment = ctx.tensor("d" + name, (dim, l, l))
    n = ctx.int("n" + name, 0, l)
    return ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs), bs, l
