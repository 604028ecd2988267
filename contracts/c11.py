"""C11: copies are faithful and independent."""
from .base import Contract
from .common import basis

K = Contract("C11")
TE = "quantum_systems.time_evolution_operators.operator"
NAMES = ("h", "s", "u", "dipole_moment", "spf", "bra_spf", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb",
         "sigma_x", "sigma_y", "sigma_z")


def state(ctx, b):
    """everything a user can observe on a basis set (private storage of the duals: reading them creates them)"""
    d = {k: ctx.snap(getattr(b, "_bra_spf" if k == "bra_spf" else k)) for k in NAMES}
    d["grid"] = b.grid if not ctx.is_array(b.grid) else ctx.snap(b.grid)
    for k in ("l", "dim", "includes_spin", "anti_symmetrized_u", "nuclear_repulsion_energy"):
        d[k] = getattr(b, k)
    return d


def same(ctx, tag, b, d, skip_dual=False):
    for k in NAMES:
        a = getattr(b, "_bra_spf" if k == "bra_spf" else k)
        if k == "bra_spf" and d[k] is None and a is not None:
            # the duals may have been filled in with their default
            ctx.ensure_arr(tag + " default duals", a, d["spf"].shape, lambda *i: ctx.conj(ctx.el(d["spf"], *i)))
            continue
        ctx.unchanged(tag + " " + k, a, d[k])
    if ctx.is_array(d["grid"]):
        ctx.unchanged(tag + " grid", b.grid, d["grid"])
    else:
        ctx.ensure(tag + " grid", b.grid is d["grid"] or b.grid == d["grid"])
    for k in ("l", "dim", "includes_spin", "anti_symmetrized_u", "nuclear_repulsion_energy"):
        v = getattr(b, k)
        if d[k] is None or v is None:
            ctx.ensure(tag + " " + k, v is d[k])
        else:
            ctx.ensure_eq(tag + " " + k, v, d[k])


def full_basis(ctx):
    l = ctx.dim("l", 1, 2)
    kind = ctx.choice("kind", ["spatial", "spin", "spin antisymmetric"])
    spin = kind != "spatial"
    bs = basis(ctx, l, 1, include_spin=spin, anti=kind == "spin antisymmetric")
    if ctx.choice("optional", ["set", "unset"]) == "set":
        g = ctx.dim("g", 2, 3)
        bs.dipole_moment = ctx.tensor("d", (1, l, l))
        bs.grid = ctx.tensor("grid", (g,), True)
        bs.spf = ctx.tensor("spf", (l, g))
        bs.nuclear_repulsion_energy = ctx.real("Enuc")
        if ctx.choice("duals", ["default", "explicit"]) == "explicit":
            bs.bra_spf = ctx.tensor("bra", (l, g))
        if spin:
            for k in ("spin_x", "spin_y", "spin_z", "spin_2"):
                setattr(bs, k, ctx.tensor(k, (l, l)))
            bs.spin_2_tb = ctx.tensor("spin_2_tb", (l,) * 4)
            for k in ("sigma_x", "sigma_y", "sigma_z"):
                setattr(bs, k, ctx.tensor(k, (2, 2)))
    else:
        bs.s = bs.s if True else None
    return bs, l


def poke(ctx, a):
    """add one to the first element, in place"""
    if a is None:
        return
    i = (0,) * len(a.shape)
    a[i] = a[i] + 1


def mutate(ctx, b, l, how):
    if how == "in place":
        for k in NAMES:
            poke(ctx, getattr(b, "_bra_spf" if k == "bra_spf" else k))
        if ctx.is_array(b.grid):
            poke(ctx, b.grid)
    elif how == "basis change":
        b.change_basis(ctx.tensor("C", (l, l)))
    elif how == "spin doubling":
        b.change_to_general_orbital_basis()
    elif how == "antisymmetrise":
        b.anti_symmetrize_two_body_elements()
    elif how == "assign":
        b.h, b.u = ctx.tensor("h2", (l, l)), ctx.tensor("u2", (l,) * 4)
        b.nuclear_repulsion_energy = 7
    elif how == "module":
        b.change_module(ctx.other_module())
    elif how == "complex":
        b.cast_to_complex()


MUT = ["in place", "basis change", "spin doubling", "antisymmetrise", "assign", "module", "complex"]


@K.case(samples=24)
def basis_copy(ctx):
    bs, l = full_basis(ctx)
    if ctx.choice("module", ["numpy", "other"]) == "other":
        bs.change_module(ctx.other_module())
    np0 = bs.np
    d = state(ctx, bs)
    c = bs.copy_basis()
    ctx.ensure("same kind", type(c) is type(bs) and c is not bs)
    ctx.ensure("module in place", c.np is np0 and bs.np is np0)
    same(ctx, "copy", c, d)
    same(ctx, "original", bs, d)
    for k in NAMES:
        x, y = getattr(bs, "_bra_spf" if k == "bra_spf" else k), getattr(c, "_bra_spf" if k == "bra_spf" else k)
        ctx.ensure("own storage " + k, x is None or not ctx.same_storage(x, y))


@K.case(samples=40)
def basis_independent(ctx):
    bs, l = full_basis(ctx)
    c = bs.copy_basis()
    a, b = (bs, c) if ctx.choice("changed", ["original", "copy"]) == "original" else (c, bs)
    how = ctx.choice("change", MUT)
    d = state(ctx, b)
    mutate(ctx, a, l, how)
    same(ctx, "other one", b, d)
    if how == "module":
        ctx.ensure("module", b.np is ctx.np)


def operator(ctx, l, dim, doubled={}):
    m = ctx.mod(TE)
    k = ctx.choice("operator", ["none", "laser", "switching", "custom", "laser constant"])
    if k == "none":
        return None, k, lambda h, d: h, lambda u: u
    t = ctx.real("t")
    if k == "laser":
        E = ctx.function("E")
        return m.LaserField(E), t, lambda s, p, q: ctx.el(s.h, p, q) + E(t) * ctx.el(s.dipole_moment, 0, p, q), None
    if k == "laser constant":
        E0 = ctx.real("E0")
        return m.LaserField(E0, ctx.np.array([1.0] + [0.0] * (dim - 1))), t, \
            lambda s, p, q: ctx.el(s.h, p, q) + E0 * ctx.el(s.dipole_moment, 0, p, q), None
    if k == "switching":
        f = ctx.function("f")
        return m.AdiabaticSwitching(f), t, None, lambda s, *i: f(t) * ctx.el(s.u, *i)
    w = ctx.function("w")
    O = ctx.tensor("O", (l, l))
    O0 = ctx.snap(O)

    def part(s, p, q):
        if s is doubled.get("g"):
            # every orbital twice, the operator is diagonal in spin
            return ctx.delta(p % 2, q % 2) * ctx.el(O0, p // 2, q // 2)
        return ctx.el(O0, p, q)
    return m.CustomOneBodyOperator(w, O), t, lambda s, p, q: ctx.el(s.h, p, q) + w(t) * part(s, p, q), None


def driven(ctx, tag, s, spec):
    """h(t), u(t) of the system are those of its own, current elements"""
    op, t, fh, fu = spec
    L = s.l
    if op is None:
        t = ctx.real("t0")
        fh = fu = None
    ctx.ensure_arr(tag + " h_t", s.h_t(t), (L, L), (lambda p, q: fh(s, p, q)) if fh else lambda p, q: ctx.el(s.h, p, q))
    ctx.ensure_arr(tag + " u_t", s.u_t(t), (L,) * 4, (lambda *i: fu(s, *i)) if fu else lambda *i: ctx.el(s.u, *i))
    ctx.ensure(tag + " one-body flag", s.has_one_body_time_evolution_operator == (fh is not None))
    ctx.ensure(tag + " two-body flag", s.has_two_body_time_evolution_operator == (fu is not None))


def make_system(ctx):
    l = ctx.dim("l", 1, 2)
    n = ctx.int("n", 0, l)
    spin = ctx.choice("system", ["spatial", "general"]) == "general"
    bs = basis(ctx, l, 2, include_spin=spin, anti=spin)
    bs.dipole_moment = ctx.tensor("d", (2, l, l))
    g = ctx.dim("g", 2, 3)
    bs.grid = ctx.tensor("grid", (g,), True)
    bs.nuclear_repulsion_energy = ctx.real("Enuc")
    if spin:
        s = ctx.mod("quantum_systems.general_orbital_system").GeneralOrbitalSystem(n, bs)
    else:
        s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    return s, bs, l, n


def sizes(ctx, tag, s, n, l):
    ctx.ensure(tag + " sizes", ctx.all_(s.n == n, s.l == l, s.m == l - n))
    ctx.ensure(tag + " occupied", ctx.all_(s.o.start == 0, s.o.stop == n, s.v.start == n, s.v.stop == l))


@K.case(samples=30)
def system_copy(ctx):
    s, bs, l, n = make_system(ctx)
    spec = operator(ctx, l, 2)
    if spec[0] is not None:
        s.set_time_evolution_operator(spec[0])
        if ctx.choice("evaluated before", [False, True]):
            s.h_t(ctx.real("tb"))
    d = state(ctx, bs)
    c = s.copy_system()
    ctx.ensure("same kind", type(c) is type(s) and c is not s and c._basis_set is not s._basis_set)
    ctx.ensure("original keeps its basis", s._basis_set is bs)
    ctx.ensure("module in place", c.np is ctx.np and s.np is ctx.np and c._basis_set.np is ctx.np and bs.np is ctx.np)
    sizes(ctx, "copy", c, n, l)
    sizes(ctx, "original", s, n, l)
    same(ctx, "copy", c._basis_set, d)
    same(ctx, "original", bs, d)
    driven(ctx, "copy", c, spec)
    driven(ctx, "original", s, spec)
    ctx.ensure("operator not shared", spec[0] is None or c._time_evolution_operator is not s._time_evolution_operator)


@K.case(samples=40)
def system_independent(ctx):
    s, bs, l, n = make_system(ctx)
    spec = operator(ctx, l, 2)
    s.set_time_evolution_operator(spec[0])
    c = s.copy_system()
    a, b = (s, c) if ctx.choice("changed", ["original", "copy"]) == "original" else (c, s)
    how = ctx.choice("change", ["in place", "basis change", "assign", "module", "operator", "size"])
    d = state(ctx, b._basis_set)
    if how == "operator":
        a.set_time_evolution_operator(ctx.mod(TE).AdiabaticSwitching(ctx.function("f2")))
        a.u_t(ctx.real("t3"))
    elif how == "size":
        a.set_system_size(0, l)
    elif how == "module":
        a.change_module(ctx.other_module())
    elif how == "basis change":
        a.change_basis(ctx.tensor("C", (l, l)))
    else:
        mutate(ctx, a._basis_set, l, how)
    same(ctx, "other one", b._basis_set, d)
    sizes(ctx, "other one", b, n, l)
    ctx.ensure("other one module", b.np is ctx.np and b._basis_set.np is ctx.np)
    driven(ctx, "other one", b, spec)
    if how in ("in place", "assign"):
        driven(ctx, "changed one", a, spec)


@K.case(samples=20)
def doubled_system(ctx):
    """the general-orbital system built from a spatial one: its own basis, its own operator"""
    l = ctx.dim("l", 1, 2)
    n = ctx.int("n", 0, l)
    bs = basis(ctx, l, 2)
    bs.dipole_moment = ctx.tensor("d", (2, l, l))
    s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(2 * n, bs)
    doubled = {}
    spec = operator(ctx, l, 2, doubled)
    s.set_time_evolution_operator(spec[0])
    if ctx.choice("evaluated before", [False, True]):
        s.h_t(ctx.real("tb"))
    d = state(ctx, bs)
    g = doubled["g"] = s.construct_general_orbital_system()
    same(ctx, "spatial", bs, d)
    driven(ctx, "spatial", s, spec)
    driven(ctx, "general", g, spec)
    e = state(ctx, g._basis_set)
    which = ctx.choice("changed", ["spatial", "general", "spatial basis"])
    if which == "spatial":
        mutate(ctx, bs, l, "in place")
    elif which == "spatial basis":
        s.change_basis(ctx.tensor("C", (l, l)))
    else:
        mutate(ctx, g._basis_set, l, "in place")
    if which == "general":
        same(ctx, "spatial after", bs, d)
        driven(ctx, "spatial after", s, spec)
    else:
        same(ctx, "general after", g._basis_set, e)
    driven(ctx, "general after", g, spec)


Q1 = "quantum_systems.quantum_dots.one_dim.one_dim_qd"
Q2 = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
SD = "quantum_systems.sinc_dvr.one_dim.sinc_dvr"
PT = "quantum_systems.quantum_dots.one_dim.one_dim_potentials"


def a_potential(ctx):
    """every potential the basis sets offer; None is the default of the basis set"""
    m = ctx.mod(PT)
    k = ctx.choice("potential", ["default", "HO", "DW", "DWSmooth", "SymmetricDW", "AsymmetricDW", "Gaussian", "Atomic",
                                 "function"])
    r = lambda n: ctx.real(n, pos=True)
    if k == "default":
        return None
    if k == "HO":
        return m.HOPotential(r("om"))
    if k == "DW":
        return m.DWPotential(r("om"), r("dist"))
    if k == "DWSmooth":
        return m.DWPotentialSmooth(r("pa"))
    if k == "SymmetricDW":
        return m.SymmetricDWPotential(r("pa"), r("pb"), ctx.real("pc"))
    if k == "AsymmetricDW":
        return m.AsymmetricDWPotential(r("pa"), r("pb"), ctx.real("pc"))
    if k == "Gaussian":
        return m.GaussianPotential(r("pw"), ctx.real("pc"), r("pd"), ctx.np)
    if k == "Atomic":
        return m.AtomicPotential(r("Z"), r("pc"))
    return ctx.function("V")


def one_dim(ctx, which):
    X = ctx.real("X", pos=True)
    par = dict(a=ctx.real("a", pos=True), alpha=ctx.real("alpha"), beta=ctx.real("beta"))
    if which == "sinc":
        l = ctx.dim("l", 2, 3)
        b = ctx.mod(SD).ODSincDVR(l, X, potential=a_potential(ctx), u_repr=ctx.choice("repr", ["2d", "4d"]), **par)
        keep = ("a", "alpha", "beta", "grid_length", "num_grid_points", "dx", "u_repr")
    elif which == "dot":
        G = ctx.dim("G", 5, 6)
        l = ctx.int("l", 1, G - 2, chi=2)
        b = ctx.mod(Q1).ODQD(l, X, G, potential=a_potential(ctx), **par)
        keep = ("a", "alpha", "beta", "grid_length", "num_grid_points", "eigen_energies")
    else:
        ctx.use_contracts("ODHO.ho_function")
        G = ctx.dim("G", 2, 5)
        l = ctx.dim("l", 1, 2)
        b = ctx.mod(Q1).ODHO(l, X, G, omega=ctx.real("omega", pos=True), **par)
        keep = ("a", "alpha", "beta", "omega", "grid_length", "num_grid_points", "eigen_energies")
    return b, l, keep


def two_dim(ctx, which):
    ctx.use_contracts("get_indices_nm", "coulomb_ho", "construct_dataframe")
    l = ctx.dim("l", 1, 3)
    w, mass = ctx.real("omega", pos=True), ctx.real("mass", pos=True)
    m = ctx.mod(Q2)
    keep = ("omega", "mass", "radius_length", "num_grid_points", "radius", "theta", "R", "T")
    if which == "oscillator":
        b = m.TwoDimensionalHarmonicOscillator(l, 3, 3, omega=w, mass=mass)
    elif which == "double well":
        b = m.TwoDimensionalDoubleWell(l, 3, 3, omega=w, mass=mass, barrier_strength=ctx.real("barrier", nonneg=True), axis=1)
        keep += ("barrier_strength", "axis")
    else:
        b = m.TwoDimHarmonicOscB(l, 3, 3, omega=w, mass=mass, omega_c=ctx.real("omega_c", nonneg=True))
        keep += ("omega_c",)
    return b, l, keep


def extra(ctx, b, keep):
    return {k: ctx.snap(getattr(b, k)) if ctx.is_array(getattr(b, k)) else getattr(b, k) for k in keep}


def same_extra(ctx, tag, b, d):
    for k, v in d.items():
        if ctx.is_array(getattr(b, k)):
            ctx.unchanged(tag + " " + k, getattr(b, k), v)
        elif isinstance(v, str):
            ctx.ensure(tag + " " + k, getattr(b, k) == v)
        else:
            ctx.ensure_eq(tag + " " + k, getattr(b, k), v)


def check_copies(ctx, b, l, keep):
    np0 = b.np
    d, e = state(ctx, b), extra(ctx, b, keep)
    V = getattr(b, "potential", None)
    as_system = ctx.choice("copied", ["basis set", "system"]) == "system"
    if as_system:
        s = ctx.mod("quantum_systems.spatial_orbital_system").SpatialOrbitalSystem(0, b)
        c = s.copy_system()._basis_set
    else:
        c = b.copy_basis()
    ctx.ensure("same kind", type(c) is type(b) and c is not b)
    ctx.ensure("module in place", c.np is np0 and b.np is np0)
    same(ctx, "copy", c, d)
    same(ctx, "original", b, d)
    same_extra(ctx, "copy", c, e)
    same_extra(ctx, "original", b, e)
    if V is not None:
        x = ctx.tensor("x", (ctx.dim("len x", 1, 3),), True)
        ctx.ensure("potential of the original", b.potential is V and type(c.potential) is type(V))
        y, z = ctx.snap(V(x)), c.potential(x)
        ctx.ensure_arr("potential of the copy", z, y.shape, lambda i: ctx.el(y, i))
    mutate(ctx, b, l, "in place")
    for k in keep:
        if ctx.is_array(getattr(b, k)) and k not in ("radius", "theta", "R", "T"):
            poke(ctx, getattr(b, k))
    same(ctx, "copy after", c, d)
    same_extra(ctx, "copy after", c, e)


@K.case(samples=16)
def sinc_dvr(ctx):
    check_copies(ctx, *one_dim(ctx, "sinc"))


@K.case(samples=12)
def quantum_dot(ctx):
    check_copies(ctx, *one_dim(ctx, "dot"))


@K.case(samples=4)
def analytic_oscillator(ctx):
    check_copies(ctx, *one_dim(ctx, "oscillator"))


@K.case(samples=6)
def two_dimensional(ctx):
    b, l, keep = two_dim(ctx, ctx.choice("basis set", ["oscillator", "double well", "magnetic field"]))
    check_copies(ctx, b, l, keep)


@K.case(samples=6)
def random_elements(ctx):
    b = ctx.mod("quantum_systems.random_basis").RandomBasisSet(ctx.dim("l", 1, 3), ctx.choice("dim", [1, 2, 3, 4]))
    check_copies(ctx, b, b.l, ())
