"""C24: the 2D oscillator in a magnetic field has the Fock-Darwin levels in order."""
from .base import Contract
from .c15 import R, norm

K = Contract("C24")
H = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
O = "quantum_systems.quantum_dots.two_dim.two_dim_ho"
K.assumptions = [
    "construct_dataframe is used through its contract (rows 0..K-1 are the K lowest states of the box in order, the E column "
    "their energies); that contract is checked by the bounded cases levels and basis_levels only, not proved",
    "coulomb_ho through its contract (C14); Laguerre polynomials, factorials, exp, sqrt, radial integrals as in C15"]


def E(ctx, n, m, omega, omega_c):
    return omega * (2 * n + ctx.iabs(m) + 1) - omega_c * m / 2


@K.case(samples=20)
def energy(ctx):
    """the level formula, and why the box n < K, |m| < K holds the K lowest states"""
    n = ctx.int("n", 0, chi=8)
    m = ctx.int("m", None, None, clo=-8, chi=8)
    w0, wc = ctx.real("omega", pos=True), ctx.real("omega_c", nonneg=True)
    h = ctx.mod(H)
    W = ctx.sqrt(w0 * w0 + wc * wc / 4)
    e = h.get_shell_energy_B(n, m, omega_c=wc, omega=W)
    ctx.ensure_eq("Fock-Darwin energy", e, E(ctx, n, m, W, wc))
    ctx.ensure_eq("defaults", h.get_shell_energy_B(n, m), 2 * n + ctx.iabs(m) + 1)
    # lemma: a step in n costs 2 Omega, a step away from m = 0 costs Omega -+ omega_c / 2, and
    # (Omega - omega_c/2)(Omega + omega_c/2) = omega^2 > 0 with Omega + omega_c/2 > 0: all steps are upwards,
    # so each state with n >= K or |m| >= K lies above K states of the box
    ctx.ensure_eq("step in n", h.get_shell_energy_B(n + 1, m, omega_c=wc, omega=W) - e, 2 * W)
    ctx.split(m >= 0)
    up = h.get_shell_energy_B(n, m + 1, omega_c=wc, omega=W) - e
    if m >= 0:
        ctx.ensure_eq("step in m", up, W - wc / 2)
    else:
        ctx.ensure_eq("step in -m", h.get_shell_energy_B(n, m - 1, omega_c=wc, omega=W) - e, W + wc / 2)
    ctx.ensure_eq("steps are upwards", (W - wc / 2) * (W + wc / 2), w0 * w0)


@K.case(samples=4)
def elements(ctx):
    ctx.use_contracts("construct_dataframe", "coulomb_ho")
    l = ctx.dim("l", 1, 4)
    N = ctx.dim("N", 2, 4)
    L = ctx.real("L", pos=True)
    w0, mass, wc = ctx.real("omega", pos=True), ctx.real("mass", pos=True), ctx.real("omega_c", nonneg=True)
    kw = {}
    if ctx.choice("field given", [True, False]):
        kw["omega_c"] = wc
    else:
        wc = 0
    b = ctx.mod(O).TwoDimHarmonicOscB(l, L, N, omega=w0, mass=mass, **kw)
    W = ctx.sqrt(w0 * w0 + wc * wc / 4)
    a = ctx.sqrt(mass * W)
    ctx.ensure_eq("Omega", b.omega, W)
    nm = b.get_indices_nm

    def h(p, q):
        return ctx.delta(p, q) * E(ctx, *nm(p), W, wc)
    ctx.ensure_arr("h", b.h, (l, l), h)
    ctx.ensure_arr("s", b.s, (l, l), lambda p, q: ctx.delta(p, q))

    def u(p, q, r, s):
        v = []
        for x in (p, q, r, s):
            v += list(nm(x))
        return ctx.sqrt(W) * ctx.coulomb(*v)
    ctx.ensure_arr("u", b.u, (l,) * 4, u)
    rad = lambda j: L * j / (N - 1)
    ang = lambda i: 2 * ctx.pi * i / (N - 1)

    def spf(p, i, j):
        n, m = nm(p)
        return norm(ctx, n, m, a) * R(ctx, n, m, a, rad(j)) * ctx.exp(1j * m * ang(i))
    ctx.ensure_arr("spf", b.spf, (l, N, N), spf)
    for c, what in enumerate(("cos", "sin")):
        def d(p, q):
            n, m = nm(p)
            k, o = nm(q)
            I = ctx.radial(lambda r: r * r * R(ctx, n, m, a, r) * R(ctx, k, o, a, r))
            return norm(ctx, n, m, a) * norm(ctx, k, o, a) * I * ctx.angular(what, m - o)
        ctx.ensure_arr("<%s>" % "xy"[c], b.dipole_moment[c], (l, l), d)


def ordered(ctx, nm, count, W, wc, zero_field):
    """the listed states are the count lowest Fock-Darwin states, each once, in order"""
    tol = 1e-9 * W
    rows = [tuple(int(x) for x in nm(p)) for p in range(count)]
    ctx.ensure("each state once", len(set(rows)) == count)
    ctx.ensure("valid states", all(n >= 0 for n, m in rows))
    e = [E(ctx, n, m, W, wc) for n, m in rows]
    ctx.ensure("in order of energy", all(x <= y + tol for x, y in zip(e, e[1:])))
    box = range(2 * count + 8)
    every = sorted(E(ctx, n, m, W, wc) for n in box for m in range(-2 * count - 8, 2 * count + 8))
    ctx.ensure("the lowest states", all(abs(x - y) <= tol for x, y in zip(e, every)))
    if zero_field:
        ctx.ensure("numbering of the field-free oscillator", rows == [tuple(ctx.nm(p)) for p in range(count)])
    return e


def fields(ctx):
    w0 = ctx.choice("omega", [1.0, 0.37, 2.5, 0.01, 1e-9])
    wc = w0 * ctx.choice("omega_c/omega", [0, 0.05, 2 ** -0.5, 1.0, 1.5, 3.0, 8.0, 40.0])
    return w0, wc, (w0 ** 2 + wc ** 2 / 4) ** 0.5


@K.case(samples=24, bounded="K <= 14, 5 oscillator frequencies, 8 field ratios; seeded sample of the combinations")
def levels(ctx):
    k = ctx.int("K", 1, chi=14)
    lo, hi = k - 1 + ctx.choice("below", [0, 1, 6]), k - 1 + ctx.choice("above", [0, 2, 6])
    w0, wc, W = fields(ctx)
    np = ctx.np
    df = ctx.mod(H).construct_dataframe(np.arange(k), np.arange(-lo, hi + 1), omega_c=wc, omega=W)
    ctx.ensure("at least K rows", len(df) >= k)
    e = ordered(ctx, lambda p: df.loc[p, ["n", "m"]].values, k, W, wc, wc == 0)
    ctx.ensure("energies", all(abs(df.loc[p, "E"] - e[p]) <= 1e-9 * (W + abs(e[p])) for p in range(k)))


@K.case(samples=6, bounded="7 <= l <= 16, 5 oscillator frequencies, 8 field ratios, two-body elements left out; seeded sample")
def large_basis_levels(ctx):
    l = ctx.int("l", 7, chi=16)
    w0, wc, W = fields(ctx)
    ctx.stub_coulomb_B()
    b = ctx.mod(O).TwoDimHarmonicOscB(l, 3, 3, omega=w0, omega_c=wc)
    e = ordered(ctx, b.get_indices_nm, l, W, wc, wc == 0)
    ctx.ensure("diagonal", all(abs(b.h[p, p] - e[p]) <= 1e-9 * (W + abs(e[p])) for p in range(l)))


@K.case(samples=14, bounded="l <= 6, 5 oscillator frequencies, 8 field ratios; seeded sample of the combinations")
def basis_levels(ctx):
    l = ctx.int("l", 1, chi=6)
    w0, wc, W = fields(ctx)
    b = ctx.mod(O).TwoDimHarmonicOscB(l, 3, 3, omega=w0, omega_c=wc)
    e = ordered(ctx, b.get_indices_nm, l, W, wc, wc == 0)
    ctx.ensure("diagonal", all(abs(b.h[p, p] - e[p]) <= 1e-9 * (W + abs(e[p])) for p in range(l)))
    if wc == 0:
        f = ctx.mod(O).TwoDimensionalHarmonicOscillator(l, 3, 3, omega=w0)
        for x in ("h", "s", "u", "spf", "dipole_moment"):
            ctx.ensure("zero field: " + x, np_close(getattr(b, x), getattr(f, x)))


def np_close(a, b):
    return a.shape == b.shape and abs(a - b).max() <= 1e-9
