"""C23: systems built from PySCF carry PySCF's integrals unchanged."""
from .base import Contract

K = Contract("C23")
M = "quantum_systems.custom_system"
K.assumptions = [
    "PySCF: molecule data (sizes, charges, coordinates, integrals) are functions of atom, basis, unit, charge, spin, cart and "
    "further build keywords; core Hamiltonian = kinetic + nuclear (+ effective core potential); position integrals relative "
    "to an origin O are r - O times the overlap; RHF coefficients are an arbitrary matrix and the RHF energy is that of its "
    "closed-shell determinant (converged SCF; in the concrete runs compared with PySCF's own value to 1e-6)"]


def reference(ctx, atom, basis, **kw):
    mol = ctx.pyscf().gto.Mole()
    mol.build(atom=atom, basis=basis, unit="bohr", **kw)
    return mol


def check(ctx, s, spin, anti, l, n, C, h, ovlp, g, r, enuc):
    """s carries h, ovlp, g = (pq|rs), r in the orbitals C (None: the atomic orbitals), doubled if spin"""
    if C is None:
        H = lambda p, q: ctx.el(h, p, q)
        S = lambda p, q: ctx.el(ovlp, p, q)
        D = lambda x, p, q: ctx.el(r, x, p, q)
        U = lambda p, q, a, b: ctx.el(g, p, a, q, b)
    else:
        two = lambda f: lambda p, q: ctx.sum(l, lambda i: ctx.sum(l, lambda j: ctx.el(C, i, p) * f(i, j) * ctx.el(C, j, q)))
        H = two(lambda i, j: ctx.el(h, i, j))
        S = two(lambda i, j: ctx.el(ovlp, i, j))
        D = lambda x, p, q: two(lambda i, j: r(x, i, j))(p, q)

        def U(p, q, a, b):
            return ctx.sum(l, lambda i: ctx.sum(l, lambda j: ctx.sum(l, lambda k: ctx.sum(l, lambda m: (
                ctx.el(C, i, p) * ctx.el(C, j, q) * ctx.el(g, i, k, j, m) * ctx.el(C, k, a) * ctx.el(C, m, b))))))
    ctx.ensure_eq("nuclear repulsion", s.nuclear_repulsion_energy, enuc)
    if not spin:
        ctx.ensure("spatial system", type(s).__name__ == "SpatialOrbitalSystem")
        ctx.ensure_eq("electrons", 2 * s.n, n)
        ctx.ensure_eq("size", s.l, l)
        ctx.ensure_arr("h", s.h, (l, l), H)
        ctx.ensure_arr("s", s.s, (l, l), S)
        ctx.ensure_arr("u", s.u, (l,) * 4, U)
        ctx.ensure_arr("dipole", s.dipole_moment, (3, l, l), D)
        return
    ctx.ensure("general system", type(s).__name__ == "GeneralOrbitalSystem")
    ctx.ensure_eq("electrons", s.n, n)
    ctx.ensure_eq("size", s.l, 2 * l)
    o = lambda p, q: ctx.delta((p - q) % 2, 0)
    ctx.ensure_arr("h", s.h, (2 * l,) * 2, lambda p, q: o(p, q) * H(p // 2, q // 2))
    ctx.ensure_arr("s", s.s, (2 * l,) * 2, lambda p, q: o(p, q) * S(p // 2, q // 2))
    ctx.ensure_arr("dipole", s.dipole_moment, (3, 2 * l, 2 * l), lambda x, p, q: o(p, q) * D(x, p // 2, q // 2))
    V = lambda p, q, a, b: o(p, a) * o(q, b) * U(p // 2, q // 2, a // 2, b // 2)
    if anti:
        ctx.ensure_arr("u", s.u, (2 * l,) * 4, lambda p, q, a, b: V(p, q, a, b) - V(p, q, b, a))
    else:
        ctx.ensure_arr("u", s.u, (2 * l,) * 4, V)


def options(ctx):
    spin = ctx.choice("add_spin", ["default", True, False])
    kw = {} if spin == "default" else {"add_spin": spin}
    anti = True
    if spin is not False:
        anti = ctx.choice("anti_symmetrize", ["default", True, False])
        if anti != "default":
            kw["anti_symmetrize"] = anti
        anti = anti is not False
    other = ctx.choice("module", ["numpy", "none"])
    if other == "numpy":
        kw["np"] = ctx.np
    return kw, spin is not False, anti


def extras(ctx, names):
    kw = {}
    for n in names:
        v = ctx.choice(n, [None] + {"cart": [True], "charge": [2, -2], "spin": [0]}[n])
        if v is not None:
            kw[n] = v
    return kw


@K.case(samples=14)
def atomic_orbitals(ctx):
    atom, basis, more = ctx.molecule()
    kw, spin, anti = options(ctx)
    mk = extras(ctx, ("cart", "charge") if not spin else ())
    mk.update(more)
    mol = reference(ctx, atom, basis, **mk)
    n, l = mol.nelectron, mol.nao
    ctx.assume(n % 2 == 0)
    ctx.assume(n <= 2 * l)
    s = ctx.mod(M).construct_pyscf_system_ao(atom, basis=basis, **kw, **mk)
    h = ctx.pyscf().scf.hf.get_hcore(mol)
    check(ctx, s, spin, anti, l, n, None, h, mol.intor("int1e_ovlp"), mol.intor("int2e"), mol.intor("int1e_r"), mol.energy_nuc())


@K.case(samples=14)
def restricted_hartree_fock(ctx):
    atom, basis, more = ctx.molecule()
    kw, spin, anti = options(ctx)
    mk = extras(ctx, ("cart", "charge") if not spin else ())
    mk.update(more)
    mol = reference(ctx, atom, basis, **mk)
    n, l = mol.nelectron, mol.nao
    ctx.assume(n % 2 == 0)
    ctx.assume(n <= 2 * l)
    ctx.assume(n >= 2)
    if ctx.choice("verbose", [False, True]):
        kw["verbose"] = True
    s = ctx.mod(M).construct_pyscf_system_rhf(atom, basis=basis, **kw, **mk)
    rhf = ctx.pyscf().scf.RHF(mol)
    rhf.kernel()
    C = rhf.mo_coeff
    h = ctx.pyscf().scf.hf.get_hcore(mol)
    Z, X = mol.atom_charges(), mol.atom_coords()
    na = mol.natm
    tot = ctx.sum(na, lambda i: ctx.el(Z, i))
    O = lambda x: ctx.sum(na, lambda i: ctx.el(Z, i) * ctx.el(X, i, x)) / tot
    r0, ov = mol.intor("int1e_r"), mol.intor("int1e_ovlp")
    r = lambda x, i, j: ctx.el(r0, x, i, j) - O(x) * ctx.el(ov, i, j)
    check(ctx, s, spin, anti, l, n, C, h, ov, mol.intor("int2e"), r, mol.energy_nuc())


@K.case(samples=8)
def energy(ctx):
    """the reference energy, with the nuclear repulsion, is PySCF's RHF energy"""
    atom, basis, more = ctx.molecule()
    mol = reference(ctx, atom, basis, **more)
    n, l = mol.nelectron, mol.nao
    ctx.assume(n % 2 == 0)
    ctx.assume(n <= 2 * l)
    ctx.assume(n >= 2)
    spin = ctx.choice("add_spin", [False, True])
    s = ctx.mod(M).construct_pyscf_system_rhf(atom, basis=basis, add_spin=spin, **more)
    e = ctx.pyscf().scf.RHF(mol).kernel()
    ctx.ensure_close("reference energy is PySCF's", s.compute_reference_energy() + s.nuclear_repulsion_energy, e, 1e-6)


@K.case(samples=4)
def open_shell(ctx):
    """an odd number of electrons is refused by the RHF variant"""
    atom, basis, more = ctx.molecule()
    more = dict(more, charge=1, spin=1)
    ctx.assume(reference(ctx, atom, basis, **more).nelectron % 2 == 1)
    e, r = ctx.raises(lambda: ctx.mod(M).construct_pyscf_system_rhf(atom, basis=basis, **more))
    ctx.ensure("refused", e is not None)
