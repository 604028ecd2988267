"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
B="quantum_systems/basis_set.py"; SY="quantum_systems/system.py"; G="quantum_systems/general_orbital_system.py"
SP="quantum_systems/spatial_orbital_system.py"; SH="quantum_systems/system_helper.py"
T="quantum_systems/time_evolution_operators/operator.py"
OD="quantum_systems/quantum_dots/one_dim/one_dim_qd.py"; OP="quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
H2="quantum_systems/quantum_dots/two_dim/two_dim_helper.py"; C2="quantum_systems/quantum_dots/two_dim/coulomb_elements.py"
D2="quantum_systems/quantum_dots/two_dim/two_dim_ho.py"; DV="quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
R="quantum_systems/random_basis.py"; PS="quantum_systems/custom_system.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))

p("C01","A change of basis transforms every stored quantity consistently",
 "For any basis set and any ket coefficients C (square or rectangular, real or complex) and bra coefficients C~ (by default the conjugate transpose of C), changing basis replaces the one-body Hamiltonian, the overlap, every dipole component and every stored spin matrix by C~ X C, the two-body elements and the two-body spin operator by the contraction with C~ on both bra indices and C on both ket indices, the single-particle functions by C^T phi and their duals by C~ phi~. The number of basis functions becomes the number of columns of C, quantities that were not set stay unset, and the coefficient matrices are not modified. Through a quantum system the same holds, the particle number is kept and the occupied/virtual partition is refreshed.",
 ["inputs","configurations","histories"],"all basis sizes l, l' (rectangular included), all real/complex element values, all C and C~, every combination of set/unset quantities, grid dimension 1-3",
 "Tests try one size with default C~, look only at h, u and sizes, and never look at spin matrices, dipole, overlap, orbitals or duals after a basis change.",
 [B,SY,DV],[("change_basis and the _change_basis_* helpers",B),("QuantumSystem.change_basis",SY),("ODSincDVR.transform_two_body_elements",DV)],["BasisSet.change_basis","QuantumSystem.change_basis"])
p("C02","Element transformations are pure, compose, and preserve symmetries",
 "Transforming one-body elements, two-body elements, orbitals or dual orbitals by given coefficients returns exactly the defining contraction (bra coefficients default to the conjugate transpose), as a fresh result that leaves all inputs unchanged. Transforming with C1 and then C2 equals transforming once with the product C1 C2; with default bra coefficients Hermitian one-body elements stay Hermitian, and two-body elements keep particle-exchange symmetry and antisymmetry.",
 ["inputs"],"all shapes, all real/complex values, explicit or default bra coefficients",
 "Tests sample two 10x10 random instances with square C; composition, symmetry preservation, rectangular C, explicit C~ different from C^dagger and purity are not exercised.",
 [B,SY],[("transform_one_body_elements, transform_two_body_elements, transform_spf, transform_bra_spf, get_transformed_h/u",B),("QuantumSystem.transform_*",SY)],["BasisSet.transform_one_body_elements","BasisSet.transform_two_body_elements","BasisSet.transform_spf","BasisSet.transform_bra_spf"])
p("C03","Spin doubling builds exactly the spin-orbital version of a spatial basis",
 "Converting a spatial basis of l orbitals to a general spin-orbital basis yields 2l functions in which index 2p+sigma is orbital p with spin sigma: one-body, overlap and every dipole element equals the spatial element times delta(sigma,tau), two-body elements equal the spatial ones times a spin delta for each particle (then antisymmetrised if asked), and orbitals and dual orbitals are repeated once per spin. All stored elements end up complex with unchanged values, unset optional quantities stay unset, and converting an already converted basis changes nothing. Building a general-orbital system from a spatial system leaves the spatial system as it was.",
 ["inputs","configurations"],"all l, all element values and dtypes, with/without dipole, orbitals, explicit duals, anti-symmetrisation on/off",
 "Tests cover the helpers for one size with real random data; dipole, duals, overlap, complex data and the no-op second conversion are not checked.",
 [B,SP,G],[("change_to_general_orbital_basis, add_spin_*",B),("construct_general_orbital_system",SP)],["BasisSet.change_to_general_orbital_basis","SpatialOrbitalSystem.construct_general_orbital_system"])
p("C04","Spin operators are correct in every orthonormal spin basis",
 "For every orthonormal pair of spin vectors (a, b) the stored Pauli matrices are the matrix elements of sigma_x, sigma_y, sigma_z between a and b, and the spin matrices are one half of (spatial overlap) kron sigma_i; hence they are Hermitian for Hermitian overlap and obey [S_x,S_y] = i S_z (and cyclic) and one-body S^2 = 3/4 for orthonormal orbitals. The two-body spin-squared operator is the sum over directions of S_i[p,r] S_i[q,s], antisymmetrised together with the two-body Hamiltonian. A pair of spin vectors that is not orthonormal is rejected.",
 ["inputs"],"all complex orthonormal spin pairs, all l, all overlap matrices",
 "Tests use only a=(1,0), b=(0,1), for which complex-conjugation, ordering and sign mistakes are invisible.",
 [B],[("setup_pauli_matrices, setup_spin_squared_operator, change_to_general_orbital_basis",B)],["spin_x/spin_y/spin_z/spin_2/spin_2_tb"])
p("C05","Two-body elements are antisymmetrised exactly once and stay antisymmetric",
 "Antisymmetrising gives u[p,q,r,s] - u[p,q,s,r], is applied at most once however often it is requested, and is recorded by the basis set; the two-body spin operator is treated alike. A general-orbital system requested with antisymmetrisation exposes antisymmetric elements whether the basis arrived spatial, spin-doubled or already antisymmetrised, and they stay antisymmetric under basis changes and further requests; without the request the elements are left as they were. If u has particle-exchange symmetry the result is also antisymmetric in its first two indices.",
 ["inputs","histories"],"all l, all u, all sequences of spin doubling / antisymmetrisation requests / basis changes / system construction",
 "Tests check one-shot construction; repeated requests, pre-doubled or pre-antisymmetrised bases and later basis changes are not covered.",
 [B,G,DV],[("anti_symmetrize_two_body_elements, anti_symmetrize_u, _anti_symmetrized_u flag",B),("GeneralOrbitalSystem.__init__",G)],["GeneralOrbitalSystem.u","BasisSet.anti_symmetrized_u"])
p("C06","The Fock matrix is the normal-ordered one-body operator",
 "For any elements h, u and any number of occupied orbitals n, a general-orbital system returns f[p,q] = h[p,q] + sum_{i<n} u[p,i,q,i], and a spatial-orbital system returns f[p,q] = h[p,q] + sum_{i<n} (2 u[p,i,q,i] - u[p,i,i,q]), for all p, q. A supplied output buffer is completely overwritten whatever it held, and returned; h and u are never modified.",
 ["inputs","configurations"],"all n<=l (n=0 and n=l included), all h, u, with and without a (dirty) output buffer",
 "No existing test calls the Fock construction at all.",
 [G,SP],[("construct_fock_matrix",G),("construct_fock_matrix",SP)],["construct_fock_matrix"])
p("C07","Reference energies are right and agree between spatial and spin-orbital form",
 "A general-orbital system's reference energy is sum_i h[i,i] + 1/2 sum_ij u[i,j,i,j] over occupied orbitals, and a spatial-orbital system's is 2 sum_i h[i,i] + sum_ij (2 u[i,j,i,j] - u[i,j,j,i]). For every closed-shell spatial system, the general-orbital system built from it (with antisymmetrised elements) has the same reference energy, and its Fock matrix is the spin-doubled Fock matrix of the spatial system.",
 ["inputs"],"all even particle numbers, all l, all h and u, all spin bases",
 "Only one helium energy is tested, with two occupied spin-orbitals, where several mistakes (index order, occupied range, factors) cancel.",
 [G,SP,B],[("compute_reference_energy",G),("compute_reference_energy",SP),("construct_general_orbital_system",SP)],["compute_reference_energy","construct_fock_matrix"])
p("C08","Particle-number bookkeeping: occupied and virtual ranges partition the basis",
 "Every quantum system satisfies 0 <= n <= l with l the basis size, m = l - n, occupied range [0,n) and virtual range [n,l), after construction, explicit resizing and basis changes; requests with n > l are refused. A spatial-orbital system accepts only an even number of particles and a spin-free basis and occupies half as many orbitals; a general-orbital system occupies one orbital per particle, and the one built from a spatial system has twice its occupied orbitals and basis size.",
 ["inputs","histories"],"all n, l, all sequences of construction / resizing / basis change",
 "Tests look at one or two fixed (n, l) pairs and never at m, o, v or at rejected requests.",
 [SY,SP,G],[("set_system_size, __init__, change_basis",SY),("SpatialOrbitalSystem.__init__",SP)],["n, l, m, o, v"])
p("C09","Stored matrix elements always have the basis size on every axis",
 "Assigning the one-body, overlap, two-body, dipole or spin elements succeeds exactly when every orbital axis has the length of the basis (dipole: one matrix per spatial dimension; spin elements only on spin-dependent bases), and single-particle functions exactly when there is one per basis function on a grid of the right dimensionality; then precisely that array is stored. A refused assignment raises and leaves the basis set unchanged.",
 ["inputs"],"all l, all array shapes (rank 2 and 4), all spatial dimensions 1-3",
 "Tests never assign arrays of a wrong shape.",
 [B],[("property setters and check_axis_lengths",B)],["BasisSet property setters"])
p("C10","The particle density is the contraction of density matrix, orbitals and duals",
 "For any one-body density matrix rho the particle density equals sum_pq phi~_p(r) rho[q,p] phi_q(r) on the grid, with the duals being the complex conjugate orbitals unless set explicitly. Passing coefficients C (and optionally C~, by default C^dagger) gives exactly the density in the transformed basis without changing the stored basis. The computation modifies none of its inputs and accepts complex density matrices for real orbitals too.",
 ["inputs","configurations"],"all l, l', grids of dimension 1-3, real/complex orbitals and density matrices, explicit or implicit duals, with/without C, C~",
 "No existing test computes a particle density.",
 [SH,B,SY],[("compute_particle_density",SH),("BasisSet.compute_particle_density, bra_spf",B)],["compute_particle_density"])
p("C11","Copies are faithful and independent of the original",
 "Copying a basis set or a system yields an object of the same kind with equal sizes, flags and elements, with the array module in place on both, while the original keeps its values; later in-place or structural changes to one (elements, basis change, spin doubling, time evolution operator) are never visible in the other. A time-evolution operator attached to a copied or spin-doubled system refers to the new system and gives that system's time-dependent Hamiltonian. This holds for every supported basis set and potential.",
 ["inputs","histories","configurations"],"all basis sets, element values, attached operators and later mutations",
 "One test copies one system and mutates one element of h.",
 [B,SY,SP],[("copy_basis",B),("copy_system",SY),("construct_general_orbital_system",SP)],["copy_basis","copy_system","construct_general_orbital_system"])
p("C12","Time-dependent Hamiltonians are the static one plus the specified driving term",
 "Without an operator h(t), u(t) are the static elements. With a laser field h(t) = h + E(t) sum_k eps_k(t) d_k (polarisation along the first axis by default, constants allowed for E and eps) and u(t) = u; with adiabatic switching u(t) = f(t) u and h(t) = h; with a custom one-body operator h(t) = h + w(t) O and u(t) = u. Every evaluation reflects the requested time and the system's current elements regardless of earlier evaluations, never modifies stored elements, and the one-/two-body flags report which part is driven.",
 ["inputs","histories"],"all times, pulse/switching/weight functions or constants, polarisation vectors (constant or time dependent), evaluation histories, basis sizes, dimensions 1-3",
 "No existing test uses a time-evolution operator.",
 [T,SY],[("LaserField, AdiabaticSwitching, CustomOneBodyOperator",T),("h_t, u_t, set_time_evolution_operator",SY)],["QuantumSystem.h_t","QuantumSystem.u_t"])
p("C13","2D oscillator orbital numbering is an energy-ordered bijection",
 "The map from orbital index p >= 0 to quantum numbers (n, m) yields n >= 0 and is inverse to the map from (n, m) to p, in both directions, for all p and all n >= 0 and integer m. Shell energy 2n+|m|+1 never decreases with p, and inside a shell m increases strictly.",
 ["inputs"],"all natural p; all natural n and integer m",
 "Tests compare a finite table of indices.",
 [H2],[("get_index_p, get_indices_nm, get_shell_energy",H2)],["get_index_p","get_indices_nm"])
p("C14","2D oscillator one- and two-body elements obey the closed form and symmetries",
 "For every basis size and frequency the 2D harmonic oscillator has h = omega (2n+|m|+1) on the diagonal and zero elsewhere, identity overlap, and two-body elements sqrt(omega) times the Anisimovas-Matulis Coulomb elements of the orbitals' quantum numbers. These elements are real, vanish unless m_p+m_q = m_r+m_s, and satisfy u[p,q,r,s] = u[q,p,s,r] = u[r,s,p,q].",
 ["inputs"],"all quantum numbers, all basis sizes, all omega > 0",
 "Tests compare with a table for at most 36 orbitals at omega = 1 and check one of the symmetries for 12 orbitals.",
 [C2,H2,D2],[("coulomb_ho and log_* helpers",C2),("_get_coulomb_elements, get_one_body_elements",H2),("TwoDimensionalHarmonicOscillator.setup_basis",D2)],["TwoDimensionalHarmonicOscillator.h/u/s","get_coulomb_elements"])
p("C15","2D orbitals, dipole and double-well elements follow the polar formulas",
 "For every omega and mass, 2D single-particle functions are a sqrt(n!/(pi (n+|m|)!)) (a r)^|m| L_n^|m|(a^2 r^2) exp(-a^2 r^2/2) exp(i m theta) with a = sqrt(mass omega) on the radial-angular mesh. Dipole elements are the integrals of x = r cos(theta) and y = r sin(theta) between these functions, so they are Hermitian and vanish unless |m_p - m_q| = 1. The double well adds omega^2 L^2/8 to every diagonal element and -omega^2 L/2 times the matrix element of |x| (axis 0) or |y| (axis 1), and is Hermitian.",
 ["inputs","configurations"],"all basis sizes, omega, mass, barrier strengths, both axes",
 "Tests compare 15 orbitals at omega = mass = 1; the dipole and double-well data tests cannot run here for want of data files.",
 [H2,D2],[("spf_state, spf_norm, spf_radial, theta_*_integral, radial_integral, get_double_well_one_body_elements",H2),("construct_dipole_moment, setup_spf",D2)],["spf","dipole_moment","TwoDimensionalDoubleWell.h"])
p("C16","Caching 2D Coulomb elements never changes what is returned",
 "Whether caching is disabled, enabled with no stored file, or enabled with a file stored by an earlier request, asking for the Coulomb elements of N orbitals returns exactly the elements for N orbitals. Stored elements are those of the size they are stored under, different sizes never share a file, and nothing is read or written when caching is disabled.",
 ["inputs","histories","configurations"],"all N, all sequences of requests, cache on/off",
 "One test caches one size twice.",
 [H2],[("get_coulomb_elements",H2)],["get_coulomb_elements"])
p("C17","1D quantum-dot orbitals solve the discretised Schroedinger equation",
 "For every potential, grid and number of orbitals the 1D quantum dot's orbitals vanish at the grid end points and, on the interior, are the lowest eigenfunctions of the three-point finite-difference Hamiltonian -1/2 d^2/dx^2 + V(x) with the stored eigenvalues in ascending order. They are orthonormal under the grid quadrature, the one-body matrix is the diagonal of these eigenvalues, the overlap is the identity, and without a potential the oscillator with omega = 1/4 is used.",
 ["inputs","configurations"],"all potentials, grid lengths, grid sizes, numbers of orbitals",
 "Tests compare four fixed potentials at one grid each against stored numbers.",
 [OD,OP],[("ODQD.setup_basis",OD)],["ODQD.h, s, spf, eigen_energies"])
p("C18","1D two-body and dipole elements are the quadrature of the defining integrals",
 "For every set of orbitals on a uniform grid, the 1D two-body elements equal the trapezoidal double integral of phi_p*(x1) phi_q*(x2) alpha/sqrt((x1-x2)^2+a^2) phi_r(x1) phi_s(x2), hence u[p,q,r,s] = u[q,p,s,r] and u[p,q,r,s] = conj u[r,s,p,q]; the 1D quantum dot's dipole elements equal the trapezoidal integral of phi_p*(x) (x + beta x^2) phi_q(x), hence are Hermitian.",
 ["inputs"],"all numbers of orbitals and grid points, all complex orbital values, all alpha, a, beta",
 "Tests use stored numbers for default alpha, a, beta and real orbitals, where conjugation and index-order mistakes are invisible.",
 [OD],[("_trapz, _shielded_coulomb, _compute_inner_integral, _compute_orbital_integrals, construct_dipole_moment",OD)],["ODQD.u","ODQD.dipole_moment","ODHO.u"])
p("C19","The analytic 1D oscillator basis has the textbook energies, orbitals and dipole",
 "For every omega, size and grid the 1D harmonic-oscillator basis has h = omega (n + 1/2) on the diagonal and zero elsewhere, identity overlap, orbitals (omega/pi)^(1/4) / sqrt(2^n n!) exp(-omega x^2/2) H_n(sqrt(omega) x) on the grid, and dipole elements sqrt((n+1)/(2 omega)) between neighbouring states and zero otherwise.",
 ["inputs"],"all sizes, all omega > 0, all grids",
 "A doctest looks at h[0,0] for omega = 1.",
 [OD],[("ODHO.setup_basis, ho_function, normalization, construct_dipole_moment",OD)],["ODHO.h, s, spf, dipole_moment"])
p("C20","Sinc-DVR elements are right and the 2-index and 4-index forms agree",
 "For every grid and potential the sinc-DVR basis has kinetic energy pi^2/(6 dx^2) on the diagonal and (-1)^(i-j)/(dx^2 (i-j)^2) off it, plus the potential on the diagonal, identity overlap, dipole x + beta x^2 on the diagonal, orbitals sinc((x-x_i)/dx)/sqrt(dx), and interaction alpha/sqrt((x_p-x_q)^2+a^2) carried by u[p,q,p,q]. The compact 2-index and the full 4-index representation describe the same operator: switching between them, spin doubling, antisymmetrising and changing basis give the same elements as doing so in 4-index form.",
 ["inputs","configurations","histories"],"all l, grid lengths, potentials, alpha, a, beta, both representations and switches between them",
 "No existing test touches the sinc-DVR basis.",
 [DV],[("setup_basis, construct_coulomb_elements, set_u_repr, add_spin_two_body, anti_symmetrize_u, transform_two_body_elements",DV)],["ODSincDVR.h, u, s, spf, dipole_moment, set_u_repr"])
p("C21","Every 1D potential has its documented form and its derivative is the derivative",
 "For all parameters and positions the 1D potentials evaluate to their defining formulas: harmonic omega^2 x^2/2; double well omega^2 (x^2 + l^2/4 - l|x|)/2; smooth double well (x+a/2)^2 (x-a/2)^2/(2 a^2); symmetric a x^6 + b x^4 + c x^2; asymmetric a x^4 + b x^3 + c x^2; Gaussian -w exp(-(x-c)^2/(2 d^2)), with an added wall of height 1e5 beyond |x| > x_wall in the hard-wall variant; atomic -Z/sqrt(x^2+c). Wherever a potential offers a derivative it equals the derivative of that potential with respect to x.",
 ["inputs"],"all parameter values and all x (the double well's kink at x = 0 excluded for the derivative)",
 "No existing test evaluates a derivative; three potentials are never evaluated.",
 [OP],[("OneDimPotential subclasses: __call__, derivative",OP)],["potential(x)","potential.derivative(x)"])
p("C22","Random basis sets have the symmetries of physical elements",
 "For every size, dimension and random draw, a random basis set has Hermitian one-body and overlap matrices, one Hermitian dipole matrix per dimension, and two-body elements with u[p,q,r,s] = u[q,p,s,r]; requesting random elements of any shape gives a complex array of that shape.",
 ["inputs","configurations"],"all l, dim, all random draws",
 "A doctest looks at one shape.",
 [R],[("setup_basis, make_hermitian, make_dipole_moment_hermitian, make_two_body_symmetry, get_random_elements",R)],["RandomBasisSet.h, s, u, dipole_moment"])
p("C23","Systems built from PySCF carry PySCF's integrals unchanged",
 "For every molecule and basis PySCF accepts, the atomic-orbital system has PySCF's core Hamiltonian, overlap, dipole integrals, nuclear repulsion energy, electron count and basis size, and two-body elements u[p,q,r,s] = (pr|qs); the RHF system has the same integrals transformed with the RHF orbital coefficients (dipole origin at the centre of nuclear charge). The RHF system's reference energy plus the nuclear repulsion equals PySCF's RHF energy, and the spin-doubled variants are the spin doubling of the spatial ones.",
 ["inputs","configurations"],"all molecules, basis sets, charges, spin doubling and antisymmetrisation options",
 "Tests check the energy of helium, where nuclear repulsion is zero and one orbital is occupied.",
 [PS,SP,B],[("construct_pyscf_system_ao, construct_pyscf_system_rhf",PS)],["construct_pyscf_system_ao","construct_pyscf_system_rhf"])
p("C24","The 2D oscillator in a magnetic field has Fock-Darwin levels in order",
 "For every size, oscillator frequency and cyclotron frequency, the basis holds the l lowest Fock-Darwin states, each once, in order of energy Omega (2n+|m|+1) - omega_c m/2 with Omega = sqrt(omega^2 + omega_c^2/4); the one-body matrix is diagonal with these energies, the overlap is the identity, and two-body elements, orbitals and dipoles are those of the listed (n, m) at frequency Omega. At zero field it agrees with the field-free oscillator.",
 ["inputs","configurations"],"all l, omega > 0, omega_c >= 0",
 "One test compares u at zero field for 6 orbitals.",
 [H2,D2],[("construct_dataframe, get_shell_energy_B, get_one_body_elements_B, get_coulomb_elements_B",H2),("TwoDimHarmonicOscB",D2)],["TwoDimHarmonicOscB.h, u, s, spf, dipole_moment"])
p("C25","Changing array module or casting to complex preserves every value",
 "Converting a basis set or system to another array module, or casting it to complex, keeps the value, shape and unset status of every stored quantity (one-body, overlap, two-body, dipole, spin, orbitals, duals), makes every set quantity complex in the case of the cast, and makes basis set and system use the new module from then on.",
 ["inputs","configurations"],"all l, element values and dtypes, every combination of set/unset quantities",
 "No existing test calls these conversions and compares values.",
 [B,SY],[("change_module, change_arr_module, cast_to_complex",B),("QuantumSystem.change_module",SY)],["BasisSet.change_module","BasisSet.cast_to_complex"])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    print(len(P))
