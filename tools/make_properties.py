#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to review)."""
import json, os
B = "quantum_systems/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[B + f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "A basis change carries over every stored quantity",
 "After change_basis(C, C_tilde) on a basis set or system (C_tilde defaulting to the adjoint of C), every quantity it holds - h, s, u, dipole_moment, spin_x/y/z, spin_2, spin_2_tb, spf and bra_spf - equals its previous value with each ket index contracted with C and each bra index contracted with C_tilde. Quantities that were absent stay absent. The number of basis functions becomes the number of columns of C, and a system's l, m, o and v follow it while n is kept.",
 ["inputs", "histories", "configurations"], "every complex C and C_tilde, square or rectangular, every combination of present/absent optional quantities, every basis-set class, after any earlier operations",
 "The tests transform h and u of two random systems with C_tilde omitted, and never look at the spin operators, the dipole moments, the bra functions or a non-adjoint C_tilde after a basis change.",
 ["basis_set.py", "system.py", "sinc_dvr/one_dim/sinc_dvr.py"],
 [("BasisSet.change_basis and its _change_basis_* helpers", B+"basis_set.py"), ("QuantumSystem.change_basis", B+"system.py")],
 ["BasisSet.change_basis", "QuantumSystem.change_basis"],
 [("BasisSet._h,_s,_u,_dipole_moment,_spin_*,_spf,_bra_spf", "matrix elements and single-particle functions of one basis", B+"basis_set.py")])

prop("C02", "Transformation helpers contract bra and ket indices correctly",
 "transform_one_body_elements, transform_two_body_elements, transform_spf, transform_bra_spf, get_transformed_h and get_transformed_u return exactly the input with ket indices contracted with C and bra indices contracted with C_tilde, where an omitted C_tilde means the adjoint of C (and minus the exchanged elements where direct antisymmetrisation of compact elements is requested). Called on a basis set of any class or through a system they agree with one another, and neither the inputs nor the stored elements change.",
 ["inputs", "configurations"], "every complex input array, every square or rectangular C, with and without an independent C_tilde, on every basis-set and system class",
 "Two tests sample the static base-class helpers with one random square C; C_tilde is only ever the adjoint, and the functions for ket/bra single-particle functions and the system-level forwarding are never called.",
 ["basis_set.py", "system.py", "sinc_dvr/one_dim/sinc_dvr.py"],
 [("BasisSet.transform_*", B+"basis_set.py"), ("QuantumSystem.transform_*", B+"system.py"), ("ODSincDVR.transform_two_body_elements", B+"sinc_dvr/one_dim/sinc_dvr.py")],
 ["BasisSet.transform_one_body_elements", "BasisSet.transform_two_body_elements", "BasisSet.transform_spf", "BasisSet.transform_bra_spf", "BasisSet.get_transformed_h", "BasisSet.get_transformed_u", "QuantumSystem.transform_*"])

prop("C03", "Spin doubling duplicates every spatial quantity consistently, once",
 "Converting a spatial basis to a general spin-orbital basis doubles the number of basis functions and maps spatial orbital p to spin-orbitals 2p and 2p+1: h, s and each dipole component become block-diagonal in spin, u is diagonal in the spin of each particle, and ket (and any stored bra) single-particle functions are repeated for both spins without loss of their imaginary parts; afterwards the basis reports that it includes spin. A basis that already includes spin is left unchanged.",
 ["inputs", "histories", "configurations"], "all complex matrix elements, sizes, grid dimensionalities, spin-basis vectors, and any sequence of repeated conversions",
 "The tests check the static helpers on one random real array and spf of an integer array; the conversion of a whole basis (dipole, bra functions, complex functions, repeated conversion) is only compared with stored data of real one-dimensional systems.",
 ["basis_set.py"], [("BasisSet.change_to_general_orbital_basis", B+"basis_set.py"), ("BasisSet.add_spin_*", B+"basis_set.py")],
 ["BasisSet.change_to_general_orbital_basis", "BasisSet.add_spin_one_body", "BasisSet.add_spin_two_body", "BasisSet.add_spin_spf", "BasisSet.add_spin_bra_spf", "GeneralOrbitalSystem(...)"],
 [("_includes_spin", "whether the basis functions are spin-orbitals", B+"basis_set.py")])

prop("C04", "Spin operators follow from the overlap and the chosen spin basis",
 "After spin doubling with orthonormal spin vectors a and b, spin_x, spin_y and spin_z equal one half of the spatial overlap times the Pauli matrix expressed in the basis {a, b}, spin_2 equals the sum over directions of S_i s S_i with s the spin-orbital overlap, and the two-body part of the squared spin equals the sum over directions of S_i[p,r] S_i[q,s]. Spin vectors that are not orthonormal are rejected.",
 ["inputs"], "every overlap matrix (also non-orthonormal bases) and every pair of complex orthonormal spin vectors",
 "The tests use a=(1,0), b=(0,1) only, and test the squared spin only for orthonormal orbitals.",
 ["basis_set.py"], [("BasisSet.setup_pauli_matrices", B+"basis_set.py"), ("BasisSet.setup_spin_squared_operator", B+"basis_set.py"), ("BasisSet.change_to_general_orbital_basis", B+"basis_set.py")],
 ["BasisSet.spin_x", "BasisSet.spin_y", "BasisSet.spin_z", "BasisSet.spin_2", "BasisSet.spin_2_tb", "BasisSet.sigma_x/y/z"])

prop("C05", "Two-body elements are antisymmetrised exactly when asked, exactly once",
 "Antisymmetrising replaces u[p,q,r,s] (and the two-body squared spin, if present) by u[p,q,r,s] - u[p,q,s,r] and marks the basis as antisymmetrised; doing it again, through any combination of basis, system and conversion calls, changes nothing. With anti_symmetrize=False neither the elements nor the mark change, and a general-orbital system built with anti_symmetrize=True always holds antisymmetrised elements.",
 ["inputs", "histories", "configurations"], "all complex u, all option combinations, any order and number of construction/antisymmetrisation calls",
 "Tests only call the static helper once and inspect systems built with the default option.",
 ["basis_set.py", "general_orbital_system.py", "spatial_orbital_system.py", "sinc_dvr/one_dim/sinc_dvr.py"],
 [("BasisSet.anti_symmetrize_two_body_elements guarded by _anti_symmetrized_u", B+"basis_set.py"), ("GeneralOrbitalSystem.__init__", B+"general_orbital_system.py")],
 ["BasisSet.u", "BasisSet.spin_2_tb", "BasisSet.anti_symmetrized_u", "GeneralOrbitalSystem.u"],
 [("_anti_symmetrized_u", "whether u has been antisymmetrised", B+"basis_set.py")])

prop("C06", "Reference energy is the energy of the occupied determinant",
 "The reference energy of a general-orbital system is sum_i h_ii + 1/2 sum_ij u_ijij and that of a closed-shell spatial system is 2 sum_i h_ii + 2 sum_ij u_ijij - sum_ij u_ijji, with i and j running over exactly the occupied orbitals. Computing it changes nothing.",
 ["inputs"], "all complex h and u, every number of particles and basis functions",
 "One test evaluates one general-orbital energy of helium (a single doubly occupied orbital, real integrals); the closed-shell formula is never evaluated.",
 ["general_orbital_system.py", "spatial_orbital_system.py"],
 [("compute_reference_energy", B+"general_orbital_system.py"), ("compute_reference_energy", B+"spatial_orbital_system.py")],
 ["GeneralOrbitalSystem.compute_reference_energy", "SpatialOrbitalSystem.compute_reference_energy"])

prop("C07", "Fock matrix construction is exact and ignores the output buffer's content",
 "For given h and u the Fock matrix is h_pq + sum_i u_piqi in a general-orbital system and h_pq + 2 sum_i u_piqi - sum_i u_piiq in a closed-shell spatial system, with i running over the occupied orbitals. If the caller supplies an output array the result is written to and returned as that very array whatever it held before; h and u are never modified.",
 ["inputs"], "all complex h and u (stored or time-dependent), every partition, any previous content of the output array",
 "No test constructs a Fock matrix.",
 ["general_orbital_system.py", "spatial_orbital_system.py"],
 [("construct_fock_matrix", B+"general_orbital_system.py"), ("construct_fock_matrix", B+"spatial_orbital_system.py")],
 ["GeneralOrbitalSystem.construct_fock_matrix", "SpatialOrbitalSystem.construct_fock_matrix"])

prop("C08", "Particle density pairs bra and ket functions with the density matrix",
 "The particle density for a one-body density matrix rho is, at every grid point, the sum over p and q of bra_p * rho[q,p] * ket_q; if C is given the ket functions are first transformed with C and the bra functions with C_tilde (the adjoint of C if omitted). The stored functions and the arguments are not changed, and the bra functions are the stored ones or, if none were stored, the complex conjugate of the ket functions.",
 ["inputs", "configurations"], "all complex, also non-Hermitian, density matrices, orbitals, coefficients and grids of any dimensionality",
 "No test computes a particle density.",
 ["system_helper.py", "basis_set.py", "system.py"],
 [("compute_particle_density", B+"system_helper.py"), ("BasisSet.compute_particle_density", B+"basis_set.py"), ("BasisSet.bra_spf", B+"basis_set.py")],
 ["QuantumSystem.compute_particle_density", "BasisSet.compute_particle_density"])

prop("C09", "Time-dependent Hamiltonians follow the operator and the current elements",
 "At any time t, h_t(t) and u_t(t) are the system's current h and u when no operator is set; a laser field gives h + E(t) * sum_i eps_i(t) dipole_i with the polarisation defaulting to the first axis, an adiabatic switching gives f(t) * u, and a custom one-body operator gives h + w(t) * O, each leaving the other part unchanged and reporting one-/two-body character accordingly. Strengths and polarisations may be constants or callables, are evaluated at the requested time on every call, and calls never change h, u or the dipole moments.",
 ["inputs", "histories"], "all times, pulses, polarisations, sequences of evaluations at different times, and systems whose elements changed (basis change) after the operator was set",
 "No test sets a time-evolution operator.",
 ["time_evolution_operators/operator.py", "system.py"],
 [("TimeEvolutionOperator subclasses", B+"time_evolution_operators/operator.py"), ("QuantumSystem.h_t/u_t/has_*_time_evolution_operator", B+"system.py")],
 ["QuantumSystem.h_t", "QuantumSystem.u_t", "QuantumSystem.has_one_body_time_evolution_operator", "QuantumSystem.has_two_body_time_evolution_operator"])

prop("C10", "Copies are complete and independent of the original",
 "copy_system and copy_basis return an object of the same class with equal quantities, settings and flags that shares no mutable state with the original, and whose time-evolution operator, if any, acts on the copy. The original keeps its values and array module and stays usable. This works for every basis set and potential the library offers and with any operator set.",
 ["inputs", "histories", "configurations"], "every basis-set class, potential, system class and operator, and any later in-place change to either object",
 "One test copies one one-dimensional system and changes one element of h.",
 ["basis_set.py", "system.py", "quantum_dots/one_dim/one_dim_potentials.py"],
 [("BasisSet.copy_basis", B+"basis_set.py"), ("QuantumSystem.copy_system", B+"system.py")],
 ["QuantumSystem.copy_system", "BasisSet.copy_basis"])

prop("C11", "Queries and conversions never modify arrays supplied by the caller",
 "Arrays handed in by the caller - coefficient matrices, density matrices, spin vectors, operators, matrix elements passed to Fock construction, to transformations or to spin/antisymmetrisation helpers, or assigned as elements of a basis - are never written to by the library, except the explicit output array of the Fock construction. Operations that replace stored elements bind new arrays rather than overwriting arrays obtained earlier.",
 ["inputs", "histories"], "every public operation of basis sets, systems, operators and potentials and every aliasing between arguments and stored elements",
 "The tests never re-read an input after a call.",
 ["basis_set.py", "system.py", "system_helper.py", "general_orbital_system.py", "spatial_orbital_system.py", "time_evolution_operators/operator.py", "sinc_dvr/one_dim/sinc_dvr.py", "quantum_dots/one_dim/one_dim_potentials.py"],
 [("pure array expressions followed by rebinding", B+"basis_set.py"), ("construct_fock_matrix writes only f", B+"general_orbital_system.py")],
 ["all public methods taking arrays"])

prop("C12", "Module change and complex cast cover every matrix element",
 "change_module(np) leaves every present quantity among h, s, u, spf, bra_spf, dipole_moment, spin_x/y/z, spin_2 and spin_2_tb converted by the new module with unchanged values, leaves absent ones absent, and makes the new module the one used from then on, for a system as for its basis. cast_to_complex likewise makes every present one complex with unchanged values (the compact Coulomb elements of a sinc-DVR basis may keep their type, as documented there).",
 ["inputs", "configurations"], "every combination of present and absent quantities, every array module, every dense basis-set class",
 "No test changes the module or checks the type of a quantity.",
 ["basis_set.py", "system.py"], [("BasisSet.change_module", B+"basis_set.py"), ("BasisSet.cast_to_complex", B+"basis_set.py"), ("QuantumSystem.change_module", B+"system.py")],
 ["BasisSet.change_module", "BasisSet.cast_to_complex", "QuantumSystem.change_module"])

prop("C13", "Sizes partition the orbitals and malformed quantities are rejected",
 "Every system has o = the first n orbitals, v = the remaining m = l - n, with l that of its basis, n the number of particles (general orbitals) or half of it (closed shell); more occupied orbitals than basis functions, an odd particle number or a spin-dependent basis for a closed-shell system are rejected. Assigning h, s, u, a dipole component, a spin quantity or single-particle functions whose axes do not match the number of basis functions (and, for single-particle functions and dipoles, the dimension) is rejected, as is assigning any spin quantity to a basis without spin, and a rejected or accepted assignment never alters another quantity.",
 ["inputs"], "all sizes, particle numbers and array shapes",
 "The tests only construct valid systems and assign valid shapes.",
 ["system.py", "general_orbital_system.py", "spatial_orbital_system.py", "basis_set.py"],
 [("QuantumSystem.set_system_size / __init__", B+"system.py"), ("SpatialOrbitalSystem.__init__", B+"spatial_orbital_system.py"), ("BasisSet property setters", B+"basis_set.py")],
 ["QuantumSystem.n/l/m/o/v", "BasisSet setters"])

prop("C14", "A general-orbital system built from a closed-shell one is faithful",
 "construct_general_orbital_system returns a system with twice as many occupied and basis orbitals whose elements are the spin-doubled elements of the closed-shell system, honouring the given spin vectors and antisymmetrisation choice, and leaves the closed-shell system unchanged and sharing nothing with it. A time-evolution operator that is set is carried over, acts on the new system's own elements, and keeps acting on the old system for the old one.",
 ["inputs", "histories", "configurations"], "all elements, spin vectors, options and operators, and any later change to either system",
 "The tests build general systems without operator and with default options and only look at sizes and spin matrices.",
 ["spatial_orbital_system.py", "basis_set.py"], [("SpatialOrbitalSystem.construct_general_orbital_system", B+"spatial_orbital_system.py")],
 ["SpatialOrbitalSystem.construct_general_orbital_system"])

prop("C15", "One-dimensional dots: elements follow from grid, potential and parameters",
 "For every grid length, number of points, potential and parameters alpha, a and beta, a one-dimensional quantum-dot basis has the grid spanning [-L, L], diagonal h holding the single-particle energies, unit overlap, and, with f the orbitals on the grid, u[p,q,r,s] the trapezoidal double integral of conj(f_p f_q) alpha/sqrt((x-y)^2+a^2) f_r f_s with p,r on one coordinate and q,s on the other, and dipole elements the trapezoidal integral of conj(f_p)(x + beta x^2) f_q (for the harmonic-oscillator basis the analytic position elements of the oscillator). The orbitals are the lowest eigenvectors of the finite-difference Hamiltonian with that potential normalised on the grid (the default potential being harmonic with frequency 0.25), or the analytic oscillator functions for the harmonic-oscillator basis.",
 ["inputs", "configurations"], "all grid lengths, point counts, basis sizes (at most the number of inner grid points), potentials and parameter values",
 "The tests use the default alpha, a and beta and four potentials at one size each.",
 ["quantum_dots/one_dim/one_dim_qd.py"], [("ODQD.setup_basis, ODHO.setup_basis, construct_dipole_moment, _compute_inner_integral, _compute_orbital_integrals, _trapz, _shielded_coulomb", B+"quantum_dots/one_dim/one_dim_qd.py")],
 ["ODQD(...)", "ODHO(...)"])

prop("C16", "Two-dimensional dots: elements scale with frequency, mass, barrier and field",
 "For every frequency omega, mass, barrier strength, axis and magnetic frequency omega_c, the two-dimensional oscillator basis has h = omega times the shell energy on the diagonal, u = sqrt(omega) times the dimensionless Coulomb elements, unit overlap, orbitals and Hermitian x/y dipole elements of that mass and frequency; the double well adds omega^2 b^2/8 on the diagonal and subtracts omega^2 b/2 times the matrix elements of |x| (axis 0) or |y| (axis 1); the magnetic-field basis uses sqrt(omega^2 + omega_c^2/4) as frequency everywhere, has energies with the extra -omega_c m/2 and numbers its orbitals as the lowest states of its energy-ordered state table.",
 ["inputs", "configurations"], "all parameter values, basis sizes and axes",
 "All passing tests of two-dimensional systems use omega = mass = 1 and zero field.",
 ["quantum_dots/two_dim/two_dim_ho.py", "quantum_dots/two_dim/two_dim_helper.py"],
 [("TwoDimensionalHarmonicOscillator.setup_basis/setup_spf/construct_dipole_moment", B+"quantum_dots/two_dim/two_dim_ho.py"), ("get_double_well_one_body_elements, spf_*, theta_*", B+"quantum_dots/two_dim/two_dim_helper.py")],
 ["TwoDimensionalHarmonicOscillator(...)", "TwoDimensionalDoubleWell(...)", "TwoDimHarmonicOscB(...)"])

prop("C17", "Sinc-DVR compact and full Coulomb representations are interchangeable",
 "In a sinc-DVR basis the compact two-index Coulomb elements U and the full four-index elements describe the same operator, u[p,q,r,s] = U[p,q] if p=r and q=s and zero otherwise: construction in either representation, switching between them in either direction, spin doubling and basis changes give the same operator whichever representation is held. (Switching to the compact form presupposes the original DVR functions: it is not meaningful after a basis change or antisymmetrisation.) A general-orbital system can be built from a sinc-DVR basis in either representation, with antisymmetrised elements being four-index.",
 ["inputs", "histories", "configurations"], "all grids, parameters, coefficients and sequences of representation switches, conversions and basis changes",
 "No test touches the sinc-DVR basis.",
 ["sinc_dvr/one_dim/sinc_dvr.py"], [("ODSincDVR.set_u_repr / construct_coulomb_elements / add_spin_two_body / transform_two_body_elements / change_to_general_orbital_basis", B+"sinc_dvr/one_dim/sinc_dvr.py")],
 ["ODSincDVR.u", "ODSincDVR.set_u_repr", "ODSincDVR.change_basis", "GeneralOrbitalSystem(n, ODSincDVR(...))"])

prop("C18", "Every potential's derivative is the derivative of its value",
 "For each one-dimensional potential that offers a derivative, derivative(x) equals the mathematical derivative of the potential's value at every x where the potential is differentiable, for all parameter values. Evaluating a potential does not modify its argument, and each potential's value is the documented expression of x and its parameters.",
 ["inputs"], "all positions and all parameter values",
 "No test evaluates a derivative, and values are only sampled through a few stored one-dimensional systems.",
 ["quantum_dots/one_dim/one_dim_potentials.py"], [("OneDimPotential subclasses: __call__ and derivative", B+"quantum_dots/one_dim/one_dim_potentials.py")],
 ["OneDimPotential.__call__", "OneDimPotential.derivative"])

prop("C19", "Caching Coulomb elements is invisible and survives interruption",
 "With caching switched on, the two-dimensional Coulomb elements returned are those that would be computed without it, for every number of orbitals and whatever was requested or cached before; with caching off nothing is read from or written to disk. A run killed at any moment while storing leaves either no cache entry or a complete one.",
 ["inputs", "histories", "crash_points"], "every sequence of requests for different sizes, cache on or off, and a crash at any point of a store",
 "One test stores and reloads one size without interruption.",
 ["quantum_dots/two_dim/two_dim_helper.py"], [("get_coulomb_elements", B+"quantum_dots/two_dim/two_dim_helper.py")],
 ["get_coulomb_elements"])

prop("C20", "Coulomb tensors pair each index with its own orbital, for any scheduling",
 "Entry [p,q,r,s] of the two-dimensional Coulomb elements is the Coulomb integral of the quantum numbers of orbitals p, q, r and s in that order, for the field-free and for the magnetic-field basis alike, for every basis size. The result does not depend on how many threads compute it or how their work interleaves.",
 ["inputs", "schedules"], "every basis size, every thread count and interleaving of the parallel loop",
 "Tests compare up to 36 orbitals on whatever schedule happened to occur.",
 ["quantum_dots/two_dim/two_dim_helper.py"], [("_get_coulomb_elements (numba.prange)", B+"quantum_dots/two_dim/two_dim_helper.py"), ("get_coulomb_elements_B", B+"quantum_dots/two_dim/two_dim_helper.py")],
 ["get_coulomb_elements", "TwoDimensionalHarmonicOscillator.u", "TwoDimHarmonicOscB.u"])

prop("C21", "Systems built from PySCF carry its integrals in the library's conventions",
 "For every molecule and basis, the systems built from PySCF hold the core Hamiltonian, the overlap, the electron-repulsion integrals reordered to <pq|rs> = (pr|qs), the dipole integrals (about the coordinate origin in the atomic-orbital basis, about the centre of nuclear charge in the RHF basis), the nuclear repulsion energy and the electron count of that molecule in bohr units, in the atomic-orbital basis or transformed as a whole with the RHF orbitals. add_spin and anti_symmetrize select exactly the closed-shell or the (anti-symmetrised) general-orbital system, odd electron numbers are rejected, and a non-converged RHF calculation raises a warning.",
 ["inputs", "configurations"], "all molecules, basis sets, charges and option combinations",
 "Tests and doctests build helium and beryllium with default options and check one energy.",
 ["custom_system.py"], [("construct_pyscf_system_ao", B+"custom_system.py"), ("construct_pyscf_system_rhf", B+"custom_system.py")],
 ["construct_pyscf_system_ao", "construct_pyscf_system_rhf"])

prop("C22", "Random basis sets have the symmetries of physical integrals",
 "For every size and dimension a random basis set has Hermitian h, s and dipole components and two-body elements with u[p,q,r,s] = u[q,p,s,r], all independently random complex numbers of the right shape.",
 ["inputs"], "all sizes, dimensions and random draws",
 "The tests use random basis sets as inputs but never check their symmetries.",
 ["random_basis.py"], [("RandomBasisSet.setup_basis, make_hermitian, make_two_body_symmetry", B+"random_basis.py")],
 ["RandomBasisSet(l, dim)"])

prop("C23", "Sample collectors visit every sampler and write only when asked",
 "Sampling a step passes that step to every sampler exactly once and in order; dumping threads the accumulated dictionary through every sampler and returns it complete with previously added samples. The dictionary is written to the requested (or class-derived default) file in the requested directory, which is created first (an existing directory is accepted unless exist_ok is false), if and only if saving is requested.",
 ["inputs", "histories"], "every collection of samplers given as any iterable, every sequence of sample/add/dump calls and all options",
 "No test uses the samplers.",
 ["sampler.py"], [("SampleCollector.sample / dump / add_sample", B+"sampler.py")],
 ["SampleCollector.sample", "SampleCollector.dump", "SampleCollector.get_samples"])

prop("C24", "Every call in the library resolves, and subclasses stay substitutable",
 "Every name, attribute and method the library's code refers to exists, every call between its own functions and classes passes arguments the callee accepts, and a subclass that redefines a method accepts every call its base class accepts (by position, with optional arguments also by keyword). Hence each exported class can be constructed and used wherever its base class is expected without name, attribute or argument errors.",
 ["programs", "configurations"], "all code paths of the package, all exported classes and all override pairs",
 "Tests import the modules and run some paths; a name error on a path they do not take stays hidden (Python resolves names only when executed).",
 ["__init__.py", "basis_set.py", "system.py", "sinc_dvr/one_dim/sinc_dvr.py", "quantum_dots/two_dim/two_dim_ho.py"], [("class hierarchy of BasisSet, QuantumSystem, TimeEvolutionOperator, OneDimPotential", B)],
 ["all public classes and functions"])

prop("C25", "Two-dimensional orbital numbering is a bijection with quantum numbers",
 "The map from orbital number p >= 0 to quantum numbers (n, m) and the map from (n, m) back to the orbital number are inverse to each other for every p and every n >= 0 and integer m, and orbitals are numbered in order of non-decreasing shell energy 2n + |m| + 1 and, within one shell, of increasing m.",
 ["inputs"], "all orbital numbers and quantum numbers, unbounded",
 "The tests compare the first 5050 orbitals with a table.",
 ["quantum_dots/two_dim/two_dim_helper.py"], [("get_index_p", B+"quantum_dots/two_dim/two_dim_helper.py"), ("get_indices_nm", B+"quantum_dots/two_dim/two_dim_helper.py")],
 ["get_index_p", "get_indices_nm"])

prop("C26", "Coulomb integrals implement the closed formula for all quantum numbers",
 "The dimensionless two-dimensional Coulomb integral equals the Anisimovas-Matulis closed-form sum for every set of quantum numbers, in particular it vanishes whenever the total angular momentum of the two orbital pairs differs.",
 ["inputs"], "all quantum numbers n >= 0 and integer m",
 "Tests compare the integrals of the first 36 orbitals with stored values.",
 ["quantum_dots/two_dim/coulomb_elements.py"], [("coulomb_ho and its log_* helpers", B+"quantum_dots/two_dim/coulomb_elements.py")],
 ["coulomb_ho"])

prop("C27", "Grid-based elements converge to the continuum integrals",
 "As the grid spacing goes to zero and the grid length grows, the energies, dipole elements and Coulomb elements of the one-dimensional and sinc-DVR bases converge to those of the continuous Hamiltonian.",
 ["inputs"], "all potentials and grid sequences",
 "Tests compare single grids with stored values.",
 ["quantum_dots/one_dim/one_dim_qd.py", "sinc_dvr/one_dim/sinc_dvr.py"], [("finite-difference and sinc-DVR discretisation", B+"quantum_dots/one_dim/one_dim_qd.py")],
 ["ODQD(...)", "ODSincDVR(...)"])

prop("C28", "Matrix elements stay numerically accurate for large quantum numbers",
 "Coulomb integrals, oscillator functions and normalisations are accurate to the documented floating-point tolerance, without overflow or cancellation, for every basis size a user can afford.",
 ["inputs"], "all quantum numbers reachable within memory",
 "Tests reach 36 two-dimensional and 20 one-dimensional orbitals.",
 ["quantum_dots/two_dim/coulomb_elements.py", "quantum_dots/one_dim/one_dim_qd.py"], [("logarithmic factorials", B+"quantum_dots/two_dim/coulomb_elements.py")],
 ["coulomb_ho", "ODHO(...)"])

prop("C29", "Sinc-DVR elements follow from grid, potential and parameters",
 "For every grid length L, number of points, potential and parameters alpha, a and beta, a sinc-DVR basis has equidistant grid points spanning [-L, L] with spacing dx, one basis function per point, h[p,q] = (-1)^(p-q)/(dx^2 (p-q)^2) off the diagonal and pi^2/(6 dx^2) + V(x_p) on it, unit overlap, orbitals sin(pi(x-x_p)/dx)/(pi(x-x_p)/dx) normalised by 1/sqrt(dx), a diagonal dipole moment x + beta x^2, and Coulomb elements alpha/sqrt((x_p-x_q)^2 + a^2).",
 ["inputs", "configurations"], "all grid lengths, point counts, potentials and parameter values",
 "No test touches the sinc-DVR basis.",
 ["sinc_dvr/one_dim/sinc_dvr.py"], [("ODSincDVR.setup_basis, construct_dipole_moment, construct_coulomb_elements", B+"sinc_dvr/one_dim/sinc_dvr.py")],
 ["ODSincDVR(...)"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
