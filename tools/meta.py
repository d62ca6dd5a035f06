#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (only properties whose check exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "slowquant/unitary_coupled_cluster/"
Q = "slowquant/qiskit_interface/"
M = "slowquant/molecularintegrals/"

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state))


prop(
    "P01", "Fermionic operator arithmetic is the algebra of fermionic ladder operators",
    "Sums, differences, products, scalar multiples, in-place forms, adjoints and (double) commutators of fermionic operators represent exactly the corresponding operation on Fock-space operators, including constants and operators that change the particle number. "
    "Equal operators end up with the same stored terms, no operand is changed by an operation that is not in-place, and every exported view of an operator (readable text, index lists, Qiskit labels) describes the same operator.",
    ["inputs", "histories"], "All operators (any ladder strings, any order, repeated indices) and all programs of operations over them.",
    "The tests multiply a handful of fixed operators; normal-ordering signs, cancellations and aliasing depend on the order and repetition of indices over unboundedly many strings.",
    [U + "fermionic_operator.py", U + "operators.py"],
    [("do_extended_normal_ordering", U + "fermionic_operator.py"), ("FermionicOperator arithmetic", U + "fermionic_operator.py"), ("commutator, double_commutator", U + "operators.py")],
    "property-based testing: random operator programs vs Fock-space matrices", "Search over generated operator programs; trusts the Kronecker-product matrices of ladder operators.",
)
prop(
    "P02", "Excitation operators and Hamiltonians equal their textbook definitions",
    "Every elementary operator (ladder, singlet one- and two-electron excitation, spin-orbital and spin-adapted excitation of any rank, their anti-Hermitian forms) equals its second-quantised definition for every choice of indices. "
    "Hamiltonians and one-electron operators built from integrals equal the sum over all orbitals, and their restricted forms act identically on every state of the restricted class they are meant for.",
    ["inputs", "configurations"], "All index tuples, integrals and inactive/active/virtual splits.",
    "Tests see these operators only through total energies of a few molecules, where wrong normalisations, coinciding-index cases or skipped terms can cancel or never occur.",
    [U + "operators.py"], [("Epq, epqrs, G1..G6, G1_sa, G2_sa", U + "operators.py"), ("hamiltonian_full_space, hamiltonian_0i_0a/1i_1a/2i_2a, one_elec_op_*", U + "operators.py")],
    "property-based testing: generated operators vs Fock-space matrices", "Search over index tuples, integrals and orbital splits up to 4-5 orbitals.",
)
prop(
    "P03", "Active-space folding and determinant lists are exact",
    "Folding an operator into the active space gives an operator with the same matrix elements between active-space states as the full operator has between the same states with doubly occupied inactive and empty virtual orbitals. "
    "The determinant list of an active space contains each determinant of its electron numbers exactly once with mutually inverse look-ups, and the extended list additionally contains exactly the determinants reachable by the requested excitations between the spaces.",
    ["inputs", "configurations"], "All operators and all splits into inactive, active and virtual orbitals.",
    "Tests fold Hamiltonians of a few molecules only; the sign and survival rules differ for each ladder-string pattern.",
    [U + "fermionic_operator.py", U + "ci_spaces.py"], [("get_folded_operator", U + "fermionic_operator.py"), ("get_indexing, get_indexing_extended", U + "ci_spaces.py")],
    "property-based testing: folded blocks and determinant lists vs exhaustive enumeration", "Search over operators and splits up to 4-5 orbitals; determinant lists compared with brute-force enumeration.",
)
prop(
    "P04", "Applying operators to states equals matrix-vector multiplication",
    "Applying any product of operators to a state, taking matrix elements between states, averaging over several states and building operator matrices give the result of multiplying the corresponding matrices and vectors, with or without folding and for plain and extended determinant lists. "
    "Single- and multi-threaded execution agree, input states and operators are left unchanged, and an operator that would leave the determinant list is refused unless leaving it was explicitly allowed.",
    ["inputs", "configurations", "schedules"], "All operators, states, determinant lists and thread counts.",
    "Tests reach this through energies of a few wave functions with particle-conserving operators; bit-level sign and screening logic depends on each determinant pair.",
    [U + "operator_state_algebra.py", U + "ci_spaces.py"], [("apply_operator_*, propagate_state(_SA), expectation_value(_SA), build_operator_matrix", U + "operator_state_algebra.py")],
    "property-based testing: operator application vs dense matrices", "Search over operator products, states and thread counts.",
)
prop(
    "P05", "Ansatz unitaries are the exponentials of their generators",
    "For any list of excitations and angles, the factorised ansatz equals the ordered product of exponentials of the anti-Hermitian generators and the unitary-coupled-cluster ansatz equals the exponential of their sum, so norms and electron numbers are preserved and the adjoint undoes the ansatz. "
    "Applying a single factor, its derivative generator, several states at once, or a sequence mixing the ansatz with operators gives the same result as the corresponding matrices.",
    ["inputs", "configurations"], "All excitation kinds, index choices, angles and electron sectors.",
    "Closed-form exponentials are spelled out case by case for every excitation type; tests exercise optimised angles of a few ansaetze where several branches vanish.",
    [U + "operator_state_algebra.py", U + "util.py"], [("construct_ups_state(_SA), propagate_unitary(_SA), get_grad_action(_SA), construct_ucc_state", U + "operator_state_algebra.py")],
    "property-based testing: factorised and exponential ansaetze vs matrix exponentials", "Search over excitation sequences, angles and sectors up to 4 orbitals (6 for high ranks).",
)
prop(
    "P06", "Ansatz layouts contain exactly the documented excitations",
    "For every active space and option set, an ansatz consists of exactly the excitations its name and options describe (brick-wall order for tiled ansaetze, single-double-single blocks where requested, one parameter per operator), starts at the reference state, and partitions the orbitals into inactive, active, virtual and the matching non-redundant rotations. "
    "Unknown ansaetze, unknown or missing options and impossible active spaces are refused, and the caller's option dictionary is not modified.",
    ["inputs", "configurations"], "All active-space sizes, electron numbers, ansatz names and option combinations.",
    "Tests use a few ansatz/option combinations on small spaces and check only energies, which hide missing or duplicated excitations.",
    [U + "util.py", U + "ups_wavefunction.py", U + "sa_ups_wavefunction.py", U + "ucc_wavefunction.py"],
    [("UpsStructure.create_*, UccStructure.add_*, iterate_*", U + "util.py"), ("orbital-space bookkeeping in constructors", U + "ups_wavefunction.py")],
    "property-based testing: layouts vs independent enumeration", "Search over spaces, names and options.",
)
prop(
    "P07", "Reduced density matrices and energies describe the wave function's state",
    "The one- to four-electron reduced density matrices of a wave function equal the expectation values that define them for its state (averaged over the ensemble for state-averaged ones), in whatever order they are requested. "
    "The electronic energy equals the expectation value of the Hamiltonian with frozen inactive orbitals, also when computed from density matrices, and density matrices extended to all orbitals are those of the full determinant expansion.",
    ["inputs", "configurations"], "All Hamiltonians, orbitals, active spaces, ansaetze and parameters.",
    "Tests compare few optimised states of small molecules; permutation-symmetry loops of three- and four-electron matrices are exercised for tiny spaces only.",
    [U + "ups_wavefunction.py", U + "ucc_wavefunction.py", U + "sa_ups_wavefunction.py", U + "density_matrix.py"],
    [("rdm1..rdm4, energy_elec, sa_energy", U + "ups_wavefunction.py"), ("RDM1, RDM2, get_electronic_energy", U + "density_matrix.py")],
    "property-based testing: density matrices vs ladder-operator strings on random model systems", "Search over random Hamiltonians and wave functions up to 4 active (3 for four-electron matrices) orbitals.",
)
prop(
    "P08", "Optimisers are given the energy and its exact gradient",
    "The objective handed to the minimiser by one- and two-step optimisations is the (state-averaged) electronic energy at the trial parameters, and the gradient is its derivative with respect to every ansatz parameter and orbital rotation about the current orbitals. "
    "When the minimiser returns, the wave function is left at the returned parameters and orbitals.",
    ["inputs", "histories", "configurations"], "All Hamiltonians, ansaetze, ensembles, parameter points and orders of objective and gradient evaluation.",
    "A wrong gradient component still converges on the few molecules tested (line searches hide it) and is invisible at symmetry-zero components.",
    [U + "ups_wavefunction.py", U + "ucc_wavefunction.py", U + "sa_ups_wavefunction.py", U + "density_matrix.py", U + "optimizers.py"],
    [("_calc_gradient_optimization, _calc_energy_optimization", U + "ups_wavefunction.py"), ("get_orbital_gradient", U + "density_matrix.py")],
    "property-based testing: objective and gradient seen by the minimiser vs differentiated dense model", "Search over random systems; gradients resolved to 1e-7 (2e-5 for the numerically differentiated UCC ansatz gradient).",
)
prop(
    "P09", "A wave function always describes its current parameters and orbitals",
    "After any history of setting ansatz parameters, rotating orbitals, refused updates, optimisations and reads, every quantity read from a wave function (state vector, orbitals, integrals, density matrices, energies, excitation energies, transition properties) is the one belonging to its current parameters and orbitals. "
    "Orbitals stay orthonormal, wave functions sharing inputs do not influence each other, and the molecule, orbital coefficients and lists taken in or handed out are not shared with the caller, who may change them later.",
    ["histories"], "All interleavings of updates and reads over several wave functions.",
    "Caches are invalidated by hand in each setter; tests follow one linear history (construct, optimise, read).",
    [U + "ups_wavefunction.py", U + "ucc_wavefunction.py", U + "sa_ups_wavefunction.py"],
    [("thetas and kappa setters invalidating caches, c_mo expansion point", U + "ups_wavefunction.py")],
    "stateful property-based testing against a dense model", "Search over generated histories (up to 10, thorough 20 steps) on two wave functions.",
    state=[("cached quantities", "density matrices, integrals, energies, state vector kept until invalidated", U + "ups_wavefunction.py"), ("orbital expansion point", "orbitals plus rotation since they were last moved", U + "ups_wavefunction.py")],
)
prop(
    "P10", "Optimisation lowers the energy, reports it truthfully and stays variational",
    "An optimisation never ends at a higher energy than it started (derivative-free one-step orbital optimisation excepted), the energy reported afterwards is that of the state and orthonormal orbitals it leaves behind, and it never lies below the exact lowest (or average of lowest) energies of the active space. "
    "Without orbital optimisation the orbitals are untouched; gradient optimisers that report convergence leave a vanishing gradient, and RotoSolve leaves the last visited parameter at the global minimum of its curve. An optimiser returns a point it evaluated together with that point's value (RotoSolve: the best completed sweep), on any objective it is given; unknown optimisers and missing RotoSolve options are refused.",
    ["inputs", "histories", "configurations"], "All systems, ansaetze, start points, optimisers, iteration limits and repeated runs.",
    "Tests converge a few molecules from the default start with one optimiser; start points, truncated runs and re-runs from rotated orbitals are not sampled.",
    [U + "ups_wavefunction.py", U + "ucc_wavefunction.py", U + "sa_ups_wavefunction.py", U + "optimizers.py"],
    [("run_wf_optimization_1step/2step", U + "ups_wavefunction.py"), ("Optimizers, RotoSolve", U + "optimizers.py")],
    "property-based testing: optimisation histories against invariants of a dense model", "Search over systems, start points and optimisers; trusts SciPy's minimisers to return no worse a point than the start.",
)
prop(
    "P11", "State-averaged results are those of the ensemble's span",
    "State energies, excitation energies, transition properties and oscillator strengths of a state-averaged wave function are those obtained by diagonalising the Hamiltonian in the span of its states (summed over degenerate states), the averaged energy and density matrices are the ensemble means, and none depends on how the span is written as orthonormal states. "
    "Ensembles that are not orthonormal, of the wrong size or electron number are refused.",
    ["inputs", "configurations", "histories"], "All ensembles, Hamiltonians, ansatz parameters, and before or after optimisation.",
    "Tests use two or three fixed ensembles of non-degenerate states.",
    [U + "sa_ups_wavefunction.py"], [("_do_state_ci, get_transition_property, get_oscillator_strenghts", U + "sa_ups_wavefunction.py")],
    "property-based testing: ensembles vs dense subspace diagonalisation, metamorphic mixing of states", "Search over ensembles up to five states.",
)
prop(
    "P12", "Integral transformations and orbital-response quantities match their definitions",
    "One- and two-electron integral transformations equal the full contraction with the orbital coefficients, and integrals offered for a molecule equal those of its source, whichever of the two integral sources is used. "
    "Orbital gradients, response gradients, Hessian and metric blocks and property gradients computed from density matrices equal the commutator expectation values that define them.",
    ["inputs", "configurations"], "All orbitals, integrals, density matrices and orbital spaces.",
    "Tests compare final response energies of a few molecules; individual blocks and index-space cases are never examined.",
    [U + "density_matrix.py", U + "integral_manager.py", M + "integralfunctions.py"],
    [("get_orbital_gradient(_response), get_orbital_response_*", U + "density_matrix.py"), ("one_electron_integral_transform, two_electron_integral_transform", M + "integralfunctions.py"), ("IntegralManager", U + "integral_manager.py")],
    "property-based testing: density-matrix formulas vs dense commutators", "Search over random states, integrals and orbital spaces.",
)
prop(
    "P13", "Linear-response matrices equal the commutator definitions of each variant",
    "For every linear-response variant, the Hessian and metric blocks of an optimised wave function equal the expectation values of (double) commutators of its excitation operators with the Hamiltonian (transformed or projected as the variant prescribes). "
    "The blocks have the symmetry that follows, and a wave function away from its optimum is reported as such.",
    ["inputs", "configurations"], "All optimised wave functions, active spaces and excitation ranks.",
    "Tests check final excitation energies of a handful of molecules, in which block errors are small, cancel, or vanish by symmetry.",
    [U + "linear_response/naive.py", U + "linear_response/projected.py", U + "linear_response/selfconsistent.py", U + "linear_response/statetransfer.py", U + "linear_response/allprojected.py", U + "linear_response/allselfconsistent.py", U + "linear_response/allstatetransfer.py", U + "linear_response/projected_statetransfer.py"],
    [("LinearResponse constructors", U + "linear_response/"), ("lr_baseclass", U + "linear_response/lr_baseclass.py")],
    "property-based testing: response matrices vs dense commutator definitions", "Search over random systems with optimised wave functions.",
)
prop(
    "P14", "Linear-response spectra are exact where theory says so",
    "Excitation energies solve the response eigenvalue problem with correctly normalised vectors, oscillator strengths follow from the reported transition dipoles, and properties do not depend on orbital phases or on the variant where variants are equivalent. "
    "For an exact reference in a complete excitation space they equal the exact excitation energies and transition dipoles.",
    ["inputs", "configurations"], "All systems whose ansatz and excitation space are complete, and all variants.",
    "Tests compare stored numbers for single molecules and geometries.",
    [U + "linear_response/lr_baseclass.py", U + "linear_response/"], [("calc_excitation_energies, get_oscillator_strength, get_transition_dipole, get_excited_state_norm", U + "linear_response/lr_baseclass.py")],
    "property-based testing: response spectra vs exact diagonalisation and metamorphic relations", "Search over random systems.",
)
prop(
    "P15", "Quantum circuits implement the ansatz of the classical simulator",
    "For every supported ansatz, reference state and fermion-to-qubit mapping, the circuit prepares the same state as the determinant-based simulator with the same parameters, up to a global phase, and no qubit weight leaves the electron sector. "
    "Single excitation circuits implement the exponential of their generator on every input state.",
    ["inputs", "configurations"], "All ansaetze, parameters, mappings, active spaces and reference determinants or superpositions.",
    "Tests compare a few energies, where sign and ordering errors of individual excitations can cancel, mostly with one mapping.",
    [Q + "operators_circuits.py", Q + "interface.py", Q + "util.py"], [("single/double/sa_single_excitation circuits", Q + "operators_circuits.py"), ("construct_circuit", Q + "interface.py"), ("get_determinant_reference, get_reordering_sign", Q + "util.py")],
    "property-based testing: circuit state vectors vs dense exponentials", "Search over ansaetze, mappings and parameters; state vectors from Qiskit.",
)
prop(
    "P16", "Circuit wave functions agree with the state-vector wave functions",
    "A wave function evaluated on a noise-free quantum simulator gives the same energies, density matrices, gradients and optimisation behaviour as the classical wave function with the same ansatz, orbitals and parameters, after any history of parameter, orbital and primitive changes. "
    "Converting a classical wave function into a circuit wave function preserves it.",
    ["inputs", "configurations", "histories"], "All ansaetze, mappings, parameters and update histories.",
    "Tests compare a few optimised energies.",
    [Q + "circuit_wavefunction.py", Q + "circuit_wavefunction_from_ups.py", Q + "interface.py"], [("WaveFunctionCircuit setters and properties", Q + "circuit_wavefunction.py"), ("circuit_wavefunction_from_ups", Q + "circuit_wavefunction_from_ups.py")],
    "differential property-based testing: circuit vs state-vector wave function", "Search over systems, mappings and histories on noise-free primitives.",
)
prop(
    "P17", "Measured expectation values do not depend on saving, grouping or batching",
    "Expectation values obtained from sampled Pauli measurements equal the exact ones in the infinite-shot limit for every operator, whatever was measured or saved before, however operators are grouped into measurement cliques, and across parameter, shot and setting changes. "
    "Every measured Pauli string is recovered from a clique that measures it, strings already measured are not measured again, shots are accounted for, and reported variances match the sampling variance.",
    ["inputs", "histories"], "All operators, parameter changes and orders of requests.",
    "Tests evaluate one energy at a time from an empty cache.",
    [Q + "interface.py", Q + "util.py"], [("Pauli saver and cliques", Q + "interface.py"), ("Clique, fit_in_clique, get_bitstring_sign, to_CBS_measurement", Q + "util.py")],
    "stateful property-based testing with an exact-distribution sampler", "Search over operator/parameter histories.",
    state=[("saved distributions", "measurement outcomes kept per parameters and bases", Q + "interface.py")],
)
prop(
    "P18", "Error mitigation removes exactly the modelled error and nothing else",
    "Read-out mitigation applied to a distribution distorted by its own confusion matrix returns the undistorted distribution, leaves a noise-free device's results unchanged and preserves total weight, also when circuits are re-laid-out on more qubits than they use or the layout changes; with mitigation off the raw value is returned. "
    "Symmetry post-selection keeps exactly the outcomes with the right electron numbers for the mapping in use.",
    ["inputs", "configurations"], "All distributions, confusion matrices, layouts, mappings and electron numbers.",
    "Tests use one noise model and compare with stored numbers at loose tolerance.",
    [Q + "util.py", Q + "interface.py"], [("correct_distribution(_with_layout_v2), postselection, layout helpers", Q + "util.py")],
    "property-based testing: mitigation round-trips and brute-force post-selection", "Search over distributions, matrices, layouts, mappings.",
)
prop(
    "P19", "Circuit linear response equals classical linear response",
    "Linear response computed through quantum-circuit expectation values gives, on a noise-free simulator, the same Hessian, metric, excitation energies, transition dipoles and oscillator strengths as the classical implementation of the same variant.",
    ["inputs", "configurations"], "All optimised wave functions, variants, and with or without density-matrix evaluation.",
    "Tests compare stored numbers of a few molecules.",
    [Q + "linear_response/naive.py", Q + "linear_response/projected.py", Q + "linear_response/allprojected.py", Q + "linear_response/selfconsistent.py", Q + "linear_response/statetransfer.py", Q + "linear_response/lr_baseclass.py"], [("quantumLR.run", Q + "linear_response/")],
    "differential property-based testing: circuit vs classical linear response", "Search over systems and variants on noise-free primitives.",
)
prop(
    "P20", "State-averaged circuit results equal the classical state-averaged ones",
    "State-averaged wave functions on a noise-free quantum simulator give the same averaged energy, state energies, density matrices and oscillator strengths as the classical state-averaged wave function with the same ensemble, ansatz, orbitals and parameters, after any history of updates.",
    ["inputs", "configurations", "histories"], "All ensembles (single determinants and superpositions), ansaetze, mappings and update histories.",
    "Tests use one or two ensembles.",
    [Q + "sa_circuit_wavefunction.py", Q + "interface.py", Q + "util.py"], [("WaveFunctionSACircuit", Q + "sa_circuit_wavefunction.py"), ("quantum_expectation_value_csfs", Q + "interface.py")],
    "differential property-based testing: state-averaged circuit vs classical wave function", "Search over ensembles and histories.",
)
prop(
    "P21", "Molecular integrals are exact for all Gaussians and geometries",
    "Overlap, kinetic, nuclear-attraction, electron-repulsion and multipole integrals equal those of an independent integral code for any molecule and basis, with the permutation symmetry and definiteness they must have. "
    "The underlying special functions match high-precision evaluation over their whole domain.",
    ["inputs"], "All exponents, contractions, angular momenta, centres, charges and origins.",
    "Tests compare one or two molecules against stored matrices.",
    [M + "integralclass.py", M + "kineticenergy.py", M + "nuclearattraction.py", M + "electronrepulsion.py", M + "multipole.py", M + "integralfunctions.py"], [("integral recursions", M), ("boys_function, hermite_*", M + "integralfunctions.py")],
    "differential property-based testing against PySCF and high-precision reference", "Search over molecules, bases (s to d) and geometries.",
)
prop(
    "P22", "Molecule input is interpreted faithfully in every form and unit",
    "The same molecule given as text or file, in either length unit, with any atom order or formatting, has the same charges, coordinates, electron count, basis functions and nuclear repulsion, equal to their definitions. "
    "Results do not depend on translation, rotation or atom order, and unusable input is refused.",
    ["inputs", "configurations"], "All molecules, formats, units, charges and basis sets available.",
    "Tests read a few strings.",
    ["slowquant/molecule/moleculeclass.py", "slowquant/molecule/moleculefunctions.py", "slowquant/molecule/basis_reader.py", "slowquant/molecule/constants.py", "slowquant/SlowQuant.py"], [("parsers and unit conversion", "slowquant/molecule/moleculeclass.py")],
    "property-based testing: round-trips, definitions and invariances", "Search over generated molecules and formats.",
)
prop(
    "P23", "Hartree-Fock results are stationary and equal an independent implementation",
    "Converged restricted and unrestricted Hartree-Fock calculations end with orthonormal orbitals whose density reproduces the reported energy, with the occupied-virtual Fock block vanishing, and agree with an independent implementation for the same molecule and basis.",
    ["inputs", "configurations"], "All molecules, charges, spins and bases for which the iterations converge.",
    "Tests run a few molecules at one geometry.",
    ["slowquant/hartreefock/hartreefockclass.py", "slowquant/hartreefock/hartreefock_in_memory.py", "slowquant/hartreefock/unrestricted_hartreefock_in_memory.py", "slowquant/hartreefock/diis.py"], [("run_hartree_fock, DIIS", "slowquant/hartreefock/")],
    "property-based testing: stationarity invariants and PySCF as differential oracle", "Search over molecules, charges and geometries.",
)


def main():
    have = [p for p in P if os.path.exists(os.path.join(HERE, "vq", "props", p["pid"].lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in have:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            fh.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
            assert len(p["title"]) <= 80, p["pid"]
    man = {
        "version": 1,
        "setup_cmd": "true",
        "checks": [
            {
                "property": p["pid"], "quick_cmd": f"python3 check.py {p['pid']} --tier quick", "thorough_cmd": f"python3 check.py {p['pid']} --tier thorough",
                "evidence_file": f"evidence/{p['pid']}.json", "technique": p["technique"], "level": "exploration", "level_note": p["note"],
            }
            for p in have
        ],
        "not_applicable": [],
        "notes": "Hypothesis is vendored under vendor/. Every check runs the code of /repo's working tree directly (pure Python, compiled afresh by numba in each worker). No hooks in /repo.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
