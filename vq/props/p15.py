"""P15: circuits prepare the state of the determinant-based simulator."""
from __future__ import annotations

import itertools

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import qi, ref, wf as W
from vq.core import Component, Property, Skip, fail, require
from vq.props.p05 import generator

MAPS = ["jw", "jw", "jw", "parity", "parity_red", "bk"]


# --------------------------------------------------------------------------------------------------------------
def strat_elem(tier):
    return st.fixed_dictionaries({"norb": st.sampled_from([2, 3, 3, 4]), "kind": st.sampled_from(["single", "double", "double", "double", "sa_single"]), "map": st.sampled_from(MAPS), "pick": st.integers(0, 10**6), "seed": st.integers(0, 10**6), "sym": st.booleans(), "swap": st.integers(0, 3)})


def choices(kind, n, jw):
    """Index tuples (occupied first) an ansatz may use: excitations upwards, conserving the spin projection."""
    if kind == "sa_single":
        return list(itertools.combinations(range(n), 2))
    so = range(2 * n)
    if kind == "single":
        return [(i, a) for i, a in itertools.combinations(so, 2) if i % 2 == a % 2]
    out = []
    for i, j in itertools.combinations(so, 2):
        for a, b in itertools.combinations(so, 2):
            if len({i, j, a, b}) == 4 and (i % 2) + (j % 2) == (a % 2) + (b % 2):
                if a > j or not jw:
                    out.append((i, j, a, b))
    return out


def check_elem(spec):
    from qiskit.circuit import Parameter, QuantumCircuit
    from qiskit.quantum_info import Operator

    from slowquant.qiskit_interface import operators_circuits as oc

    n, kind, mp = spec["norb"], spec["kind"], spec["map"]
    rng = ref.rng_of(spec["seed"], 15)
    if mp == "parity_red":
        na, nb = int(rng.integers(0, n + 1)), int(rng.integers(0, n + 1))
        if kind == "double":
            na = nb = max(1, min(n - 1, na))
    else:
        na = nb = None
    ch = choices(kind, n, mp == "jw")
    if not ch:
        raise Skip
    idx = list(ch[spec["pick"] % len(ch)])
    if kind == "double" and spec["swap"] & 1:
        idx[0], idx[1] = idx[1], idx[0]
    if kind == "double" and spec["swap"] & 2:
        idx[2], idx[3] = idx[3], idx[2]
    theta = ref.angles(rng, 1, 2 * np.pi)[0]
    nq = 2 * n - (2 if mp == "parity_red" else 0)
    qc = QuantumCircuit(nq)
    par = Parameter("t") if spec["sym"] else theta
    fn = {"single": oc.single_excitation, "double": oc.double_excitation, "sa_single": oc.sa_single_excitation}[kind]
    qc = fn(*idx, n, qc, par, qi.mapper(mp, (na, nb)))
    if spec["sym"]:
        require(len(qc.parameters) == 1, f"{kind}{tuple(idx)}: {len(qc.parameters)} circuit parameters")
        qc = qc.assign_parameters([theta])
    U = Operator(qc).data
    # reference: exponential of the generator on every determinant (of the sector for the reduced mapping)
    dets = list(range(4**n)) if na is None else ref.sector(n, na, nb)
    m = ref.gen_matrix(kind, idx, n)
    if kind == "sa_single":
        m = m * np.sqrt(2)
    G = ref.restrict((m - m.T).tocsr(), dets)
    want = scipy.linalg.expm(theta * G)
    T = np.zeros((2**nq, len(dets)))
    for k, d in enumerate(dets):
        i, s = qi.qindex(d, n, mp)
        T[i, k] = s
    err = qi.phase_close(U @ T, T @ want)
    require(err < 1e-8, f"{kind}{tuple(idx)} with {mp}, {n} orbitals, angle {theta:.4f}: circuit differs from the exponential by {err:.2e}")
    return f"{kind}:{mp}" if np.max(np.abs(G), initial=0) > 0 else None


def strat_long(tier):
    return st.fixed_dictionaries({"norb": st.sampled_from([5, 5, 6]), "kind": st.sampled_from(["single", "double", "double", "double", "sa_single"]), "map": st.sampled_from(MAPS[:5] + ["jw"] * 3), "pick": st.integers(0, 10**6), "seed": st.integers(0, 10**6), "swap": st.integers(0, 3)})


def check_long(spec):
    """Excitations across many orbitals, on a random state with every occupation pattern."""
    from qiskit.circuit import QuantumCircuit
    from qiskit.quantum_info import Statevector
    from scipy.sparse.linalg import expm_multiply

    from slowquant.qiskit_interface import operators_circuits as oc

    n, kind, mp = spec["norb"], spec["kind"], spec["map"]
    rng = ref.rng_of(spec["seed"], 150)
    ch = choices(kind, n, mp == "jw")
    if kind == "double":
        # spread the distances between the four orbitals evenly: neighbours and far ends are equally likely
        pairs = [(0, 1), (2, 3), (0, 2), (1, 3), (0, 3), (1, 2)]
        for k in range(2):
            x, y = pairs[int(rng.integers(6))]
            groups: dict = {}
            for c in ch:
                groups.setdefault(abs(c[y] // 2 - c[x] // 2), []).append(c)
            ch = groups[sorted(groups)[int(rng.integers(len(groups)))]]
    idx = list(ch[spec["pick"] % len(ch)])
    if kind == "double" and spec["swap"] & 1:
        idx[0], idx[1] = idx[1], idx[0]
    if kind == "double" and spec["swap"] & 2:
        idx[2], idx[3] = idx[3], idx[2]
    theta = ref.angles(rng, 1, 2 * np.pi)[0]
    if mp == "parity_red":
        na, nb = (int(x) for x in rng.integers(1, n, 2))
        dets = ref.sector(n, na, nb)
    else:
        na = nb = None
        dets = list(range(4**n))
    nq = 2 * n - (2 if mp == "parity_red" else 0)
    v = rng.normal(size=len(dets))
    v /= np.linalg.norm(v)
    fn = {"single": oc.single_excitation, "double": oc.double_excitation, "sa_single": oc.sa_single_excitation}[kind]
    qc = fn(*idx, n, QuantumCircuit(nq), theta, qi.mapper(mp, (na, nb)))
    m = (ref.gen_matrix(kind, idx, n) * (np.sqrt(2) if kind == "sa_single" else 1)).tocsr()
    if na is not None:
        m = m[dets][:, dets]
    w = expm_multiply(theta * (m - m.T), v)
    err = qi.phase_close(Statevector(qi.embed_state(v, dets, n, mp)).evolve(qc).data, qi.embed_state(w, dets, n, mp))
    require(err < 1e-8, f"{kind}{tuple(idx)} with {mp}, {n} orbitals, angle {theta:.4f}: circuit differs from the exponential by {err:.2e}")
    return f"{kind}:{mp}:{idx[1] - idx[0]}"


# --------------------------------------------------------------------------------------------------------------
def strat_lay(tier):
    return st.fixed_dictionaries({"norb": st.sampled_from([2, 3, 4]), "na": st.integers(0, 4), "nb": st.integers(0, 4), "map": st.sampled_from(MAPS), "seed": st.integers(0, 10**6), "len": st.integers(1, 6)}).filter(lambda d: d["na"] <= d["norb"] and d["nb"] <= d["norb"])


def check_lay(spec):
    """Arbitrary factorised ansaetze passed as a layout, any electron numbers, through the quantum interface."""
    from qiskit_aer.primitives import Sampler
    from qiskit.quantum_info import Statevector

    from slowquant.qiskit_interface.interface import QuantumInterface
    from slowquant.unitary_coupled_cluster.util import UpsStructure

    n, na, nb, mp = spec["norb"], spec["na"], spec["nb"], spec["map"]
    rng = ref.rng_of(spec["seed"], 151)
    lay = UpsStructure()
    ops = []
    for _ in range(spec["len"]):
        kind = ["single", "double", "sa_single"][int(rng.integers(3))]
        ch = choices(kind, n, mp == "jw")
        idx = ch[int(rng.integers(len(ch)))]
        ops.append((kind, idx))
        lay.excitation_operator_type.append(kind)
        lay.excitation_indices.append(tuple(idx))
        lay.n_params += 1
    th = ref.angles(rng, len(ops), 1.5)
    Q = qi.quiet(QuantumInterface, Sampler(), lay, qi.mapper(mp, (na, nb)))
    occ = list(range(max(na, nb)))
    qi.quiet(Q.construct_circuit, occ, list(range(len(occ), n)), [2 * k + s for k in occ for s in (0, 1)], [2 * k + s for k in range(len(occ), n) for s in (0, 1)], n, (na, nb))
    require(len(Q.parameters) == len(ops) and np.allclose(Q.parameters, 0), f"fresh parameters {Q.parameters} for {len(ops)} excitations")
    Q.parameters = th
    got = Statevector(Q.circuit.assign_parameters(Q.parameters)).data
    dets = ref.sector(n, na, nb)
    hf = sum(1 << (2 * n - 1 - 2 * k) for k in range(na)) + sum(1 << (2 * n - 2 - 2 * k) for k in range(nb))
    v = np.array([float(d == hf) for d in dets])
    for t, (kind, idx) in zip(th, ops):
        m = ref.gen_matrix(kind, idx, n) * (np.sqrt(2) if kind == "sa_single" else 1)
        v = scipy.linalg.expm(t * ref.restrict((m - m.T).tocsr(), dets)) @ v
    err = qi.phase_close(got, qi.embed_state(v, dets, n, mp))
    require(err < 1e-8, f"layout {ops} with {mp}, {n} orbitals, ({na},{nb}) electrons: state differs by {err:.2e}")
    return f"{mp}:{len(ops)}" if np.max(np.abs(v)) < 1 - 1e-9 else None


# --------------------------------------------------------------------------------------------------------------
NAMED = [
    ("fUCCpD", {}), ("fUCCD", {}), ("tUPS", {"n_layers": 1}), ("tUPS", {"n_layers": 2}), ("tUPS", {"n_layers": 1, "do_pp": True}), ("tUPS", {"n_layers": 2, "skip_last_singles": True}), ("fUCCSD", {}), ("QNP", {"n_layers": 1}), ("QNP", {"n_layers": 2}),
    ("kSAfUpCCGSD", {}), ("kSAfUpCCGSD", {"n_layers": 2}), ("SDSfUCCSD", {}), ("kSASDSfUpCCGSD", {}), ("fUCC", {"n_layers": 1, "S": True, "pD": True}), ("fUCC", {"n_layers": 2, "SAS": True, "D": True}), ("fUCC", {"n_layers": 1, "GS": True, "GpD": True}), ("fUCC", {"n_layers": 1, "SAGS": True, "D": True}), ("HF", {}),
]


def strat_named(tier):
    return st.fixed_dictionaries({"na": st.sampled_from([2, 3, 3, 4]), "pairs": st.integers(0, 5), "a": st.integers(0, 3 * len(NAMED) - 1), "map": st.sampled_from(MAPS), "seed": st.integers(0, 10**6), "case": st.booleans()})


def named(spec):
    n = spec["na"]
    pairs = 1 + spec["pairs"] % max(1, n - 1)
    name, opts = NAMED[spec["a"] % len(NAMED)]
    mp = "jw" if opts.get("do_pp") else spec["map"]
    return n, pairs, name, dict(opts), mp


def ups_of(n, pairs, name, opts, seed):
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

    mol = ref.model_mole(seed, n, 2 * pairs)
    if name == "fUCCD":
        name, opts = "fUCC", dict(opts, n_layers=1, D=True)
    return qi.quiet(WaveFunctionUPS, (2 * pairs, n), np.eye(n), mol, name, dict(opts)), mol


def check_named(spec):
    from qiskit_aer.primitives import Sampler
    from qiskit.quantum_info import Statevector

    from slowquant.qiskit_interface.interface import QuantumInterface

    n, pairs, name, opts, mp = named(spec)
    rng = ref.rng_of(spec["seed"], 152)
    given = dict(opts)
    Q = qi.quiet(QuantumInterface, Sampler(), name.lower() if spec["case"] else name, qi.mapper(mp, (pairs, pairs)), ansatz_options=given)
    occ, vir = list(range(pairs)), list(range(pairs, n))
    sp = lambda xs: [2 * k + s for k in xs for s in (0, 1)]
    qi.quiet(Q.construct_circuit, occ, vir, sp(occ), sp(vir), n, (pairs, pairs))
    require(given == opts, f"{name}: the option dictionary was changed to {given}")
    if name == "HF":
        dets = ref.sector(n, pairs, pairs)
        v = np.array([float(d == int("1" * (2 * pairs) + "0" * (2 * (n - pairs)), 2)) for d in dets])
        require(len(Q.parameters) == 0, "HF ansatz with parameters")
    else:
        wf, _ = ups_of(n, pairs, name, opts, spec["seed"])
        require(len(Q.parameters) == len(wf.thetas), f"{name} {opts}: {len(Q.parameters)} circuit parameters, {len(wf.thetas)} in the simulator")
        if not len(wf.thetas):
            raise Skip
        th = ref.angles(rng, len(wf.thetas), 1.0)
        wf.thetas = th
        Q.parameters = th
        v, dets = np.asarray(wf.ci_coeffs), W.dets_of(wf)
    got = Statevector(Q.circuit.assign_parameters(Q.parameters)).data
    err = qi.phase_close(got, qi.embed_state(v, dets, n, mp))
    require(err < 1e-8, f"{name} {opts} with {mp}, {2 * pairs} electrons in {n} orbitals: circuit state differs by {err:.2e}")
    return f"{name}:{mp}"


def strat_pair(tier):
    """Perfect-pairing references of every electron count."""
    return st.fixed_dictionaries({"na": st.integers(2, 5), "pairs": st.integers(0, 11), "a": st.just([o.get("do_pp", False) for _, o in NAMED].index(True)), "map": st.just("jw"), "seed": st.integers(0, 10**6), "case": st.booleans()})


# --------------------------------------------------------------------------------------------------------------
def strat_det(tier):
    return st.fixed_dictionaries({"norb": st.integers(1, 5), "d1": st.integers(0, 1023), "d2": st.integers(0, 1023)})


def check_det(spec):
    from qiskit.quantum_info import Statevector

    from slowquant.qiskit_interface import util as U

    n = spec["norb"]
    d1, d2 = spec["d1"] % 4**n, spec["d2"] % 4**n
    s1, s2 = format(d1, f"0{2 * n}b"), format(d2, f"0{2 * n}b")
    for d, s in ((d1, s1), (d2, s2)):
        require(U.get_reordering_sign(s) == qi.blocked(d, n)[1], f"reordering sign of {s}")
        got = Statevector(U.get_determinant_reference(s, n, qi.mapper("jw", None))).data
        want = np.zeros(4**n)
        want[qi.qindex(d, n, "jw")[0]] = 1
        require(qi.phase_close(got, want) < 1e-10, f"determinant circuit of {s}")
    for k in range(2 * n):
        require(U.f2q(k, n) == (k // 2 if k % 2 == 0 else n + k // 2), f"qubit of spin orbital {k} of {n} orbitals")
    if any(a == "0" and b == "1" for a, b in zip(s1, s2)):
        got = Statevector(U.get_determinant_superposition_reference(s1, s2, n, qi.mapper("jw", None))).data
        want = np.zeros(4**n)
        want[qi.qindex(d1, n, "jw")[0]] = 2**-0.5
        want[qi.qindex(d2, n, "jw")[0]] = 2**-0.5
        require(qi.phase_close(got, want) < 1e-10, f"superposition circuit of {s1} and {s2}")
        return "superposition"
    return "single" if d1 else None


PROPERTY = Property(
    "P15",
    "the generator (or ansatz) actually changes the state on the tested space",
    [
        Component("pairing", strat_pair, check_named, "tUPS on perfect-pairing references of every electron count in two to five orbitals: circuit state vs classical state", quick=24, thorough=150, shards=1, thorough_shards=2, budget=30),
        Component("elementary", strat_elem, check_elem, "single, double and spin-adapted single excitation circuits vs exponentials on every basis state, four mappings, all index patterns", quick=60, thorough=800, shards=2, thorough_shards=8, budget=45),
        Component("long", strat_long, check_long, "excitations across five and six orbitals, distances spread evenly, on random states of all occupations", quick=200, thorough=800, shards=2, thorough_shards=8, budget=45),
        Component("layouts", strat_lay, check_lay, "arbitrary excitation sequences and electron numbers through QuantumInterface vs dense exponentials", quick=60, thorough=800, shards=2, thorough_shards=8, budget=45),
        Component("named", strat_named, check_named, "named ansaetze with options vs WaveFunctionUPS with the same parameters", quick=40, thorough=500, shards=3, thorough_shards=8, budget=45),
        Component("references", strat_det, check_det, "reference determinants, two-determinant superpositions, reordering signs, qubit order", quick=150, thorough=2000, shards=1, thorough_shards=4, budget=40),
    ],
    ["Qiskit's Operator/Statevector simulation", "encodings of determinants (Jordan-Wigner, parity, reduced parity, Bravyi-Kitaev) from their defining matrices over GF(2)"],
)
