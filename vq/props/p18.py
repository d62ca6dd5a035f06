"""P18: error mitigation removes exactly the modelled error and nothing else."""
from __future__ import annotations

import itertools

import numpy as np
from hypothesis import strategies as st

from vq import qi, ref
from vq.core import Component, Property, Skip, close, raises, require
from vq.props.p15 import MAPS
from vq.props.p17 import construct, hf_det, rand_layout, rand_op, unitary


def vec(dist, n):
    out = np.zeros(2**n)
    for k, v in dist.items():
        out[k] += v
    return out


def rand_confusion(rng, n, strength=0.25):
    """Column-stochastic, well-conditioned 2^n matrix; correlated."""
    m = rng.uniform(0, 1, (2**n, 2**n)) * (rng.uniform(size=(2**n, 2**n)) < 0.6)
    np.fill_diagonal(m, 0)
    s = m.sum(axis=0)
    s[s == 0] = 1
    e = rng.uniform(0, strength, 2**n)
    m = m / s * e
    m += np.diag(1 - m.sum(axis=0))
    return m


def bitperm(n, perm):
    """Matrix of the map |b> -> |b'> with b'_i = b_perm[i] (bit i of the integer)."""
    P = np.zeros((2**n, 2**n))
    for b in range(2**n):
        P[sum(((b >> perm[i]) & 1) << i for i in range(n)), b] = 1
    return P


# --------------------------------------------------------------------------------------------------------------
def strat_cor(tier):
    return st.fixed_dictionaries({"nq": st.integers(1, 6), "seed": st.integers(0, 10**6), "sparse": st.booleans()})


def check_cor(spec):
    from slowquant.qiskit_interface import util as U

    n, rng = spec["nq"], ref.rng_of(spec["seed"], 18)
    M = rand_confusion(rng, n)
    p = rng.dirichlet(np.ones(2**n))
    if spec["sparse"]:
        p *= rng.uniform(size=2**n) < 0.4
        p = p / p.sum() if p.sum() > 0 else np.eye(2**n)[0]
    seen = M @ p
    d = {k: float(x) for k, x in enumerate(seen) if x > 0}
    got = vec(U.correct_distribution(dict(d), np.linalg.inv(M)), n)
    close(got, p, "corrected distribution against the undistorted one", 1e-9)
    # finite sample: a linear correction, weight preserved
    cnt = rng.multinomial(int(rng.integers(1, 40)), seen / seen.sum())
    d = {k: float(c) / cnt.sum() for k, c in enumerate(cnt) if c}
    got = vec(U.correct_distribution(dict(d), np.linalg.inv(M)), n)
    close(got, np.linalg.solve(M, vec(d, n)), f"correction of the finite sample {d}", 1e-9)
    close(got.sum(), 1.0, f"total weight of the corrected sample {d}", 1e-9)
    got = vec(U.correct_distribution(dict(d), np.eye(2**n)), n)
    close(got, vec(d, n), "correction by the identity", 1e-12)
    # layouts
    phys = [int(x) for x in rng.permutation(9)[:n]]
    perm = [int(x) for x in rng.permutation(n)]
    new = [phys[k] for k in perm]  # circuit bit i sits on physical qubit new[i]; M was measured with bit i on phys[i]
    P = bitperm(n, [new.index(x) for x in phys])  # reference bit i carries the value of bit new.index(phys[i])
    seen2 = P.T @ M @ P @ p
    d2 = {k: float(x) for k, x in enumerate(seen2) if x > 0}
    got = vec(U.correct_distribution_with_layout_v2(dict(d2), np.linalg.inv(M), list(phys), list(new)), n)
    close(got, p, f"correction with M measured on {phys} of a circuit on {new}", 1e-9)
    got = vec(qi.quiet(U.correct_distribution_with_layout, dict(d2), M, list(phys), list(new)), n)
    close(got, p, f"correction by a re-ordered M measured on {phys} of a circuit on {new}", 1e-9)
    # the pieces
    swaps = U.find_swaps(list(new), list(phys))
    cur = list(new)
    for a, b in swaps:
        cur[a], cur[b] = cur[b], cur[a]
    require(cur == phys, f"swaps {swaps} take {new} to {cur} instead of {phys}")
    if n > 1:
        a, b = (int(x) for x in rng.permutation(n)[:2])
        idx = list(U.swap_indices(n, (a, b)))
        want = []
        for k in range(2**n):
            s = list(format(k, f"0{n}b"))
            s[a], s[b] = s[b], s[a]
            want.append(int("".join(s), 2))
        require([int(x) for x in idx] == want, f"index order after swapping bits {(a, b)} of {n}: {idx}")
    return f"{n}:{len(swaps)}" if n > 1 else None


# --------------------------------------------------------------------------------------------------------------
def strat_ps(tier):
    return st.fixed_dictionaries({"norb": st.sampled_from([1, 2, 3, 4, 5]), "na": st.integers(0, 5), "nb": st.integers(0, 5), "map": st.sampled_from(["jw", "parity", "parity_red"]), "seed": st.integers(0, 10**6)}).filter(lambda d: d["na"] <= d["norb"] and d["nb"] <= d["norb"] and d["norb"] * 2 - 2 * (d["map"] == "parity_red") > 0)


def check_ps(spec):
    from slowquant.qiskit_interface.util import postselection

    n, na, nb, mp = spec["norb"], spec["na"], spec["nb"], spec["map"]
    rng = ref.rng_of(spec["seed"], 181)
    nq = 2 * n - (2 if mp == "parity_red" else 0)
    keep = {qi.qindex(d, n, mp)[0] for d in ref.sector(n, na, nb)}
    p = rng.dirichlet(np.ones(2**nq))
    drop = rng.uniform(size=2**nq) < 0.3
    d = {k: float(x) for k, x in enumerate(p) if not drop[k]}
    if spec["seed"] % 3 == 0:
        # read-out correction leaves quasi-probabilities, some of them negative
        d = {k: -0.3 * v if rng.uniform() < 0.4 else v for k, v in d.items()}
    if not keep & set(d) or sum(v for k, v in d.items() if k in keep) < 0.05 * sum(abs(v) for k, v in d.items() if k in keep):
        raise Skip
    snap = dict(d)
    got = postselection(d, qi.mapper(mp, (na, nb)), (na, nb), nq)
    tot = sum(v for k, v in snap.items() if k in keep)
    want = {k: v / tot for k, v in snap.items() if k in keep}
    require(set(got) == set(want), f"{mp} with ({na},{nb}) electrons in {n} orbitals keeps {sorted(got)} instead of {sorted(want)}")
    close(np.array([got[k] for k in sorted(want)]), np.array([want[k] for k in sorted(want)]), "weights after post-selection", 1e-10)
    return f"{mp}:{na == nb}" if len(keep) < 2**nq else None


def strat_bk(tier):
    return st.fixed_dictionaries({"perm": st.permutations(list(range(8))), "seed": st.integers(0, 10**6), "nq": st.integers(2, 8)})


def check_paths(spec):
    """Permutations and paths on a connectivity graph."""
    from qiskit import QuantumCircuit
    from qiskit.quantum_info import Operator
    from qiskit.transpiler import CouplingMap

    from slowquant.qiskit_interface import util as U

    nq, rng = spec["nq"], ref.rng_of(spec["seed"], 182)
    order = [int(x) for x in rng.permutation(nq)]
    edges = [(order[k], order[int(rng.integers(k))]) for k in range(1, nq)]
    edges += [tuple(int(x) for x in rng.permutation(nq)[:2]) for _ in range(int(rng.integers(0, 3)))]
    edges = [(a, b) if rng.integers(2) else (b, a) for a, b in edges]
    cm = CouplingMap(edges)
    dist = np.full((nq, nq), 99)
    np.fill_diagonal(dist, 0)
    for a, b in edges:
        dist[a, b] = dist[b, a] = 1
    for k, i, j in itertools.product(range(nq), repeat=3):
        dist[i, j] = min(dist[i, j], dist[i, k] + dist[k, j])
    a, b = (int(x) for x in rng.integers(nq, size=2))
    path = U.find_best_path(cm, a, b)
    require(path[0] == a and path[-1] == b and len(path) == dist[a, b] + 1 and all(dist[x, y] == 1 for x, y in zip(path, path[1:])), f"path {path} from {a} to {b} on {edges}")
    perm = [k for k in spec["perm"] if k < nq]
    qc = QuantumCircuit(nq)
    U.add_permutation_gate(qc, list(perm), cm)
    for inst in qc.data:
        x, y = (qc.find_bit(q).index for q in inst.qubits)
        require(dist[x, y] == 1, f"swap {x},{y} is not on the graph {edges}")
    # afterwards position k holds what was on qubit perm[k]
    close(np.abs(Operator(qc).data), bitperm(nq, perm), f"permutation {perm} on {edges}", 1e-10)
    return "permuted" if perm != sorted(perm) else None


# --------------------------------------------------------------------------------------------------------------
def readout(rng, nphys):
    ms = []
    for _ in range(nphys):
        a, b = rng.uniform(0.01, 0.15, 2)
        ms.append(np.array([[1 - a, b], [a, 1 - b]]))
    return lambda q: ms[q]


def backend(rng, nphys, kind):
    from qiskit.providers.fake_provider import GenericBackendV2
    from qiskit.transpiler import CouplingMap

    if kind == 0:
        cm = CouplingMap.from_line(nphys)
    elif kind == 1:
        cm = CouplingMap([[k, nphys - 1] for k in range(nphys - 1)] + [[nphys - 1, k] for k in range(nphys - 1)])
    else:
        cm = CouplingMap.from_ring(nphys)
    return GenericBackendV2(nphys, basis_gates=["cx", "rz", "sx", "x", "id"], coupling_map=cm, seed=int(rng.integers(1000)))


DOPS = ["value", "value", "value", "csf", "csf", "theta", "mit", "ansatz0", "plus", "post", "off", "redo", "nosave", "repass", "shots"]


def strat_dev(tier):
    return st.fixed_dictionaries({
        "map": st.sampled_from(["jw", "jw", "jw", "parity", "parity_red"]), "seed": st.integers(0, 10**6), "len": st.integers(1, 2), "isa": st.sampled_from([2, 2, 2, 1, 0]), "kind": st.integers(0, 2), "nphys": st.integers(4, 6), "v2": st.booleans(),
        "opt": st.integers(0, 4), "level": st.integers(1, 3), "ops": st.lists(st.sampled_from(DOPS), min_size=3, max_size=9),
    })


def check_dev(spec):
    """A device with read-out errors: with the mitigation on, values are exact; off, they carry the device's error."""
    from slowquant.qiskit_interface.interface import QuantumInterface

    rng = ref.rng_of(spec["seed"], 183)
    n, mp = 2, spec["map"]
    isa = spec["isa"] if not spec["v2"] else max(1, spec["isa"])
    lay, ops = rand_layout(rng, n, mp == "jw", spec["len"])
    if not ops:
        raise Skip
    nphys = spec["nphys"]
    noise = readout(rng, nphys)
    opts = {}
    if isa:
        opts = {"optimization_level": spec["level"], "seed_transpiler": spec["seed"] % 1000}
        if isa == 2:
            opts["backend"] = backend(rng, nphys, spec["kind"])
            if rng.integers(2):
                opts["initial_layout"] = [int(x) for x in rng.permutation(nphys)[: 4 - 2 * (mp == "parity_red")]]
    prim = qi.exact_sampler_v2(noise=noise) if spec["v2"] else qi.exact_sampler(noise=noise)
    Q = qi.quiet(QuantumInterface, prim, lay, qi.mapper(mp, (1, 1)), ISA=isa > 0, pass_manager_options=opts, do_M_mitigation=True)
    construct(Q, n, 1, 1)
    th = ref.angles(rng, len(ops), 1.5)
    Q.parameters = th
    dets = ref.sector(n, 1, 1)
    v0 = np.array([float(d == hf_det(n, 1, 1)) for d in dets])
    mit, post, hist, values = True, False, [], 0
    for op in spec["ops"]:
        hist.append(op)
        what = f"with {mp}, transpilation {isa}, mitigation {mit} after {','.join(hist)}"
        if op in ("value", "csf"):
            O = rand_op(rng, n)
            m = ref.restrict(ref.op_matrix(O, 2 * n), dets)
            U = unitary(ops, th, n, dets)
            if op == "value":
                w = U @ v0
                got = qi.quiet(Q.quantum_expectation_value, O)
                want = float(w @ m @ w)
            else:
                if mp != "jw":
                    continue
                a, b = (int(x) for x in rng.integers(len(dets), size=2))
                o = spec["opt"]
                if isa < 2 and o in (3, 4):
                    o = 0
                if mit and isa == 2 and o == 1 and not Q.mitigation_flags.do_M_ansatz0_plus:
                    o = 2  # a freely chosen layout may use qubits that were not calibrated
                if mit and isa == 2 and Q.mitigation_flags.do_M_ansatz0 and not Q.mitigation_flags.do_M_ansatz0_plus and o in (1, 2):
                    o = 0
                call = lambda: qi.quiet(Q.quantum_expectation_value_csfs, ([1.0], [format(dets[a], f"0{2 * n}b")]), O, ([1.0], [format(dets[b], f"0{2 * n}b")]), ISA_csfs_option=o)
                if mit and isa == 2 and o not in (3, 4) and nphys > 4:
                    try:  # routing may move the state onto qubits that were not calibrated: refusing is right then
                        got = call()
                    except ValueError:
                        hist[-1] = "csf(refused)"
                        continue
                else:
                    got = call()
                want = float(U[:, a] @ m @ U[:, b])
            if mit:
                values += 1
                close(got, want, f"mitigated value of {dict(list(O.operators.items())[:3])} {what}", 1e-6)
            elif op == "value" and isa < 2 and not post:
                # without mitigation the device's error is all there: P on qubit q reads as (b-a) + (1-a-b) P
                psi = qi.embed_state(w, dets, n, mp)
                want = 0.0
                for lab, cf in Q.op_to_qbit(O).to_list():
                    M = np.eye(1)
                    for pos, ch in enumerate(lab):
                        (_, eb), (ea, _) = noise(len(lab) - 1 - pos)
                        M = np.kron(M, np.eye(2) if ch == "I" else (eb - ea) * np.eye(2) + (1 - ea - eb) * qi.PAULI[ch])
                    want += (cf * (psi.conj() @ M @ psi)).real
                values += 1
                close(got, want, f"unmitigated value of {dict(list(O.operators.items())[:3])} {what}", 1e-6)
        elif op == "theta":
            th = ref.angles(rng, len(ops), 1.5)
            Q.parameters = th
        elif op == "mit":
            qi.quiet(Q.update_mitigation_flags, do_M_mitigation=True)
            mit = True
        elif op == "ansatz0":
            qi.quiet(Q.update_mitigation_flags, do_M_ansatz0=True)
            mit = True
        elif op == "plus":
            qi.quiet(Q.update_mitigation_flags, do_M_ansatz0_plus=True)
            mit = True
        elif op == "post":
            # on top of exact mitigation the selection changes nothing
            qi.quiet(Q.update_mitigation_flags, do_postselection=True)
            post = True
        elif op == "off":
            qi.quiet(Q.mitigation_flags.all_to_false)
            mit = post = False
        elif op == "redo":
            qi.quiet(Q.redo_M_mitigation)
        elif op == "nosave":
            Q._save_paulis = not Q._save_paulis
        elif op == "repass" and isa == 2:
            qi.quiet(Q.update_pass_manager, {"initial_layout": [int(x) for x in rng.permutation(nphys)[: 4 - 2 * (mp == "parity_red")]]})
        elif op == "shots":
            qi.quiet(setattr, Q, "shots", Q.shots)
    return f"{mp}:{isa}:{'v2' if spec['v2'] else 'v1'}" if values else None


def strat_ex(tier):
    return st.fixed_dictionaries({"map": st.sampled_from(["jw", "jw", "parity", "parity_red"]), "seed": st.integers(0, 10**6), "sa": st.booleans(), "isa": st.booleans(), "flag": st.sampled_from(["M", "M", "M0", "M0+"]), "post": st.booleans(), "ops": st.lists(st.sampled_from(["device", "device", "exact", "theta", "kappa", "off", "on"]), min_size=1, max_size=4), "what": st.permutations(["energy", "rdm1", "rdm2"])})


def check_ex(spec):
    """Mitigated wave functions stay exact when the device under them is exchanged."""
    rng = ref.rng_of(spec["seed"], 185)
    sa, mp, flag = spec["sa"], spec["map"], spec["flag"]
    if sa:
        mp = "jw"
    elif flag == "M0+":
        flag = "M0"
    mol = ref.model_mole(spec["seed"], 3, 2)
    c = ref.rand_orth(rng, 3)
    states = ([[1.0], [2**-0.5, -(2**-0.5)]], [["1100"], ["1001", "0110"]]) if sa else None
    kw = {"M": {"do_M_mitigation": True}, "M0": {"do_M_mitigation": True, "do_M_ansatz0": True}, "M0+": {"do_M_mitigation": True, "do_M_ansatz0_plus": True}}[flag]
    wf, Q = qi.circuit_wf((2, 2), c, mol, qi.exact_sampler(noise=readout(rng, 8)), "tUPS", mp, {"n_layers": 1}, states=states, do_postselection=spec["post"], ISA=spec["isa"], **kw)
    xf, _ = qi.circuit_wf((2, 2), c.copy(), mol, qi.exact_sampler(), "tUPS", mp, {"n_layers": 1}, states=states)
    name = "sa_energy" if sa else "energy_elec"
    hist = ["start"]
    on = True
    for op in ["theta"] + spec["ops"]:
        hist.append(op)
        if op in ("device", "exact"):
            qi.quiet(wf.change_primitive, qi.exact_sampler(noise=readout(rng, 8) if op == "device" else None))
        elif op == "theta":
            wf.thetas = xf.thetas = ref.angles(rng, len(wf.thetas), 1.2)
        elif op == "kappa":
            wf.kappa = xf.kappa = ref.turns(rng, len(wf.kappa), 0.4)
        elif op in ("on", "off") and on != (op == "on"):
            # values read with the other setting stay in the wave function until it changes
            on = not on
            if on:
                qi.quiet(Q.update_mitigation_flags, do_postselection=spec["post"], **kw)
            else:
                qi.quiet(Q.mitigation_flags.all_to_false)
            wf.thetas = wf.thetas
        if not on:
            qi.quiet(getattr, wf, name)
            continue
        for o in spec["what"][: 1 + len(hist) % 2]:
            o = name if o == "energy" else o
            close(np.asarray(qi.quiet(getattr, wf, o)), np.asarray(qi.quiet(getattr, xf, o)), f"mitigated {o} ({flag}, post-selection {spec['post']}, transpilation {spec['isa']}) with {mp} after {','.join(hist)}", 1e-6)
    return f"{flag}:{mp}:{'sa' if sa else 'single'}"


PROPERTY = Property(
    "P18",
    "Random distributions, confusion matrices, layouts, electron numbers and mappings; devices with random per-qubit read-out errors. Non-trivial: more than one qubit (corrections), some outcome is rejected (post-selection), a non-identity permutation, or a mitigated value is compared.",
    [
        Component("corrections", strat_cor, check_cor, "corrections of distorted distributions and finite samples, with and without changed qubit layout, against linear algebra", quick=150, thorough=2000, shards=1, thorough_shards=4, budget=35),
        Component("postselection", strat_ps, check_ps, "post-selected outcomes against enumeration of the determinants", quick=200, thorough=2000, shards=1, thorough_shards=4, budget=35),
        Component("permutations", strat_bk, check_paths, "paths and permutation circuits on random connectivity graphs", quick=60, thorough=800, shards=1, thorough_shards=4, budget=35),
        Component("exchange", strat_ex, check_ex, "mitigated (state-averaged) wave functions through changes of the device: energies and density matrices vs an exact device", quick=20, thorough=250, shards=2, budget=35),
        Component("device", strat_dev, check_dev, "mitigated expectation values on devices with read-out error vs exact values through histories, with transpilation and layouts", quick=140, thorough=1500, shards=6, budget=40),
    ],
    ["read-out errors act independently on physical qubits in the device component", "exact-distribution samplers"],
)
