"""P17: measured expectation values do not depend on saving, grouping or batching."""
from __future__ import annotations

import os
import tempfile

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import qi, ref
from vq.core import Component, Property, Skip, close, require
from vq.props.p15 import MAPS, choices


# --------------------------------------------------------------------------------------------------------------
def rand_layout(rng, n, jw, length):
    from slowquant.unitary_coupled_cluster.util import UpsStructure

    lay, ops = UpsStructure(), []
    for _ in range(length):
        kind = ["single", "double", "sa_single"][int(rng.integers(3))]
        ch = choices(kind, n, jw)
        if not ch:
            continue
        idx = ch[int(rng.integers(len(ch)))]
        ops.append((kind, tuple(idx)))
        lay.excitation_operator_type.append(kind)
        lay.excitation_indices.append(tuple(idx))
        lay.n_params += 1
    return lay, ops


def unitary(ops, th, n, dets):
    U = np.eye(len(dets))
    for t, (kind, idx) in zip(th, ops):
        m = ref.gen_matrix(kind, idx, n) * (np.sqrt(2) if kind == "sa_single" else 1)
        U = scipy.linalg.expm(t * ref.restrict((m - m.T).tocsr(), dets)) @ U
    return U


def hf_det(n, na, nb):
    return sum(1 << (2 * n - 1 - 2 * k) for k in range(na)) + sum(1 << (2 * n - 2 - 2 * k) for k in range(nb))


def construct(Q, n, na, nb):
    occ = list(range(max(na, nb)))
    vir = list(range(len(occ), n))
    sp = lambda xs: [2 * k + s for k in xs for s in (0, 1)]
    qi.quiet(Q.construct_circuit, occ, vir, sp(occ), sp(vir), n, (na, nb))


def rand_op(rng, n, kind=None):
    """Random Hermitian spin-conserving operator, as the code under test represents it."""
    from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator

    kind = int(rng.integers(4)) if kind is None else kind
    d: dict = {}
    small = rng.integers(4) == 0
    # (Qiskit itself drops Pauli coefficients below 1e-8)
    amp = lambda: float(rng.choice([-1, 1]) * rng.uniform(0.5, 2)) * 10.0 ** -int(rng.integers(0, 5)) if small else float(rng.normal())

    def add(s, c):
        d[s] = d.get(s, 0) + c

    if kind == 0:  # diagonal one-electron
        for p in range(2 * n):
            if rng.integers(2):
                add(((p, True), (p, False)), amp())
    elif kind == 1:
        for _ in range(int(rng.integers(1, 4))):
            p, q = (int(x) for x in rng.integers(n, size=2))
            s, c = int(rng.integers(2)), amp()
            add(((2 * p + s, True), (2 * q + s, False)), c)
            add(((2 * q + s, True), (2 * p + s, False)), c)
    else:
        for _ in range(int(rng.integers(1, 5))):
            s, t = int(rng.integers(2)), int(rng.integers(2))
            p, q, r, u = (int(x) for x in rng.integers(n, size=4))
            a, b, x, y = 2 * p + s, 2 * q + t, 2 * r + t, 2 * u + s
            if a == b or x == y:
                continue
            c = amp()
            add(((a, True), (b, True), (x, False), (y, False)), c)
            add(((y, True), (x, True), (b, False), (a, False)), c)
        if kind == 3:
            add((), amp())
    d = {k: v for k, v in d.items() if abs(v) > 1e-12}
    if not d:
        d = {((0, True), (0, False)): 1.0}
    return FermionicOperator(d)


OPS = ["value", "value", "value", "value", "csf", "csf", "theta", "one", "same", "shots", "max", "isa", "save", "clique", "file", "custom", "post", "mit", "off", "rebuild", "repeat"]
TINY = ["tiny", "creep", "turn", "sign", "one", "same", "theta"]


def scenes():
    """Single operations, and an operator measured before and after one or two changes."""
    one = st.sampled_from(OPS).map(lambda x: [x])
    pair = st.tuples(st.sampled_from(["value", "csf"]), st.lists(st.sampled_from(TINY + ["save", "clique", "file"]), min_size=1, max_size=2)).map(lambda t: [t[0], *t[1], "again" if t[0] == "value" else "csf"])
    return one | one | one | pair


def strat(tier):
    return st.fixed_dictionaries({
        "norb": st.sampled_from([2, 2, 2, 3]), "na": st.integers(0, 3), "nb": st.integers(0, 3), "map": st.sampled_from(MAPS), "seed": st.integers(0, 10**6), "len": st.integers(1, 4), "v2": st.booleans(), "ref": st.sampled_from(["hf", "hf", "pp", "circuit"]),
        "ops": st.lists(scenes(), min_size=2, max_size=8 if tier == "quick" else 16).map(lambda x: sum(x, [])),
    }).filter(lambda d: d["na"] <= d["norb"] and d["nb"] <= d["norb"] and 0 < d["na"] + d["nb"] < 2 * d["norb"])


def check(spec):
    from slowquant.qiskit_interface.interface import QuantumInterface

    n, na, nb, mp = spec["norb"], spec["na"], spec["nb"], spec["map"]
    start = hf_det(n, na, nb)
    if spec["ref"] == "pp":
        # perfect-pairing reference: four electrons in three orbitals is the smallest one that is not Hartree-Fock
        n, na, nb, mp, start = 3, 2, 2, "jw", 0b110011
    elif spec["ref"] == "circuit":
        mp = "jw"
    rng = ref.rng_of(spec["seed"], 17)
    lay, ops = rand_layout(rng, n, mp == "jw", spec["len"])
    if not ops:
        raise Skip
    log: list = []
    v2 = spec["v2"] and n == 2
    prim = qi.exact_sampler_v2(log) if v2 else qi.exact_sampler(log=log)
    dets = ref.sector(n, na, nb)
    if spec["ref"] == "circuit":
        # a custom circuit takes the place of state preparation and ansatz: an excitation sequence behind a fixed
        # determinant, so that it maps the determinant d to U|d xor start>.
        from slowquant.qiskit_interface.operators_circuits import upslayout2circuit
        from slowquant.qiskit_interface.util import get_determinant_reference

        circ = upslayout2circuit(lay, n, qi.mapper(mp, None))[0].compose(get_determinant_reference(format(start, f"0{2 * n}b"), n, qi.mapper(mp, None)), front=True)
        Q = qi.quiet(QuantumInterface, prim, circ, qi.mapper(mp, (na, nb)))
    else:
        Q = qi.quiet(QuantumInterface, prim, lay, qi.mapper(mp, (na, nb)), ansatz_options={"do_pp": True} if spec["ref"] == "pp" else None)
    construct(Q, n, na, nb)
    v0 = np.array([float(d == start) for d in dets])
    th = ref.angles(rng, len(ops), 1.5)
    Q.parameters = th
    hist, pool = [], []
    values = 0
    post_ok = mp in ("jw", "parity", "parity_red") and spec["ref"] != "circuit"
    for op in spec["ops"]:
        hist.append(op)
        what = f"with {mp}{' (V2)' if v2 else ''}, reference {spec['ref']}, {n} orbitals, ({na},{nb}) electrons after {','.join(hist)}"
        if op in ("value", "repeat", "custom", "csf", "again"):
            if pool and op == "again":
                O = pool[-1]
            elif pool and (op == "repeat" or rng.integers(3) == 0):
                O = pool[int(rng.integers(len(pool)))]
            else:
                O = rand_op(rng, n)
            pool.append(O)
            m = ref.restrict(ref.op_matrix(O, 2 * n), dets)
            values += 1
            if op == "custom":
                t2 = ref.angles(rng, len(ops), 1.5)
                v = unitary(ops, t2, n, dets) @ v0
                close(qi.quiet(Q.quantum_expectation_value, O, custom_parameters=t2), float(v @ m @ v), f"expectation value at other parameters {what}", 1e-9)
                close(np.array(Q.parameters), np.array(th), f"parameters {what}", 0)
                continue
            U = unitary(ops, th, n, dets)
            if op == "csf":
                if mp != "jw":
                    continue
                if spec["ref"] == "circuit":
                    # the determinants a user names are flipped by the fixed determinant inside the circuit
                    d = int(rng.choice(dets + [start, start]))
                    b = ([1.0], [format(d, f"0{2 * n}b")])
                    full = list(range(4**n))
                    mu = np.zeros(4**n)
                    mu[d ^ start] = 1
                    w = unitary(ops, th, n, full) @ mu
                    want = float(w @ ref.restrict(ref.op_matrix(O, 2 * n), full) @ w)
                    close(qi.quiet(Q.quantum_expectation_value_csfs, b, O, b), want, f"expectation value of the circuit applied to {b[1][0]} {what}", 1e-9)
                    continue
                csf = []
                for _ in range(2):
                    k = int(rng.integers(1, min(3, len(dets)) + 1))
                    pick = rng.permutation(len(dets))[:k]
                    c = rng.normal(size=k)
                    csf.append((pick, c / np.linalg.norm(c)))
                if rng.integers(2):
                    csf[1] = csf[0]
                vec = []
                for pick, c in csf:
                    w = np.zeros(len(dets))
                    w[pick] = c
                    vec.append(U @ w)
                b, k = ((list(map(float, c)), [format(dets[i], f"0{2 * n}b") for i in pick]) for pick, c in csf)
                rev = bool(rng.integers(2))
                got = qi.quiet(Q.quantum_expectation_value_csfs, b, O, k, reverse_csfs_order=rev)
                close(got, float(vec[0] @ m @ vec[1]), f"expectation value between {b} and {k} {what}", 1e-9)
                continue
            v = U @ v0
            before = len(log)
            close(qi.quiet(Q.quantum_expectation_value, O), float(v @ m @ v), f"expectation value of {dict(list(O.operators.items())[:4])} {what}", 1e-9)
            if Q._save_paulis:
                seen = len(log)
                close(qi.quiet(Q.quantum_expectation_value, O), float(v @ m @ v), f"repeated expectation value {what}", 1e-9)
                require(len(log) == seen, f"an operator that was just measured is measured again {what}")
        elif op == "theta":
            th = ref.angles(rng, len(ops), 1.5)
            Q.parameters = th
        elif op == "one":
            th = list(th)
            th[int(rng.integers(len(th)))] += float(rng.uniform(0.3, 1.0))
            Q.parameters = list(th)
        elif op == "same":
            Q.parameters = list(th)
        elif op == "tiny":
            # far below the size of the parameters, far above rounding
            th = list(th)
            k = int(rng.integers(len(th)))
            th[k] += float(rng.choice([-1, 1])) * 10.0 ** -int(rng.integers(3, 8)) if rng.integers(2) else th[k] * 7e-6
            Q.parameters = list(th)
        elif op == "creep":
            for _ in range(40):
                th = [t + 8e-9 for t in th]
                Q.parameters = list(th)
        elif op == "turn":
            th = list(th)
            th[int(rng.integers(len(th)))] += float(rng.choice([-2, 2, 4]) * np.pi)
            Q.parameters = list(th)
        elif op == "sign":
            th = [-t for t in th] if rng.integers(2) else list(th[::-1])
            Q.parameters = list(th)
        elif op == "shots":
            qi.quiet(setattr, Q, "shots", [None, 10, 1000, 250][int(rng.integers(4))])
        elif op == "max":
            qi.quiet(setattr, Q, "max_shots_per_run", [100, 100000, 50][int(rng.integers(3))])
        elif op == "isa" and n == 2:
            qi.quiet(setattr, Q, "ISA", not Q.ISA)
        elif op == "save":
            Q._save_paulis = not Q._save_paulis
        elif op == "clique":
            Q._do_cliques = not Q._do_cliques
        elif op == "file":
            with tempfile.TemporaryDirectory() as d:
                f = os.path.join(d, "paulis")
                Q.save_paulis_to_file(f)
                Q.saver = {}
                qi.quiet(Q.load_paulis_from_file, f)
        elif op == "post" and post_ok:
            qi.quiet(Q.update_mitigation_flags, do_postselection=True)
        elif op == "mit" and n == 2 and Q.shots is None:
            qi.quiet(Q.update_mitigation_flags, do_M_mitigation=True)
        elif op == "off":
            qi.quiet(Q.mitigation_flags.all_to_false)
        elif op == "rebuild":
            construct(Q, n, na, nb)
    # batching never exceeds the limit per run
    return f"{spec['ref']}:{mp}:{min(values, 6)}" if values else None


# --------------------------------------------------------------------------------------------------------------
def strat_acc(tier):
    return st.fixed_dictionaries({"seed": st.integers(0, 10**6), "shots": st.integers(1, 400), "max": st.integers(20, 150), "v2": st.booleans(), "len": st.integers(1, 3)})


def check_acc(spec):
    """Batches respect the limit per run, deliver the shots that are reported, and average to the exact values."""
    from slowquant.qiskit_interface.interface import QuantumInterface

    rng = ref.rng_of(spec["seed"], 171)
    n = 2
    lay, ops = rand_layout(rng, n, True, spec["len"])
    if not ops:
        raise Skip
    log: list = []
    Q = qi.quiet(QuantumInterface, qi.exact_sampler_v2(log) if spec["v2"] else qi.exact_sampler(log=log), lay, qi.mapper("jw", (1, 1)), shots=spec["shots"], max_shots_per_run=spec["max"])
    construct(Q, n, 1, 1)
    th = ref.angles(rng, len(ops), 1.5)
    Q.parameters = th
    dets = ref.sector(n, 1, 1)
    v = unitary(ops, th, n, dets) @ np.array([float(d == hf_det(n, 1, 1)) for d in dets])
    for _ in range(3):
        O = rand_op(rng, n)
        used, ev, calls, seen = Q.total_shots_used, Q.total_paulis_evaluated, Q.total_device_calls, len(log)
        got = qi.quiet(Q.quantum_expectation_value, O)
        close(got, float(v @ ref.restrict(ref.op_matrix(O, 2 * n), dets) @ v), "expectation value from batched runs", 1e-9)
        new = log[seen:]
        require(all(s is not None and s <= spec["max"] for _, s in new), f"runs {new} exceed the limit of {spec['max']} shots")
        require(Q.total_shots_used - used == sum(c * s for c, s in new), f"{Q.total_shots_used - used} shots reported, {sum(c * s for c, s in new)} used")
        require(Q.total_device_calls - calls == len(new), f"{Q.total_device_calls - calls} device calls reported, {len(new)} made")
        npaul = Q.total_paulis_evaluated - ev
        if npaul:
            require(sum(c * s for c, s in new) == npaul * Q.shots, f"{Q.shots} shots per Pauli string reported, {sum(c * s for c, s in new) / npaul} used")
            require(Q.shots <= spec["shots"] and (spec["shots"] - Q.shots < spec["max"]), f"{Q.shots} shots used for {spec['shots']} requested with at most {spec['max']} per run")
    return "batched" if spec["shots"] > spec["max"] else "single"


# --------------------------------------------------------------------------------------------------------------
def strat_cl(tier):
    return st.fixed_dictionaries({"nq": st.sampled_from([1, 2, 3, 4, 5, 6, 7]), "seed": st.integers(0, 10**6), "lists": st.lists(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 20]), min_size=1, max_size=6), "hot": st.integers(0, 3)})


def rand_pauli(rng, nq, hot):
    p = [[0.25] * 4, [0.55, 0.15, 0.15, 0.15], [0.3, 0.05, 0.05, 0.6], [0.0, 0.4, 0.4, 0.2]][hot]
    return "".join(rng.choice(list("IXYZ"), p=p) for _ in range(nq))


def measured(psi, head):
    """Distribution of measuring psi with every qubit in the basis named by head (I and Z: computational)."""
    nq = len(head)
    U = np.eye(1)
    had = np.array([[1, 1], [1, -1]]) / np.sqrt(2)
    for ch in head:
        U = np.kron(U, had if ch == "X" else had @ np.diag([1, -1j]) if ch == "Y" else np.eye(2))
    p = np.abs(U @ psi) ** 2
    return {k: float(x) for k, x in enumerate(p)}


def check_cl(spec):
    from slowquant.qiskit_interface.util import Clique, fit_in_clique, get_bitstring_sign, to_CBS_measurement

    nq, rng = spec["nq"], ref.rng_of(spec["seed"], 172)
    psi = rng.normal(size=2**nq) + 1j * rng.normal(size=2**nq)
    psi /= np.linalg.norm(psi)
    C = Clique()
    asked, all_p = [], []
    for k in spec["lists"]:
        ps = [rand_pauli(rng, nq, spec["hot"]) for _ in range(k)]
        ps = list(dict.fromkeys(ps))
        known = set(asked)
        new = C.add_paulis(list(ps))
        require(len(new) == len(set(new)), f"heads {new} requested twice")
        require(not known & set(new), f"heads {sorted(known & set(new))} requested although they were measured")
        C.update_distr(new, [measured(psi, h) for h in new])
        asked += new
        all_p += ps
        for p in all_p:
            d = C.get_distr(p)
            got = sum(x * get_bitstring_sign(p, b) for b, x in d.items())
            close(got, float(np.real(psi.conj() @ qi.pauli_matrix(p) @ psi)), f"expectation value of {p} from clique {C.get_head(p)} after {all_p}", 1e-10)
        groups = C.get_groups(list(dict.fromkeys(all_p)))
        require(sorted(x for g in groups.values() for x in g) == sorted(set(all_p)), f"groups {groups} of {all_p}")
        for h, g in groups.items():
            for p in g:
                require(all(a == "I" or a == b for a, b in zip(p, h)), f"{p} is not measured by {h}")
    # measurement circuits and the grouping predicate
    from qiskit.quantum_info import Statevector

    for _ in range(3):
        a, b = rand_pauli(rng, nq, spec["hot"]), rand_pauli(rng, nq, spec["hot"])
        got = Statevector(psi).evolve(to_CBS_measurement(a)).probabilities()
        val = sum(x * get_bitstring_sign(a, k) for k, x in enumerate(got))
        close(val, float(np.real(psi.conj() @ qi.pauli_matrix(a) @ psi)), f"expectation value of {a} from its measurement circuit", 1e-10)
        ok, head = fit_in_clique(a, b)
        want = all(x == "I" or y == "I" or x == y for x, y in zip(a, b))
        require(bool(ok) == want, f"{a} and {b} {'are' if want else 'are not'} measurable together")
        if want:
            require(head == "".join(y if x == "I" else x for x, y in zip(a, b)), f"common head of {a} and {b}: {head}")
    return f"{nq}:{len(spec['lists'])}" if any(set(p) - {"I", "Z"} for p in all_p) else None


# --------------------------------------------------------------------------------------------------------------
def strat_var(tier):
    return st.fixed_dictionaries({"seed": st.integers(0, 10**6), "len": st.integers(1, 3), "shots": st.sampled_from([None, 100, 1000]), "pre": st.booleans(), "no_coeffs": st.booleans(), "map": st.sampled_from(MAPS)})


def check_var(spec):
    """The reported variance is that of the estimator, obtained by probing it outcome by outcome."""
    from slowquant.qiskit_interface.interface import QuantumInterface

    rng = ref.rng_of(spec["seed"], 173)
    n, mp = 2, spec["map"]
    lay, ops = rand_layout(rng, n, mp == "jw", spec["len"])
    if not ops:
        raise Skip
    th = ref.angles(rng, len(ops), 1.5)
    O = rand_op(rng, n)
    first = rand_op(rng, n) if spec["pre"] else None

    def fresh(prim, shots=None):
        Q = qi.quiet(QuantumInterface, prim, lay, qi.mapper(mp, (1, 1)), shots=shots)
        construct(Q, n, 1, 1)
        Q.parameters = th
        if first is not None:
            qi.quiet(Q.quantum_expectation_value, first)
        return Q

    Q = fresh(qi.exact_sampler(), spec["shots"])
    qi.quiet(Q.quantum_expectation_value, O)
    div = spec["shots"] or 1
    paulis = Q.op_to_qbit(O)
    dets = ref.sector(n, 1, 1)
    v = unitary(ops, th, n, dets) @ np.array([float(d == hf_det(n, 1, 1)) for d in dets])
    psi = qi.embed_state(v, dets, n, mp)
    ex = [float(np.real(psi.conj() @ qi.pauli_matrix(str(p)) @ psi)) for p in paulis.paulis]
    cf = [1.0 if spec["no_coeffs"] else float(c.real) for c in paulis.coeffs]
    ind = sum(c * c * (1 - e * e) for c, e in zip(cf, ex)) / div
    kw = {"no_coeffs": True} if spec["no_coeffs"] else {}
    close(qi.quiet(Q.quantum_variance, O, do_cliques=False, **kw), ind, "variance without grouping", 1e-9)
    close(qi.quiet(Q.quantum_variance, O, do_no_corr=True, **kw), ind, "variance without correlation", 1e-9)
    got = qi.quiet(Q.quantum_variance, O, **kw)
    if spec["no_coeffs"]:
        from qiskit.quantum_info import SparsePauliOp

        X = SparsePauliOp(paulis.paulis, np.ones(len(paulis)))
    else:
        X = O
    # weights of every outcome of every measured circuit in the estimator
    nq = 4 - (2 if mp == "parity_red" else 0)

    def estimate(circ, outcome):
        prim = qi.Scripted(lambda k, qc: {outcome: 1.0} if k == circ else {0: 1.0})
        q = fresh(prim)
        e = q._sampler_quantum_expectation_value(X) if spec["no_coeffs"] else qi.quiet(q.quantum_expectation_value, X)
        return float(e), prim.count

    base, ncirc = estimate(-1, 0)
    dist = []
    rec = qi.Scripted(lambda k, qc: dist.append(qi.distributions([qc], [th])[0]) or dist[-1])
    q = fresh(rec)
    (q._sampler_quantum_expectation_value(X) if spec["no_coeffs"] else qi.quiet(q.quantum_expectation_value, X))
    want = 0.0
    if ncirc > 12:
        raise Skip
    for k in range(ncirc):
        f = np.array([estimate(k, b)[0] - base for b in range(2**nq)])
        p = np.zeros(2**nq)
        for b, x in dist[k].items():
            p[b] = x
        want += float(p @ f**2 - (p @ f) ** 2)
    close(float(got), want / div, f"variance of {dict(list(O.operators.items())[:4])} with {mp}", 1e-8)
    return f"{mp}:{ncirc}" if want > 1e-10 else None


# --------------------------------------------------------------------------------------------------------------
SETTINGS = {"off": {}, "M": {"do_M_mitigation": True}, "A": {"do_M_ansatz0": True}, "plus": {"do_M_ansatz0_plus": True}, "P": {"do_postselection": True}, "MP": {"do_M_mitigation": True, "do_postselection": True}, "AP": {"do_M_ansatz0": True, "do_postselection": True}}


def strat_set(tier):
    step = st.sampled_from(list(SETTINGS)) | st.sampled_from(["value", "value", "csf", "again", "again", "theta"])
    return st.fixed_dictionaries({
        "map": st.sampled_from(["jw", "jw", "parity", "parity_red"]), "seed": st.integers(0, 10**6), "len": st.integers(1, 3), "read": st.booleans(), "ops": st.lists(step, min_size=4, max_size=10 if tier == "quick" else 20),
    })


def check_set(spec):
    """On an imperfect device every setting has its own value: it does not depend on what was measured under other settings."""
    from slowquant.qiskit_interface.interface import QuantumInterface

    rng = ref.rng_of(spec["seed"], 175)
    n, mp = 2, spec["map"]
    lay, ops = rand_layout(rng, n, mp == "jw", spec["len"])
    if not ops:
        raise Skip
    nq = 4 - 2 * (mp == "parity_red")
    bad = rng.dirichlet(np.ones(2**nq))
    err = [rng.uniform(0, 0.15, 2) for _ in range(nq)]
    noise = (lambda q: np.array([[1 - err[q][0], err[q][1]], [err[q][0], 1 - err[q][1]]])) if spec["read"] else None

    def device(qc, d):
        # the more gates, the more outcomes are replaced by outcomes of a fixed distribution
        keep = np.exp(-0.01 * sum(1 for g in qc.data if g.operation.name not in ("measure", "barrier")))
        p = (1 - keep) * bad
        for k, x in d.items():
            p[k] += keep * x
        return {k: float(x) for k, x in enumerate(p)}

    def fresh(th):
        Q = qi.quiet(QuantumInterface, qi.exact_sampler(noise=noise, device=device), lay, qi.mapper(mp, (1, 1)))
        construct(Q, n, 1, 1)
        Q.parameters = list(th)
        return Q

    def choose(Q, s):
        qi.quiet(Q.mitigation_flags.all_to_false)
        if SETTINGS[s]:
            qi.quiet(Q.update_mitigation_flags, **SETTINGS[s])
        if "M" in s or "A" in s or s == "plus":
            qi.quiet(Q.redo_M_mitigation)

    def ask(Q, req):
        kind, O, a, b = req
        if kind == "value":
            return qi.quiet(Q.quantum_expectation_value, O)
        f = lambda d: ([1.0], [format(d, f"0{2 * n}b")])
        return qi.quiet(Q.quantum_expectation_value_csfs, f(a), O, f(b))

    dets = ref.sector(n, 1, 1)
    th = ref.angles(rng, len(ops), 1.5)
    Q = fresh(th)
    cur, trace, hist, moved = "off", [], [], 0
    for op in spec["ops"]:
        hist.append(op)
        if op in SETTINGS:
            cur = op
            choose(Q, op)
            continue
        if op == "theta":
            th = ref.angles(rng, len(ops), 1.5)
            Q.parameters = list(th)
            trace = []
            continue
        if op == "again":
            if not trace:
                continue
            req = trace[int(rng.integers(len(trace)))]
        else:
            if op == "csf" and mp != "jw":
                op = "value"
            a, b = (dets[int(x)] for x in rng.integers(len(dets), size=2))
            req = (op, rand_op(rng, n), a, b)
        trace.append(req)
        got = ask(Q, req)
        R = fresh(th)
        for r in trace:
            ask(R, r)
        choose(R, cur)
        moved += cur != "off" or any(h in SETTINGS for h in hist)
        close(got, ask(R, req), f"value of {dict(list(req[1].operators.items())[:3])} with {mp} and setting {cur} after {','.join(hist)}, against the value without this history", 1e-9)
    return f"{mp}:{cur}" if moved else None


def strat_map(tier):
    return st.fixed_dictionaries({"norb": st.sampled_from([1, 2, 3]), "map": st.sampled_from(MAPS), "seed": st.integers(0, 10**6), "na": st.integers(0, 3), "nb": st.integers(0, 3)}).filter(lambda d: d["na"] <= d["norb"] and d["nb"] <= d["norb"] and d["norb"] * 2 - 2 * (d["map"] == "parity_red") > 0)


def check_map(spec):
    """The qubit operator acts on encoded determinants as the fermionic operator does on determinants."""
    from slowquant.qiskit_interface.interface import QuantumInterface

    n, mp, na, nb = spec["norb"], spec["map"], spec["na"], spec["nb"]
    rng = ref.rng_of(spec["seed"], 174)
    Q = qi.quiet(QuantumInterface, qi.exact_sampler(), "hf", qi.mapper(mp, (na, nb)))
    construct(Q, n, na, nb)
    O = rand_op(rng, n)
    q = Q.op_to_qbit(O)
    dets = list(range(4**n)) if mp != "parity_red" else ref.sector(n, na, nb)
    nq = 2 * n - (2 if mp == "parity_red" else 0)
    T = np.zeros((2**nq, len(dets)))
    for k, d in enumerate(dets):
        i, s = qi.qindex(d, n, mp)
        T[i, k] = s
    m = ref.restrict(ref.op_matrix(O, 2 * n), dets)
    M = q.to_matrix()
    close(np.real(M @ T), T @ m, f"qubit form of {dict(list(O.operators.items())[:4])} with {mp}", 1e-10)
    close(np.imag(M @ T), np.zeros_like(T), f"imaginary part of the qubit form with {mp}", 1e-10)
    return mp if np.any(m) else None


PROPERTY = Property(
    "P17",
    "Random ansaetze, operators, mappings, electron numbers and request histories on exact-distribution V1 and V2 samplers. Non-trivial: at least one expectation value is requested (histories), a Pauli string outside the computational basis is grouped (cliques), or the variance is non-zero.",
    [
        Component("histories", strat, check, "values after histories of requests, parameter, shot, batching, transpilation, grouping, saving, file and noise-free mitigation changes", quick=110, thorough=1200, shards=4, budget=40),
        Component("settings", strat_set, check_set, "an imperfect device: values under every mitigation setting do not depend on what was measured under other settings before", quick=150, thorough=1500, shards=2, thorough_shards=4, budget=35),
        Component("cliques", strat_cl, check_cl, "grouping, measurement circuits and signs on random Pauli strings and states", quick=120, thorough=1500, shards=1, thorough_shards=4, budget=35),
        Component("variance", strat_var, check_var, "reported variance vs the exact variance of the estimator found by probing it outcome by outcome", quick=40, thorough=400, shards=2, budget=40),
        Component("batching", strat_acc, check_acc, "shot batching and accounting", quick=40, thorough=500, shards=1, thorough_shards=4, budget=35),
        Component("operators", strat_map, check_map, "fermionic to qubit operators on every encoded determinant", quick=80, thorough=1000, shards=1, thorough_shards=4, budget=35),
    ],
    ["exact-distribution samplers (numpy gate simulation) stand for the infinite-shot limit"],
)
