"""Qubit encodings of determinants and exact-distribution samplers, independent of the code under test."""
from __future__ import annotations

import contextlib
import io

import numpy as np

from vq import ref


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def occ_bits(det: int, norb: int):
    return [(det >> (2 * norb - 1 - s)) & 1 for s in range(2 * norb)]


def blocked(det: int, norb: int):
    """(occupations in order all alpha then all beta, sign of reordering the creation operators)."""
    n = occ_bits(det, norb)
    b = n[0::2] + n[1::2]
    inv = sum(n[2 * p + 1] * n[2 * q] for q in range(norb) for p in range(q))
    return b, (-1) ** inv


def bk_matrix(n: int):
    """Fenwick-tree (Bravyi-Kitaev) encoding matrix over GF(2)."""
    m = 1
    while m < n:
        m *= 2
    B = np.array([[1]])
    while len(B) < m:
        k = len(B)
        C = np.zeros((2 * k, 2 * k), dtype=int)
        C[:k, :k] = B
        C[k:, k:] = B
        C[-1, :k] = 1
        B = C
    return B[:n, :n]


def encode(bits, mapping: str):
    """Qubit values q0, q1, ... of an occupation list (spin-blocked)."""
    n = len(bits)
    x = np.array(bits)
    if mapping == "jw":
        q = x
    elif mapping in ("parity", "parity_red"):
        q = np.cumsum(x) % 2
        if mapping == "parity_red":
            q = np.array([v for k, v in enumerate(q) if k not in (n // 2 - 1, n - 1)])
    else:
        q = bk_matrix(n) @ x % 2
    return [int(v) for v in q]


def qindex(det: int, norb: int, mapping: str):
    """(basis-state index in Qiskit's little-endian order, sign)."""
    b, s = blocked(det, norb)
    return sum(v << k for k, v in enumerate(encode(b, mapping))), s


def embed_state(vec, dets, norb: int, mapping: str):
    nq = 2 * norb - (2 if mapping == "parity_red" else 0)
    out = np.zeros(2**nq, dtype=complex)
    for v, d in zip(vec, dets):
        i, s = qindex(int(d), norb, mapping)
        out[i] += s * v
    return out


def mapper(mapping: str, nelec):
    from qiskit_nature.second_q.mappers import BravyiKitaevMapper, JordanWignerMapper, ParityMapper

    if mapping == "jw":
        m = JordanWignerMapper()
    elif mapping == "parity":
        m = ParityMapper()
    elif mapping == "parity_red":
        m = ParityMapper(num_particles=tuple(nelec))
    else:
        m = BravyiKitaevMapper()
    orig, memo = m.map, {}

    def mapped(op, *a, **k):
        """Qiskit Nature's mapping, remembered (it is slow and the same operators are mapped over and over)."""
        if a or k or not hasattr(op, "num_spin_orbitals"):
            return orig(op, *a, **k)
        key = (op.num_spin_orbitals, frozenset(op.items()))
        if key not in memo:
            if len(memo) > 4000:
                memo.clear()
            memo[key] = orig(op)
        return memo[key].copy()

    m.map = mapped
    return m


def phase_close(got, want):
    """Largest deviation of two vectors (or matrices) after removing a global phase."""
    ov = np.vdot(want, got)
    ph = ov / abs(ov) if abs(ov) > 1e-12 else 1.0
    return float(np.max(np.abs(np.asarray(got) - ph * np.asarray(want))))


_GATES: dict = {}


def _gate_matrix(op, vals):
    key = (op.name, vals, op.num_qubits, getattr(op, "ctrl_state", None))
    m = _GATES.get(key)
    if m is None:
        from qiskit.quantum_info import Operator

        cached = bool(op.name in ("x", "y", "z", "h", "s", "sdg", "t", "tdg", "sx", "sxdg", "cx", "cz", "cy", "ch", "swap", "id", "rz", "ry", "rx", "u", "p", "u1", "u2", "u3", "ecr", "ccx", "crx", "cry", "crz", "cp", "cu1", "rzz", "rxx", "ryy"))
        o = op
        if op.params and any(not isinstance(x, (int, float)) for x in op.params):
            o = op.copy()
            o.params = list(vals)
        m = np.asarray(Operator(o).data)
        if cached and len(_GATES) < 200000:
            _GATES[key] = m
        elif not cached:
            return m
    return m


def _steps(qc, values):
    """[(qubit indices, matrix key, matrix)] of a circuit with its parameters replaced by values, and measured bits."""
    values = list(values if values is not None else [])
    if len(values) != qc.num_parameters:
        raise ValueError(f"{len(values)} values for {qc.num_parameters} circuit parameters")
    if values:
        qc = qc.assign_parameters(values)
    idx = {b: k for k, b in enumerate(qc.qubits)}
    cidx = {b: k for k, b in enumerate(qc.clbits)}
    out, pos = [], {}
    for inst in qc.data:
        name = inst.name
        if name == "barrier":
            continue
        q = tuple(idx[b] for b in inst.qubits)
        if name == "measure":
            pos[cidx[inst.clbits[0]]] = q[0]
            continue
        if pos and any(x in pos.values() for x in q):
            raise ValueError("gate after measurement")
        if inst.is_standard_gate() and all(type(x) is float for x in inst.params):
            # without building the Python gate object again
            key = ("std", name, tuple(inst.params), len(q))
            m = _GATES.get(key)
            if m is None:
                m = _gate_matrix(inst.operation, key[2])
                if len(_GATES) < 200000:
                    _GATES[key] = m
            out.append((q, key, m))
            continue
        op = inst.operation
        vals = []
        for x in op.params:
            if isinstance(x, (int, float, np.floating, np.integer)):
                vals.append(float(x))
            elif hasattr(x, "parameters"):
                vals.append(float(x))
            else:
                vals = None
                break
        if vals is None:
            from qiskit.quantum_info import Operator

            o = op
            m = np.asarray(Operator(o).data)
            out.append((q, id(op), m))
        else:
            vals = tuple(vals)
            out.append((q, (op.name, vals, getattr(op, "ctrl_state", None)), _gate_matrix(op, vals)))
    return out, pos


def _apply(v, nq, q, m):
    """v: tensor of shape (2,)*nq with axis nq-1-k for qubit k."""
    k = len(q)
    axes = [nq - 1 - x for x in reversed(q)]
    v = np.tensordot(m.reshape((2,) * (2 * k)), v, axes=(list(range(k, 2 * k)), axes))
    return np.moveaxis(v, list(range(k)), axes)


def distributions(circuits, values, noise=None):
    """Exact outcome distributions of measured circuits. Shared prefixes are simulated once."""
    steps = [_steps(c, p) for c, p in zip(circuits, values)]
    out = []
    pre, pkey, pn = None, None, None
    for k, (qc, (st_, pos)) in enumerate(zip(circuits, steps)):
        nq = qc.num_qubits
        keys = [(a, b) for a, b, _ in st_]
        n = 0
        if pkey is not None and pn == nq:
            m = min(len(pkey), len(keys))
            n = len(pkey) if keys[: len(pkey)] == pkey else 0
        if n == 0 and k + 1 < len(steps):
            # prefix shared with the next circuit
            nxt = [(a, b) for a, b, _ in steps[k + 1][0]]
            m = 0
            while m < min(len(nxt), len(keys)) and nxt[m] == keys[m]:
                m += 1
            v = np.zeros((2,) * nq, dtype=complex)
            v[(0,) * nq] = 1
            for q, _, mat in st_[:m]:
                v = _apply(v, nq, q, mat)
            pre, pkey, pn, n = v, keys[:m], nq, m
        if n == 0:
            v = np.zeros((2,) * nq, dtype=complex)
            v[(0,) * nq] = 1
        else:
            v = pre
        for q, _, mat in st_[n:]:
            v = _apply(v, nq, q, mat)
        p = np.abs(v) ** 2
        nb = len(pos)
        if sorted(pos) != list(range(nb)):
            raise ValueError("measured bits are not contiguous")
        keep = [nq - 1 - pos[c] for c in reversed(range(nb))]
        p = p.sum(axis=tuple(a for a in range(nq) if a not in keep)) if nb < nq else p
        rest = sorted(keep)
        p = np.transpose(p, [rest.index(a) for a in keep])
        if noise is not None:
            for c, q in pos.items():
                m = noise(q) if callable(noise) else noise.get(q)
                if m is not None:
                    ax = nb - 1 - c
                    p = np.moveaxis(np.tensordot(np.asarray(m), p, axes=(1, ax)), 0, ax)
        p = p.reshape(-1)
        out.append({int(i): float(p[i]) for i in np.nonzero(p > 1e-16)[0]})
    return out


def exact_sampler(noise=None, seed=None, log=None, device=None):
    """A V1 sampler returning exact outcome distributions.

    noise: {physical qubit: 2x2 column-stochastic read-out matrix} (or a callable qubit -> matrix) applied to every
    measured bit. seed: with shots given, draw that many outcomes. log: list that receives the number of circuits of
    each call. device(circuit, distribution) -> distribution: any further error.
    """
    from qiskit.primitives import BaseSamplerV1, SamplerResult
    from qiskit.result import QuasiDistribution

    rng = np.random.default_rng(seed)

    class Job:
        def __init__(self, res):
            self._res = res

        def result(self):
            return self._res

    class Exact(BaseSamplerV1):
        def run(self, circuits, parameter_values=None, **options):
            from qiskit import QuantumCircuit

            if isinstance(circuits, QuantumCircuit):
                circuits = [circuits]
                parameter_values = [parameter_values] if parameter_values is not None else None
            return self._run(tuple(circuits), parameter_values, **options)

        def _run(self, circuits, parameter_values, **options):
            shots = options.get("shots")
            if log is not None:
                log.append((len(circuits), shots))
            pv = [[float(x) for x in p] for p in parameter_values] if parameter_values is not None else [[]] * len(circuits)
            if len(pv) != len(circuits):
                raise ValueError(f"{len(pv)} parameter sets for {len(circuits)} circuits")
            out = []
            for qc, d in zip(circuits, distributions(circuits, pv, noise)):
                if device is not None:
                    d = device(qc, d)
                if shots is not None and seed is not None:
                    ks = list(d)
                    p = np.array([d[k] for k in ks])
                    cnt = rng.multinomial(shots, p / p.sum())
                    d = {k: float(c) / shots for k, c in zip(ks, cnt) if c}
                out.append(QuasiDistribution(d))
            return Job(SamplerResult(out, [{} for _ in out]))

    return Exact()


def aer_sampler():
    from qiskit_aer.primitives import Sampler

    return Sampler()


def circuit_wf(cas, c, mol, prim, ansatz, mapping, opts=None, ak=False, states=None, **kw):
    """(wave function, quantum interface)."""
    from slowquant.qiskit_interface.circuit_wavefunction import WaveFunctionCircuit
    from slowquant.qiskit_interface.interface import QuantumInterface
    from slowquant.qiskit_interface.sa_circuit_wavefunction import WaveFunctionSACircuit

    Q = quiet(QuantumInterface, prim, ansatz, mapper(mapping, (cas[0] // 2, cas[0] // 2)), ansatz_options=opts, **kw)
    if states is None:
        return quiet(WaveFunctionCircuit, cas, c, mol, Q, include_active_kappa=ak), Q
    return quiet(WaveFunctionSACircuit, cas, c, mol, states, Q, include_active_kappa=ak), Q


def exact_sampler_v2(log=None, noise=None):
    """A V2 sampler whose (real-valued) counts are the exact probabilities times the number of shots."""
    from qiskit.primitives import BaseSamplerV2

    class Meas:
        def __init__(self, counts):
            self._c = counts

        def get_counts(self):
            return dict(self._c)

    class Data:
        pass

    class Res:
        def __init__(self, counts):
            self.data = Data()
            self.data.meas = Meas(counts)

    class Job:
        def __init__(self, res):
            self._res = res

        def result(self):
            return self._res

    class Exact2(BaseSamplerV2):
        def run(self, pubs, *, shots=None):
            circs = [p[0] for p in pubs]
            vals = [[float(x) for x in p[1]] if len(p) > 1 and p[1] is not None else [] for p in pubs]
            if log is not None:
                log.append((len(circs), shots))
            out = []
            for qc, d in zip(circs, distributions(circs, vals, noise)):
                out.append(Res({format(k, f"0{qc.num_clbits}b"): p * shots for k, p in d.items()}))
            return Job(out)

    return Exact2()


class Scripted:
    """Sampler whose answers are chosen by the caller: answer(number of the circuit since reset) -> distribution."""

    def __new__(cls, answer):
        from qiskit.primitives import BaseSamplerV1, SamplerResult
        from qiskit.result import QuasiDistribution

        class Job:
            def __init__(self, res):
                self._res = res

            def result(self):
                return self._res

        class S(BaseSamplerV1):
            def run(self, circuits, parameter_values=None, **options):
                return self._run(tuple(circuits), parameter_values, **options)

            def _run(self, circuits, parameter_values, **options):
                out = []
                for qc in circuits:
                    out.append(QuasiDistribution(answer(self.count, qc)))
                    self.count += 1
                return Job(SamplerResult(out, [{} for _ in out]))

        s = S()
        s.count = 0
        return s


PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1.0, -1.0])}


def pauli_matrix(label: str):
    m = np.eye(1)
    for ch in label:
        m = np.kron(m, PAULI[ch])
    return m
