"""P07: reduced density matrices and energies."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vq import ref, wf as W
from vq.core import Component, Property, close, require


def strat12(tier):
    return W.spec_strategy(na=(2, 2, 3, 3, 4), ni=(0, 1, 2, 3), nv=(0, 1, 2), max_orb=6)


def check12(spec):
    wf, mol, rng = W.build(spec)
    S = W.states_of(wf)
    dets = W.dets_of(wf)
    na, ni = spec["na"], spec["ni"]
    g1 = np.mean([ref.rdms(s, s, na, dets, 1) for s in S], axis=0)
    g2 = np.mean([ref.rdms(s, s, na, dets, 2) for s in S], axis=0)
    order = rng.integers(2)
    if order:
        close(wf.rdm2, g2, "two-electron RDM", 1e-9)
        close(wf.rdm1, g1, "one-electron RDM", 1e-9)
    else:
        close(wf.rdm1, g1, "one-electron RDM", 1e-9)
        close(wf.rdm2, g2, "two-electron RDM", 1e-9)
    nel = 2 * spec["pairs"]
    close(np.trace(wf.rdm1), nel, "trace of the one-electron RDM", 1e-9)
    occ = np.linalg.eigvalsh(wf.rdm1)
    require(occ.min() > -1e-9 and occ.max() < 2 + 1e-9, f"natural occupation numbers {occ}")
    close(np.einsum("pqrr->pq", wf.rdm2), (nel - 1) * wf.rdm1, "partial trace of the two-electron RDM", 1e-9)
    # energies
    H = W.ref_H(wf, mol)
    want = float(np.mean([s @ H @ s for s in S]))
    got = wf.sa_energy if spec["kind"] == "sa" else wf.energy_elec
    close(got, want, "electronic energy", 1e-9)
    h, g = ref.mo_ints(mol, wf.c_mo)
    close(wf.h_mo, h, "one-electron integrals", 1e-9)
    close(wf.g_mo, g, "two-electron integrals", 1e-9)
    from slowquant.unitary_coupled_cluster.density_matrix import RDM1, RDM2, get_electronic_energy

    close(get_electronic_energy(wf.h_mo, wf.g_mo, ni, na, wf.rdm1, wf.rdm2), want, "energy from density matrices", 1e-9)
    # full-space density matrices
    n = ni + na + spec["nv"]
    if n <= 4 or (n <= 6 and na == 2):
        fdets = ref.embed_dets(dets, ni, na, spec["nv"])
        F1 = np.mean([ref.rdms(s, s, n, fdets, 1) for s in S], axis=0)
        F2 = np.mean([ref.rdms(s, s, n, fdets, 2) for s in S], axis=0)
        G1 = np.array([[RDM1(p, q, ni, na, wf.rdm1) for q in range(n)] for p in range(n)], dtype=float)
        close(G1, F1, "full-space one-electron RDM", 1e-9)
        G2 = np.array([[[[RDM2(p, q, r, s, ni, na, wf.rdm1, wf.rdm2) for s in range(n)] for r in range(n)] for q in range(n)] for p in range(n)], dtype=float)
        close(G2, F2, "full-space two-electron RDM", 1e-9)
    return f"{spec['kind']}:{spec['ansatz'][0]}" if len(wf.thetas) else None


def strat34(tier):
    return st.tuples(W.spec_strategy(kinds=("ucc", "ups"), na=(2, 3, 3, 3, 4), ni=(0, 0, 1, 2), nv=(0, 1), max_orb=6), st.permutations([1, 2, 3, 4]), st.integers(0, 3)).map(
        # one electron pair has no three- and four-electron density matrix
        lambda t: {**t[0], "pairs": max(t[0]["pairs"], min(2, t[0]["na"] - 1)) if t[2] else t[0]["pairs"], "order": list(t[1]), "skip4": t[0]["seed"] % 4 != 0}
    )


def check34(spec):
    wf, mol, rng = W.build(spec)
    s = W.states_of(wf)[0]
    dets = W.dets_of(wf)
    for k in spec["order"]:
        if k == 4 and spec["na"] > 3 and spec["skip4"]:
            continue
        close(getattr(wf, f"rdm{k}"), ref.rdms(s, s, spec["na"], dets, k), f"{k}-electron RDM", 1e-9)
    return f"{spec['kind']}:{spec['ansatz'][0]}" if len(wf.thetas) and spec["pairs"] > 1 else None


PROPERTY = Property(
    "P07",
    "Random Hamiltonians, active spaces, ansaetze, ansatz parameters (and state-averaged ensembles). Non-trivial: the ansatz has parameters (for three and four electrons: at least four electrons too).",
    [
        Component("one_two", strat12, check12, "1- and 2-RDMs, full-space density matrices, energy three ways", quick=60, thorough=500, shards=5, budget=60),
        Component("three_four", strat34, check34, "3- and 4-RDMs against ladder-operator strings", quick=45, thorough=300, shards=3, budget=60),
    ],
    ["CI coefficients reported by the wave function are the state (decided by P05 and P09)"],
)
