"""Generation of wave functions of every kind over random model systems, with dense references."""
from __future__ import annotations

import contextlib

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import ref
from vq.props.p05 import generator

UPS_ANSATZ = [
    ("tUPS", {"n_layers": 1}), ("tUPS", {"n_layers": 2}), ("tUPS", {"n_layers": 1, "skip_last_singles": True}), ("QNP", {"n_layers": 1}), ("QNP", {"n_layers": 2}),
    ("tUPS", {"n_layers": 1, "do_pp": True}), ("fUCCSD", {}), ("kSAfUpCCGSD", {"n_layers": 1}), ("fUCCpD", {}), ("SAfUCCSD", {}), ("SDSfUCCSD", {}), ("kSASDSfUpCCGSD", {}),
    ("fUCC", {"n_layers": 1, "S": True, "D": True, "T": True}), ("fUCC", {"n_layers": 1, "GS": True, "GD": True}), ("fUCC", {"n_layers": 2, "SAS": True, "pD": True}),
    ("fUCC", {"n_layers": 1, "D": True, "Q": True}),
]
SA_ANSATZ = [
    ("tUPS", {"n_layers": 1}), ("tUPS", {"n_layers": 2}), ("QNP", {"n_layers": 1}), ("kSAfUpCCGSD", {}), ("SAfUCCSD", {}), ("kSASDSfUpCCGSD", {}),
    ("fUCC", {"n_layers": 1, "S": True, "D": True}), ("fUCC", {"n_layers": 1, "SAGS": True, "pD": True}), ("fUCC", {"n_layers": 1, "GS": True, "GD": True}),
]
UCC_EXC = ["s", "d", "sd", "SD", "sdt", "sdtq", "dq"]


def spec_strategy(kinds=("ucc", "ups", "sa"), na=(2, 3), ni=(0, 1), nv=(0, 1), max_orb=5, roto=False):
    """Specifications of a wave function; thetas and orbitals come from the seed."""

    def fin(d):
        d["pairs"] = 1 + d["pairs"] % max(1, d["na"] - 1)
        if d["kind"] == "ups":
            d["ansatz"] = UPS_ANSATZ[d["a"] % len(UPS_ANSATZ)]
        elif d["kind"] == "sa":
            d["ansatz"] = SA_ANSATZ[d["a"] % len(SA_ANSATZ)]
        else:
            d["ansatz"] = [UCC_EXC[d["a"] % len(UCC_EXC)], {}]
        d["ansatz"] = [d["ansatz"][0], dict(d["ansatz"][1])]
        if roto and "SAf" in d["ansatz"][0] and "kSA" not in d["ansatz"][0]:
            d["ansatz"] = ["tUPS", {"n_layers": 1}]
        del d["a"]
        return d

    return st.fixed_dictionaries({
        "kind": st.sampled_from(list(kinds)), "ni": st.sampled_from(list(ni)), "na": st.sampled_from(list(na)), "nv": st.sampled_from(list(nv)), "pairs": st.integers(0, 5),
        "a": st.integers(0, 47), "seed": st.integers(0, 10**6), "ak": st.booleans(), "nstates": st.sampled_from([1, 2, 2, 3, 3, 4, 5]), "big": st.booleans(),
    }).map(fin).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= max_orb)


def sa_states(spec, rng):
    """Orthonormal reference states; single determinants, pairs, or general real combinations."""
    na, pairs = spec["na"], spec["pairs"]
    dets = ref.sector(na, pairs, pairs)
    n = min(spec["nstates"], len(dets))
    mode = int(rng.integers(3))
    picks = list(rng.permutation(len(dets)))
    coeffs, strs = [], []
    bits = lambda k: format(dets[k], f"0{2 * na}b")
    if mode == 0 or len(dets) < 2:
        for k in picks[:n]:
            coeffs.append([1.0])
            strs.append([bits(k)])
    elif mode == 1:
        m = min(len(dets), max(2, n))
        q = ref.rand_orth(rng, m)
        for i in range(n):
            coeffs.append([float(x) for x in q[i]])
            strs.append([bits(k) for k in picks[:m]])
    else:
        # disjoint pairs with +-1/sqrt(2), leftovers single
        pool = picks
        while len(coeffs) < n and pool:
            if len(pool) >= 2 + (n - len(coeffs) - 1):
                a, b, *pool = pool
                coeffs.append([2**-0.5, float(rng.choice([-1, 1])) * 2**-0.5])
                strs.append([bits(a), bits(b)])
            else:
                a, *pool = pool
                coeffs.append([1.0])
                strs.append([bits(a)])
    return (coeffs, strs)


def build(spec, mol=None, c=None, thetas=True, zero=()):
    """(wf, mol, rng). Random orbitals and, unless thetas is False, random ansatz parameters."""
    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    rng = ref.rng_of(spec["seed"], 77)
    if mol is None:
        mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs), zero=zero)
    own = ref.rand_orth(rng, n)
    c = own if c is None else c
    name, opts = spec["ansatz"]
    cas = (2 * pairs, na)
    if spec["kind"] == "ucc":
        from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC

        wf = WaveFunctionUCC(cas, c, mol, name, include_active_kappa=spec["ak"])
    elif spec["kind"] == "ups":
        from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

        wf = WaveFunctionUPS(cas, c, mol, name, dict(opts), include_active_kappa=spec["ak"])
    else:
        from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

        wf = WaveFunctionSAUPS(cas, c, mol, sa_states(spec, rng), name, dict(opts), include_active_kappa=spec["ak"])
    wf._vq_c = c  # the caller's array
    if thetas and len(wf.thetas):
        wf.thetas = rand_thetas(spec, wf, rng)
    return wf, mol, rng


def rand_thetas(spec, wf, rng):
    s = 1.2 if spec["big"] else 0.25
    return ref.angles(rng, len(wf.thetas), s)


def layout(wf):
    return wf.ucc_layout if hasattr(wf, "ucc_layout") else wf.ups_layout


def dets_of(wf):
    return [int(d) for d in wf.ci_info.idx2det]


def ref_unitary(wf, thetas=None):
    """Ansatz unitary by matrix exponentials of the textbook generators."""
    dets = dets_of(wf)
    lay = layout(wf)
    th = wf.thetas if thetas is None else thetas
    na = wf.num_active_orbs
    if hasattr(wf, "ucc_layout"):
        T = np.zeros((len(dets), len(dets)))
        for t, kind, idx in zip(th, lay.excitation_operator_type, lay.excitation_indices):
            g = ref.gen_matrix(kind, idx, na)
            T = T + t * ref.restrict(g - g.T, dets)
        return scipy.linalg.expm(T)
    U = np.eye(len(dets))
    for t, kind, idx in zip(th, lay.excitation_operator_type, lay.excitation_indices):
        U = scipy.linalg.expm(t * ref.restrict(generator(kind, idx, na), dets)) @ U
    return U


def states_of(wf):
    c = np.asarray(wf.ci_coeffs)
    return c[None, :] if c.ndim == 1 else c


def ref_H(wf, mol, c=None):
    h, g = ref.mo_ints(mol, wf.c_mo if c is None else c)
    return ref.active_H(h, g, wf.num_inactive_orbs, wf.num_active_orbs, dets_of(wf))


def ref_energy(wf, mol, c=None, states=None):
    H = ref_H(wf, mol, c)
    S = states_of(wf) if states is None else states
    return float(np.mean([s @ H @ s for s in S]))


def kappa_matrix(wf, kappa):
    n = wf.num_orbs
    K = np.zeros((n, n))
    for v, (p, q) in zip(kappa, wf.kappa_idx):
        K[p, q] += v
        K[q, p] -= v
    return K


@contextlib.contextmanager
def intercept_minimize(handler):
    """Replace scipy.optimize.minimize by handler(fun, x0, jac, method, options) while the body runs."""
    import scipy.optimize as so

    import slowquant.unitary_coupled_cluster.optimizers as opt

    orig = so.minimize
    calls = []

    def fake(fun, x0, *a, jac=None, method=None, options=None, **kw):
        calls.append(method)
        return handler(fun, np.array(x0, dtype=float), jac, method, options)

    names = [k for k, v in vars(opt).items() if v is orig]
    so.minimize = fake
    for k in names:
        setattr(opt, k, fake)
    try:
        yield calls
    finally:
        so.minimize = orig
        for k in names:
            setattr(opt, k, orig)
