"""P11: state-averaged wave functions."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vq import ref, wf as W
from vq.core import Component, Property, Skip, close, raises, require


def groups(w, tol=1e-6):
    out, cur = [], [0]
    for i in range(1, len(w)):
        if w[i] - w[i - 1] < tol:
            cur.append(i)
        else:
            out.append(cur)
            cur = [i]
    out.append(cur)
    return out


def make(spec, states, mol, c, rng, thetas=None):
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

    name, opts = spec["ansatz"]
    wf = WaveFunctionSAUPS((2 * spec["pairs"], spec["na"]), c, mol, states, name, dict(opts), include_active_kappa=spec["ak"])
    if len(wf.thetas):
        wf.thetas = W.rand_thetas(spec, wf, rng) if thetas is None else thetas
    return wf


def full_states(na, pairs, vecs):
    dets = ref.sector(na, pairs, pairs)
    co, bs = [], []
    for v in vecs:
        nz = [k for k in range(len(dets)) if abs(v[k]) > 1e-14]
        co.append([float(v[k]) for k in nz])
        bs.append([format(dets[k], f"0{2 * na}b") for k in nz])
    return co, bs


def strat(tier):
    return st.tuples(
        W.spec_strategy(kinds=("sa",), na=(2, 2, 3), ni=(0, 1, 2), nv=(0, 1, 2), max_orb=5), st.sampled_from(["few", "few", "many", "all"]), st.sampled_from([[], [], ["g"]]), st.booleans(),
    ).map(lambda t: {**t[0], "n": t[1], "zero": t[2], "stretch": t[3]})


def spectrum(wf, spec, mol, S):
    C = wf.c_mo
    H = W.ref_H(wf, mol)
    w, v = np.linalg.eigh(S @ H @ S.T)
    vec = v.T @ S
    ni, na = spec["ni"], spec["na"]
    d = mol.intor("int1e_r")
    O = [ref.restrict(ref.one_matrix((C.T @ x @ C)[ni : ni + na, ni : ni + na], na), W.dets_of(wf)) for x in d]
    t = np.array([[vec[i] @ o @ vec[0] for i in range(1, len(w))] for o in O])
    return w, t, d


def one_states(wf, mol, S, O):
    """<n|O|0> and <0|O|n> of the states that diagonalise the Hamiltonian in the ensemble."""
    C, ni, na = wf.c_mo, wf.num_inactive_orbs, wf.num_active_orbs
    w, v = np.linalg.eigh(S @ W.ref_H(wf, mol) @ S.T)
    M = v.T @ S @ ref.restrict(ref.one_matrix((C.T @ O @ C)[ni : ni + na, ni : ni + na], na), W.dets_of(wf)) @ S.T @ v
    return M[:, 0], M[0]


def check(spec):
    na, pairs = spec["na"], spec["pairs"]
    rng = ref.rng_of(spec["seed"], 11)
    n = spec["ni"] + na + spec["nv"]
    mol = ref.model_mole(spec["seed"], n, 2 * (spec["ni"] + pairs), zero=tuple(spec["zero"]))
    c = ref.rand_orth(rng, n)
    dim = len(ref.sector(na, pairs, pairs))
    ns = {"few": min(dim, 1 + spec["nstates"] % 3), "many": min(dim, 4), "all": dim if dim <= 4 else 5}[spec["n"]]
    vecs = ref.rand_orth(rng, dim)[:ns] if spec["stretch"] else np.eye(dim)[rng.permutation(dim)[:ns]]
    wf = make(spec, full_states(na, pairs, vecs), mol, c, rng)
    sec = ref.sector(na, pairs, pairs)
    S0 = vecs[:, [sec.index(x) for x in W.dets_of(wf)]]
    for step in range(int(rng.integers(1, 4))):
        if step:
            # a history: everything read before belongs to other parameters or orbitals
            what = int(rng.integers(5))
            if what in (0, 1) and len(wf.kappa):
                k = np.array(wf.kappa)
                k[rng.integers(len(k))] += 0.3 if what == 0 else 10.0 ** -rng.integers(3, 6)
                wf.kappa = [float(x) for x in k]
            elif len(wf.thetas):
                t = np.array(wf.thetas)
                t[rng.integers(len(t))] += (0.4, 1e-4, 2 * np.pi)[what % 3]
                wf.thetas = [float(x) for x in t]
        S = S0 @ W.ref_unitary(wf).T
        close(W.states_of(wf), S, "state vectors", 1e-9)
        w, t, d = spectrum(wf, spec, mol, S)
        order = rng.permutation(4) if step == 0 or rng.integers(2) else rng.permutation(4)[:2]
        for k in order:
            if k == 0:
                close(wf.energy_states, w, f"state energies (update {step})", 1e-9)
            elif k == 1:
                close(wf.sa_energy, np.mean(w), f"state-averaged energy is the mean of the state energies (update {step})", 1e-9)
            elif k == 2:
                close(wf.excitation_energies, w[1:] - w[0], f"excitation energies (update {step})", 1e-9)
            else:
                gr = groups(w)
                if len(gr[0]) > 1 or len(w) < 2:
                    continue
                got = np.array([wf.get_transition_property(x) for x in d])
                osc = wf.get_oscillator_strenghts()
                if int(rng.integers(2)):
                    # integrals of a one-electron operator need not be symmetric (momentum, angular momentum)
                    O = rng.normal(size=(n, n))
                    O = O - O.T if int(rng.integers(2)) else O
                    pv = np.asarray(wf.get_transition_property(O))
                    x = one_states(wf, mol, S, O)
                    ok = [all(abs(float(np.sum(pv[[j - 1 for j in g]] ** 2) - np.sum(y[g] ** 2))) < 1e-6 * (1 + np.sum(y**2)) for g in gr[1:]) for y in x]
                    require(any(ok), f"transition property for non-symmetric integrals (update {step}): {pv}, expected {x[0][1:]} or {x[1][1:]} up to signs")
                for g in gr[1:]:
                    i = [j - 1 for j in g]
                    close(got[:, i] @ got[:, i].T, t[:, i] @ t[:, i].T, f"transition strength of states {g} (update {step})", 1e-6)
                    close(np.sum(osc[i]), np.sum(2 / 3 * (w[[j + 1 for j in i]] - w[0]) * (t[:, i] ** 2).sum(0)), f"oscillator strength of states {g} (update {step})", 1e-6)
    full = np.linalg.eigvalsh(W.ref_H(wf, mol))
    require(np.all(wf.energy_states >= full[: len(w)] - 1e-8), "a state energy lies below the exact one of the same rank")
    # the ensemble does not depend on how its span is written
    if ns > 1:
        wf2 = make(spec, full_states(na, pairs, ref.rand_orth(rng, ns) @ vecs), mol, wf.c_mo, rng, thetas=wf.thetas if len(wf.thetas) else None)
        close(wf2.sa_energy, wf.sa_energy, "state-averaged energy after mixing the reference states", 1e-9)
        close(wf2.energy_states, wf.energy_states, "state energies after mixing the reference states", 1e-9)
        close(wf2.rdm1, wf.rdm1, "averaged 1-RDM after mixing the reference states", 1e-9)
        close(wf2.rdm2, wf.rdm2, "averaged 2-RDM after mixing the reference states", 1e-9)
    return f"{spec['ansatz'][0]}:{ns}" + (":degenerate" if len(groups(w)) < ns else "") if ns > 1 and len(wf.thetas) else None


def strat_opt(tier):
    return st.tuples(W.spec_strategy(kinds=("sa",), na=(2, 2, 3), ni=(0, 1), nv=(0, 1), max_orb=4), st.booleans(), st.sampled_from(["bfgs", "slsqp", "l-bfgs-b"])).map(lambda t: {**t[0], "oo": t[1], "opt": t[2]})


def check_opt(spec):
    """After an optimisation the states diagonalise the Hamiltonian in the span of the optimised ensemble."""
    wf, mol, rng = W.build(spec)
    if not len(wf.thetas):
        raise Skip
    S0 = W.states_of(wf) @ W.ref_unitary(wf)
    if rng.integers(2):
        wf.energy_states
    wf.run_wf_optimization_1step(spec["opt"], spec["oo"] and len(wf.kappa) > 0, maxiter=int(rng.integers(1, 6)))
    S = S0 @ W.ref_unitary(wf).T
    w, t, d = spectrum(wf, spec, mol, S)
    close(wf.energy_states, w, "state energies after optimisation", 1e-8)
    close(wf.sa_energy, np.mean(w), "state-averaged energy after optimisation", 1e-7)
    if len(w) > 1 and np.min(np.diff(w)) > 1e-4:
        close(wf.get_oscillator_strenghts(), 2 / 3 * (w[1:] - w[0]) * (t**2).sum(0), "oscillator strengths after optimisation", 1e-6)
    return f"{spec['ansatz'][0]}:{len(w)}" if len(w) > 1 else None


def strat_ref(tier):
    return st.tuples(W.spec_strategy(kinds=("sa",), na=(2, 3), ni=(0, 1), nv=(0, 1), max_orb=4), st.sampled_from(["norm", "norm", "overlap", "overlap", "overlap", "twice", "length", "count", "electrons", "ansatz", "pp", "cas"])).map(lambda t: {**t[0], "bad": t[1]})


def check_ref(spec):
    na, pairs = spec["na"], spec["pairs"]
    rng = ref.rng_of(spec["seed"], 13)
    n = spec["ni"] + na + spec["nv"]
    mol = ref.model_mole(spec["seed"], n, 2 * (spec["ni"] + pairs))
    c = ref.rand_orth(rng, n)
    dim = len(ref.sector(na, pairs, pairs))
    vecs = ref.rand_orth(rng, dim)[: int(rng.integers(2, min(dim, 4) + 1))]
    i, j = (int(x) for x in rng.permutation(len(vecs))[:2])
    bad = spec["bad"]
    sp = dict(spec)
    eps = float(10.0 ** rng.uniform(-8, -0.3)) * float(rng.choice([-1, 1]))
    if bad == "norm":
        vecs[i] *= 1 + eps
    elif bad == "overlap":
        vecs[i] += eps * vecs[j]
        vecs[i] /= np.linalg.norm(vecs[i])
    elif bad == "twice":
        vecs[i] = vecs[j] * rng.choice([-1, 1])
    co, bs = full_states(na, pairs, vecs)
    if bad == "length":
        bs[i] = [b + "0" for b in bs[i]] if rng.integers(2) else [b[:-1] for b in bs[i]]
    elif bad == "count":
        co[i] = co[i][:-1] if rng.integers(2) else co[i] + [0.0]
    elif bad == "electrons":
        m = int(rng.integers(len(bs[i])))
        b = list(bs[i][m])
        k = int(rng.integers(len(b)))
        b[k] = "1" if b[k] == "0" else "0"
        bs[i][m] = "".join(b)
    elif bad == "ansatz":
        sp["ansatz"] = ["tUPSS", {}]
    elif bad == "pp":
        sp["ansatz"] = ["tUPS", {"n_layers": 1, "do_pp": True}]
    if bad == "cas":
        from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

        raises(lambda: WaveFunctionSAUPS((2 * pairs,), c, mol, (co, bs), "tUPS", {"n_layers": 1}), ValueError, "an active space of one number")
        return bad
    raises(lambda: make(sp, (co, bs), mol, c, rng), (ValueError, KeyError), f"ensemble with {bad} problem (size {eps:.1e})")
    return bad


PROPERTY = Property(
    "P11",
    "Random ensembles (single determinants, general combinations, up to the whole space, degenerate spectra), Hamiltonians and ansatz parameters. Non-trivial: at least two states and ansatz parameters; for refusals every case.",
    [
        Component("spectrum", strat, check, "energies, excitation energies, transition strengths and oscillator strengths of the ensemble against dense diagonalisation in its span; interlacing; invariance to mixing", quick=30, thorough=300, shards=5, budget=45),
        Component("optimised", strat_opt, check_opt, "the same after optimisations", quick=16, thorough=150, shards=2, budget=45),
        Component("refusals", strat_ref, check_ref, "non-orthonormal, mis-sized or inconsistent ensembles are refused", quick=100, thorough=400, shards=1, budget=45),
    ],
    ["transition strengths are compared per degenerate group, when the lowest state is non-degenerate"],
)
