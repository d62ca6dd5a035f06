"""P20: state-averaged circuit wave functions agree with the dense model through any history."""
from __future__ import annotations

import copy

import numpy as np
from hypothesis import strategies as st

from vq import qi, ref, wf as W
from vq.core import Component, Property, Skip, close, raises, require
from vq.props.p08 import Model
from vq.props.p11 import groups
from vq.props.p16 import detour, grab

ANS = [("tUPS", {"n_layers": 1}), ("QNP", {"n_layers": 1}), ("kSAfUpCCGSD", {"n_layers": 1}), ("tUPS", {"n_layers": 1, "skip_last_singles": True}), ("fUCC", {"n_layers": 1, "S": True, "D": True}), ("fUCC", {"n_layers": 1, "pD": True, "SAS": True}), ("kSASDSfUpCCGSD", {"n_layers": 1})]


def spec_st(extra, na=(2, 2, 3), max_orb=5, ns=(1, 2, 2, 3)):
    def fin(d):
        d["pairs"] = 1 + d["pairs"] % max(1, d["na"] - 1)
        return d

    return st.fixed_dictionaries({
        "ni": st.sampled_from([0, 1, 2]), "na": st.sampled_from(list(na)), "nv": st.sampled_from([0, 1, 2]), "pairs": st.integers(0, 5), "a": st.integers(0, 10**4), "nstates": st.sampled_from(list(ns)), "seed": st.integers(0, 10**6), "ak": st.booleans(), **extra,
    }).map(fin).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= max_orb)


def build(spec):
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    name, opts = ANS[spec["a"] % len(ANS)]
    rng = ref.rng_of(spec["seed"], 20)
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    c = ref.rand_orth(rng, n)
    states = W.sa_states(spec, rng)
    if spec.get("single"):
        dets = ref.sector(na, pairs, pairs)
        states = ([[1.0] for _ in states[0]], [[format(dets[k], f"0{2 * na}b")] for k in rng.permutation(len(dets))[: len(states[0])]])
    cas = (2 * pairs, na)
    sa = qi.quiet(WaveFunctionSAUPS, cas, c.copy(), mol, states, name, dict(opts), include_active_kappa=spec["ak"])
    if not len(sa.thetas):
        raise Skip
    given, mine, mine_st = copy.deepcopy(mol), c.copy(), ([list(x) for x in states[0]], [list(x) for x in states[1]])
    wf, Q = qi.circuit_wf(cas, mine, given, qi.exact_sampler(), name, "jw", dict(opts), spec["ak"], states=mine_st)
    wf._vq_mine = (given, mine, mine_st)
    require([tuple(x) for x in wf.kappa_idx] == [tuple(x) for x in sa.kappa_idx], "orbital rotations of the circuit wave function")
    require(len(wf.thetas) == len(sa.thetas), f"{len(wf.thetas)} circuit parameters, {len(sa.thetas)} classical ones")
    return wf, Q, Model(sa, mol), sa, mol, rng, f"{name}{opts}"


def observe(wf, M, what, which):
    S = M.states()
    H = W.ref_H(M.wf, M.mol, M.C)
    w, v = np.linalg.eigh(S @ H @ S.T)
    dets, na, ni = W.dets_of(M.wf), wf.num_active_orbs, wf.num_inactive_orbs
    if which == "energy":
        close(float(wf.sa_energy), float(np.mean(w)), f"averaged energy {what}", 1e-9)
    elif which == "states":
        close(np.asarray(wf.energy_states), w, f"state energies {what}", 1e-9)
        close(np.asarray(wf.excitation_energies), w[1:] - w[0], f"excitation energies {what}", 1e-9)
    elif which == "c_mo":
        close(wf.c_mo, M.C, f"orbitals {what}", 1e-10)
        close(np.array(wf.thetas), np.array(M.th), f"parameters {what}", 1e-13)
    elif which.startswith("rdm"):
        want = np.mean([ref.rdms(s, s, na, dets, int(which[3])) for s in S], axis=0)
        close(getattr(wf, which), want, f"{which} {what}", 1e-9)
    elif which in ("osc", "trans"):
        gr = groups(w)
        if len(gr[0]) > 1 or len(w) < 2:
            return
        vec = v.T @ S
        d = M.mol.intor("int1e_r")
        O = [ref.restrict(ref.one_matrix((M.C.T @ x @ M.C)[ni : ni + na, ni : ni + na], na), dets) for x in d]
        t = np.array([[vec[i] @ o @ vec[0] for i in range(1, len(w))] for o in O])
        if which == "trans":
            got = np.array([qi.quiet(wf.get_transition_property, x) for x in d])
        else:
            osc = np.asarray(qi.quiet(wf.get_oscillator_strenghts))
        for g in gr[1:]:
            i = [j - 1 for j in g]
            if which == "trans":
                close(got[:, i] @ got[:, i].T, t[:, i] @ t[:, i].T, f"transition moments {what}", 1e-7)
            else:
                close(np.sum(osc[i]), np.sum(2 / 3 * (w[[j + 1 for j in i]] - w[0]) * (t[:, i] ** 2).sum(0)), f"oscillator strengths {what}", 1e-7)


OPS = ["theta", "theta", "one", "same", "kappa", "kappa", "prim", "noisy", "noisy", "isa", "shots", "grad", "mutate"]
OBS = ["energy", "states", "rdm1", "rdm2", "osc", "c_mo", "trans"]


SMALL = ["tiny_kappa", "tiny_kappa", "creep", "tiny_theta", "turn", "one_kappa"]


def strat_hist(tier):
    ob = st.sampled_from(OBS)
    op = st.tuples(st.sampled_from(OPS), ob, ob) | st.tuples(st.sampled_from(OPS), ob, ob) | st.tuples(st.sampled_from(SMALL), ob, ob)
    return spec_st({"ops": st.lists(op, min_size=1, max_size=4 if tier == "quick" else 7)})


def check_hist(spec):
    wf, Q, M, sa, mol, rng, name = build(spec)
    nt, nk = len(wf.thetas), len(wf.kappa)
    name = f"{name} with {spec['nstates']} states"
    observe(wf, M, f"of a fresh {name}", OBS[spec["seed"] % len(OBS)])
    hist = []
    for op, o1, o2 in spec["ops"]:
        if op in SMALL:
            # read before and after a small change
            observe(wf, M, f"of {name} after {','.join(hist)}", o1)
        hist.append(op)
        what = f"of {name} after {','.join(hist)}"
        if op == "theta":
            th = ref.angles(rng, nt, 1.2)
            wf.thetas = th
            M.move(thetas=th)
        elif op == "one":
            th = wf.thetas
            k = int(rng.integers(nt))
            th[k] = float(th[k] + rng.uniform(0.2, 0.9))
            wf.thetas = th
            M.th[k] = th[k]
        elif op == "same":
            wf.thetas = wf.thetas
        elif op in ("tiny_kappa", "one_kappa") and nk:
            k = list(M.kap)
            j = int(rng.integers(nk))
            k[j] += 10.0 ** -int(rng.integers(3, 8)) if op == "tiny_kappa" and (rng.integers(2) or not k[j]) else k[j] * 7e-6 if op == "tiny_kappa" else 0.3
            wf.kappa = list(k)
            M.move(kappa=k)
        elif op == "creep" and nk:
            k = list(M.kap)
            for _ in range(40):
                k = [x + 8e-9 for x in k]
                wf.kappa = list(k)
                M.move(kappa=k)
        elif op == "tiny_theta":
            th = list(M.th)
            j = int(rng.integers(nt))
            th[j] += 10.0 ** -int(rng.integers(3, 8)) if rng.integers(2) or not th[j] else th[j] * 7e-6
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "turn":
            th = list(M.th)
            th[int(rng.integers(nt))] += float(rng.choice([-2, 2, 4]) * np.pi)
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "mutate":
            t = wf.thetas
            t[0] += 0.37
            k = wf.kappa
            if k:
                k[0] += 0.2
            # the caller goes on to use what was handed in
            given, mine, mine_st = wf._vq_mine
            for key in ("int1e_kin", "int1e_nuc", "int2e", "int1e_r"):
                given._vq[key] *= 1.1
            mine[:] = np.roll(mine, 1, axis=1) * 1.1
            mine_st[0][0][0] *= -1.2
        elif op == "kappa" and nk:
            k = ref.turns(rng, nk, 0.4)
            wf.kappa = k
            M.move(kappa=k)
        elif op == "prim":
            qi.quiet(wf.change_primitive, qi.exact_sampler())
        elif op == "noisy":
            detour(wf, rng, ["sa_energy", "energy_states", "excitation_energies", "rdm1", "rdm2", "get_oscillator_strenghts"])
            # what depends on the mixing of the states comes first as often as not
            for o in rng.permutation(["osc", "trans"]).tolist()[: int(rng.integers(3))] + rng.permutation(["energy", "states", "rdm1", "rdm2"]).tolist()[:3]:
                observe(wf, M, what, o)
        elif op == "isa":
            qi.quiet(setattr, Q, "ISA", not Q.ISA) if wf.num_active_orbs == 2 else None
        elif op == "shots":
            qi.quiet(setattr, Q, "shots", None)
        elif op == "grad":
            if nt > 6:
                continue
            oo = bool(rng.integers(2)) and nk > 0
            x = np.concatenate([np.array(wf.kappa) + rng.uniform(-0.3, 0.3, nk), rng.uniform(-1, 1, nt)]) if oo else rng.uniform(-1, 1, nt)
            M.move(x[:nk] if oo else None, x[nk:] if oo else x)
            e, g = grab(wf, oo, [x], rng)[0]
            close(e, M.energy(), f"objective {what}", 1e-9)
            if oo:
                close(g[:nk], M.grad_kappa(), f"orbital gradient {what}", 1e-7)
            close(g[-nt:], M.grad_theta(), f"ansatz gradient {what}", 1e-7)
            M.kap = np.array(wf.kappa, dtype=float)
        observe(wf, M, what, o1)
        if o2 != o1:
            observe(wf, M, what, o2)
    return f"{ANS[spec['a'] % len(ANS)][0]}:{spec['nstates']}:{len(set(hist))}" if spec["nstates"] > 1 else None


def strat_dev(tier):
    return spec_st({"first": st.permutations(["states", "osc", "trans", "energy", "rdm1", "rdm2"]), "then": st.permutations(["osc", "trans", "states", "energy", "rdm1", "rdm2"])}, na=(2,), max_orb=4, ns=(2, 2, 3))


def check_dev(spec):
    """Nothing measured on one device survives the change to another one."""
    wf, Q, M, sa, mol, rng, name = build(spec)
    th = ref.angles(rng, len(wf.thetas), 1.2)
    wf.thetas = th
    M.move(thetas=th)
    k = int(rng.integers(3))
    for o in spec["first"][:k]:
        observe(wf, M, f"of {name}", o)
    detour(wf, rng, ["sa_energy", "energy_states", "excitation_energies", "rdm1", "rdm2", "get_oscillator_strenghts"])
    for o in spec["then"][:4]:
        observe(wf, M, f"of {name} back on the exact device after {','.join(spec['first'][:k])} and a distorted one", o)
    return f"{name}:{spec['then'][0]}"


def strat_opt(tier):
    return spec_st({"opt": st.sampled_from(["slsqp", "l-bfgs-b", "bfgs", "cobyla", "rotosolve", "RotoSolve"]), "steps": st.sampled_from([1, 2]), "oo": st.booleans(), "maxiter": st.sampled_from([1, 2, 4]), "prerot": st.booleans(), "single": st.sampled_from([True, True, False])}, na=(2,), max_orb=4, ns=(2, 2, 3))


def check_opt(spec):
    wf, Q, M, sa, mol, rng, name = build(spec)
    opt, oo = spec["opt"], spec["oo"]
    nt, nk = len(wf.thetas), len(wf.kappa)
    if nt > 5 or (spec["steps"] == 1 and opt.lower() == "rotosolve" and oo and nk):
        raise Skip
    th = ref.angles(rng, nt, 1)
    wf.thetas = th
    M.move(thetas=th)
    if spec["prerot"] and nk:
        k = ref.turns(rng, nk, 0.3)
        wf.kappa = k
        M.move(kappa=k)
    e0 = M.energy()
    what = f"{opt} on {name} ({spec['steps']}-step, orbitals {oo}, {spec['maxiter']} iterations)"
    maxiter = spec["maxiter"] * (3 if opt == "cobyla" else 1)
    if spec["steps"] == 1:
        qi.quiet(wf.run_wf_optimization_1step, opt, oo, maxiter=maxiter)
    else:
        qi.quiet(wf.run_wf_optimization_2step, opt, oo, maxiter=min(maxiter, 3), is_silent_subiterations=bool(spec["seed"] % 2))
    C0 = M.C
    M.C, M.th, M.kap = np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)
    e = M.energy()
    order = list(rng.permutation(["energy", "states", "rdm1", "osc"]))
    for o in order:
        if o == "energy":
            close(float(wf.sa_energy), e, f"averaged energy reported after {what} against that of the states left behind", 1e-8)
        else:
            observe(wf, M, f"after {what}", o)
    if not oo:
        close(M.C, C0, f"orbitals after {what}", 1e-12)
    if not (oo and nk and opt == "cobyla" and spec["steps"] == 1):
        require(e <= e0 + 1e-8 * (1 + abs(e0)), f"{what} raised the averaged energy from {e0:.9f} to {e:.9f}")
    close(M.C.T @ M.C, np.eye(len(M.C)), f"orthonormality after {what}", 1e-9)
    return f"{opt.lower()}:{spec['steps']}:{oo}"


def strat_cust(tier):
    return spec_st({"ops": st.lists(st.sampled_from(["theta", "theta", "kappa", "prim", "cobyla", "cobyqa", "refused"]), min_size=1, max_size=3), "gates": st.integers(2, 10), "reads": st.permutations(["energy", "states", "rdm1", "rdm2", "trans"])}, na=(2,), max_orb=4, ns=(1, 2, 3))


def check_cust(spec):
    """A real circuit of the user's own acting on every state of the ensemble."""
    from qiskit.circuit import Parameter, QuantumCircuit
    from qiskit.quantum_info import Operator

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n, nq = ni + na + nv, 2 * na
    rng = ref.rng_of(spec["seed"], 203)
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    pars = [Parameter(str(x)) for x in rng.permutation(["t", "b10", "b2"])[: int(rng.integers(1, 4))]]
    qc, todo = QuantumCircuit(nq), list(pars)
    for _ in range(max(spec["gates"], len(pars))):
        p = todo.pop() if todo else pars[int(rng.integers(len(pars)))] if rng.integers(3) == 0 else float(rng.uniform(-2, 2))
        a, b = (int(x) for x in rng.permutation(nq)[:2])
        [lambda: qc.ry(p, a), lambda: qc.cry(p, a, b), lambda: (qc.cx(a, b), qc.cry(p, b, a), qc.cx(a, b)), lambda: (qc.h(a), qc.ry(p, b), qc.cz(a, b))][int(rng.integers(4))]()
    states = W.sa_states(spec, rng)
    c = ref.rand_orth(rng, n)
    wf, Q = qi.circuit_wf((2 * pairs, na), c, mol, qi.exact_sampler(), qc.copy(), "jw", None, spec["ak"], states=states)
    nt, nk = len(wf.thetas), len(wf.kappa)
    require(nt == len(pars), f"{nt} parameters for a circuit with {len(pars)}")
    dets = list(range(4**na))
    V = np.zeros((len(states[0]), 4**na))
    for k, (cs, ds) in enumerate(zip(*states)):
        for x, d in zip(cs, ds):
            V[k, int(d, 2)] += x
    idx = [qi.qindex(d, na, "jw") for d in dets]

    class Real(Model):
        def __init__(self):
            self.wf, self.mol, self.C, self.th, self.kap = wf, mol, np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)

        def states(self, th=None):
            U = Operator(qc.assign_parameters([float(x) for x in self.th])).data
            require(np.max(np.abs(U.imag)) < 1e-9, "harness: the circuit is not real")
            full = np.zeros((len(V), 4**na))
            for j, (i, s) in enumerate(idx):
                full[:, i] += s * V[:, j]
            out = full @ U.real.T
            return np.array([[s * row[i] for i, s in idx] for row in out])

        def hamiltonian(self):
            h, g = ref.mo_ints(mol, self.C)
            return ref.active_H(h, g, ni, na, dets)

        def energy(self):
            S = self.states()
            return float(np.mean(np.diag(S @ self.hamiltonian() @ S.T)))

    M = Real()

    def observe(what, which):
        S = M.states()
        w, v = np.linalg.eigh(S @ M.hamiltonian() @ S.T)
        if which == "energy":
            close(float(wf.sa_energy), float(np.mean(w)), f"averaged energy {what}", 1e-9)
        elif which == "states":
            close(np.asarray(wf.energy_states), w, f"state energies {what}", 1e-9)
        elif which.startswith("rdm"):
            close(getattr(wf, which), np.mean([ref.rdms(s, s, na, dets, int(which[3])) for s in S], axis=0), f"{which} {what}", 1e-9)
        elif len(w) > 1 and np.min(np.diff(w)) > 1e-4:
            vec, d = v.T @ S, mol.intor("int1e_r")[1]
            O = ref.restrict(ref.one_matrix((M.C.T @ d @ M.C)[ni : ni + na, ni : ni + na], na), dets)
            O = O + 2 * np.trace((M.C.T @ d @ M.C)[:ni, :ni]) * np.eye(len(dets))
            got = np.abs(qi.quiet(wf.get_transition_property, d))
            close(got, np.abs([vec[i] @ O @ vec[0] for i in range(1, len(w))]), f"transition moments {what}", 1e-7)

    hist = []
    for op in spec["ops"]:
        hist.append(op)
        what = f"of a custom circuit on {len(V)} states after {','.join(hist)}"
        if op == "theta":
            th = ref.angles(rng, nt, 2)
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "kappa" and nk:
            k = ref.turns(rng, nk, 0.4)
            wf.kappa = k
            M.move(kappa=k)
        elif op == "prim":
            qi.quiet(wf.change_primitive, qi.exact_sampler())
        elif op == "refused":
            o = ["bfgs", "slsqp", "rotosolve", "l-bfgs-b"][int(rng.integers(4))]
            f = wf.run_wf_optimization_1step if rng.integers(2) else wf.run_wf_optimization_2step
            raises(lambda: qi.quiet(f, o, False, maxiter=1), (ValueError,), f"{o} on a custom circuit")
        elif op in ("cobyla", "cobyqa"):
            e0 = M.energy()
            oo, two = bool(rng.integers(2)), bool(rng.integers(2))
            qi.quiet(wf.run_wf_optimization_2step if two else wf.run_wf_optimization_1step, op, oo, maxiter=2 if two else 10)
            M.C, M.th, M.kap = np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)
            e = M.energy()
            if two or not (oo and nk):
                require(e <= e0 + 1e-8 * (1 + abs(e0)), f"{op} raised the averaged energy from {e0:.9f} to {e:.9f} {what}")
        for o in spec["reads"][: 1 + len(hist) % 3]:
            observe(what, o)
    return f"{len(V)}:{len(set(hist))}" if len(V) > 1 else None


def strat_conv(tier):
    return spec_st({"kap": st.booleans(), "obs": st.lists(st.sampled_from(OBS), min_size=1, max_size=3, unique=True), "touch": st.booleans(), "shots": st.sampled_from([None, None, 4000, 7000])})


def check_conv(spec):
    """Conversion of a classical state-averaged wave function preserves it, and the two stay independent."""
    from slowquant.qiskit_interface.circuit_wavefunction_from_ups import circuit_wavefunction_from_ups
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    name, opts = ANS[spec["a"] % len(ANS)]
    rng = ref.rng_of(spec["seed"], 202)
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    sa = qi.quiet(WaveFunctionSAUPS, (2 * pairs, na), ref.rand_orth(rng, n), mol, W.sa_states(spec, rng), name, dict(opts), include_active_kappa=spec["ak"])
    nt, nk = len(sa.thetas), len(sa.kappa)
    if not nt:
        raise Skip
    M = Model(sa, mol)
    if spec["seed"] % 5:
        sa.thetas = ref.angles(rng, nt, 1)
    if spec["kap"] and nk:
        sa.kappa = ref.turns(rng, nk, 0.4)
    M = Model(sa, mol)
    wf = qi.quiet(circuit_wavefunction_from_ups, sa, qi.exact_sampler(), qi.mapper("jw", (pairs, pairs)))
    what = f"of {name} {opts} with {spec['nstates']} states, converted"
    close(np.array(wf.thetas), np.array(M.th), f"parameters {what}", 0)
    require([tuple(x) for x in wf.kappa_idx] == [tuple(x) for x in sa.kappa_idx], f"orbital rotations {what}")
    close(float(wf.sa_energy), float(sa.sa_energy), f"averaged energy {what}", 1e-9)
    for o in spec["obs"]:
        observe(wf, M, what, o)
    if spec["touch"]:
        e, c = float(sa.sa_energy), np.array(sa.c_mo)
        old = list(sa.thetas)
        wf.thetas = [x + 0.3 for x in wf.thetas]
        if nk:
            wf.kappa = [0.2] * nk
        sa.thetas = sa.thetas
        close(np.array(sa.thetas), np.array(old), f"classical parameters after an update {what}", 0)
        close(sa.c_mo, c, f"classical orbitals after an update {what}", 0)
        close(float(sa.sa_energy), e, f"classical energy after an update {what}", 1e-10)
        M.move(thetas=[x + 0.3 for x in old])
        M.kap = np.zeros(nk)
        if nk:
            M.move(kappa=[0.2] * nk)
        for o in ["energy"] + spec["obs"]:
            observe(wf, M, f"{what} and then updated", o)
        # and the other way around
        e, c = float(wf.sa_energy), np.array(wf.c_mo)
        sa.thetas = [x - 0.2 for x in old]
        if nk:
            sa.kappa = [x - 0.1 for x in sa.kappa]
        wf.thetas = wf.thetas
        close(wf.c_mo, c, f"circuit orbitals after an update of the classical wave function {what}", 0)
        close(float(wf.sa_energy), e, f"circuit energy after an update of the classical wave function {what}", 1e-10)
    if spec["shots"]:
        # everything that was asked for the device reaches it
        log = []
        wf = qi.quiet(circuit_wavefunction_from_ups, sa, qi.exact_sampler(log=log), qi.mapper("jw", (pairs, pairs)), shots=spec["shots"], max_shots_per_run=8000)
        Q = wf.QI
        require(Q.shots == spec["shots"] and Q.max_shots_per_run == 8000, f"{Q.shots} shots in runs of {Q.max_shots_per_run} {what}, asked for {spec['shots']} in runs of 8000")
    return f"{name}:{spec['nstates']}" if spec["nstates"] > 1 else None


def strat_pp(tier):
    return spec_st({"mode": st.sampled_from(["pp", "odd", "cas"])}, na=(2,), max_orb=4)


def check_refuse(spec):
    """Perfect pairing, odd electron numbers and malformed spaces are refused."""
    from slowquant.qiskit_interface.interface import QuantumInterface
    from slowquant.qiskit_interface.sa_circuit_wavefunction import WaveFunctionSACircuit

    n, na, pairs = spec["ni"] + 2 + spec["nv"], 2, 1
    rng = ref.rng_of(spec["seed"], 201)
    mol = ref.model_mole(spec["seed"], n, 2 * (spec["ni"] + pairs))
    opts = {"n_layers": 1, "do_pp": True} if spec["mode"] == "pp" else {"n_layers": 1}
    Q = qi.quiet(QuantumInterface, qi.exact_sampler(), "tUPS", qi.mapper("jw", (1, 1)), ansatz_options=opts)
    cas = {"pp": (2, 2), "odd": (1, 2), "cas": (2, 2, 1)}[spec["mode"]]
    raises(lambda: qi.quiet(WaveFunctionSACircuit, cas, ref.rand_orth(rng, n), mol, W.sa_states(spec, rng), Q), (ValueError,), f"state-averaged circuit wave function with {spec['mode']}")
    return spec["mode"]


PROPERTY = Property(
    "P20",
    "Random model molecules, ensembles of up to three orthonormal states (determinants, pairs, general combinations), parameters and orbital rotations. Non-trivial: more than one state; optimisations always.",
    [
        Component("histories", strat_hist, check_hist, "averaged and state energies, density matrices, transition moments, oscillator strengths, objective and gradients vs a dense model through histories", quick=12, thorough=150, shards=5, thorough_shards=6, budget=50, case_limit=300),
        Component("devices", strat_dev, check_dev, "everything read after a distorted device has been exchanged for the exact one", quick=20, thorough=200, shards=2, budget=30),
        Component("optimise", strat_opt, check_opt, "results left behind by optimisations vs the dense model", quick=12, thorough=150, shards=3, thorough_shards=6, budget=50, case_limit=300),
        Component("convert", strat_conv, check_conv, "conversion from the classical state-averaged wave function vs the dense model, independence of the two objects", quick=8, thorough=120, shards=2, thorough_shards=4, budget=40, case_limit=300),
        Component("custom", strat_cust, check_cust, "circuits supplied by the user acting on the ensemble vs a dense model over the whole Fock space", quick=6, thorough=100, shards=2, thorough_shards=4, budget=40, case_limit=300),
        Component("refusals", strat_pp, check_refuse, "unsupported requests are refused", quick=6, thorough=30, shards=1, budget=30),
    ],
    ["exact-distribution sampler", "Jordan-Wigner mapping (the interface supports superposition references only there)"],
)
