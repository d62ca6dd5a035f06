"""P16: circuit wave functions agree with the state-vector wave functions through any history."""
from __future__ import annotations

import copy

import numpy as np
import scipy.linalg
import scipy.optimize as so
from hypothesis import strategies as st

from vq import qi, ref, wf as W
from vq.core import Component, Property, Skip, close, raises, require
from vq.props.p08 import Model
from vq.props.p15 import MAPS, NAMED

ANS = [a for a in NAMED if a[0] != "HF"]
UPS_ONLY = [("fUCC", {"n_layers": 1, "S": True, "D": True}), ("fUCC", {"n_layers": 1, "GS": True, "GD": True}), ("tUPS", {"n_layers": 1, "do_pp": True}), ("kSAfUpCCGSD", {"n_layers": 1}), ("SDSfUCCSD", {}), ("fUCCpD", {}), ("QNP", {"n_layers": 1, "skip_last_singles": True})]


def spec_st(extra, na=(2, 2, 3), max_orb=5):
    def fin(d):
        d["pairs"] = 1 + d["pairs"] % max(1, d["na"] - 1)
        return d

    return st.fixed_dictionaries({
        "ni": st.sampled_from([0, 1, 2]), "na": st.sampled_from(list(na)), "nv": st.sampled_from([0, 1, 2]), "pairs": st.integers(0, 5), "a": st.integers(0, 10**4), "map": st.sampled_from(MAPS), "seed": st.integers(0, 10**6), "ak": st.booleans(), **extra,
    }).map(fin).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= max_orb)


def build(spec, table=ANS):
    """(circuit wave function, interface, dense model, classical wave function, mol, rng)."""
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    name, opts = table[spec["a"] % len(table)]
    mp = "jw" if opts.get("do_pp") else spec["map"]
    rng = ref.rng_of(spec["seed"], 16)
    given = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    mol = copy.deepcopy(given)
    c = ref.rand_orth(rng, n)
    cas = (2 * pairs, na)
    uname, uopts = ("fUCC", dict(opts, n_layers=1, D=True)) if name == "fUCCD" else (name, dict(opts))
    ups = qi.quiet(WaveFunctionUPS, cas, c.copy(), mol, uname, uopts, include_active_kappa=spec["ak"])
    if not len(ups.thetas):
        raise Skip
    mine = c.copy()
    wf, Q = qi.circuit_wf(cas, mine, given, qi.exact_sampler(), name, mp, dict(opts), spec["ak"])
    wf._vq_given = given
    wf._vq_c = mine
    close(wf.c_mo, ups.c_mo, f"orbitals of a fresh circuit wave function ({name} {opts})", 1e-12)
    require([tuple(x) for x in wf.kappa_idx] == [tuple(x) for x in ups.kappa_idx], "orbital rotations of the circuit wave function")
    require(len(wf.thetas) == len(ups.thetas), f"{len(wf.thetas)} circuit parameters, {len(ups.thetas)} classical ones")
    return wf, Q, Model(ups, mol), ups, mol, rng, name


def observe(wf, M, what, which):
    """Compare one observable of the circuit wave function with the dense model."""
    M.wf.thetas = M.th
    if which == "energy":
        close(float(wf.energy_elec), M.energy(), f"energy {what}", 1e-9)
    elif which == "c_mo":
        close(wf.c_mo, M.C, f"orbitals {what}", 1e-10)
        close(np.array(wf.thetas), np.array(M.th), f"parameters {what}", 1e-13)
        close(np.array(wf.kappa), M.kap, f"orbital parameters {what}", 1e-13)
    elif which.startswith("rdm"):
        k = int(which[3])
        v = M.states()[0]
        close(getattr(wf, which), ref.rdms(v, v, wf.num_active_orbs, W.dets_of(M.wf), k), f"{which} {what}", 1e-9)
    elif which == "h":
        h, g = ref.mo_ints(M.mol, M.C)
        close(wf.h_mo, h, f"one-electron integrals {what}", 1e-9)
        close(wf.g_mo, g, f"two-electron integrals {what}", 1e-9)


def grab(wf, oo, points, rng):
    """Objective and gradient that an optimisation would use, at the given points."""
    out = []

    def handler(fun, x0, jac, method, options):
        for x in points:
            if rng.integers(2):
                e = float(fun(np.array(x)))
                g = np.array(jac(np.array(x)))
            else:
                g = np.array(jac(np.array(x)))
                e = float(fun(np.array(x)))
            out.append((e, g))
        res = so.OptimizeResult()
        res.x, res.fun, res.success, res.nit = np.array(points[-1]), out[-1][0], True, 1
        return res

    with W.intercept_minimize(handler):
        qi.quiet(wf.run_wf_optimization_1step, "bfgs", oo)
    return out


def detour(wf, rng, reads):
    """A distorted device takes over, things are read or changed, and the exact one returns."""
    flip = rng.uniform(0.1, 0.3, size=(64, 2))
    qi.quiet(wf.change_primitive, qi.exact_sampler(noise=lambda q: [[1 - flip[q, 0], flip[q, 1]], [flip[q, 0], 1 - flip[q, 1]]]))
    for r in rng.permutation(reads)[: int(rng.integers((len(reads) + 1) // 2, len(reads) + 1))]:
        x = getattr(wf, str(r))
        if callable(x):
            qi.quiet(x)
    qi.quiet(wf.change_primitive, qi.exact_sampler())


# --------------------------------------------------------------------------------------------------------------
OPS = ["theta", "theta", "one", "same", "kappa", "kappa", "prim", "noisy", "noisy", "isa", "shots", "precalc", "custom", "grad", "rebuild", "mutate"]
SMALL = ["tiny_kappa", "tiny_kappa", "creep", "tiny_theta", "turn", "one_kappa", "molecule"]
OBS = ["energy", "energy", "c_mo", "rdm1", "rdm2", "h"]


def strat_hist(tier):
    ob = st.sampled_from(OBS)
    # the quantities read before a change are, more often than not, the ones read after it
    op = st.tuples(st.sampled_from(OPS), ob, ob) | st.tuples(st.sampled_from(SMALL), st.just("h"), ob) | st.tuples(st.sampled_from(SMALL + ["kappa", "theta"]), st.sampled_from(["energy", "rdm1", "rdm2"]), ob)
    return spec_st({"ops": st.lists(op, min_size=1, max_size=5 if tier == "quick" else 8)})


def check_hist(spec):
    wf, Q, M, ups, mol, rng, name = build(spec)
    na, pairs = spec["na"], spec["pairs"]
    dets = W.dets_of(ups)
    nt, nk = len(wf.thetas), len(wf.kappa)
    observe(wf, M, "of a fresh circuit wave function", OBS[spec["seed"] % len(OBS)])
    hist = []
    for op, o1, o2 in spec["ops"]:
        if op in SMALL:
            observe(wf, M, f"of {name} after {','.join(hist)}", o1)
        hist.append(op)
        what = f"of {name} after {','.join(hist)}"
        if op == "theta":
            th = ref.angles(rng, nt, 1.2)
            wf.thetas = th
            M.move(thetas=th)
        elif op == "one":
            th = wf.thetas
            k = int(rng.integers(nt))
            th[k] = float(th[k] + rng.uniform(0.2, 0.9))
            wf.thetas = th
            M.th[k] = th[k]
        elif op == "same":
            wf.thetas = wf.thetas
        elif op in ("tiny_kappa", "one_kappa") and nk:
            k = list(M.kap)
            j = int(rng.integers(nk))
            k[j] += 10.0 ** -int(rng.integers(3, 8)) if op == "tiny_kappa" and (rng.integers(2) or not k[j]) else k[j] * 7e-6 if op == "tiny_kappa" else 0.3
            wf.kappa = list(k)
            M.move(kappa=k)
        elif op == "creep" and nk:
            k = list(M.kap)
            for _ in range(40):
                k = [x + 8e-9 for x in k]
                wf.kappa = list(k)
                M.move(kappa=k)
        elif op == "tiny_theta":
            th = list(M.th)
            j = int(rng.integers(nt))
            th[j] += 10.0 ** -int(rng.integers(3, 8)) if rng.integers(2) or not th[j] else th[j] * 7e-6
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "turn":
            th = list(M.th)
            th[int(rng.integers(nt))] += float(rng.choice([-2, 2, 4]) * np.pi)
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "molecule":
            # the caller goes on to use the molecule and the orbitals for something else
            wf._vq_c[:] = np.roll(wf._vq_c, 1, axis=1) * 1.1
            for key in ("int1e_kin", "int1e_nuc", "int2e", "int1e_r"):
                wf._vq_given._vq[key] *= 1.1
        elif op == "mutate":
            t = wf.thetas
            t[0] += 0.37
            k = wf.kappa
            if k:
                k[0] += 0.2
        elif op == "kappa" and nk:
            k = ref.turns(rng, nk, 0.4)
            wf.kappa = k
            M.move(kappa=k)
        elif op == "prim":
            before = wf.thetas
            qi.quiet(wf.change_primitive, qi.exact_sampler())
            close(np.array(wf.thetas), np.array(before), f"parameters {what}", 0)
        elif op == "noisy":
            reads = ["energy_elec", "rdm1", "rdm2"] + (["rdm3"] if na == 2 and rng.integers(3) == 0 else [])
            detour(wf, rng, reads)
            for o in ["energy"] + reads[1:]:
                observe(wf, M, what, o)
        elif op == "isa":
            qi.quiet(setattr, Q, "ISA", not Q.ISA) if na == 2 else None
        elif op == "shots":
            qi.quiet(setattr, Q, "shots", None)
        elif op == "precalc":
            qi.quiet(wf.precalc_rdm_paulis, 2 if na == 3 else 1 + int(rng.integers(2)))
        elif op == "custom":
            th = ref.angles(rng, nt, 1.2)
            p, q = (int(x) for x in rng.integers(na, size=2))
            from slowquant.unitary_coupled_cluster.operators import Epq

            v = M.states(th)[0]
            opx = Epq(p, q) + Epq(q, p)
            want = float(v @ ref.restrict(ref.op_matrix(opx, 2 * na), dets) @ v)
            close(Q.quantum_expectation_value(opx, custom_parameters=th), want, f"expectation value at other parameters {what}", 1e-9)
            close(np.array(wf.thetas), np.array(M.th), f"parameters {what}", 0)
        elif op == "rebuild":
            qi.quiet(wf._reconstruct_circuit) if hasattr(wf, "_reconstruct_circuit") else None
        elif op == "grad":
            if nt > 6:
                continue
            oo = bool(rng.integers(2)) and nk > 0
            x = np.concatenate([np.array(wf.kappa) + rng.uniform(-0.3, 0.3, nk), rng.uniform(-1, 1, nt)]) if oo else rng.uniform(-1, 1, nt)
            M.move(x[:nk] if oo else None, x[nk:] if oo else x)
            e, g = grab(wf, oo, [x], rng)[0]
            close(e, M.energy(), f"objective {what}", 1e-9)
            if oo:
                close(g[:nk], M.grad_kappa(), f"orbital gradient {what}", 1e-7)
            close(g[-nt:], M.grad_theta(), f"ansatz gradient {what}", 1e-7)
            M.kap = np.array(wf.kappa, dtype=float)
        observe(wf, M, what, o1)
        if o2 != o1:
            observe(wf, M, what, o2)
    return f"{name}:{spec['map']}:{len(set(hist))}"


# --------------------------------------------------------------------------------------------------------------
def strat_opt(tier):
    return spec_st({"opt": st.sampled_from(["slsqp", "l-bfgs-b", "bfgs", "cobyla", "cobyqa", "rotosolve", "RotoSolve"]), "steps": st.sampled_from([1, 2]), "oo": st.booleans(), "maxiter": st.sampled_from([1, 2, 4]), "prerot": st.booleans()}, na=(2,), max_orb=4)


def check_opt(spec):
    wf, Q, M, ups, mol, rng, name = build(spec)
    opt = spec["opt"]
    nt, nk = len(wf.thetas), len(wf.kappa)
    oo = spec["oo"]
    if nt > 5 or (spec["steps"] == 1 and opt.lower() == "rotosolve" and oo and nk):
        raise Skip
    th = ref.angles(rng, nt, 1)
    wf.thetas = th
    M.move(thetas=th)
    if spec["prerot"] and nk:
        k = ref.turns(rng, nk, 0.3)
        wf.kappa = k
        M.move(kappa=k)
    e0 = M.energy()
    what = f"{opt} on {name} ({spec['steps']}-step, orbitals {oo}, {spec['maxiter']} iterations)"
    maxiter = spec["maxiter"] * (3 if opt in ("cobyla", "cobyqa") else 1)
    if spec["steps"] == 1:
        qi.quiet(wf.run_wf_optimization_1step, opt, oo, maxiter=maxiter)
    else:
        qi.quiet(wf.run_wf_optimization_2step, opt, oo, maxiter=min(maxiter, 3), is_silent_subiterations=bool(spec["seed"] % 2))
    rep = float(wf.energy_elec)
    C0 = M.C
    M.C, M.th, M.kap = np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)
    e = M.energy()
    close(rep, e, f"energy reported after {what} against the energy of the state left behind", 1e-8)
    for o in ("rdm1", "h"):
        observe(wf, M, f"after {what}", o)
    if not oo:
        close(M.C, C0, f"orbitals after {what}", 1e-12)
    if not (oo and nk and opt in ("cobyla", "cobyqa") and spec["steps"] == 1):
        require(e <= e0 + 1e-8 * (1 + abs(e0)), f"{what} raised the energy from {e0:.9f} to {e:.9f}")
    close(M.C.T @ M.C, np.eye(len(M.C)), f"orthonormality after {what}", 1e-9)
    if opt.lower() == "rotosolve" and not oo:
        H = W.ref_H(ups, mol, M.C)
        t = list(M.th)
        for x in np.linspace(-np.pi, np.pi, 41):
            t[-1] = float(x)
            s = M.states(t)[0]
            require(s @ H @ s >= e - 1e-7, f"after {what} the last parameter at {x:.3f} gives a lower energy")
    return f"{opt.lower()}:{spec['steps']}:{oo}"


# --------------------------------------------------------------------------------------------------------------
def strat_conv(tier):
    return spec_st({"kap": st.booleans(), "high": st.booleans(), "touch": st.booleans()})


def check_conv(spec):
    """Conversion of a classical wave function preserves it, and the two stay independent."""
    from slowquant.qiskit_interface.circuit_wavefunction_from_ups import circuit_wavefunction_from_ups
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    name, opts = UPS_ONLY[spec["a"] % len(UPS_ONLY)]
    mp = "jw" if opts.get("do_pp") else spec["map"]
    rng = ref.rng_of(spec["seed"], 161)
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    ups = qi.quiet(WaveFunctionUPS, (2 * pairs, na), ref.rand_orth(rng, n), mol, name, dict(opts), include_active_kappa=spec["ak"])
    if not len(ups.thetas):
        raise Skip
    if mp == "jw" and "GD" in opts and na > 2:
        mp = "parity"
    ups.thetas = ref.angles(rng, len(ups.thetas), 1)
    nk = len(ups.kappa)
    if spec["kap"] and nk:
        ups.kappa = ref.turns(rng, nk, 0.4)
    M = Model(ups, mol)
    wf = qi.quiet(circuit_wavefunction_from_ups, ups, qi.exact_sampler(), qi.mapper(mp, (pairs, pairs)))
    what = f"of {name} {opts} converted with {mp}"
    close(np.array(wf.thetas), np.array(M.th), f"parameters {what}", 0)
    close(wf.c_mo, M.C, f"orbitals {what}", 1e-10)
    require([tuple(x) for x in wf.kappa_idx] == [tuple(x) for x in ups.kappa_idx], f"orbital rotations {what}")
    close(float(wf.energy_elec), M.energy(), f"energy {what}", 1e-9)
    for o in ("rdm1", "rdm2") + (("rdm3", "rdm4") if spec["high"] and na == 2 else ("rdm3",) if spec["high"] and spec["seed"] % 2 else ()):
        observe(wf, M, what, o)
    if spec["touch"]:
        e, c = float(ups.energy_elec), np.array(ups.c_mo)
        old = list(ups.thetas)
        wf.thetas = [x + 0.3 for x in wf.thetas]
        if len(wf.kappa):
            wf.kappa = [0.2] * len(wf.kappa)
        ups.thetas = ups.thetas
        close(np.array(ups.thetas), np.array(old), f"classical parameters after an update {what}", 0)
        close(ups.c_mo, c, f"classical orbitals after an update {what}", 0)
        close(float(ups.energy_elec), e, f"classical energy after an update {what}", 1e-10)
        M.move(thetas=[x + 0.3 for x in old])
        M.kap = np.zeros(nk)
        if nk:
            M.move(kappa=[0.2] * nk)
        close(float(wf.energy_elec), M.energy(), f"energy after an update {what}", 1e-9)
    return f"{name}:{mp}"


# --------------------------------------------------------------------------------------------------------------
def strat_pre(tier):
    return spec_st({"order": st.integers(0, 5), "reads": st.permutations(["rdm1", "rdm2", "rdm3", "rdm4", "energy"]), "before": st.booleans(), "after": st.booleans()})


def check_pre(spec):
    """What is measured ahead of time is right, and needs no further measurement."""
    na, k = spec["na"], spec["order"]
    if na > 2 and 2 < k < 5:
        k -= 2
    wf, Q, M, ups, mol, rng, name = build({**spec, "a": spec["a"] % len(ANS)})
    what = f"of {name} with {spec['map']} after measuring ahead to order {k}"
    log = []
    qi.quiet(wf.change_primitive, qi.exact_sampler(log=log))
    th = ref.angles(rng, len(wf.thetas), 1)
    wf.thetas = th
    M.move(thetas=th)
    if not 1 <= k <= 4:
        raises(lambda: qi.quiet(wf.precalc_rdm_paulis, k), (ValueError,), f"measuring ahead to order {k}")
        k = 0
    if spec["before"]:
        observe(wf, M, f"of {name} before measuring ahead", f"rdm{max(k, 1)}")
    if k:
        qi.quiet(wf.precalc_rdm_paulis, k)
    n = len(log)
    for o in spec["reads"]:
        if o == "energy" and k >= 2 or o[:3] == "rdm" and int(o[3]) <= k:
            observe(wf, M, what, o)
            require(len(log) == n, f"{o} {what} ran {len(log) - n} further measurements")
    if spec["after"] and k:
        th = ref.angles(rng, len(wf.thetas), 1)
        wf.thetas = th
        M.move(thetas=th)
        observe(wf, M, f"{what} and new parameters", f"rdm{k}")
    return f"{k}:{na}" if k else None


# --------------------------------------------------------------------------------------------------------------
COPS = ["theta", "theta", "one", "turn", "kappa", "prim", "noisy", "isa", "shots", "cobyla", "cobyqa", "refused", "same"]


def strat_cust(tier):
    return spec_st({"ops": st.lists(st.sampled_from(COPS), min_size=1, max_size=4), "gates": st.integers(3, 14), "reads": st.permutations(["energy", "rdm1", "rdm2"])}, na=(2,), max_orb=4)


def custom_circuit(rng, nq, ngates):
    """Any circuit, parameters named in no particular order, some of them used twice."""
    from qiskit.circuit import Parameter, QuantumCircuit

    names = list(rng.permutation(["a", "b10", "b2", "z", "k"]))[: int(rng.integers(1, 4))]
    pars = [Parameter(str(x)) for x in names]
    qc = QuantumCircuit(nq)
    for q in range(nq):
        if rng.integers(2):
            qc.x(q) if rng.integers(2) else qc.ry(float(rng.uniform(-2, 2)), q)
    todo = list(pars)
    for _ in range(ngates):
        p = todo.pop() if todo else pars[int(rng.integers(len(pars)))] if rng.integers(3) == 0 else float(rng.uniform(-2, 2))
        a, b = (int(x) for x in rng.permutation(nq)[:2])
        g = int(rng.integers(7))
        [lambda: qc.rx(p, a), lambda: qc.ry(p, a), lambda: qc.rxx(p, a, b), lambda: qc.crx(p, a, b), lambda: qc.ryy(p, a, b), lambda: (qc.cx(a, b), qc.rz(p, b), qc.cx(a, b)), lambda: (qc.h(a), qc.cry(p, a, b))][g]()
        if rng.integers(3) == 0:
            qc.cx(a, b)
    return qc


class Custom:
    """Dense model of a wave function prepared by an arbitrary circuit."""

    def __init__(self, wf, qc, mp, mol):
        self.wf, self.qc, self.mp, self.mol = wf, qc, mp, mol
        self.C, self.th, self.kap = np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)
        na = wf.num_active_orbs
        self.dets = list(range(4**na))
        if mp == "parity_red":
            e = wf.num_active_elec // 2
            a = [d for d in self.dets if (bin(d & int("10" * na, 2)).count("1") - e) % 2 == 0 and (bin(d & int("01" * na, 2)).count("1") - e) % 2 == 0]
            self.dets = a

    move = Model.move

    def vectors(self, th=None):
        from qiskit.quantum_info import Statevector

        psi = Statevector(self.qc.assign_parameters([float(x) for x in (self.th if th is None else th)])).data
        v = []
        for d in self.dets:
            i, s = qi.qindex(d, self.wf.num_active_orbs, self.mp)
            v.append(s * psi[i])
        v = np.array(v)
        require(abs(np.linalg.norm(v) - 1) < 1e-9, "harness: the encoding does not cover the circuit's states")
        return [v.real, v.imag]

    def energy(self):
        h, g = ref.mo_ints(self.mol, self.C)
        H = ref.active_H(h, g, self.wf.num_inactive_orbs, self.wf.num_active_orbs, self.dets)
        return float(sum(v @ H @ v for v in self.vectors()))

    def observe(self, what, which):
        if which == "energy":
            close(float(self.wf.energy_elec), self.energy(), f"energy {what}", 1e-9)
        else:
            want = sum(ref.rdms(v, v, self.wf.num_active_orbs, self.dets, int(which[3])) for v in self.vectors())
            close(getattr(self.wf, which), want, f"{which} {what}", 1e-9)


def check_cust(spec):
    """A circuit of the user's own: energies, density matrices and derivative-free optimisation."""
    from slowquant.qiskit_interface.circuit_wavefunction import WaveFunctionCircuit
    from slowquant.qiskit_interface.interface import QuantumInterface

    ni, na, nv, pairs, mp = spec["ni"], spec["na"], spec["nv"], spec["pairs"], spec["map"]
    n = ni + na + nv
    rng = ref.rng_of(spec["seed"], 162)
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    qc = custom_circuit(rng, 2 * na - 2 * (mp == "parity_red"), spec["gates"])
    Q = qi.quiet(QuantumInterface, qi.exact_sampler(), qc.copy(), qi.mapper(mp, (pairs, pairs)))
    wf = qi.quiet(WaveFunctionCircuit, (2 * pairs, na), ref.rand_orth(rng, n), mol, Q, include_active_kappa=spec["ak"])
    nt, nk = len(wf.thetas), len(wf.kappa)
    require(nt == qc.num_parameters, f"{nt} parameters for a circuit with {qc.num_parameters}")
    M = Custom(wf, qc, mp, mol)
    hist = []
    M.observe(f"of a fresh circuit with {mp}", spec["reads"][0])
    for op in spec["ops"]:
        hist.append(op)
        what = f"of a custom circuit with {mp} after {','.join(hist)}"
        if op in ("theta", "one", "turn", "same"):
            th = ref.angles(rng, nt, 2) if op == "theta" else list(M.th)
            k = int(rng.integers(nt))
            th[k] += {"one": 0.4, "turn": 4 * np.pi}.get(op, 0.0)
            wf.thetas = list(th)
            M.move(thetas=th)
        elif op == "kappa" and nk:
            k = ref.turns(rng, nk, 0.4)
            wf.kappa = k
            M.move(kappa=k)
        elif op == "prim":
            qi.quiet(wf.change_primitive, qi.exact_sampler())
        elif op == "noisy":
            detour(wf, rng, ["energy_elec", "rdm1", "rdm2"])
            for o in spec["reads"]:
                M.observe(what, o)
        elif op == "isa":
            qi.quiet(setattr, Q, "ISA", not Q.ISA)
        elif op == "shots":
            qi.quiet(setattr, Q, "shots", None)
        elif op == "refused":
            o = ["bfgs", "slsqp", "rotosolve", "l-bfgs-b"][int(rng.integers(4))]
            f = wf.run_wf_optimization_1step if rng.integers(2) else wf.run_wf_optimization_2step
            raises(lambda: qi.quiet(f, o, False, maxiter=1), (ValueError,), f"{o} on a custom circuit")
        elif op in ("cobyla", "cobyqa"):
            e0, C0 = M.energy(), M.C
            oo = bool(rng.integers(2))
            two = bool(rng.integers(2))
            qi.quiet(wf.run_wf_optimization_2step if two else wf.run_wf_optimization_1step, op, oo, maxiter=3 if two else 12)
            M.C, M.th, M.kap = np.array(wf.c_mo), list(wf.thetas), np.array(wf.kappa, dtype=float)
            e = M.energy()
            if not oo:
                close(M.C, C0, f"orbitals {what}", 1e-12)
            if two or not (oo and nk):
                require(e <= e0 + 1e-8 * (1 + abs(e0)), f"{op} raised the energy from {e0:.9f} to {e:.9f} {what}")
        for o in spec["reads"][: 1 + len(hist) % 3]:
            M.observe(what, o)
    return f"{mp}:{len(set(hist))}"


PROPERTY = Property(
    "P16",
    "Random Hamiltonians, active spaces, ansaetze, mappings and histories on an exact-distribution sampler; the reference is a dense model of energies, density matrices and derivatives. Non-trivial: the ansatz has parameters.",
    [
        Component("histories", strat_hist, check_hist, "energies, orbitals, integrals, density matrices, objective and gradient through histories of parameter, orbital, primitive, transpilation and cache operations", quick=14, thorough=200, shards=4, budget=40),
        Component("optimise", strat_opt, check_opt, "optimisers on circuits: reported energy, not raised, state left behind, coordinate minima", quick=8, thorough=100, shards=3, budget=40),
        Component("convert", strat_conv, check_conv, "conversion from the classical wave function, density matrices to fourth order, independence of the two objects", quick=14, thorough=200, shards=2, budget=40),
        Component("custom", strat_cust, check_cust, "circuits supplied by the user: energies and density matrices over the whole Fock space, derivative-free optimisers, refusal of the others", quick=8, thorough=120, shards=2, budget=40),
        Component("precalc", strat_pre, check_pre, "density matrices measured ahead of time: right, and no further measurement", quick=10, thorough=100, shards=2, budget=40),
    ],
    ["the exact-distribution sampler (numpy gate simulation) stands for a noise-free device", "states, integrals and derivatives of the dense model"],
)
