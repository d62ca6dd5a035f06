"""P08: the objective and gradient handed to the optimiser are the energy and its derivative."""
from __future__ import annotations

import numpy as np
import scipy.linalg
import scipy.optimize as so
from hypothesis import strategies as st

from vq import ref, wf as W
from vq.core import Component, Property, Skip, close, require

STENCIL = [(-2, 1 / 12), (-1, -8 / 12), (1, 8 / 12), (2, -1 / 12)]


class Model:
    """Independent energy model that follows the orbitals through a history of rotations."""

    def __init__(self, wf, mol, S0=None):
        self.wf, self.mol = wf, mol
        self.C = np.array(wf.c_mo)
        self.th = list(wf.thetas)
        self.kap = np.array(wf.kappa, dtype=float)
        # reference states, before the ansatz
        self.S0 = W.states_of(wf) @ W.ref_unitary(wf)

    def move(self, kappa=None, thetas=None):
        if kappa is not None:
            kappa = np.array(kappa, dtype=float)
            self.C = self.C @ scipy.linalg.expm(-W.kappa_matrix(self.wf, kappa - self.kap))
            self.kap = kappa
        if thetas is not None:
            self.th = [float(x) for x in thetas]

    def states(self, th=None):
        return self.S0 @ W.ref_unitary(self.wf, self.th if th is None else th).T

    def energy(self):
        return W.ref_energy(self.wf, self.mol, self.C, self.states())

    def grad_kappa(self, h=2e-3):
        S = self.states()
        out = []
        for k in range(len(self.kap)):
            e = np.zeros(len(self.kap))
            e[k] = 1
            out.append(sum(w * W.ref_energy(self.wf, self.mol, self.C @ scipy.linalg.expm(-m * h * W.kappa_matrix(self.wf, e)), S) for m, w in STENCIL) / h)
        return np.array(out)

    def grad_theta(self, h=2e-3):
        H = W.ref_H(self.wf, self.mol, self.C)
        out = []
        for k in range(len(self.th)):
            d = 0.0
            for m, w in STENCIL:
                t = list(self.th)
                t[k] += m * h
                S = self.states(t)
                d += w * float(np.mean([s @ H @ s for s in S]))
            out.append(d / h)
        return np.array(out)


def point(x, style, nk, rng):
    """A next trial point; the first nk entries are orbital rotations."""
    new = x + np.array(ref.angles(rng, len(x), 0.4))
    some = rng.uniform(size=len(x)) < 0.5
    if style == "tiny":  # angles that are nearly or exactly zero
        small = rng.choice([-1, 1], len(x)) * 10.0 ** -rng.integers(2, 9, len(x)) * (rng.uniform(size=len(x)) < 0.8)
        some[:nk] = False
        new = np.where(some, small, new)
    elif style == "step":  # the last steps of a converging optimisation
        new = x + rng.choice([-1, 1], len(x)) * 10.0 ** -rng.integers(3, 10) * some
    elif style == "again":
        new = x.copy()
    elif style == "turn":
        new[nk:] += 2 * np.pi * rng.integers(-3, 4, len(x) - nk) * some[nk:]
    return new


def strat(tier):
    return st.tuples(
        W.spec_strategy(na=(2, 2, 3), ni=(0, 1, 1, 2), nv=(0, 1, 1, 2), max_orb=5),
        st.sampled_from(["1oo", "1", "2oo", "2"]), st.sampled_from(["bfgs", "l-bfgs-b", "slsqp", "BFGS"]), st.booleans(),
    ).map(lambda t: {**t[0], "mode": t[1], "opt": t[2], "prerot": t[3]})


def small_angles(spec, wf):
    """The forward-difference gradient of the UCC wave function loses digits with the size of the angles: start below half a turn there."""
    if spec["kind"] == "ucc" and np.max(np.abs(wf.thetas)) > 2:
        wf.thetas = half_turn(np.array(wf.thetas)).tolist()


def half_turn(x):
    return np.where(np.abs(x) > 2, (x + 2) % 4 - 2, x)


def check(spec):
    wf, mol, rng = W.build(spec)
    nk, nt = len(wf.kappa), len(wf.thetas)
    oo = spec["mode"].endswith("oo")
    two = spec["mode"][0] == "2"
    if not nt:
        raise Skip
    if spec["prerot"] and nk and not two:
        wf.kappa = ref.turns(rng, nk, 0.3)
    small_angles(spec, wf)
    M = Model(wf, mol)
    tol_t = 2e-5 if spec["kind"] == "ucc" else 1e-7
    count = [0]

    def handler(fun, x0, jac, method, options):
        require(callable(fun) and callable(jac), f"optimiser {spec['opt']} was started without objective or gradient")
        kind = ("k" if (two and count[0] % 2 == 1) else ("kt" if oo and not two else "t"))
        count[0] += 1
        nkx = nk if "k" in kind else 0
        require(len(x0) == nkx + (nt if "t" in kind else 0), f"optimiser started with {len(x0)} parameters for {kind}")
        if kind == "k":
            M.kap = np.array(wf.kappa, dtype=float)
        x = x0
        xs = [x0]
        for style in rng.permutation(["move", "tiny", "step", "again", "turn"])[:2].tolist() + ["move"]:
            if spec["kind"] == "ucc" and style == "turn":
                style = "move"  # a finite-difference gradient loses digits with the size of the angle
            xs.append(point(xs[-1], style, nkx, rng))
            if spec["kind"] == "ucc":
                xs[-1][nkx:] = half_turn(xs[-1][nkx:])
        for step, x in enumerate(xs):
            M.move(x[:nk] if nkx else None, x[nkx:] if "t" in kind else None)
            first = rng.integers(2)
            if first:
                gr = np.array(jac(x.copy()))
                e = fun(x.copy())
            else:
                e = fun(x.copy())
                gr = np.array(jac(x.copy()))
            close(float(e), M.energy(), f"objective at point {step} ({kind})", 1e-8)
            if nkx and (step >= 2 or kind == "k"):
                close(gr[:nk], M.grad_kappa(), f"orbital gradient ({kind})", 1e-7)
            if "t" in kind and step >= 1:
                close(gr[nkx:], M.grad_theta(), f"ansatz gradient ({kind})", tol_t)
            require(len(gr) == len(x), f"gradient of length {len(gr)} for {len(x)} parameters")
        res = so.OptimizeResult()
        res.x = xs[-1]
        res.fun = float(fun(xs[-1].copy()))
        res.success = True
        res.nit = 3
        return res

    with W.intercept_minimize(handler) as calls:
        if two:
            wf.run_wf_optimization_2step(spec["opt"], oo, maxiter=1, is_silent_subiterations=bool(spec["seed"] % 2))
        else:
            wf.run_wf_optimization_1step(spec["opt"], oo)
    require(len(calls) >= (2 if (two and oo and nk) else 1), f"the optimiser was called {len(calls)} times")
    close(np.array(wf.thetas), np.array(M.th), "ansatz parameters after the optimisation", 1e-9)
    close(wf.c_mo, M.C, "orbitals after the optimisation", 1e-8)
    close(wf.sa_energy if spec["kind"] == "sa" else wf.energy_elec, M.energy(), "energy after the optimisation", 1e-8)
    return f"{spec['kind']}:{spec['mode']}"


LAYOUTS = [
    (4, 2, "ups", "fUCC", {"T": True}), (4, 2, "ups", "fUCC", {"Q": True}), (4, 2, "sa", "fUCC", {"T": True, "Q": True}), (4, 2, "ups", "fUCC", {"S": True, "T": True, "Q": True}), (4, 2, "sa", "fUCC", {"SAD": True}),
    (4, 2, "ups", "fUCC", {"SAGS": True, "GpD": True}), (4, 2, "ups", "SDSfUCCSD", {}), (4, 1, "sa", "tUPS", {"n_layers": 2}), (4, 2, "sa", "QNP", {"n_layers": 1}), (5, 2, "ups", "fUCC", {"Q": True}), (5, 3, "sa", "fUCC", {"T": True}),
    (6, 3, "ups", "fUCC", {"5": True}), (6, 3, "ups", "fUCC", {"6": True}), (6, 3, "sa", "fUCC", {"5": True, "6": True}), (6, 3, "sa", "fUCC", {"6": True}),
    (4, 2, "ucc", "t", {}), (4, 2, "ucc", "q", {}), (4, 2, "ucc", "sdtq", {}), (6, 3, "ucc", "6", {}), (6, 3, "ucc", "5", {}),
]


def strat_high(tier):
    def fin(d):
        na, pairs, kind, name, opts = LAYOUTS[d.pop("a") % len(LAYOUTS)]
        opts = dict(opts)
        if name == "fUCC":
            opts["n_layers"] = d["layers"]
        return dict(d, na=na, pairs=pairs, kind=kind, ansatz=[name, opts], nv=0, ak=False, nstates=1 + d["seed"] % 3, big=False)

    return st.fixed_dictionaries({"a": st.integers(0, 10 * len(LAYOUTS) - 1), "layers": st.sampled_from([1, 1, 2]), "ni": st.sampled_from([0, 0, 1]), "seed": st.integers(0, 10**6), "opt": st.sampled_from(["bfgs", "slsqp"])}).map(fin).filter(lambda d: d["na"] + d["ni"] < 7)


def check_high(spec):
    """Excitations of high rank and large active spaces: the gradient is the derivative of the objective itself."""
    wf, mol, rng = W.build(spec)
    nt = len(wf.thetas)
    if not nt:
        raise Skip
    small_angles(spec, wf)
    M = Model(wf, mol) if spec["na"] == 4 else None
    tol = 2e-5 if spec["kind"] == "ucc" else 1e-7
    h = 4e-3

    def handler(fun, x0, jac, method, options):
        require(callable(fun) and callable(jac), f"optimiser {spec['opt']} was started without objective or gradient")
        x = x0 + rng.uniform(-0.5, 0.5, nt)
        gr = np.array(jac(x.copy()))
        require(gr.shape == (nt,), f"gradient of shape {gr.shape} for {nt} parameters")
        if M is not None:
            M.move(None, x)
            close(float(fun(x.copy())), M.energy(), f"objective of {spec['ansatz']}", 1e-8)
        dirs = [np.ones(nt), rng.standard_normal(nt)] + [np.eye(nt)[k] for k in rng.permutation(nt)[: 2 if spec["na"] > 4 else 5]]
        for d in dirs:
            want = sum(w * float(fun(x + m * h * d)) for m, w in STENCIL) / h
            close(float(gr @ d), want, f"derivative of the objective of {spec['ansatz']} along {d}", tol * (1 + np.sum(np.abs(d))))
        res = so.OptimizeResult()
        res.x, res.success, res.nit = x, True, 1
        res.fun = float(fun(x.copy()))
        return res

    with W.intercept_minimize(handler):
        wf.run_wf_optimization_1step(spec["opt"], False)
    return f"{spec['kind']}:{spec['na']}:{spec['ansatz'][0]}{''.join(k for k in spec['ansatz'][1] if k != 'n_layers')}"


PROPERTY = Property(
    "P08",
    "Random Hamiltonians, active spaces, ansaetze, states and parameter points; objective and gradient are those the public optimisation entry points hand to the minimiser, the reference is a dense energy model differentiated by a five-point stencil. Non-trivial: ansatz (and, with orbital optimisation, orbital) parameters exist.",
    [Component("objective_gradient", strat, check, "objective and gradient against the dense model at several points of one- and two-step optimisations, and the state left behind", quick=18, thorough=220, shards=8, budget=45),
     Component("high", strat_high, check_high, "triples to sextuples and four to six active orbitals: gradient vs differences of the objective itself (and, up to four orbitals, objective vs the dense model)", quick=12, thorough=150, shards=2, thorough_shards=6, budget=45)],
    ["finite differences of the dense model resolve the gradient to 1e-7 (2e-5 for the ansatz gradient of the UCC wave function, itself a finite difference)"],
)
