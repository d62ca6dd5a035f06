"""P10: optimisation never raises the energy, reports the energy of the state it leaves, and stays variational."""
from __future__ import annotations

import contextlib
import io

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import ref, wf as W
from vq.core import Component, Property, Skip, close, raises, require
from vq.props.p08 import Model


@contextlib.contextmanager
def watch(log):
    """Record whether the minimiser reported convergence; behaviour is unchanged."""
    import scipy.optimize as so

    orig = so.minimize

    def spy(*a, **k):
        r = orig(*a, **k)
        log.append((len(np.atleast_1d(r.x)), bool(r.success)))
        return r

    so.minimize = spy
    try:
        yield
    finally:
        so.minimize = orig


def energy_of(wf, spec):
    return float(wf.sa_energy if spec["kind"] == "sa" else wf.energy_elec)


def after(wf, spec, mol, M0, e0, what, may_raise=False):
    """Everything that must hold once an optimisation has returned."""
    rep = energy_of(wf, spec)
    M = Model(wf, mol)
    M.S0 = M0.S0
    M.C, M.th = np.array(wf.c_mo), list(wf.thetas)
    e = M.energy()
    close(rep, e, f"energy reported after {what} against the energy of the state left behind", 1e-7)
    wf.thetas = wf.thetas
    close(energy_of(wf, spec), e, f"recomputed energy after {what}", 1e-8)
    close(M.C.T @ M.C, np.eye(len(M.C)), f"orthonormality of the orbitals after {what}", 1e-8)
    H = W.ref_H(wf, mol, M.C)
    w = np.linalg.eigvalsh(H)
    require(e >= np.mean(w[: len(M.S0)]) - 1e-8, f"energy {e} after {what} lies below the exact bound {np.mean(w[:len(M.S0)])}")
    if not may_raise:
        require(e <= e0 + 1e-8 * (1 + abs(e0)), f"{what} raised the energy from {e0:.10f} to {e:.10f}")
    return M, e


def strat_theta(tier):
    return st.tuples(
        W.spec_strategy(na=(2, 2, 3), ni=(0, 1, 2), nv=(0, 1, 2), max_orb=5, roto=True), st.sampled_from(["bfgs", "l-bfgs-b", "slsqp", "cobyla", "cobyqa", "rotosolve", "RotoSolve", "COBYLA"]), st.sampled_from([1, 2]),
        st.sampled_from([1, 2, 5, 40]), st.booleans(),
    ).map(lambda t: {**t[0], "opt": t[1], "steps": t[2], "maxiter": t[3], "again": t[4]})


def check_theta(spec):
    wf, mol, rng = W.build(spec)
    nt = len(wf.thetas)
    opt = spec["opt"]
    roto = opt.lower() == "rotosolve"
    if not nt or (roto and spec["kind"] == "ucc") or (nt > 14 and opt.lower().startswith("cob")):
        raise Skip
    M0 = Model(wf, mol)
    maxiter = spec["maxiter"]
    if roto:
        maxiter = min(maxiter, 3)
    elif opt.lower() == "cobyqa":
        maxiter = min(maxiter, 5)
    for k in range(1 + spec["again"]):
        e0 = M0.energy()
        log = []
        with watch(log):
            if spec["steps"] == 1:
                wf.run_wf_optimization_1step(opt, False, maxiter=maxiter)
            else:
                wf.run_wf_optimization_2step(opt, False, maxiter=maxiter, is_silent_subiterations=bool(spec["seed"] % 3))
        M, e = after(wf, spec, mol, M0, e0, f"{opt} ({spec['steps']}-step, {maxiter} iterations)")
        close(M.C, M0.C, f"orbitals after {opt} without orbital optimisation", 1e-10)
        if roto:
            # The last parameter visited sits at the global minimum of its own curve.
            t = list(M.th)
            for x in np.linspace(-np.pi, np.pi, 61):
                t[-1] = float(x)
                S = M.states(t)
                H = W.ref_H(wf, mol, M.C)
                ex = float(np.mean([s @ H @ s for s in S]))
                require(ex >= e - 1e-7, f"after {opt} the last parameter at {x:.3f} gives {ex:.9f}, below the {e:.9f} it was left at")
        elif opt.lower() in ("bfgs", "l-bfgs-b", "slsqp") and log and log[-1][1] and maxiter >= 40:
            gn = np.max(np.abs(M.grad_theta()))
            require(gn < 3e-3, f"converged {opt} left a gradient of {gn:.2e}")
        M0 = M
    return f"{spec['kind']}:{opt.lower()}"


RANKS = [
    ({"T": True}, 4, 2), ({"Q": True}, 4, 2), ({"S": True, "Q": True}, 4, 2), ({"T": True, "Q": True}, 4, 2), ({"D": True}, 4, 1), ({"GpD": True}, 4, 2), ({"SAGS": True, "Q": True}, 4, 1), ({"Q": True, "pD": True}, 4, 2), ({"D": True, "T": True}, 4, 3),
]


def strat_ranks(tier):
    def fin(d):
        opts, na, pairs = RANKS[d.pop("a") % len(RANKS)]
        opts = dict(opts, n_layers=1)
        return dict(d, na=na, pairs=pairs, ansatz=["fUCC", opts], nv=0, ni=0, ak=False, nstates=1 + d["seed"] % 2, big=False, again=False)

    return st.fixed_dictionaries({
        "a": st.integers(0, 10 * len(RANKS) - 1), "kind": st.sampled_from(["ups", "sa"]), "seed": st.integers(0, 10**6), "opt": st.sampled_from(["rotosolve", "rotosolve", "rotosolve", "bfgs", "slsqp"]),
        "steps": st.sampled_from([1, 2]), "maxiter": st.sampled_from([1, 1, 2]),
    }).map(fin)


def strat_oo(tier):
    return st.tuples(
        W.spec_strategy(na=(2, 2, 3), ni=(0, 1), nv=(0, 1, 1), max_orb=4, roto=True), st.sampled_from(["bfgs", "l-bfgs-b", "slsqp", "cobyla", "rotosolve"]), st.sampled_from([1, 2]), st.sampled_from([1, 2, 4, 30]), st.booleans(),
    ).map(lambda t: {**t[0], "opt": t[1], "steps": t[2], "maxiter": t[3], "prerot": t[4]})


def check_oo(spec):
    wf, mol, rng = W.build(spec)
    nt, nk = len(wf.thetas), len(wf.kappa)
    opt = spec["opt"]
    if not nt or (opt == "rotosolve" and (spec["kind"] == "ucc" or not nk)):
        raise Skip
    maxiter = spec["maxiter"]
    if opt == "rotosolve":
        if spec["steps"] == 1:
            try:
                wf.run_wf_optimization_1step("rotosolve", True, maxiter=1)
            except ValueError:
                return f"{spec['kind']}:rotosolve refused"
            require(False, "one-step RotoSolve with orbital optimisation was accepted")
        maxiter = min(maxiter, 2)
    if opt == "cobyla":
        maxiter = min(maxiter, 4)
        if nt + nk > 12:
            raise Skip
    if spec["prerot"] and maxiter <= 2 and nk:
        # Start from (nearly) optimal orbitals that are expressed as a rotation of other orbitals.
        wf.run_wf_optimization_1step("slsqp", True, maxiter=25)
        k = rng.uniform(-0.4, 0.4, nk)
        th = wf.thetas
        c = wf.c_mo @ scipy.linalg.expm(W.kappa_matrix(wf, k))
        wf, mol, rng = W.build(spec, mol=mol, c=c)
        wf.thetas = th
        wf.kappa = k.tolist()
    elif spec["prerot"] and nk:
        wf.kappa = ref.turns(rng, nk, 0.3)
    M0 = Model(wf, mol)
    e0 = M0.energy()
    log = []
    with watch(log):
        if spec["steps"] == 1:
            wf.run_wf_optimization_1step(opt, True, maxiter=maxiter)
        else:
            wf.run_wf_optimization_2step(opt, True, maxiter=maxiter, is_silent_subiterations=bool(spec["seed"] % 3))
    # Derivative-free search over orbital rotations works on a path-dependent objective: no promise there.
    M, e = after(wf, spec, mol, M0, e0, f"{opt} with orbitals ({spec['steps']}-step, {maxiter} iterations)", may_raise=opt == "cobyla" and spec["steps"] == 1)
    if spec["steps"] == 1 and opt != "cobyla" and log and log[-1][1] and maxiter >= 30:
        gn = max(np.max(np.abs(M.grad_theta())), np.max(np.abs(M.grad_kappa()), initial=0.0))
        require(gn < 1e-2, f"converged {opt} left a gradient of {gn:.2e}")
    return f"{spec['kind']}:{spec['steps']}:{opt}"


def strat_min(tier):
    """Objectives of several angles: sums of products of sines and cosines, optionally several states."""
    par = st.tuples(st.integers(1, 3), st.integers(-1, 1))  # highest frequency, error of the announced one
    return st.fixed_dictionaries({
        "method": st.sampled_from(["rotosolve"] * 6 + ["RotoSolve", "bfgs", "BFGS", "l-bfgs-b", "slsqp", "cobyla", "cobyqa"]), "pars": st.lists(par, min_size=1, max_size=4), "names": st.booleans(), "terms": st.integers(1, 6), "states": st.sampled_from([0, 0, 1, 2, 3]),
        "noise": st.sampled_from([0, 0, 0, 1e-3, 0.1]), "maxiter": st.sampled_from([1, 2, 3, 8, 30]), "tol": st.sampled_from([1e-8, 1e-6, 1e-2]), "fast": st.booleans(), "grad": st.booleans(), "seed": st.integers(0, 10**6), "far": st.booleans(),
    })


def check_min(spec):
    """The optimiser on an arbitrary objective: what it returns is a point it visited, with that point's value, and the best one."""
    from slowquant.unitary_coupled_cluster.optimizers import Optimizers

    rng = ref.rng_of(spec["seed"], 1010)
    n = len(spec["pars"])
    roto = spec["method"].lower() == "rotosolve"
    ns = spec["states"] if roto else 0
    freq = [f for f, _ in spec["pars"]]
    R = [max(1, f + d) for f, d in spec["pars"]]
    if spec["names"]:
        # parameters of one kind share a name (and hence an order)
        names = [f"kind{r}" for r in R]
    else:
        names = [f"p{i}" for i in range(n)]
    table = dict(zip(names, R))
    terms = [(rng.standard_normal(max(ns, 1)), [(int(rng.integers(0, f + 1)), float(rng.uniform(0, 2 * np.pi))) for f in freq]) for _ in range(spec["terms"])]
    exact = all(r >= f for r, f in zip(R, freq)) and not spec["noise"]

    def value(x):
        v = sum(c * np.prod([np.cos(m * xi + p) for xi, (m, p) in zip(x, fs)]) for c, fs in terms)
        if spec["noise"]:
            # a fixed but erratic function of the point
            v = v + spec["noise"] * np.sin(1e5 * float(np.dot(x, np.arange(1, n + 1))))
        return v

    def mean(x):
        return float(np.mean(value(x)))

    calls = []

    def f(x):
        calls.append(tuple(float(t) for t in x))
        v = value(x)
        return np.array(v) if ns else float(v[0])

    def grad(x):
        out = np.zeros(n)
        for c, fs in terms:
            cs = [np.cos(m * xi + p) for xi, (m, p) in zip(x, fs)]
            for i, (m, p) in enumerate(fs):
                out[i] -= c[0] * m * np.sin(m * x[i] + p) * np.prod([cs[j] for j in range(n) if j != i])
        return out

    sweeps = []

    def fast(x, angles, idx):
        out = []
        for a in angles:
            y = list(x)
            y[idx] = a
            out.append(f(y))
        return out

    x0 = [float(t) for t in rng.uniform(-7, 7, n) * (1.0 if spec["far"] else 0.4)]
    keep = list(x0)
    use_grad = spec["grad"] and not roto and not spec["noise"]
    opt = Optimizers(f, spec["method"], grad=grad if use_grad else None, maxiter=spec["maxiter"] + (n + 4 if spec["method"] in ("cobyla", "cobyqa") else 0), tol=spec["tol"], energy_eval_callback=lambda: sweeps.append(calls[-1]) or 0)
    extra = None
    if roto:
        extra = {"R": table, "param_names": names}
        if spec["fast"]:
            extra["f_rotosolve_optimized"] = fast
    with contextlib.redirect_stdout(io.StringIO()):
        res = opt.minimize(x0, extra)
    what = f"{spec['method']} on a trigonometric objective"
    require(x0 == keep, f"{what} changed the start parameters given to it")
    x = np.asarray(res.x, dtype=float)
    require(x.shape == (n,) and np.all(np.isfinite(x)), f"{what} returned parameters {x!r}")
    close(float(res.fun), mean(x), f"{what}: reported minimum against the objective at the returned parameters", 1e-9 if not spec["noise"] else 1e-7 + 2e-4 * spec["noise"])
    require(isinstance(bool(res.success), bool), "no success flag")
    if roto:
        require(1 <= len(sweeps) <= spec["maxiter"], f"{what}: {len(sweeps)} sweeps with a limit of {spec['maxiter']}")
        vals = [mean(s) for s in sweeps]
        slack = 1e-9 + (spec["tol"] if res.success else 0) + 2e-4 * spec["noise"]
        require(float(res.fun) <= min(vals) + slack, f"{what}: returned {float(res.fun)!r} although a completed sweep had reached {min(vals)!r}")
        if len(sweeps) < spec["maxiter"] and not res.success:
            require(any(b > a for a, b in zip(vals, vals[1:])), f"{what} gave up after {len(sweeps)} of {spec['maxiter']} sweeps without a single raise")
        if res.success:
            require(len(vals) >= 2 and min(abs(vals[-1] - v) for v in vals[:-1]) <= spec["tol"] * 1.01 + 1e-12 + 2e-4 * spec["noise"], f"{what} claims convergence with sweeps {vals}")
        if exact:
            require(float(res.fun) <= mean(x0) + 1e-8, f"{what} raised the objective from {mean(x0)!r} to {float(res.fun)!r}")
            grid = np.linspace(-np.pi, np.pi, 721)
            y = list(x)
            for t in grid:
                y[-1] = t
                require(mean(y) >= float(res.fun) - 1e-7 - (spec["tol"] if res.success else 0), f"{what}: the last parameter is not at the minimum of its curve")
    else:
        require(spec["noise"] or float(res.fun) <= mean(x0) + 1e-9, f"{what} raised the objective from {mean(x0)!r} to {float(res.fun)!r}")
        if use_grad and res.success and spec["tol"] <= 1e-6 and spec["method"].lower() in ("bfgs", "l-bfgs-b", "slsqp"):
            require(np.max(np.abs(grad(x))) < 2e-2, f"converged {what} left a gradient of {np.max(np.abs(grad(x))):.1e}")
    return f"{spec['method'].lower()}:{'states' if ns else 'one'}:{'exact' if exact else 'rough'}"


def strat_curve(tier):
    return st.fixed_dictionaries({"R": st.sampled_from([1, 2, 3, 4, 4, 5, 6]), "more": st.integers(0, 2), "kind": st.sampled_from(["flat", "flat", "random", "peak", "node"]), "eps": st.sampled_from([1e-3, 1e-2, 0.1, 0.3]), "seed": st.integers(0, 10**6), "fast": st.booleans(), "states": st.sampled_from([0, 0, 2])})


def check_curve(spec):
    """RotoSolve on single curves with several (nearly) equally deep minima: the deepest one is found."""
    from slowquant.unitary_coupled_cluster.optimizers import Optimizers

    rng = ref.rng_of(spec["seed"], 1011)
    f_, R = spec["R"], spec["R"] + spec["more"]
    ms = np.arange(f_ + 1)
    a, b = rng.standard_normal(f_ + 1), rng.standard_normal(f_ + 1)
    if spec["kind"] == "flat":
        a *= spec["eps"]
        b *= spec["eps"]
        a[f_], b[f_] = (float(x) for x in (lambda p: (np.cos(p), np.sin(p)))(rng.uniform(0, 2 * np.pi)))
    elif spec["kind"] == "peak":
        # a narrow well
        p = rng.uniform(0, 2 * np.pi)
        a = -np.cos(ms * p) * (1 + spec["eps"] * a)
        b = -np.sin(ms * p) * (1 + spec["eps"] * b)
    elif spec["kind"] == "node":
        # the minimum is (almost) one of the points the curve is reconstructed from, such as zero
        p = 2 * np.pi * int(rng.choice([0, 0, *range(-R, R + 1)])) / (2 * R + 1) + float(rng.choice([0.0, 1e-7, 1e-5, 1e-4, 5e-4])) * float(rng.choice([-1, 1]))
        a, b = -np.abs(a) * np.cos(ms * p), -np.abs(a) * np.sin(ms * p)
    split = rng.standard_normal()

    def value(x):
        return np.cos(np.multiply.outer(x, ms)) @ a + np.sin(np.multiply.outer(x, ms)) @ b

    def f(x):
        v = float(value(x[0]))
        return np.array([v + split, v - split]) if spec["states"] else v

    extra = {"R": {"p": R}, "param_names": ["p"]}
    if spec["fast"]:
        extra["f_rotosolve_optimized"] = lambda x, angles, idx: [f([t]) for t in angles]
    with contextlib.redirect_stdout(io.StringIO()):
        res = Optimizers(f, "rotosolve", maxiter=2, tol=1e-10, energy_eval_callback=lambda: 0).minimize([float(rng.uniform(-7, 7))], extra)
    low = float(np.min(value(np.linspace(-np.pi, np.pi, 8001))))
    got = float(value(float(np.asarray(res.x)[0])))
    require(got <= low + 1e-7, f"RotoSolve left a curve of frequency {f_} (announced {R}) at {got!r} although it goes down to {low!r}")
    close(float(np.mean(res.fun)), got, "reported minimum of the curve", 1e-9)
    return f"{spec['kind']}:{f_}"


def strat_badopt(tier):
    return st.tuples(st.sampled_from(["unknown", "none", "noR", "nonames", "empty"]), st.text("abcdefgh-", min_size=1, max_size=8)).map(list)


def check_badopt(spec):
    from slowquant.unitary_coupled_cluster.optimizers import Optimizers

    how, name = spec
    f = lambda x: float(np.sum(np.cos(x)))
    with contextlib.redirect_stdout(io.StringIO()):
        if how == "unknown":
            if name in ("bfgs", "slsqp"):
                raise Skip
            raises(lambda: Optimizers(f, name).minimize([0.1]), ValueError, f"optimiser {name!r}")
        else:
            extra = {"none": None, "noR": {"param_names": ["a"]}, "nonames": {"R": {"a": 2}}, "empty": {}}[how]
            raises(lambda: Optimizers(f, "rotosolve").minimize([0.1], extra), (ValueError, TypeError), f"RotoSolve with options {extra}")
    return how


PROPERTY = Property(
    "P10",
    "Random Hamiltonians, active spaces, ansaetze, start parameters (and pre-rotated orbitals), every optimiser, one and two step, few and many iterations. Non-trivial: there are parameters to optimise.",
    [
        Component("ansatz", strat_theta, check_theta, "ansatz optimisation: not raised, reported energy, exact lower bound, orbitals untouched, stationarity or coordinate minimum", quick=22, thorough=250, shards=4, budget=45),
        Component("ranks", strat_ranks, check_theta, "the same with triples and quadruples in four active orbitals", quick=8, thorough=100, shards=1, thorough_shards=4, budget=45),
        Component("objectives", strat_min, check_min, "the optimisers themselves on arbitrary trigonometric, multi-state, mis-announced or erratic objectives: value of the returned point, best completed sweep, truthful convergence, start point untouched", quick=150, thorough=1500, shards=1, budget=40),
        Component("curves", strat_curve, check_curve, "RotoSolve on curves with several nearly equally deep minima or a narrow well", quick=150, thorough=2000, shards=1, budget=30),
        Component("options", strat_badopt, check_badopt, "unknown optimisers and RotoSolve without its options are refused", quick=15, thorough=60, shards=1, budget=20),
        Component("orbitals", strat_oo, check_oo, "combined ansatz and orbital optimisation", quick=14, thorough=150, shards=4, budget=45),
    ],
    ["minimisers of SciPy return a point no worse than their start (gradient methods and COBYLA/COBYQA as installed)"],
)
