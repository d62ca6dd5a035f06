"""P19: linear response from circuit expectation values equals its definition and the classical implementation."""
from __future__ import annotations

import contextlib
import importlib
import io

import numpy as np
from hypothesis import strategies as st

from vq import lr, qi, ref, wf as W
from vq.core import Component, Property, Skip, close, require
from vq.props.p13 import dressed, make, optimised
from vq.props.p14 import HA2EV
from vq.props.p15 import MAPS

QVAR = ["naive", "naive", "projected", "projected", "allprojected", "selfconsistent", "statetransfer"]
# (name, options): classical and circuit ansatz with the same parameters
ANS = [("tUPS", {"n_layers": 1}), ("tUPS", {"n_layers": 2}), ("QNP", {"n_layers": 2}), ("kSAfUpCCGSD", {"n_layers": 1}), ("fUCCSD", {"n_layers": 1}), ("tUPS", {"n_layers": 1, "skip_last_singles": True})]


QUICK = [(0, 2, 1), (1, 2, 0), (0, 2, 1), (1, 2, 0), (1, 2, 1), (0, 3, 0), (0, 2, 0)]


def strategy(dims):
    def fin(d):
        d["ni"], d["na"], d["nv"] = d.pop("dim")
        d["pairs"] = 1 + d["pairs"] % max(1, d["na"] - 1)
        name, opts = ANS[d.pop("a") % len(ANS)]
        d["kind"], d["ansatz"] = "ups", [name, dict(opts)]
        d.update(ak=False, nstates=1, big=False, off=0)
        if d["variant"] in ("selfconsistent", "statetransfer"):
            d["map"] = "jw"
        return d

    return st.fixed_dictionaries({
        "dim": st.sampled_from(dims), "pairs": st.integers(0, 5), "a": st.integers(0, 23), "seed": st.integers(0, 10**6), "exc": st.sampled_from(["SD", "SD", "S", "D", "sd"]), "scale": st.sampled_from([0.1, 0.3]),
        "variant": st.sampled_from(QVAR), "map": st.sampled_from(MAPS), "rdm": st.booleans(), "grad": st.booleans(), "again": st.booleans(),
    }).map(fin)


def qlr(variant):
    return importlib.import_module(f"slowquant.qiskit_interface.linear_response.{variant}").quantumLR


def check(spec):
    wf, mol, _ = optimised(spec)
    if not len(wf.thetas):
        raise Skip
    v, exc = spec["variant"], spec["exc"]
    active_only = v in ("selfconsistent", "statetransfer")
    kidx = [] if active_only else wf.kappa_no_activeactive_idx
    if len(kidx) + len(lr.ladder(wf, exc)) == 0:
        raise Skip
    D = lr.Dense(wf, mol)
    name, opts = spec["ansatz"]
    qwf, Q = qi.circuit_wf((2 * spec["pairs"], spec["na"]), np.array(wf.c_mo), mol, qi.exact_sampler(), name, spec["map"], dict(opts))
    qwf.thetas = [float(t) for t in wf.thetas]
    what = f"circuit {v}({exc}), {name} with {spec['map']}"
    L = qi.quiet(qlr(v), qwf, exc)
    qo, Go = dressed(D, L, v, exc, what)
    kw = {"do_gradients": spec["grad"]}
    if v in ("naive", "projected"):
        kw["do_rdm"] = spec["rdm"]
        what += ", density matrices" if spec["rdm"] else ""
    if active_only:
        if len(wf.kappa_no_activeactive_idx):
            try:
                qi.quiet(L.run, **kw)
            except NotImplementedError:
                pass
            else:
                require(False, f"{what}: orbital rotations silently left out")
            kw["skip_orbital_rotations"] = True
    qi.quiet(L.run, **kw)
    if spec["again"]:
        qi.quiet(L.run, **kw)
        what += ", run twice"
    ops = Go if active_only else qo + Go
    N = len(ops)
    g = float(np.max(np.abs(D.gradient(ops)), initial=0.0))
    if lr.VARIANTS[v][0] in ("sc", "st"):
        g = max(g, D.residual())
    g = max(g, float(np.max(np.abs(D.gradient(qo)), initial=0.0)))
    if g > 1e-4:
        raise Skip
    tol = 1e-8 + 20 * g
    A, B, S, De = D.matrices(ops)
    # the two nestings of the double commutators differ by <[[O+, P], H]>, which vanishes only when the state is also stationary in that direction
    com = lambda X, Y: D.v @ (X @ Y - Y @ X) @ D.v
    nest = [np.array([[com(O.T @ P - P @ O.T, D.H) for P in M] for O in ops]) for M in (ops, [o.T for o in ops])] + [0.0]
    if len(np.asarray(L.A)):
        for nm, want, got, gap in zip(("A", "B", "Sigma"), (A, B, S), (L.A, L.B, L.Sigma), nest):
            got = np.asarray(got)
            require(got.shape == want.shape, f"{what} {nm}: shape {got.shape} instead of {want.shape}")
            close(got + np.clip(want - got, -0.5 * np.abs(gap), 0.5 * np.abs(gap)), want, f"{what} {nm}", tol)
    e = np.asarray(qi.quiet(L.get_excitation_energies))
    # from here on with the matrices as computed, which have just been compared
    A, B, S = (np.array(m) for m in (L.A, L.B, L.Sigma))
    E2, S2 = np.block([[A, B], [B, A]]), np.block([[S, 0 * S], [0 * S, -S]])
    lo, sm = np.linalg.eigvalsh((E2 + E2.T) / 2)[0], np.linalg.eigvalsh((S + S.T) / 2)[0]
    if lo < 1e-4 or sm < 1e-4:
        return f"{v}:matrices"
    require(e.shape == (N,), f"{what}: {e.shape} excitation energies for {N} operators")
    wr = np.sort(np.linalg.eigvals(np.linalg.solve(E2, S2)).real)
    wref = np.sort(1 / wr[wr > 0])
    close(e, wref, f"{what} excitation energies", 1e-9 / sm)
    qi.quiet(L.get_normed_excitation_vectors)
    X = np.asarray(L.normed_excitation_vectors)
    close(np.einsum("ik,ij,jk->k", X, S2, X), np.ones(N), f"{what} normalisation of excitation vectors", 1e-7)
    close(E2 @ X, (S2 @ X) * e, f"{what} response equation", 1e-7 / sm)
    t = np.asarray(qi.quiet(L.get_transition_dipole))
    f = np.asarray(qi.quiet(L.get_oscillator_strength))
    P = np.array([[D.v @ (o.T @ m - m @ o.T) @ D.v for m in D.mu] for o in ops])
    want = (X[N:] - X[:N]).T @ P
    for k in range(N):
        s = 1.0 if np.dot(t[k], want[k]) >= 0 else -1.0
        close(s * t[k], want[k], f"{what} transition dipole of state {k}", 1e-7 + N * tol * float(np.max(np.abs(X[:, k]))))
    close(f, 2 / 3 * e * np.sum(t**2, axis=1), f"{what} oscillator strengths", 1e-8)
    rows = qi.quiet(L.get_formatted_oscillator_strength).strip().split("\n")[1:]
    require(len(rows) == N, f"{what}: table has {len(rows)} rows")
    for k, r in enumerate(rows):
        c = [x.strip() for x in r.split("|")]
        require(int(c[0]) == k + 1 and abs(float(c[1]) - e[k]) < 1e-5 and abs(float(c[2]) - HA2EV * e[k]) < 1e-4 * (1 + e[k]) and abs(float(c[3]) - f[k]) < 1e-5 * (1 + abs(f[k])), f"{what}: table row {r!r} for state {k}")
    if spec["seed"] % 2:
        contributions(L, e, f, len(qo) if not active_only else 0, spec["seed"], what)
    tol = max(tol, *(float(np.max(np.abs(x), initial=0.0)) for x in nest[:2]))
    # the classical implementation of the same variant
    if lo > 1e-2 and sm > 1e-2 and not (active_only and len(qo)):
        try:
            C = make(v, wf, exc)
            qi.quiet(C.calc_excitation_energies)
        except ValueError:
            return f"{v}:{spec['map']}"
        close(e, np.asarray(C.excitation_energies), f"{what} energies against the classical implementation", 1e-6 + 1e3 * tol / sm)
        fc = np.asarray(qi.quiet(C.get_oscillator_strength))
        for k in range(N):
            if np.min(np.abs(np.delete(e, k) - e[k]), initial=1.0) > 1e-2:
                close(f[k], fc[k], f"{what} oscillator strength {k} against the classical implementation", 1e-5 + 1e4 * tol / sm)
    return f"{v}:{spec['map']}"


def contributions(L, e, f, nq, seed, what):
    """The printed contributions are the squared elements of the excitation vectors, largest first, attributed to their operators."""
    num = (None, 1, 2)[seed % 3]
    cut = (1e-2, 1e-3, 0.2)[seed // 3 % 3]
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        L.get_excited_state_contributions(num, cut)
    got = []
    for line in buf.getvalue().split("\n"):
        if line.startswith("Excited state:"):
            k, rest = line[14:].split(":")
            w = rest.split()
            got.append([int(k), float(w[0]), float(w[-1]), []])
        elif got and "|" in line:
            v, pos, op = (x.strip() for x in line.split("|"))
            got[-1][3].append((float(v), int(pos), op))
    V = np.abs(np.asarray(L.excitation_vectors)) ** 2
    N = len(V) // 2
    require([g[0] for g in got] == list(range(V.shape[1])), f"{what}: contributions list states {[g[0] for g in got]}")
    for k, ek, fk, rows in got:
        require(abs(ek - e[k]) < 6e-4 and abs(fk - f[k]) < 6e-4 * (1 + abs(f[k])), f"{what}: contributions of state {k} are headed {ek} Ha, f = {fk}, for {e[k]} Ha and {f[k]}")
        for v, pos, op in rows:
            require(abs(v - V[pos, k]) < 6e-4, f"{what}: contribution {v} of position {pos} to state {k} instead of {V[pos, k]}")
            j = pos % N
            require(op == (f"q{j}" if j < nq else f"G{j - nq}") + ("^d" if pos >= N else ""), f"{what}: position {pos} of {2 * N} attributed to {op}")
        vals = [V[pos, k] for _, pos, _ in rows]
        require(all(a >= b - 1e-12 for a, b in zip(vals, vals[1:])) and len({r[1] for r in rows}) == len(rows), f"{what}: contributions to state {k} are not in order: {rows}")
        want = np.sort(V[:, k])[::-1][:num]
        require(len(rows) == sum(x > cut for x in want) or np.min(np.abs(V[:, k] - cut)) < 1e-9, f"{what}: {len(rows)} contributions to state {k} with at most {num} above {cut}")


def strat_high(tier):
    from vq.props.p13 import HIGH

    return st.fixed_dictionaries({"space": st.sampled_from(HIGH), "ni": st.integers(0, 1), "nv": st.integers(0, 1), "variant": st.sampled_from(["naive", "projected", "allprojected", "selfconsistent", "statetransfer"]), "sd": st.sampled_from(["", "S", "d", "sd"]), "seed": st.integers(0, 10**6)}).map(lambda d: dict(zip(("na", "pairs", "exc"), d.pop("space")), **d))


def check_high(spec):
    """Response operators of high rank in large active spaces (operators only: nothing is measured)."""
    from vq.props.p13 import high_ops

    ni, na, pairs = spec["ni"], spec["na"], spec["pairs"]
    N = ni + na + spec["nv"]
    n = 2 * N
    mol = ref.model_mole(spec["seed"], N, 2 * (ni + pairs), scale=0.1)
    exc = spec["exc"] + spec["sd"]
    what = f"circuit {spec['variant']}({exc}) of ({2 * pairs}, {na})"
    qwf, _ = qi.circuit_wf((2 * pairs, na), np.eye(N), mol, qi.exact_sampler(), "tUPS", "jw", {"n_layers": 1})
    L = qi.quiet(qlr(spec["variant"]), qwf, exc)
    det = sum(1 << (n - 1 - x) for x in range(2 * (ni + pairs)))
    got, low, pairs_seen = [], [], []
    for o in L.G_ops:
        r = ref.apply_terms(o.operators, {det: 1.0}, n)
        ranks = {len(s) // 2 for s in o.operators}
        if ranks <= {1, 2}:
            low.append(r)
            continue
        require(len(r) == 1 and abs(abs(next(iter(r.values()))) - 1) < 1e-12, f"{what}: an active operator does not produce one determinant from the reference: {r}")
        got.append(next(iter(r)))
    want = high_ops(qwf, exc, det, n)
    require(sorted(got) == sorted(want), f"{what}: the operators do not produce each excited determinant once ({len(got)} instead of {len(want)})")
    o, v = len(qwf.active_occ_idx), len(qwf.active_unocc_idx)
    pr = lambda k: k * (k + 1) // 2
    count = (o * v if "s" in spec["sd"].lower() else 0) + (pr(o) * pr(v) + pr(o - 1) * pr(v - 1) if "d" in spec["sd"].lower() else 0)
    require(len(low) == count, f"{what}: {len(low)} singles and doubles instead of {count}")
    # spin-adapted singles and doubles produce an orthonormal set from the reference
    keys = sorted({d for r in low for d in r})
    M = np.array([[r.get(d, 0.0) for d in keys] for r in low]).reshape(len(low), len(keys))
    close(M @ M.T, np.eye(len(low)), f"{what} overlap of singly and doubly excited states", 1e-10)
    require(len(L.q_ops) == len(qwf.kappa_no_activeactive_idx), f"{what}: {len(L.q_ops)} orbital operators")
    return f"{exc}:{spec['variant']}" if want else None


PROPERTY = Property(
    "P19",
    "Optimised wave functions of random model molecules. Non-trivial: all gradient elements are below 1e-4, so Hessian and metric blocks are compared to 2e-3 or (typically) 1e-8; spectra additionally need Hessian and metric eigenvalues above 1e-4.",
    [
        Component("response", lambda t: strategy(QUICK if t == "quick" else QUICK + [(1, 2, 1), (1, 2, 1), (1, 3, 0), (0, 3, 1), (1, 2, 2), (2, 2, 1), (0, 2, 2), (2, 2, 0), (0, 3, 0), (0, 4, 0)]), check, "matrices, spectra, normalisation, transition dipoles, oscillator strengths and tables of the five circuit variants vs dense commutators and the classical implementation", quick=10, thorough=150, shards=8, budget=55, case_limit=300),
        Component("high", strat_high, check_high, "response operators up to sextuple excitations in up to six active orbitals: each excited determinant exactly once, orthonormal spin-adapted singles and doubles", quick=30, thorough=300, shards=1, budget=40),
    ],
    ["exact-distribution sampler", "self-consistent and state-transfer variants: active-space parameters only, Jordan-Wigner"],
)
