"""P14: linear-response spectra: eigenproblem, normalisation, transition properties, exactness in complete spaces, invariances."""
from __future__ import annotations

import contextlib
import io

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import lr, ref, wf as W
from vq.core import Component, Property, Skip, close, fail, require
from vq.props.p13 import dressed, make, optimised, strategy

HA2EV = 27.211386


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn()


def full(L):
    E2 = np.block([[L.A, L.B], [L.B, L.A]])
    S = np.block([[L.Sigma, L.Delta], [-L.Delta, -L.Sigma]])
    return E2, S


def solve(L, what):
    """Runs the eigenproblem; None when refused for a negative Hessian (which must then be there) or ill-conditioned."""
    E2, S = full(L)
    lo = np.linalg.eigvalsh((E2 + E2.T) / 2)[0]
    sm = np.linalg.eigvalsh((L.Sigma + L.Sigma.T) / 2)[0]
    try:
        quiet(L.calc_excitation_energies)
    except ValueError as e:
        require(lo < -1e-9 or sm < 1e-6, f"{what}: refused although the lowest Hessian eigenvalue is {lo:.3e}: {e}")
        return None
    require(lo > -1e-6, f"{what}: accepted although the Hessian has the eigenvalue {lo:.3e}")
    if lo < 1e-3 or sm < 1e-3:
        return None
    return E2, S


def properties(L, what):
    t = np.array(quiet(L.get_transition_dipole))
    f = np.array(quiet(L.get_oscillator_strength))
    N = len(L.A)
    require(t.shape == (N, 3) and f.shape == (N,), f"{what}: shapes {t.shape}, {f.shape} of transition properties")
    return t, f


def check_spec(spec):
    wf, mol, _ = optimised(dict(spec, off=0))
    if not len(wf.thetas):
        raise Skip
    D = lr.Dense(wf, mol)
    good = 0
    for v in lr.VARIANTS:
        what = f"{v}({spec['exc']})"
        kidx = wf.kappa_hf_like_idx if v in ("allselfconsistent", "allstatetransfer") else wf.kappa_no_activeactive_idx
        if len(kidx) + len(lr.ladder(wf, spec["exc"])) == 0:
            continue
        try:
            L = make(v, wf, spec["exc"])
        except ValueError:
            continue
        try:
            quiet(L.get_formatted_oscillator_strength)
            fail(f"{what}: table of oscillator strengths before they were calculated")
        except (ValueError, AttributeError):
            pass
        res = solve(L, what)
        if res is None:
            continue
        E2, S = res
        N = len(L.A)
        w = np.asarray(L.excitation_energies)
        X = np.asarray(L.normed_response_vectors)
        require(w.shape == (N,) and X.shape == (2 * N, N), f"{what}: {w.shape} energies, vectors {X.shape}")
        # energies: positive half of the pencil, ascending
        wr = np.sort(np.linalg.eigvals(np.linalg.solve(E2, S)).real)
        wref = np.sort(1 / wr[wr > 0])
        require(np.all(np.diff(w) > -1e-9) and np.all(w > 0), f"{what}: excitation energies not positive and ascending: {w}")
        require(len(wref) == N, f"{what}: pencil has {len(wref)} positive eigenvalues")
        close(w, wref, f"{what} excitation energies", 1e-7)
        close(E2 @ X, (S @ X) * w, f"{what} response eigenvalue equation", 1e-6)
        close(np.einsum("ik,ij,jk->k", X, S, X), np.ones(N), f"{what} normalisation of response vectors", 1e-7)
        gram = X.T @ S @ X
        asym = float(np.max(np.abs(E2 - E2.T))) * (1 + float(np.max(np.abs(X))) ** 2 * len(X))
        for i in range(N):
            for j in range(i):
                if abs(w[i] - w[j]) > 1e-3:
                    require(abs(gram[i, j]) < 1e-6 + 10 * asym / abs(w[i] - w[j]), f"{what}: response vectors {i}, {j} overlap by {gram[i, j]:.2e}")
        nq = len(L.q_ops)
        for name, sl in (("Z_q_normed", X[:nq]), ("Z_G_normed", X[nq:N]), ("Y_q_normed", X[N : N + nq]), ("Y_G_normed", X[N + nq :])):
            close(np.asarray(getattr(L, name)), sl, f"{what} {name}", 1e-10)
        R = np.asarray(L.response_vectors)
        close(np.asarray(L.get_excited_state_norm()), np.einsum("ik,ij,jk->k", R, S, R), f"{what} norms", 1e-8)
        t, f = properties(L, what)
        qo, Go = dressed(D, L, v, spec["exc"], what)
        ops = qo + Go
        g = max(float(np.max(np.abs(D.gradient(ops)), initial=0.0)), D.residual() if lr.VARIANTS[v][0] in ("sc", "st") else 0.0)
        P = np.array([[D.v @ (o.T @ m - m @ o.T) @ D.v for m in D.mu] for o in ops])
        want = (X[N:] - X[:N]).T @ P
        for k in range(N):
            s = 1.0 if np.dot(t[k], want[k]) >= 0 else -1.0
            close(s * t[k], want[k], f"{what} transition dipole of state {k}", 1e-7 + 20 * g)
        close(f, 2 / 3 * w * np.sum(t**2, axis=1), f"{what} oscillator strengths", 1e-9)
        rows = quiet(L.get_formatted_oscillator_strength).strip().split("\n")[1:]
        require(len(rows) == N, f"{what}: table has {len(rows)} rows")
        for k, r in enumerate(rows):
            c = [x.strip() for x in r.split("|")]
            require(int(c[0]) == k + 1 and abs(float(c[1]) - w[k]) < 1e-5 and abs(float(c[2]) - HA2EV * w[k]) < 1e-4 * (1 + w[k]) and abs(float(c[3]) - f[k]) < 1e-5 * (1 + abs(f[k])), f"{what}: table row {r!r} for state {k}")
        good += 1
    return f"{spec['ansatz'][0]}:{good}" if good else None


def strat_exact(tier):
    def fix(d):
        d.update(ni=0, nv=0, exc=d["exc"] if d["na"] == 4 else "SD", off=0)
        if d["na"] == 4:
            d["pairs"] = [1, 3][d["pairs"] % 2] if tier == "quick" else d["pairs"]
            d["exc"] = "SD" if d["pairs"] != 2 else "SDTQ"
        return d

    return strategy(4, na=(2, 3, 3, 4)).map(fix)


def check_exact(spec):
    """No inactive or virtual orbitals, complete excitation space: exact singlet spectrum and transition moments."""
    spec = dict(spec)
    wf, mol, _ = optimised(spec)
    if not len(wf.thetas):
        raise Skip
    D = lr.Dense(wf, mol)
    w, V = np.linalg.eigh(D.H)
    s2 = ref.restrict(ref.s2_matrix(D.n), D.dets)
    if abs(D.v @ V[:, 0]) < 1 - 1e-9 or V[:, 0] @ s2 @ V[:, 0] > 0.1 or w[1] - w[0] < 0.05:
        raise Skip
    sing = [k for k in range(1, len(w)) if V[:, k] @ s2 @ V[:, k] < 0.5]
    gaps = w[sing] - w[0]
    if np.min(np.diff(w[[0] + sing]), initial=1.0) < 1e-3 or np.min(np.diff(w), initial=1.0) < 1e-6:
        raise Skip
    mu = np.array([[V[:, 0] @ m @ V[:, k] for m in D.mu] for k in sing])
    good = 0
    for v in lr.VARIANTS:
        what = f"{v}({spec['exc']}), complete space"
        try:
            L = make(v, wf, spec["exc"])
        except ValueError as e:
            fail(f"{what}: exact ground state refused: {e}")
        if solve(L, what) is None:
            continue
        t, f = properties(L, what)
        e = np.asarray(L.excitation_energies)
        # first-order sensitivity to the residual of the optimisation
        tol = 1e-6 + 50 * D.residual() / np.sqrt(max(np.linalg.eigvalsh(L.Sigma)[0], 1e-3))
        if spec["exc"] == "SD":
            require(len(e) == len(sing), f"{what}: {len(e)} states instead of {len(sing)}")
            idx = range(len(e))
        else:
            idx = [int(np.argmin(np.abs(e - x))) for x in gaps]
        for k, j in enumerate(idx):
            close(e[j], gaps[k], f"{what} excitation energy {k}", tol)
            if np.min(np.abs(np.delete(e, j) - e[j]), initial=1.0) > 1e-3:
                sg = 1.0 if np.dot(t[j], mu[k]) >= 0 else -1.0
                close(sg * t[j], mu[k], f"{what} transition dipole {k}", 100 * tol)
                close(f[j], 2 / 3 * gaps[k] * np.sum(mu[k] ** 2), f"{what} oscillator strength {k}", 100 * tol)
        good += 1
    return f"na{spec['na']}:{spec['pairs']}" if good else None


def strat_inv(tier):
    return st.tuples(strategy(5 if tier == "quick" else 6), st.sampled_from(["phase", "inactive", "virtual", "both"]), st.sampled_from(list(lr.VARIANTS))).map(lambda t: dict(t[0], how=t[1], variant=t[2], off=0)).map(
        lambda d: dict(d, ni=2 if d["how"] == "inactive" and d["ni"] < 2 and d["nv"] + d["na"] <= 3 else d["ni"], nv=2 if d["how"] == "virtual" and d["ni"] + d["na"] <= 3 else d["nv"])
    )


def check_inv(spec):
    """Orbital phases and rotations among inactive or among virtual orbitals change nothing."""
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS  # noqa: F401

    wf, mol, rng = optimised(spec)
    if not len(wf.thetas):
        raise Skip
    n, ni, na = wf.num_orbs, wf.num_inactive_orbs, wf.num_active_orbs
    R = np.eye(n)
    sg = np.ones(n)
    how = spec["how"]
    if how in ("phase", "both"):
        sg = rng.choice([-1.0, 1.0], n)
        sg[ni + int(rng.integers(na))] = -1.0
        R = R * sg
    for name, a, b in (("inactive", 0, ni), ("virtual", ni + na, n)):
        if how in (name, "both") and b > a:
            R[a:b, a:b] = ref.rand_orth(rng, b - a)
    if np.allclose(R, np.eye(n)):
        raise Skip
    wf2, _, _ = quiet(lambda: W.build(spec, mol, wf.c_mo @ R, thetas=False))
    lay = W.layout(wf)
    th = []
    for t, kind, idx in zip(wf.thetas, lay.excitation_operator_type, lay.excitation_indices):
        s = 1.0
        for i in idx:
            s *= sg[ni + (int(i) if kind.startswith("sa_") else int(i) // 2)]
        th.append(float(t * s))
    wf2.thetas = th
    e1, e2 = (W.ref_energy(w, mol) for w in (wf, wf2))
    if abs(e1 - e2) > 1e-8:
        raise Skip
    out = []
    for w in (wf, wf2):
        try:
            L = make(spec["variant"], w, spec["exc"])
        except ValueError:
            out.append(None)
            continue
        if solve(L, spec["variant"]) is None:
            out.append(None)
            continue
        t, f = properties(L, spec["variant"])
        out.append((np.array(L.excitation_energies), f))
    if out[0] is None or out[1] is None:
        # thresholds may be met on one side only
        return None
    (a, fa), (b, fb) = out
    D = lr.Dense(wf, mol) if n <= 4 else None
    g = D.residual() if D is not None else 1e-6
    close(b, a, f"{spec['variant']} excitation energies after {how} change of orbitals", 1e-6 + 50 * g)
    k = 0
    while k < len(a):
        m = k
        while m + 1 < len(a) and a[m + 1] - a[m] < 1e-3:
            m += 1
        if m == k:
            close(fb[k], fa[k], f"{spec['variant']} oscillator strength {k} after {how} change of orbitals", 1e-4 + 1000 * g)
        k = m + 1
    return f"{how}:{spec['variant']}"


PROPERTY = Property(
    "P14",
    "linear response could be built and its Hessian and metric have all eigenvalues above 1e-3; for exactness additionally the optimised state is the exact non-degenerate singlet ground state",
    [
        Component("spectrum", lambda t: strategy(4), check_spec, "energies vs the pencil's eigenvalues, eigen-equation, normalisation, slices, transition dipoles vs dense commutators with the dipole operator, oscillator strengths, printed table, refusal of indefinite Hessians", quick=12, thorough=110, shards=4, thorough_shards=8, budget=45),
        Component("exact", strat_exact, check_exact, "complete active space: energies, transition dipoles and oscillator strengths vs exact diagonalisation, all variants", quick=10, thorough=100, shards=2, thorough_shards=8, budget=45),
        Component("invariance", strat_inv, check_inv, "orbital phases and inactive/virtual rotations leave the spectrum unchanged", quick=12, thorough=120, shards=2, thorough_shards=8, budget=45),
    ],
    ["NumPy eigen-solvers", "tolerances widened by the residual of the optimisation (first order)", "mutual orthogonality of response vectors claimed for non-degenerate states only"],
)
