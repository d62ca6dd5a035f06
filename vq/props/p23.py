"""P23: Hartree-Fock results are stationary and equal an independent implementation."""
from __future__ import annotations

import contextlib
import io

import numpy as np
from hypothesis import strategies as st

from vq import gto, ref
from vq.core import Component, Property, Skip, close, fail, require
from vq.props.p22 import element, library

# molecule: (atoms, reference geometry in bohr, charges giving closed shells)
MOLS = {
    "H2": (["H", "H"], [[0, 0, 0], [0, 0, 1.4]], [0]),
    "HeH+": (["He", "H"], [[0, 0, 0], [0, 0, 1.5]], [1]),
    "H3+": (["H", "H", "H"], [[0, 0, 0], [0, 0, 1.65], [0, 1.43, 0.82]], [1]),
    "LiH": (["Li", "H"], [[0, 0, 0], [0, 0, 3.0]], [0]),
    "BeH2": (["Be", "H", "H"], [[0, 0, 0], [0, 0, 2.5], [0, 0, -2.5]], [0]),
    "HF": (["F", "H"], [[0, 0, 0], [0, 0, 1.75]], [0]),
    "H2O": (["O", "H", "H"], [[0, 0, 0], [0, 1.43, 1.1], [0, -1.43, 1.1]], [0]),
    "H4": (["H"] * 4, [[0, 0, 0], [0, 0, 1.5], [0, 3.0, 0.2], [0.3, 3.1, 1.7]], [0]),
    "He": (["He"], [[0, 0, 0]], [0]),
    "Be": (["Be"], [[0, 0, 0]], [0]),
    "NH3": (["N", "H", "H", "H"], [[0, 0, 0], [0, 1.77, 0.72], [1.53, -0.89, 0.72], [-1.53, -0.89, 0.72]], [0]),
}
OPEN = {
    "H": (["H"], [[0, 0, 0]], 0), "Li": (["Li"], [[0, 0, 0]], 0), "H2+": (["H", "H"], [[0, 0, 0], [0, 0, 2.0]], 1), "H3": (["H"] * 3, [[0, 0, 0], [0, 0, 1.8], [0, 0, -1.8]], 0), "H2s": (["H", "H"], [[0, 0, 0], [0, 0, 4.0]], 0),
    "BeH": (["Be", "H"], [[0, 0, 0], [0, 0, 2.5]], 0), "LiHs": (["Li", "H"], [[0, 0, 0], [0, 0, 5.5]], 0), "H2O+": (["O", "H", "H"], [[0, 0, 0], [0, 1.43, 1.1], [0, -1.43, 1.1]], 1), "He": (["He"], [[0, 0, 0]], 0), "H4": (["H"] * 4, [[0, 0, 0], [0, 0, 1.5], [0, 3.0, 0.2], [0.3, 3.1, 1.7]], 0),
    "OH": (["O", "H"], [[0, 0.0, 0.0], [0, 0.3, 1.9]], 0), "CH": (["C", "H"], [[0, 0, 0], [0, 0.2, 2.1]], 0), "B": (["B"], [[0, 0, 0]], 0), "BH2": (["B", "H", "H"], [[0, 0, 0], [0, 0, 2.3], [0, 1.9, -1.1]], 0),
    "H2-": (["H", "H"], [[0, 0, 0], [0, 0, 1.4]], -1), "HeH": (["He", "H"], [[0, 0, 0], [0, 0, 2.0]], 0),
}


def limit(name, basis, most):
    return sum(len(gto.CART[s[0]]) for a in name for s in library(basis)[a.lower()]) <= most


def build(atoms, geo, charge, basis, rng, spread):
    from slowquant.SlowQuant import SlowQuant

    r = np.array(geo, dtype=float)
    if len(atoms) > 1:
        r = r + rng.normal(size=r.shape) * spread
        Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
        r = r @ Q + rng.normal(size=3)
    A = SlowQuant()
    A.set_molecule("".join(f"{n} {x!r} {y!r} {z!r};" for n, (x, y, z) in zip(atoms, r.tolist())), molecular_charge=charge, basis_set=basis)
    A.init_hartree_fock()
    R = gto.Cint([(x, *s) for a, x in zip(atoms, r) for s in library(basis)[a.lower()]], [(element(a)[0], x) for a, x in zip(atoms, r)])
    return A, R.one("int1e_ovlp"), R.one("int1e_kin") + R.one("int1e_nuc"), R.eri()


def run(fn):
    """Returns printed output; converged unless the output says otherwise."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        fn()
    return buf.getvalue()


def reference(S, h, g, na, nb, c0=None):
    """PySCF SCF from the core guess (or given densities) on the same integrals."""
    from pyscf import gto as pg, scf

    m = pg.M(verbose=0)
    m.nelectron = na + nb
    m.spin = na - nb
    m.incore_anyway = True
    mf = scf.UHF(m) if c0 is not None and np.ndim(c0) == 3 else scf.RHF(m)
    mf.get_hcore = lambda *a: h
    mf.get_ovlp = lambda *a: S
    mf._eri = g
    mf.energy_nuc = lambda *a: 0.0
    mf.conv_tol = 1e-12
    if c0 is None:
        e, c = np.linalg.eigh(np.linalg.solve(np.linalg.cholesky(S), np.linalg.solve(np.linalg.cholesky(S), h).T))
        c = np.linalg.solve(np.linalg.cholesky(S).T, c)
        c0 = 2 * c[:, :na] @ c[:, :na].T
    e = mf.kernel(c0)
    return e, mf


def strat_r(tier):
    return st.fixed_dictionaries({
        "mol": st.sampled_from(sorted(MOLS)), "basis": st.sampled_from(["sto-3g", "sto-3g", "6-31g", "4-31g", "6-31g**", "dz"]), "seed": st.integers(0, 10**6), "spread": st.sampled_from([0.0, 0.1, 0.3]), "diis": st.booleans(), "tight": st.booleans(),
        "again": st.booleans(), "most": st.just(9 if tier == "quick" else 14),
    })


def check_r(spec):
    atoms, geo, charges = MOLS[spec["mol"]]
    if any(a.lower() not in library(spec["basis"]) for a in atoms) or not limit(atoms, spec["basis"], spec["most"]):
        raise Skip
    rng = ref.rng_of(spec["seed"], 230)
    A, S, h, g = build(atoms, geo, charges[0], spec["basis"], rng, spec["spread"])
    if np.linalg.eigvalsh(S)[0] < 1e-3:
        raise Skip
    hf = A.hartree_fock
    hf.use_diis = spec["diis"]
    hf.max_scf_iterations = 500
    if spec["tight"]:
        hf.de_threshold = hf.rmsd_threshold = 1e-11
    what = f"{spec['mol']} in {spec['basis']}, DIIS {spec['diis']}"
    try:
        out = run(hf.run_restricted_hartree_fock)
    except np.linalg.LinAlgError as err:
        fail(f"{what}: {err!r}")
    if "did not meet" in out:
        require(not spec["diis"], f"{what}: not converged")
        raise Skip
    no = A.molecule.number_electrons // 2
    C, D = hf.mo_coeff, hf.rdm1
    n = len(S)
    close(C.T @ S @ C, np.eye(n), f"{what} orthonormality", 1e-9)
    close(D, 2 * C[:, :no] @ C[:, :no].T, f"{what} density from the occupied orbitals", 1e-10)
    F = h + np.einsum("pqrs,rs->pq", g, D) - 0.5 * np.einsum("prqs,rs->pq", g, D)
    E = 0.5 * np.sum(D * (h + F))
    close(hf.E_hf, E, f"{what} energy of the density", 1e-7)
    Fm = C.T @ F @ C
    close(Fm[:no, no:], np.zeros((no, n - no)), f"{what} occupied-virtual Fock block", 1e-6)
    close(hf.fock_matrix, F, f"{what} Fock matrix", 1e-6)
    if 0 < no < n:
        eo, ev = np.linalg.eigvalsh(Fm[:no, :no]), np.linalg.eigvalsh(Fm[no:, no:])
        require(eo[-1] <= ev[0] + 1e-6, f"{what}: occupied orbital at {eo[-1]} above empty one at {ev[0]}")
    close(np.diag(np.diag(Fm)), Fm, f"{what} canonical orbitals", 1e-6)
    require(np.all(np.diff(np.diag(Fm)) > -1e-6), f"{what}: orbitals not in order of energy")
    e2, mf = reference(S, h, g, no, no, D)
    require(abs(e2 - E) < 1e-7, f"{what}: independent implementation started from the result moves from {E} to {e2}")
    e3, mf = reference(S, h, g, no, no)
    if mf.converged:
        require(E < e3 + 1e-6, f"{what}: energy {E} above that of the independent implementation {e3}")
    if spec["again"]:
        run(hf.run_restricted_hartree_fock)
        close(hf.E_hf, E, f"{what} energy of a second run", 1e-9)
    if n <= 4 and 0 < no:
        H = hf._get_hamiltonian()
        dets = ref.sector(n, no, no)
        M = ref.restrict(ref.op_matrix(H, 2 * n), dets)
        hm = C.T @ h @ C
        gm = np.einsum("pi,qj,rk,sl,pqrs->ijkl", C, C, C, C, g, optimize=True)
        close(M, ref.restrict(ref.ham_matrix(hm, gm, n), dets), f"{what} Hamiltonian of the orbitals", 1e-8)
    return f"{spec['mol']}:{spec['basis']}"


def strat_u(tier):
    return st.fixed_dictionaries({
        "mol": st.sampled_from(sorted(OPEN)), "basis": st.sampled_from(["sto-3g", "sto-3g", "6-31g", "4-31g", "6-31g**", "dz"]), "seed": st.integers(0, 10**6), "spread": st.sampled_from([0.0, 0.1, 0.3]), "diis": st.booleans(), "mix": st.sampled_from([0.15, 0.15, 0.0, 0.5]), "thr": st.sampled_from([None, None, [1e-11, 1e-11], [1e3, 1e-9], [1e-12, 1e3]]),
        "most": st.just(9 if tier == "quick" else 14),
    })


def check_u(spec):
    atoms, geo, charge = OPEN[spec["mol"]]
    if any(a.lower() not in library(spec["basis"]) for a in atoms) or not limit(atoms, spec["basis"], spec["most"]):
        raise Skip
    rng = ref.rng_of(spec["seed"], 231)
    A, S, h, g = build(atoms, geo, charge, spec["basis"], rng, spec["spread"])
    if np.linalg.eigvalsh(S)[0] < 1e-3:
        raise Skip
    hf = A.hartree_fock
    hf.use_diis = spec["diis"]
    hf.max_scf_iterations = 500
    hf.uhf_lumo_homo_mix_coeff = spec["mix"]
    what = f"unrestricted {spec['mol']} in {spec['basis']}, DIIS {spec['diis']}, thresholds {spec['thr']}"
    if spec["thr"]:
        hf.de_threshold, hf.rmsd_threshold = spec["thr"]
    ne = sum(element(a)[0] for a in atoms) - charge
    na, nb = (ne + 1) // 2, ne // 2
    try:
        out = run(hf.run_unrestricted_hartree_fock)
    except Exception as err:  # noqa: BLE001
        fail(f"{what}: {err!r}")
    if "did not meet" in out or spec["thr"] and spec["thr"][1] > 1:
        raise Skip  # an energy that stands still does not say how well the orbitals are converged
    n = len(S)
    Da, Db = hf.rdm1_alpha, hf.rdm1_beta
    J = np.einsum("pqrs,rs->pq", g, Da + Db)
    tot = 0.0
    for nm, C, D, F0, no in (("alpha", hf.mo_coeff_alpha, Da, hf.fock_matrix_alpha, na), ("beta", hf.mo_coeff_beta, Db, hf.fock_matrix_beta, nb)):
        close(C.T @ S @ C, np.eye(n), f"{what} {nm} orthonormality", 1e-9)
        close(D, C[:, :no] @ C[:, :no].T, f"{what} {nm} density", 1e-10)
        F = h + J - np.einsum("prqs,rs->pq", g, D)
        close(F0, F, f"{what} {nm} Fock matrix", 1e-6)
        Fm = C.T @ F @ C
        close(Fm, np.diag(np.diag(Fm)), f"{what} {nm} canonical orbitals", 1e-6)
        require(np.all(np.diff(np.diag(Fm)) > -1e-6), f"{what}: {nm} orbitals not in order of energy")
        tot += 0.5 * np.sum(D * (h + F))
    close(hf.E_uhf, tot, f"{what} energy of the densities", 1e-7)
    close(hf.rdm1_charge, Da + Db, f"{what} charge density", 1e-12)
    close(hf.rdm1_spin, Da - Db, f"{what} spin density", 1e-12)
    sz = (na - nb) / 2
    s2 = sz * (sz + 1) + nb - np.sum((Da @ S) * (Db @ S).T)
    close(hf.spin_contamination, s2 - sz * (sz + 1), f"{what} spin contamination", 1e-8)
    e2, mf = reference(S, h, g, na, nb, np.array([Da, Db]))
    require(abs(e2 - tot) < 1e-7, f"{what}: independent implementation started from the result moves from {tot} to {e2}")
    return f"{spec['mol']}:{spec['basis']}"


def strat_l(tier):
    return st.fixed_dictionaries({
        "mol": st.sampled_from(["H2", "HeH+", "LiH", "H3+", "H4", "HF"]), "open": st.sampled_from([None, *sorted(OPEN)]), "basis": st.sampled_from(["sto-3g", "6-31g"]), "seed": st.integers(0, 10**6), "diis": st.booleans(), "unr": st.booleans(), "most": st.one_of(st.integers(1, 12), st.sampled_from([40, 60])), "print": st.booleans(),
        "warn": st.booleans(), "thr": st.sampled_from([1e-3, 1e-6, 1e-9]), "which": st.sampled_from(["both", "de", "rmsd"]),
    })


def check_l(spec):
    """An iteration limit that was too small is always reported; a silent run is converged to the thresholds asked for."""
    atoms, geo, charges = MOLS[spec["mol"]]
    name = spec["mol"]
    if spec["unr"] and spec["open"]:
        name = spec["open"]
        atoms, geo, charges = OPEN[name][0], OPEN[name][1], [OPEN[name][2]]
    if not limit(atoms, spec["basis"], 9):
        raise Skip
    A, S, h, g = build(atoms, geo, charges[0], spec["basis"], ref.rng_of(spec["seed"], 232), 0.1)
    hf = A.hartree_fock
    hf.use_diis, hf.max_scf_iterations = spec["diis"], spec["most"]
    hf.logger.print_output, hf.logger.print_warnings = spec["print"], spec["warn"]
    de = spec["thr"] if spec["which"] != "rmsd" else 1e3
    rm = spec["thr"] if spec["which"] != "de" else 1e3
    hf.de_threshold, hf.rmsd_threshold = de, rm
    what = f"{'un' * spec['unr']}restricted {name} in {spec['basis']}, at most {spec['most']} iterations"
    out = run(hf.run_unrestricted_hartree_fock if spec["unr"] else hf.run_restricted_hartree_fock)
    warned = [ln for ln in hf.log.splitlines() if ln.startswith("WARNING")]
    rows = [ln.split() for ln in hf.log.splitlines() if ln.strip() and ln.split()[0].isdigit()]
    require(rows and [int(r[0]) for r in rows] == list(range(1, len(rows) + 1)) and len(rows) <= spec["most"], f"{what}: iterations in the log {[r[0] for r in rows]}")
    require((out == hf.log) if spec["print"] else (out == "".join(ln + "\n" for ln in warned if spec["warn"])), f"{what}: printed {out!r}, logged {hf.log!r}")
    E = hf.E_uhf if spec["unr"] else hf.E_hf
    require(abs(float(rows[-1][1]) - E) < 1e-10, f"{what}: energy {E}, last line of the log {rows[-1]}")
    ok = [abs(float(r[2])) < de and all(float(x) < rm for x in r[3:]) for r in rows]
    near = any(abs(abs(float(x)) / t - 1) < 1e-4 for r in rows for x, t in zip(r[2:], [de, rm, rm]))
    for r, p in zip(rows[1:], rows):
        require(abs(float(r[1]) - float(p[1]) - float(r[2])) < 1e-9 + 1e-5 * abs(float(r[2])), f"{what}: energy change {r} after {p}")
    if near:
        raise Skip
    require(not any(ok[:-1]), f"{what}: went on after meeting the thresholds: {rows}")
    require(bool(warned) == (not ok[-1]), f"{what}: warnings {warned}, last iteration {rows[-1]}, thresholds {de}, {rm}")
    require(ok[-1] or len(rows) == spec["most"], f"{what}: stopped early")
    if ok[-1] and spec["thr"] < 1e-5 and spec["which"] != "de" and not spec["unr"]:
        D = hf.rdm1
        F = h + np.einsum("pqrs,rs->pq", g, D) - 0.5 * np.einsum("prqs,rs->pq", g, D)
        close(E, 0.5 * np.sum(D * (h + F)), f"{what} energy of the density", 100 * spec["thr"])
    return f"{name}:{'warned' if warned else 'converged'}"


# --------------------------------------------------------------------------------------------------------------
SESSION = {"H2": (MOLS["H2"], 0), "HeH+": (MOLS["HeH+"], 1), "H3+": (MOLS["H3+"], 1), "H4": (MOLS["H4"], 0), "He": (MOLS["He"], 0), "LiH": (MOLS["LiH"], 0), "H3": (OPEN["H3"], 0), "HeH": (OPEN["HeH"], 0), "H2-": (OPEN["H2-"], -1), "H": (OPEN["H"], 0)}


def strat_s(tier):
    step = st.tuples(st.sampled_from(["mol", "basis", "hf", "diis", "r", "r", "u", "u"]), st.integers(0, 10**6))
    return st.fixed_dictionaries({"first": st.integers(0, 10**6), "basis": st.integers(0, 5), "steps": st.lists(step.map(list), min_size=2, max_size=7 if tier == "quick" else 14)})


def check_s(spec):
    """One SlowQuant object through changes of molecule, basis set, settings and repeated runs of both kinds; finished calculations keep their results."""
    from slowquant.SlowQuant import SlowQuant

    names = ["sto-3g", "6-31g", "dz", "sto-3g", "6-31g", "4-31g"]
    A = SlowQuant()
    kept, ran = [], 0
    steps = [["mol", spec["first"]], ["r", 0]] + [list(x) for x in spec["steps"]] + [["u", 0], ["r", 1]]
    basis = names[spec["basis"]]
    trail = []
    for op, k in steps:
        trail.append(op)
        if op in ("mol", "basis"):
            if op == "mol":
                name = sorted(SESSION)[k % len(SESSION)]
                (atoms, geo, *_), charge = SESSION[name]
                rng = ref.rng_of(k, 233)
                r = np.array(geo, dtype=float) + rng.normal(size=(len(atoms), 3)) * 0.1
            else:
                basis = names[k % len(names)]
            if any(a.lower() not in library(basis) for a in atoms) or not limit(atoms, basis, 9):
                basis = "sto-3g"
            text = "".join(f"{n} {x!r} {y!r} {z!r};" for n, (x, y, z) in zip(atoms, r.tolist()))
            if op == "mol" and k % 3:
                A.set_molecule(text, molecular_charge=charge, basis_set=basis)
            else:
                if op == "mol":
                    A.set_molecule(text, molecular_charge=charge)
                A.set_basis_set(basis)
            A.init_hartree_fock()
            R = gto.Cint([(x, *s) for a, x in zip(atoms, r) for s in library(basis)[a.lower()]], [(element(a)[0], x) for a, x in zip(atoms, r)])
            S, h, g = R.one("int1e_ovlp"), R.one("int1e_kin") + R.one("int1e_nuc"), R.eri()
            continue
        hf = A.hartree_fock
        if op == "hf":
            A.init_hartree_fock()
            continue
        if op == "diis":
            hf.use_diis = not hf.use_diis
            continue
        ne = int(sum(element(a)[0] for a in atoms)) - charge
        nb = ne // 2
        na = ne - nb
        what = f"{name} in {basis} after {trail}"
        hf.max_scf_iterations = 500
        if op == "r":
            if na != nb:
                continue
            if "did not meet" in run(hf.run_restricted_hartree_fock):
                continue
            C, D = hf.mo_coeff, hf.rdm1
            close(C.T @ S @ C, np.eye(len(S)), f"{what} orthonormality", 1e-8)
            close(D, 2 * C[:, :na] @ C[:, :na].T, f"{what} density", 1e-9)
            F = h + np.einsum("pqrs,rs->pq", g, D) - 0.5 * np.einsum("prqs,rs->pq", g, D)
            close(hf.E_hf, 0.5 * np.sum(D * (h + F)), f"{what} energy of the density", 1e-7)
            close((C.T @ F @ C)[:na, na:], np.zeros((na, len(S) - na)), f"{what} occupied-virtual Fock block", 1e-6)
            res = ("r", hf, {x: np.array(getattr(hf, x)) for x in ("E_hf", "mo_coeff", "rdm1", "fock_matrix")})
        else:
            if "did not meet" in run(hf.run_unrestricted_hartree_fock):
                continue
            Ca, Cb, Da, Db = hf.mo_coeff_alpha, hf.mo_coeff_beta, hf.rdm1_alpha, hf.rdm1_beta
            J = np.einsum("pqrs,rs->pq", g, Da + Db)
            E = 0.0
            for s, C, D, m in (("alpha", Ca, Da, na), ("beta", Cb, Db, nb)):
                close(C.T @ S @ C, np.eye(len(S)), f"{what} orthonormality {s}", 1e-8)
                close(D, C[:, :m] @ C[:, :m].T, f"{what} density {s}", 1e-9)
                F = h + J - np.einsum("prqs,rs->pq", g, D)
                E += 0.5 * np.sum(D * (h + F))
                close((C.T @ F @ C)[:m, m:], np.zeros((m, len(S) - m)), f"{what} occupied-virtual Fock block {s}", 1e-6)
            close(hf.E_uhf, E, f"{what} energy of the densities", 1e-7)
            res = ("u", hf, {x: np.array(getattr(hf, x)) for x in ("E_uhf", "mo_coeff_alpha", "mo_coeff_beta", "rdm1_alpha", "rdm1_beta", "fock_matrix_alpha", "fock_matrix_beta")})
        ran += 1
        # a calculation replaces the results of its own kind on its own object, nothing else
        kept = [x for x in kept if not (x[1] is hf and x[0] == op)] + [res]
        for kind, obj, vals in kept:
            for x, v in vals.items():
                require(np.array_equal(np.asarray(getattr(obj, x)), v), f"{what}: {x} of an earlier {'un' * (kind == 'u')}restricted calculation changed")
    return f"{len(trail)}:{ran}" if ran > 1 else None


PROPERTY = Property(
    "P23",
    "Small closed- and open-shell molecules with distorted, rotated geometries. Non-trivial: the iterations converged (for restricted runs with DIIS this is itself required).",
    [
        Component("restricted", strat_r, check_r, "orthonormality, density, Fock matrix, energy, stationarity, aufbau, Hamiltonian in the orbitals, energy vs PySCF on independent integrals", quick=30, thorough=200, shards=4, budget=45),
        Component("unrestricted", strat_u, check_u, "both spins: orthonormality, densities, Fock matrices, energy, stationarity, spin contamination, energy vs PySCF", quick=30, thorough=200, shards=4, budget=45),
        Component("sessions", strat_s, check_s, "one SlowQuant object through changes of molecule, basis set and settings and repeated runs of both kinds, against libcint integrals; earlier calculations keep their results", quick=25, thorough=200, shards=2, budget=40),
        Component("limits", strat_l, check_l, "iteration limit and thresholds: warning iff not met, log and printed output agree with the result", quick=25, thorough=200, shards=2, budget=30),
    ],
    ["PySCF SCF and libcint integrals", "molecules near their equilibrium geometry for restricted runs"],
)
