"""P09: whatever the history of updates and reads, every quantity describes the current parameters and orbitals."""
from __future__ import annotations

import copy

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import ref, wf as W
from vq.core import Component, Property, close, require
from vq.props.p08 import Model

READS = ["ci", "c_mo", "h_mo", "g_mo", "rdm1", "rdm2", "energy", "states", "prop", "osc", "rdm3", "rdm4", "thetas", "kappa"]


def change():
    return st.one_of(
        st.tuples(st.just("thetas"), st.integers(0, 999)), st.tuples(st.just("one_theta"), st.integers(0, 999)), st.tuples(st.just("kappa"), st.integers(0, 999)),
        st.tuples(st.just("one_kappa"), st.integers(0, 999)), st.tuples(st.just("tiny_theta"), st.integers(0, 999)), st.tuples(st.just("tiny_kappa"), st.integers(0, 999)),
        st.tuples(st.just("creep"), st.integers(0, 999)), st.tuples(st.just("turn"), st.integers(0, 999)),
        st.tuples(st.just("bad_thetas"), st.integers(0, 999)), st.tuples(st.just("opt"), st.sampled_from(["1", "1oo", "2oo", "2", "roto"])),
        st.tuples(st.just("same"), st.integers(0, 1)), st.tuples(st.just("molecule"), st.integers(0, 1)),
    )


def scene():
    """A read, a change, or a quantity read before and after a change."""
    who = st.integers(0, 3).map(lambda k: 1 if k == 3 else 0)
    rd = st.tuples(st.just("read"), st.sampled_from(READS))
    return st.one_of(
        st.tuples(who, rd).map(lambda t: [[t[0], *t[1]]]),
        st.tuples(who, change()).map(lambda t: [[t[0], *t[1]]]),
        st.tuples(who, rd, change()).map(lambda t: [[t[0], *t[1]], [t[0], *t[2]], [t[0], *t[1]]]),
    )


def strat(tier):
    n = 6 if tier == "quick" else 12
    return st.tuples(
        W.spec_strategy(na=(2, 2, 3), ni=(0, 1, 2), nv=(0, 1, 2), max_orb=5, roto=True), st.lists(scene(), min_size=2, max_size=n),
    ).map(lambda t: {**t[0], "ops": [list(o) for s in t[1] for o in s]})


def orders(tier):
    """Four electrons in three orbitals: every order of density matrix is non-zero, and is read before and after changes."""
    k = st.sampled_from(["rdm4", "rdm3", "rdm4", "rdm2"])
    ch = st.one_of(
        st.tuples(st.sampled_from(["thetas", "one_theta", "kappa"]), st.integers(0, 999)), st.tuples(st.just("tiny_theta"), st.integers(0, 999).map(lambda i: 6 * (i // 6))),
        st.tuples(st.just("opt"), st.sampled_from(["1", "1oo"])),
    )
    sc = st.tuples(st.integers(0, 1), k, ch, k).map(lambda t: [[t[0], "read", t[1]], [t[0], *t[2]], [t[0], "read", t[3]]])
    return st.tuples(
        W.spec_strategy(kinds=("ups", "ups", "ucc"), na=(3,), ni=(0, 1, 2), nv=(0, 1), max_orb=5), st.lists(sc, min_size=1, max_size=2),
    ).map(lambda t: {**t[0], "pairs": 2, "orders": 1, "ops": [[0, "thetas", 1000 + t[0]["seed"] % 999], *[list(o) for s in t[1] for o in s]]})


def read(wf, M, mol, what, spec, rng, reps):
    sa = spec["kind"] == "sa"
    if what == "ci":
        close(W.states_of(wf), M.states(), f"state vector {reps}", 1e-9)
    elif what == "c_mo":
        close(wf.c_mo, M.C, f"orbitals {reps}", 1e-10)
        close(wf.c_mo.T @ wf.c_mo, np.eye(len(M.C)), f"orthonormality of the orbitals {reps}", 1e-8)
    elif what in ("h_mo", "g_mo"):
        h, g = ref.mo_ints(mol, M.C)
        close(getattr(wf, what), h if what == "h_mo" else g, f"{what} {reps}", 1e-9)
    elif what in ("rdm1", "rdm2", "rdm3", "rdm4"):
        if int(what[3]) > 2 and (sa or spec["na"] > 2 and not spec.get("orders")):
            return
        k = int(what[-1])
        close(getattr(wf, what), np.mean([ref.rdms(s, s, spec["na"], W.dets_of(wf), k) for s in M.states()], axis=0), f"{what} {reps}", 1e-9)
    elif what == "energy":
        close(wf.sa_energy if sa else wf.energy_elec, M.energy(), f"energy {reps}", 1e-9)
    elif what == "thetas":
        close(np.array(wf.thetas), np.array(M.th), f"ansatz parameters {reps}", 1e-12)
        if len(wf.thetas):
            wf.thetas[0] += 1.0  # must be a private copy
            close(np.array(wf.thetas), np.array(M.th), f"ansatz parameters {reps} after writing to the returned list", 1e-12)
    elif what == "kappa":
        if len(wf.kappa):
            old = list(wf.kappa)
            wf.kappa[0] += 1.0
            close(np.array(wf.kappa), np.array(old), f"orbital parameters {reps} after writing to the returned list", 1e-12)
    elif sa:
        S = M.states()
        H = W.ref_H(wf, mol, M.C)
        w, v = np.linalg.eigh(S @ H @ S.T)
        if what == "states":
            close(wf.energy_states, w, f"state energies {reps}", 1e-8)
            close(wf.excitation_energies, w[1:] - w[0], f"excitation energies {reps}", 1e-8)
            return
        if len(w) < 2 or np.min(np.diff(w)) < 1e-4:
            return
        vecs = v.T @ S
        d = mol.intor("int1e_r")
        t = []
        for k in range(3):
            mo = M.C.T @ d[k] @ M.C
            ni, na = spec["ni"], spec["na"]
            O = ref.restrict(ref.one_matrix(mo[ni : ni + na, ni : ni + na], na), W.dets_of(wf))
            t.append([vecs[i] @ O @ vecs[0] for i in range(1, len(w))])
        t = np.array(t)
        if what == "prop":
            close(np.abs(wf.get_transition_property(d[1])), np.abs(t[1]), f"transition property {reps}", 1e-7)
        else:
            close(wf.get_oscillator_strenghts(), 2 / 3 * (w[1:] - w[0]) * (t**2).sum(0), f"oscillator strengths {reps}", 1e-7)


def check(spec):
    wf0, given_mol, rng = W.build(spec, thetas=False)
    spec2 = {**spec, "seed": spec["seed"]}
    wf1, _, _ = W.build(spec2, mol=given_mol, thetas=False)
    mol = copy.deepcopy(given_mol)
    wfs = [wf0, wf1]
    Ms = [Model(w, mol) for w in wfs]
    changed = 0
    hist = []
    for i, kind, arg in spec["ops"]:
        wf, M = wfs[i], Ms[i]
        nt, nk = len(wf.thetas), len(wf.kappa)
        hist.append((i, kind, arg))
        reps = f"after {len(hist)} steps"
        if kind == "read":
            read(wf, M, mol, arg, spec, rng, reps)
        elif kind == "thetas" and nt:
            r = ref.rng_of(arg, 1)
            t = [float(x) for x in r.uniform(-1, 1, nt)]
            given = list(t)
            wf.thetas = given
            given[0] += 0.7  # the wave function keeps its own copy
            M.move(thetas=t)
            changed += 1
        elif kind == "one_theta" and nt:
            t = list(M.th)
            t[arg % nt] += 0.01 + (arg % 37) / 40
            wf.thetas = list(t)
            M.move(thetas=t)
            changed += 1
        elif kind == "kappa" and nk:
            r = ref.rng_of(arg, 2)
            k = [float(x) for x in r.uniform(-0.4, 0.4, nk)]
            given = list(k)
            wf.kappa = given
            given[0] += 0.7
            M.move(kappa=k)
            changed += 1
        elif kind == "one_kappa" and nk:
            k = list(M.kap)
            k[arg % nk] += 0.3 - (arg % 41) / 50
            wf.kappa = list(k)
            M.move(kappa=k)
            changed += 1
        elif kind == "tiny_kappa" and nk:
            k = list(M.kap)
            k[arg % nk] += 10.0 ** -(3 + arg % 6)
            wf.kappa = list(k)
            M.move(kappa=k)
            changed += 1
        elif kind == "tiny_theta" and nt:
            t = list(M.th)
            t[arg % nt] += 10.0 ** -(3 + arg % 6)
            wf.thetas = list(t)
            M.move(thetas=t)
            changed += 1
        elif kind == "creep" and nk:
            # many small steps add up
            k = list(M.kap)
            for _ in range(60):
                k[arg % nk] += 10.0 ** -(7 + arg % 4)
                wf.kappa = list(k)
            M.move(kappa=k)
            changed += 1
        elif kind == "turn" and nt:
            t = list(M.th)
            t[arg % nt] += (2 * np.pi, -2 * np.pi, 4 * np.pi, np.pi, 20 * np.pi)[arg % 5]
            wf.thetas = list(t)
            M.move(thetas=t)
            changed += 1
        elif kind == "molecule":
            # the molecule and orbitals of the caller move on; the wave functions keep describing theirs
            wf._vq_c[:] = np.roll(wf._vq_c, 1, axis=1) * 1.1
            for key in ("int1e_kin", "int1e_nuc", "int2e", "int1e_r"):
                given_mol._vq[key] *= 1.1
        elif kind == "bad_thetas":
            bad = [0.1] * (nt + 1 + arg % 2)
            try:
                wf.thetas = bad
            except ValueError:
                pass
            else:
                require(False, f"{len(bad)} ansatz parameters were accepted for {nt}")
        elif kind == "same":
            if arg and nk:
                wf.kappa = wf.kappa
            elif nt:
                wf.thetas = wf.thetas
        elif kind == "opt" and nt:
            if arg == "roto":
                if spec["kind"] == "ucc":
                    continue
                wf.run_wf_optimization_1step("rotosolve", False, maxiter=1)
            elif arg[0] == "1":
                wf.run_wf_optimization_1step("slsqp", arg == "1oo" and nk > 0, maxiter=2)
            else:
                wf.run_wf_optimization_2step("slsqp", arg == "2oo" and nk > 0, maxiter=1)
            # Parameters and orbitals left behind are the new truth; everything else must follow from them.
            M.C = np.array(wf.c_mo)
            close(M.C.T @ M.C, np.eye(len(M.C)), f"orthonormality of the orbitals {reps}", 1e-8)
            M.th = list(wf.thetas)
            M.kap = np.array(wf.kappa, dtype=float)
            changed += 1
    for wf, M in zip(wfs, Ms):
        for what in ("energy", "ci", "rdm1", "rdm2", "c_mo", "thetas", "states", "osc") + (("rdm3", "rdm4") if spec["seed"] % 2 else ()):
            read(wf, M, mol, what, spec, rng, f"after {[tuple(h) for h in hist]}")
    return f"{spec['kind']}:{min(changed, 3)}" if changed else None


PROPERTY = Property(
    "P09",
    "Histories of parameter updates, orbital rotations, refused updates, optimiser runs and reads interleaved over two wave functions that share their molecule and options. Non-trivial: the history changes parameters or orbitals at least once.",
    [Component("histories", strat, check, "model-based: every read equals the dense model at the current parameters and orbitals", quick=18, thorough=250, shards=8, budget=50),
     Component("orders", orders, check, "model-based: density matrices of every order, read before and after each change", quick=2, thorough=60, shards=8, budget=30)],
    ["after an optimiser run the parameters and orbitals it left behind are taken as the new state (P10 decides whether they are good)"],
)
