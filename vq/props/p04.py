"""P04: applying operators to states."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, require


def space(max_orbs, max_act):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 2), "na": st.integers(1, max_act), "nv": st.integers(0, 2), "ea": st.sampled_from([1, 2, 1, 2, 3, 0, 4]), "eb": st.sampled_from([1, 2, 1, 2, 3, 0, 4]),
    }).filter(lambda d: d["ea"] <= d["na"] and d["eb"] <= d["na"] and d["ni"] + d["na"] + d["nv"] <= max_orbs)


def terms():
    return st.lists(
        st.fixed_dictionaries({"k": st.sampled_from([1, 2, 2, 1, 3, 0, 4]), "seed": st.integers(0, 10**6), "c": st.sampled_from([1.0, -0.7, 2.5, 1e-3, -2e-6])}), min_size=2, max_size=9
    )


def strat(tier):
    return st.fixed_dictionaries({
        "space": space(5 if tier == "quick" else 6, 4), "ops": st.lists(terms(), min_size=1, max_size=3), "fold": st.booleans(), "unsafe": st.booleans(),
        "seed": st.integers(0, 10**6), "nstates": st.integers(1, 4), "ext": st.sampled_from([0, 0, 1, 2]),
    })


def make_terms(spec_terms, orbs, conserve_spin=True):
    """Random particle- and spin-conserving normal-ordered terms on the given spatial orbitals, built through the public API."""
    from slowquant.unitary_coupled_cluster.operators import a_op_spin

    tot = None
    n = 2 * len(orbs)
    for t in spec_terms:
        rng = ref.rng_of(t["seed"], n, t["k"])
        k = min(t["k"], n // 2 + 1)
        if k == 0:
            # identity as a a+ + a+ a
            p = 2 * orbs[0]
            op = a_op_spin(p, True) * a_op_spin(p, False) + a_op_spin(p, False) * a_op_spin(p, True)
        else:
            spins = rng.integers(0, 2, k)
            cre = [2 * orbs[int(rng.integers(0, len(orbs)))] + int(s) for s in spins]
            ann = [2 * orbs[int(rng.integers(0, len(orbs)))] + int(s) for s in (spins if conserve_spin else rng.integers(0, 2, k))]
            if rng.uniform() < 0.3:  # number-operator-like overlap
                ann[0] = cre[0]
            op = None
            for i in cre:
                op = a_op_spin(i, True) if op is None else op * a_op_spin(i, True)
            for i in ann:
                op = op * a_op_spin(i, False)
        op = t["c"] * op
        tot = op if tot is None else tot + op
    return tot


def check(spec):
    import numba as nb
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing, get_indexing_extended

    s = spec["space"]
    ni, na, nv, ea, eb = s["ni"], s["na"], s["nv"], s["ea"], s["eb"]
    norb = ni + na + nv
    if spec["ext"]:
        info = get_indexing_extended(ni, na, nv, ea, eb, spec["ext"])
        fold, orbs = False, list(range(norb))
    else:
        info = get_indexing(ni, na, nv, ea, eb)
        fold = spec["fold"]
        orbs = list(range(norb)) if fold else list(range(na))
    dets = [int(d) for d in info.idx2det]
    # Outside the list only when the caller says so.
    unsafe = spec["unsafe"] or bool(spec["ext"])
    ops = [make_terms(t, orbs, conserve_spin=not unsafe) for t in spec["ops"]]
    if fold:
        # operators on the full space, seen from the reference space
        full = ref.embed_dets(dets, ni, na, nv)
        mats = [ref.restrict(ref.op_matrix(o, 2 * norb), full) for o in ops]
    else:
        nn = norb if spec["ext"] else na
        mats = [ref.restrict(ref.op_matrix(o, 2 * nn), dets) for o in ops]
    total = np.eye(len(dets))
    for m in mats:
        total = total @ m
    rng = ref.rng_of(spec["seed"], len(dets))
    state = ref.rand_state(rng, len(dets))
    states = np.array([ref.rand_state(rng, len(dets)) for _ in range(spec["nstates"])])
    bras = np.array([ref.rand_state(rng, len(dets)) for _ in range(spec["nstates"])])
    keep, keeps = state.copy(), states.copy()
    opkeep = [dict(o.operators) for o in ops]
    results = {}
    for threads in (1, 2):
        nb.set_num_threads(threads)
        try:
            got = osa.propagate_state(ops, state, info, do_folding=fold, do_unsafe=unsafe)
            close(got, total @ state, f"operator on state ({threads} threads)", 1e-9)
            gots = osa.propagate_state_SA(ops, states, info, do_folding=fold, do_unsafe=unsafe)
            close(gots, states @ total.T, f"operator on several states ({threads} threads)", 1e-9)
            ev = osa.expectation_value(bras[0], ops, state, info, do_folding=fold, do_unsafe=unsafe)
            close(ev, bras[0] @ total @ state, f"matrix element ({threads} threads)", 1e-9)
            if not unsafe:
                evs = osa.expectation_value_SA(bras, ops, states, info, do_folding=fold)
                close(evs, np.mean([b @ total @ k for b, k in zip(bras, states)]), f"state-averaged matrix element ({threads} threads)", 1e-9)
            results[threads] = got
        finally:
            nb.set_num_threads(1)
    close(results[2], results[1], "threaded against serial", 1e-11)
    if not fold:
        close(osa.build_operator_matrix(ops[0], info, do_unsafe=unsafe), mats[0], "operator matrix", 1e-10)
    require(np.array_equal(state, keep) and np.array_equal(states, keeps), "the input state was changed")
    require([dict(o.operators) for o in ops] == opkeep, "an operator was changed")
    close(osa.propagate_state([], state, info), state, "no operators", 1e-14)
    return ("ext" if spec["ext"] else "fold" if fold else "active") if len(dets) > 1 and np.any(np.abs(total) > 1e-12) else None


def strat_refuse(tier):
    return st.fixed_dictionaries({
        "na": st.integers(2, 3), "ea": st.integers(1, 1), "eb": st.integers(1, 1), "p": st.integers(0, 5), "q": st.integers(0, 5), "threads": st.sampled_from([1, 2]),
    }).filter(lambda d: d["p"] < 2 * d["na"] and d["q"] < 2 * d["na"] and (d["p"] - d["q"]) % 2)


def check_refuse(spec):
    """A spin-flipping operator leaves the list: refused unless explicitly allowed, then the outside part is left out."""
    import numba as nb
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing
    from slowquant.unitary_coupled_cluster.operators import a_op_spin

    info = get_indexing(0, spec["na"], 0, spec["ea"], spec["eb"])
    op = a_op_spin(spec["p"], True) * a_op_spin(spec["q"], False)
    state = np.ones(len(info.idx2det))
    nb.set_num_threads(spec["threads"])
    try:
        close(osa.propagate_state([op], state, info, do_unsafe=True), 0 * state, "everything outside the list", 1e-12)
        try:
            osa.propagate_state([op], state, info)
        except Exception:  # noqa: BLE001
            return "refused"
        finally:
            nb.set_num_threads(1)
    finally:
        nb.set_num_threads(1)
    from vq.core import fail

    fail("an operator that leaves the determinant list was applied without being refused")


def strat_hf(tier):
    return st.fixed_dictionaries({"na": st.integers(1, 4), "ea": st.integers(0, 4), "eb": st.integers(0, 4), "terms": terms()}).filter(
        lambda d: d["ea"] <= d["na"] and d["eb"] <= d["na"]
    )


def check_hf(spec):
    from slowquant.unitary_coupled_cluster.operator_state_algebra import get_determinant_expansion_from_operator_on_HF

    na, ea, eb = spec["na"], spec["ea"], spec["eb"]
    op = make_terms(spec["terms"], list(range(na)), conserve_spin=spec["terms"][0]["seed"] % 2 == 0)
    coeffs, dets = get_determinant_expansion_from_operator_on_HF(op, na, ea, eb)
    hf = sum(1 << (2 * na - 1 - 2 * p) for p in range(ea)) + sum(1 << (2 * na - 2 - 2 * p) for p in range(eb))
    v = np.zeros(2 ** (2 * na))
    v[hf] = 1
    got = np.zeros(2 ** (2 * na))
    for c, d in zip(coeffs, dets, strict=True):
        require(len(d) == 2 * na, "determinant string has the wrong length")
        got[int(d, 2)] += c
    want = ref.op_matrix(op, 2 * na) @ v
    close(got, want, "operator on the Hartree-Fock determinant", 1e-10)
    return "hf" if np.any(want) else None


def strat_large(tier):
    return st.fixed_dictionaries({
        "ni": st.sampled_from([0, 0, 1, 3, 9]), "nv": st.sampled_from([0, 2, 12]), "na": st.integers(5, 24), "ea": st.integers(0, 2), "eb": st.integers(0, 2),
        "holes": st.booleans(), "terms": terms(), "seed": st.integers(0, 10**6), "threads": st.sampled_from([1, 2]), "ext": st.sampled_from([0, 0, 0, 1]),
    }).filter(lambda d: d["ea"] + d["eb"] > 0 and (d["na"] <= 16 or d["ea"] + d["eb"] <= 2))


def check_large(spec):
    """Many orbitals with few electrons or holes: determinants with bits anywhere in the machine word."""
    import numba as nb
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing, get_indexing_extended

    ni, na, nv, ea, eb = spec["ni"], spec["na"], spec["nv"], spec["ea"], spec["eb"]
    if na > 12 and ea + eb > 2:
        ea, eb = 1, 1
    if spec["holes"]:
        ea, eb = na - ea, na - eb
    ext = spec["ext"]
    if ext:
        ni, nv, na = min(ni, 3), min(nv, 2), min(na, 8)
        ea, eb = min(ea, 1), min(eb, 1)
        info = get_indexing_extended(ni, na, nv, ea, eb, ext)
        orbs, n, fold = list(range(ni + na + nv)), 2 * (ni + na + nv), False
    else:
        info = get_indexing(ni, na, nv, ea, eb)
        fold = spec["seed"] % 2 == 0
        orbs = list(range(ni, ni + na)) if fold else list(range(na))
        n = 2 * na
    dets = [int(d) for d in info.idx2det]
    if len(dets) > 4000:
        return None
    op = make_terms(spec["terms"], orbs)
    # the same operator in the numbering of the determinants
    shift = 2 * ni if fold else 0
    same = {tuple((p - shift, dag) for p, dag in string): c for string, c in op.operators.items()}
    rng = ref.rng_of(spec["seed"], na)
    v = np.zeros(len(dets))
    some = rng.permutation(len(dets))[:40]
    v[some] = rng.standard_normal(len(some))
    w = rng.standard_normal(len(dets))
    out = ref.apply_terms(same, {dets[i]: v[i] for i in some}, n)
    want = np.array([out.get(d, 0.0) for d in dets])
    nb.set_num_threads(spec["threads"])
    try:
        got = osa.propagate_state([op], v, info, do_folding=fold, do_unsafe=bool(ext))
        val = osa.expectation_value(w, [op], v, info, do_folding=fold) if not ext else None
    finally:
        nb.set_num_threads(1)
    close(got, want, f"operator on a state of {na} active orbitals with ({ea}, {eb}) electrons", 1e-10)
    if val is not None:
        close(val, w @ want, f"matrix element in {na} active orbitals with ({ea}, {eb}) electrons", 1e-9)
    return f"{'>16' if na > 16 else '<=16'} orbitals" if np.any(want) else None


PROPERTY = Property(
    "P04",
    "Random products of 1-3 random operators on random states: plain, folded and extended determinant lists, one and several states, one and two threads. "
    "Non-trivial: more than one determinant and a non-zero operator product.",
    [
        Component("propagate", strat, check, "states, matrix elements, operator matrices vs dense reference; threads agree; inputs unchanged", quick=200, thorough=1500, shards=6, threads=2, budget=60),
        Component("large", strat_large, check_large, "up to 24 active orbitals with few electrons or holes vs determinant-wise reference", quick=120, thorough=1000, shards=2, threads=2, budget=60),
        Component("outside", strat_refuse, check_refuse, "operators that leave the determinant list are refused unless allowed", quick=20, thorough=60, threads=2, thorough_shards=1),
        Component("on_hf", strat_hf, check_hf, "expansion of an operator on the HF determinant", quick=250, thorough=2000),
    ],
    ["Jordan-Wigner matrices built by Kronecker products are the meaning of an operator"],
)
