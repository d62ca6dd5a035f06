"""P03: folding onto the active space and determinant indexing."""
from __future__ import annotations

import math

import numpy as np
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, require


def strat_fold(tier):
    m = 4 if tier == "quick" else 5
    term = st.fixed_dictionaries({
        "k": st.integers(0, 4), "l": st.integers(-1, 1), "seed": st.integers(0, 10**6), "c": st.sampled_from([1.0, -0.7, 2.5, 1e-5, -2e-7]),
        "mode": st.sampled_from(["any", "inactive", "conserving", "conserving"]),
    })
    return st.fixed_dictionaries({
        "ni": st.integers(0, 3), "na": st.integers(1, 3), "nv": st.integers(0, 2), "terms": st.lists(term, min_size=1, max_size=4),
    }).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= m)


def make_op(spec):
    from slowquant.unitary_coupled_cluster.operators import a_op_spin

    ni, na, nv = spec["ni"], spec["na"], spec["nv"]
    n = 2 * (ni + na + nv)
    tot, mat = None, None
    for t in spec["terms"]:
        rng = ref.rng_of(t["seed"], n)
        if t["mode"] == "inactive" and ni:
            # same inactive indices created and annihilated, plus active ones
            inact = [int(x) for x in rng.integers(0, 2 * ni, min(t["k"], 2 * ni))]
            act = [int(x) + 2 * ni for x in rng.integers(0, 2 * na, 2)]
            act2 = [int(x) + 2 * ni for x in rng.integers(0, 2 * na, max(0, 2 + t["l"]))]
            string = [(i, True) for i in inact] + [(i, True) for i in act] + [(i, False) for i in act2] + [(i, False) for i in rng.permutation(inact)]
        else:
            k = max(1, t["k"])
            l = k if t["mode"] == "conserving" else max(0, k + t["l"])
            string = [(int(i), True) for i in rng.integers(0, n, k)] + [(int(i), False) for i in rng.integers(0, n, l)]
            if t["seed"] % 3 == 0:
                string = [string[i] for i in rng.permutation(len(string))]
        op = None
        for i, d in string:
            op = a_op_spin(int(i), bool(d)) if op is None else op * a_op_spin(int(i), bool(d))
        op = t["c"] * op
        m = t["c"] * ref.string_matrix([(int(i), bool(d)) for i, d in string], n)
        tot = op if tot is None else tot + op
        mat = m if mat is None else mat + m
    return tot, mat


def check_fold(spec):
    ni, na, nv = spec["ni"], spec["na"], spec["nv"]
    op, mat = make_op(spec)
    before = dict(op.operators)
    folded = op.get_folded_operator(ni, na, nv)
    require(op.operators == before, "folding changed the operator it was called on")
    dets = ref.embed_dets(range(2 ** (2 * na)), ni, na, nv)
    want = mat[dets][:, dets].toarray()
    for string in folded.operators:
        require(all(0 <= p < 2 * na for p, _ in string), f"folded operator has an index outside the active space: {string}")
    close(ref.op_matrix(folded, 2 * na).toarray(), want, "folded operator in the active space", 1e-10)
    return "folded" if (ni or nv) and np.any(want) else None


def strat_idx(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 3), "na": st.integers(1, 5), "nv": st.integers(0, 3), "ea": st.integers(0, 5), "eb": st.integers(0, 5), "order": st.integers(0, 2),
    }).filter(lambda d: d["ea"] <= d["na"] and d["eb"] <= d["na"])


def check_idx(spec):
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing

    ni, na, nv, ea, eb = (spec[k] for k in ("ni", "na", "nv", "ea", "eb"))
    info = get_indexing(ni, na, nv, ea, eb)
    want = ref.sector(na, ea, eb)
    dets = [int(d) for d in info.idx2det]
    require(sorted(dets) == want, "the determinant list is not the set of determinants with these electron numbers")
    require(len(dets) == math.comb(na, ea) * math.comb(na, eb), "number of determinants")
    require(len(info.det2idx) == len(dets) and all(info.det2idx[d] == i for i, d in enumerate(dets)), "the two directions of the index disagree")
    return "index" if len(dets) > 1 else None


def strat_ext(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 3), "na": st.integers(1, 3), "nv": st.integers(0, 3), "ea": st.integers(0, 3), "eb": st.integers(0, 3), "order": st.integers(1, 2),
    }).filter(lambda d: d["ea"] <= d["na"] and d["eb"] <= d["na"] and d["ni"] + d["na"] + d["nv"] <= (6 if tier == "quick" else 7))


def check_ext(spec):
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing, get_indexing_extended

    ni, na, nv, ea, eb, order = (spec[k] for k in ("ni", "na", "nv", "ea", "eb", "order"))
    info = get_indexing_extended(ni, na, nv, ea, eb, order)
    dets = [int(d) for d in info.idx2det]
    norb = ni + na + nv
    start = set(ref.embed_dets(ref.sector(na, ea, eb), ni, na, nv))
    # determinants reachable by at most `order` spin-conserving one-electron excitations that leave no hole/particle budget behind
    reach = set(start)
    frontier = set(start)
    for _ in range(order):
        nxt = set()
        for d in frontier:
            for p in range(2 * norb):
                if not d >> (2 * norb - 1 - p) & 1:
                    continue
                for q in range(p % 2, 2 * norb, 2):
                    if d >> (2 * norb - 1 - q) & 1:
                        continue
                    nxt.add(d ^ (1 << (2 * norb - 1 - p)) ^ (1 << (2 * norb - 1 - q)))
        frontier = nxt - reach
        reach |= nxt
    require(len(dets) == len(set(dets)), "a determinant is listed twice")
    require(set(dets) == reach, f"the extended list has {len(set(dets) - reach)} extra and {len(reach - set(dets))} missing determinants")
    require(len(info.det2idx) == len(dets) and all(info.det2idx[d] == i for i, d in enumerate(dets)), "the two directions of the index disagree")
    base = [int(d) for d in get_indexing(ni, na, nv, ea, eb).idx2det]
    require(dets[: len(base)] == ref.embed_dets(base, ni, na, nv), "the extended list does not start with the active-space determinants in their order")
    require((info.num_inactive_orbs, info.num_active_orbs, info.num_virtual_orbs) == (0, norb, 0), "orbital counts of the extended space")
    require((info.num_active_elec_alpha, info.num_active_elec_beta) == (ea + ni, eb + ni), "electron counts of the extended space")
    return "extended" if (ni or nv) and len(dets) > len(base) else None




PROPERTY = Property(
    "P03",
    "Random operators (particle-conserving and not, with matching and non-matching inactive parts) and all (inactive, active, virtual) splits up to 4 "
    "(thorough 5) orbitals; random electron numbers for the determinant lists. Non-trivial: the split is proper and the folded block is not zero / more than one determinant.",
    [
        Component("folding", strat_fold, check_fold, "folded operator vs block of the full operator", quick=700, thorough=4000, shards=4),
        Component("indexing", strat_idx, check_idx, "determinant index is a bijection onto the sector", quick=120, thorough=600),
        Component("extended", strat_ext, check_ext, "extended determinant list = determinants reachable by <= order excitations", quick=120, thorough=600),
    ],
    ["Jordan-Wigner matrices built by Kronecker products are the meaning of an operator"],
)
