"""P05: ansatz unitaries."""
from __future__ import annotations

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, require

KINDS = ["single", "double", "triple", "quadruple", "quintuple", "sextuple", "sa_single", "sa_double_1", "sa_double_2", "sa_double_3", "sa_double_4", "sa_double_5"]
NSPIN = {"single": 1, "double": 2, "triple": 3, "quadruple": 4, "quintuple": 5, "sextuple": 6}


def theta():
    return st.one_of(st.sampled_from([0.0, 1e-3, 1e-5, -1e-5, -1e-7, 3e-9, 0.3, -0.7, 1.0, -2.5, float(np.pi), 7.0]), st.floats(-4, 4).map(lambda x: round(x, 4)))


def exc(tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "raw": st.lists(st.integers(0, 60), min_size=12, max_size=12), "theta": theta()})


def strat(tier):
    sizes = [2, 3, 4, 4, 4, 5, 6] if tier == "quick" else [2, 3, 4, 4, 4, 5, 5, 6, 6]

    def fin(d):
        # electron numbers inside the space, mostly with room for holes and particles
        d["ea"] = min(d["ea"], d["na"])
        d["eb"] = min(d["eb"], d["na"])
        if d["na"] >= 5:
            # room for quintuples and sextuples in spaces that stay small
            d["ea"], d["eb"] = (3, 2 + d["eb"] % 2) if d["na"] == 6 else (2 + d["ea"] % 2, 2 + d["eb"] % 2)
            d["ext"], d["exc"] = 0, d["exc"][:2]
        return d

    return st.fixed_dictionaries({
        "ni": st.integers(0, 1), "na": st.sampled_from(sizes), "nv": st.integers(0, 1), "ea": st.sampled_from([1, 2, 2, 1, 3, 0, 4]),
        "eb": st.sampled_from([1, 2, 2, 1, 3, 0, 4]), "exc": st.lists(exc(tier), min_size=1, max_size=4) | st.lists(exc(tier), min_size=5, max_size=12), "ext": st.sampled_from([0, 0, 0, 1, 2]),
        "seed": st.integers(0, 10**6), "threads": st.sampled_from([1, 1, 2]),
    }).map(fin)


def choose(e, na):
    """(kind, indices) of a spin-conserving excitation; kinds that do not fit are replaced by smaller ones."""
    kinds = [e["kind"]] + (["quintuple", "quadruple", "triple", "double", "single"] if e["kind"] in NSPIN else ["sa_double_3", "sa_double_2", "sa_double_1"])
    for kind in kinds:
        if kind in NSPIN and NSPIN[kind] > NSPIN.get(e["kind"], 6):
            continue
        idx = choose_kind(kind, e["raw"], na)
        if idx is not None:
            return kind, idx
    return None


def choose_kind(kind, raw, na):
    if kind in NSPIN:
        k = NSPIN[kind]
        if 2 * k > 2 * na:
            return None
        pool = list(range(2 * na))
        occ = [pool.pop(r % len(pool)) for r in raw[:k]]
        vir = []
        for o, r in zip(occ, raw[6:]):
            c = [x for x in pool if x % 2 == o % 2]
            if not c:
                return None
            v = c[r % len(c)]
            pool.remove(v)
            vir.append(v)
        # the spin pairing need not be by position
        sh = raw[11] % k
        vir = vir[sh:] + vir[:sh]
        return tuple(occ + vir)
    need = {"sa_single": 2, "sa_double_1": 2, "sa_double_2": 3, "sa_double_3": 3}.get(kind, 4)
    if na < need:
        return None
    pool = list(range(na))
    x = [pool.pop(r % len(pool)) for r in raw[:need]]
    if kind == "sa_single":
        return (x[0], x[1])
    if kind == "sa_double_1":
        return (x[0], x[0], x[1], x[1])
    if kind == "sa_double_2":
        return (x[0], x[0], x[1], x[2])
    if kind == "sa_double_3":
        return (x[0], x[1], x[2], x[2])
    return tuple(x)


def generator(kind, idx, na):
    T = ref.gen_matrix(kind, idx, na)
    if kind == "sa_single":
        T = T * np.sqrt(2)  # product ansatz uses E_ai without the normalisation
    return T - T.T


def setup(spec, cls):
    from slowquant.unitary_coupled_cluster.ci_spaces import get_indexing, get_indexing_extended

    ni, na, nv, ea, eb = (spec[k] for k in ("ni", "na", "nv", "ea", "eb"))
    ext = spec["ext"]
    info = get_indexing_extended(ni, na, nv, ea, eb, ext) if ext else get_indexing(ni, na, nv, ea, eb)
    dets = [int(d) for d in info.idx2det]
    norb, off = (ni + na + nv, ni) if ext else (na, 0)
    struct = cls()
    gens, thetas, kinds = [], [], []
    for e in spec["exc"]:
        kind_idx = choose(e, na)
        if kind_idx is None:
            continue
        kind, idx = kind_idx
        struct.excitation_indices.append(idx)
        struct.excitation_operator_type.append(kind)
        struct.n_params += 1
        shifted = tuple(i + (2 * off if kind in NSPIN else off) for i in idx)
        gens.append((kind, shifted, norb))
        thetas.append(float(e["theta"]))
        kinds.append(kind)
    return info, dets, struct, gens, thetas, kinds


def check_ups(spec):
    import numba as nb
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.util import UpsStructure

    info, dets, struct, gens, thetas, kinds = setup(spec, UpsStructure)
    if not gens:
        return None
    G = [ref.restrict(generator(*g), dets) for g in gens]
    Us = [scipy.linalg.expm(t * g) for t, g in zip(thetas, G)]
    U = np.eye(len(dets))
    for u in Us:
        U = u @ U
    rng = ref.rng_of(spec["seed"], len(dets))
    v = ref.rand_state(rng, len(dets))
    V = np.array([ref.rand_state(rng, len(dets)) for _ in range(3)])
    v0, V0, th0 = v.copy(), V.copy(), list(thetas)
    nb.set_num_threads(spec["threads"])
    try:
        out = osa.construct_ups_state(v, info, thetas, struct)
        close(out, U @ v, "product-ansatz state", 1e-9)
        close(osa.construct_ups_state(v, info, thetas, struct, dagger=True), U.T @ v, "adjoint product ansatz", 1e-9)
        close(osa.construct_ups_state(out, info, thetas, struct, dagger=True), v, "adjoint undoes the ansatz", 1e-9)
        close(osa.construct_ups_state_SA(V, info, thetas, struct), V @ U.T, "product ansatz on several states", 1e-9)
        close(osa.construct_ups_state_SA(V, info, thetas, struct, dagger=True), V @ U, "adjoint product ansatz on several states", 1e-9)
        close(osa.propagate_state(["U"], v, info, thetas, struct), U @ v, "'U' in an operator list", 1e-9)
        close(osa.propagate_state(["Ud"], v, info, thetas, struct), U.T @ v, "'Ud' in an operator list", 1e-9)
        close(osa.propagate_state_SA(["U"], V, info, thetas, struct), V @ U.T, "'U' in an operator list, several states", 1e-9)
        close(osa.propagate_state_SA(["Ud"], V, info, thetas, struct), V @ U, "'Ud' in an operator list, several states", 1e-9)
        for k in range(len(gens)):
            close(osa.propagate_unitary(v, k, info, thetas, struct), Us[k] @ v, f"single factor {kinds[k]}", 1e-9)
            close(osa.propagate_unitary_SA(V, k, info, thetas, struct), V @ Us[k].T, f"single factor {kinds[k]} on several states", 1e-9)
            close(osa.get_grad_action(v, k, info, struct), G[k] @ v, f"generator of {kinds[k]}", 1e-9)
            close(osa.get_grad_action_SA(V, k, info, struct), V @ G[k].T, f"generator of {kinds[k]} on several states", 1e-9)
    finally:
        nb.set_num_threads(1)
    require(np.array_equal(v, v0) and np.array_equal(V, V0) and thetas == th0, "an input was changed")
    return kinds[0] if len(dets) > 1 and any(np.any(t * g) for t, g in zip(thetas, G)) else None


def check_ucc(spec):
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.util import UccStructure

    info, dets, struct, gens, thetas, kinds = setup(spec, UccStructure)
    if not gens:
        return None
    T = np.zeros((len(dets), len(dets)))
    for t, (kind, idx, norb) in zip(thetas, gens):
        g = ref.gen_matrix(kind, idx, norb)
        T = T + t * ref.restrict(g - g.T, dets)
    U = scipy.linalg.expm(T)
    rng = ref.rng_of(spec["seed"], len(dets))
    v = ref.rand_state(rng, len(dets))
    v0 = v.copy()
    out = osa.construct_ucc_state(v, info, thetas, struct)
    close(out, U @ v, "UCC state", 1e-8)
    close(osa.construct_ucc_state(v, info, thetas, struct, dagger=True), U.T @ v, "adjoint UCC state", 1e-8)
    close(osa.construct_ucc_state(out, info, thetas, struct, dagger=True), v, "adjoint undoes the UCC unitary", 1e-8)
    close(osa.propagate_state(["U"], v, info, thetas, struct), U @ v, "'U' in an operator list", 1e-8)
    close(osa.propagate_state(["Ud"], v, info, thetas, struct), U.T @ v, "'Ud' in an operator list", 1e-8)
    Tm = osa.build_operator_matrix(osa.get_ucc_T(thetas, struct, info.space_extension_offset), info)
    close(Tm, T, "UCC generator matrix", 1e-9)
    require(np.array_equal(v, v0), "an input was changed")
    return kinds[0] if len(dets) > 1 and np.any(T) else None


def strat_mixed(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 1), "na": st.integers(2, 3), "nv": st.integers(0, 1), "ea": st.integers(1, 2), "eb": st.integers(1, 2),
        "exc": st.lists(exc(tier), min_size=1, max_size=3), "ext": st.just(0), "seed": st.integers(0, 10**6), "ucc": st.booleans(),
        "pattern": st.lists(st.sampled_from(["U", "Ud", "O"]), min_size=1, max_size=4), "p": st.integers(0, 2), "q": st.integers(0, 2),
    }).filter(lambda d: d["p"] < d["na"] and d["q"] < d["na"])


def check_mixed(spec):
    """Operator lists that interleave the ansatz unitary and fermionic operators act right to left."""
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.operators import Epq
    from slowquant.unitary_coupled_cluster.util import UccStructure, UpsStructure

    info, dets, struct, gens, thetas, kinds = setup(spec, UccStructure if spec["ucc"] else UpsStructure)
    if not gens:
        return None
    na, ni = spec["na"], spec["ni"]
    if spec["ucc"]:
        T = sum(t * ref.restrict(ref.gen_matrix(k, i, n) - ref.gen_matrix(k, i, n).T, dets) for t, (k, i, n) in zip(thetas, gens))
        U = scipy.linalg.expm(T)
    else:
        U = np.eye(len(dets))
        for t, g in zip(thetas, gens):
            U = scipy.linalg.expm(t * ref.restrict(generator(*g), dets)) @ U
    op = Epq(ni + spec["p"], ni + spec["q"])
    M = ref.restrict(ref.E_mat(spec["p"], spec["q"], 2 * na), dets)
    tot = np.eye(len(dets))
    ops = []
    for x in spec["pattern"]:
        tot = tot @ {"U": U, "Ud": U.T, "O": M}[x]
        ops.append(op if x == "O" else x)
    rng = ref.rng_of(spec["seed"], len(dets))
    v, w = ref.rand_state(rng, len(dets)), ref.rand_state(rng, len(dets))
    close(osa.propagate_state(ops, v, info, thetas, struct), tot @ v, f"operator list {spec['pattern']}", 1e-8)
    close(osa.expectation_value(w, ops, v, info, thetas, struct), w @ tot @ v, f"matrix element of {spec['pattern']}", 1e-8)
    if not spec["ucc"]:
        V = np.array([v, w])
        close(osa.propagate_state_SA(ops, V, info, thetas, struct), V @ tot.T, f"operator list {spec['pattern']} on several states", 1e-8)
        close(osa.expectation_value_SA(V, ops, V, info, thetas, struct), np.trace(V @ tot @ V.T) / 2, f"averaged matrix element of {spec['pattern']}", 1e-8)
    return "mixed" if len(spec["pattern"]) > 1 else None


def strat_emb(tier):
    def fin(d):
        d["ea"], d["eb"] = min(d["ea"], d["na"]), min(d["eb"], d["na"])
        if d["na"] >= 5:
            d["ea"], d["eb"] = (3, 3) if d["na"] == 6 else (3, 2)
            d["ni"], d["nv"], d["ext"] = 1, 0, 1
        return d

    return st.fixed_dictionaries({
        "ni": st.sampled_from([1, 1, 2]), "na": st.sampled_from([3, 3, 4, 4, 5, 6]), "nv": st.sampled_from([0, 1]), "ea": st.sampled_from([2, 2, 1, 3]), "eb": st.sampled_from([2, 1, 2, 3]),
        "exc": st.lists(exc(tier), min_size=1, max_size=3), "ext": st.sampled_from([1, 1, 2]), "seed": st.integers(0, 10**6),
    }).map(fin)


def check_emb(spec):
    """The ansatz acts on a state with filled inactive and empty virtual orbitals as it does on its active part."""
    from slowquant.unitary_coupled_cluster import operator_state_algebra as osa
    from slowquant.unitary_coupled_cluster.util import UccStructure, UpsStructure

    ni, na, nv = spec["ni"], spec["na"], spec["nv"]
    small, dets, struct, gens, thetas, kinds = setup({**spec, "ext": 0}, UpsStructure)
    if not gens:
        return None
    big, bdets, bstruct, bgens, _, _ = setup(spec, UpsStructure)
    pos = {d: k for k, d in enumerate(bdets)}
    where = [pos.get(((1 << 2 * ni) - 1) << 2 * (na + nv) | d << 2 * nv) for d in dets]
    require(None not in where, "an active determinant is missing in the extended list")

    def lift(x):
        y = np.zeros(len(bdets))
        y[where] = x
        return y

    v = ref.rand_state(ref.rng_of(spec["seed"], len(dets)), len(dets))
    close(osa.construct_ups_state(lift(v), big, thetas, bstruct), lift(osa.construct_ups_state(v, small, thetas, struct)), "product ansatz in the extended space", 1e-9)
    close(osa.construct_ups_state(lift(v), big, thetas, bstruct, dagger=True), lift(osa.construct_ups_state(v, small, thetas, struct, dagger=True)), "adjoint product ansatz in the extended space", 1e-9)
    for k in range(len(gens)):
        close(osa.propagate_unitary(lift(v), k, big, thetas, bstruct), lift(osa.propagate_unitary(v, k, small, thetas, struct)), f"{kinds[k]} in the extended space", 1e-9)
        close(osa.get_grad_action(lift(v), k, big, bstruct), lift(osa.get_grad_action(v, k, small, struct)), f"generator of {kinds[k]} in the extended space", 1e-9)
    V = np.array([v, v[::-1]])
    close(osa.construct_ups_state_SA(np.array([lift(x) for x in V]), big, thetas, bstruct), np.array([lift(x) for x in osa.construct_ups_state_SA(V, small, thetas, struct)]), "product ansatz on several states in the extended space", 1e-9)
    # the same excitations as one exponential
    ustruct = UccStructure()
    for n in ("excitation_indices", "excitation_operator_type", "n_params"):
        setattr(ustruct, n, getattr(struct, n))
    a, b = osa.get_ucc_T(thetas, ustruct, 0), osa.get_ucc_T(thetas, ustruct, ni)
    want = {tuple((p + 2 * ni, bool(d)) for p, d in key): c for key, c in a.operators.items()}
    got = {tuple((int(p), bool(d)) for p, d in key): c for key, c in b.operators.items()}
    require(set(k for k in want if abs(want[k]) > 1e-12) == set(k for k in got if abs(got[k]) > 1e-12), f"cluster operator of {kinds} shifted by {ni} orbitals: {list(got)[:4]}")
    close([got.get(k, 0.0) for k in want], list(want.values()), "shifted cluster operator", 1e-12)
    if len(bdets) <= 400:
        close(osa.construct_ucc_state(lift(v), big, thetas, ustruct), lift(osa.construct_ucc_state(v, small, thetas, ustruct)), "exponential in the extended space", 1e-8)
    return kinds[0]


PROPERTY = Property(
    "P05",
    "Random sequences of excitations of every kind (singles to sextuples, spin-adapted singles and doubles) with random angles in random electron sectors, plain and "
    "extended determinant lists, one or several states. Non-trivial: some factor acts non-trivially in the sector.",
    [
        Component("product", strat, check_ups, "factorised unitaries, their adjoints, single factors and generators vs matrix exponentials", quick=120, thorough=800, shards=6, threads=2, budget=70),
        Component("exponential", strat, check_ucc, "UCC exponential vs matrix exponential", quick=60, thorough=600, shards=2, budget=70),
        Component("embedded", strat_emb, check_emb, "every kind of excitation in spaces extended by inactive and virtual orbitals acts as in the active space alone", quick=60, thorough=300, shards=2, budget=60),
        Component("mixed", strat_mixed, check_mixed, "lists mixing the ansatz with operators", quick=80, thorough=600, shards=1, budget=70),
    ],
    ["scipy.linalg.expm of the textbook anti-Hermitian generators is the meaning of an ansatz"],
)
