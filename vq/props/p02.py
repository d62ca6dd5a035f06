"""P02: elementary excitation operators, Hamiltonians and one-electron operators equal their definitions."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, raises, require

KIND_LEN = {"single": 2, "double": 4, "triple": 6, "quadruple": 8, "quintuple": 10, "sextuple": 12}


def strat_exc(tier):
    norb = st.integers(2, 5 if tier == "quick" else 6)
    return st.fixed_dictionaries({
        "norb": norb,
        "kind": st.sampled_from(["a_op", "a_op_spin", "Epq", "epqrs", "Eminuspq", "single", "double", "triple", "quadruple", "quintuple", "sextuple",
                                 "sa_single", "sa_double_1", "sa_double_2", "sa_double_3", "sa_double_4", "sa_double_5"]),
        "idx": st.lists(st.integers(0, 60), min_size=12, max_size=12),
        "distinct": st.sampled_from([True, True, True, False]),
        "anti": st.booleans(), "spin": st.booleans(), "dag": st.booleans(),
    })


def check_exc(spec):
    from slowquant.unitary_coupled_cluster import operators as O

    norb, kind, anti = spec["norb"], spec["kind"], spec["anti"]
    n = 2 * norb
    raw = spec["idx"]

    def pick(k, hi):
        if not spec["distinct"] or k > hi:
            return [r % hi for r in raw[:k]]
        pool = list(range(hi))
        return [pool.pop(r % len(pool)) for r in raw[:k]]

    if kind == "a_op":
        p = raw[0] % norb
        op = O.a_op(p, "beta" if spec["spin"] else "alpha", dagger=spec["dag"])
        want = ref.string_matrix([(2 * p + int(spec["spin"]), spec["dag"])], n)
        raises(lambda: O.a_op(p, "gamma", dagger=False), ValueError, "unknown spin label")
    elif kind == "a_op_spin":
        p = raw[0] % n
        op, want = O.a_op_spin(p, spec["dag"]), ref.string_matrix([(p, spec["dag"])], n)
    elif kind == "Epq":
        p, q = pick(2, norb)
        op, want = O.Epq(p, q), ref.E_mat(p, q, n)
    elif kind == "Eminuspq":
        p, q = pick(2, norb)
        op, want = O.Eminuspq(p, q), ref.E_mat(p, q, n) - ref.E_mat(q, p, n)
    elif kind == "epqrs":
        p, q, r, s = [x % norb for x in raw[:4]]
        a = ref.fock_a(n)
        want = sum(a[2 * p + x].T @ a[2 * r + y].T @ a[2 * s + y] @ a[2 * q + x] for x in (0, 1) for y in (0, 1))
        op = O.epqrs(p, q, r, s)
    elif kind in KIND_LEN:
        idx = pick(KIND_LEN[kind], n)
        fn = {"single": O.G1, "double": O.G2, "triple": O.G3, "quadruple": O.G4, "quintuple": O.G5, "sextuple": O.G6}[kind]
        op = fn(*idx, anti)
        want = ref.gen_matrix(kind, idx, norb)
        if anti:
            want = want - want.T
    elif kind == "sa_single":
        idx = pick(2, norb)
        op = O.G1_sa(*idx, anti)
        want = ref.gen_matrix(kind, idx, norb)
        if anti:
            want = want - want.T
    else:
        case = int(kind[-1])
        i, j, a, b = pick(4, norb)
        if case in (1, 3):
            b = a
        if case in (1, 2):
            j = i
        op = O.G2_sa(i, j, a, b, case, anti)
        want = ref.gen_matrix(kind, (i, j, a, b), norb)
        if anti:
            want = want - want.T
        raises(lambda: O.G2_sa(i, j, a, b, 6), ValueError, "unknown spin-adapted case")
    got = ref.op_matrix(op, n)
    close(got.toarray(), want.toarray(), f"{kind}: operator matrix", 1e-10)
    if kind.startswith("sa_") or kind in ("Epq", "epqrs", "Eminuspq"):
        S2 = ref.s2_matrix(norb)
        close((S2 @ got - got @ S2).toarray(), np.zeros(got.shape), f"{kind}: commutes with the total spin", 1e-9)
    return kind if want.nnz else None


def strat_rank(tier):
    return st.fixed_dictionaries({
        "norb": st.integers(6, 14), "rank": st.integers(1, 6), "idx": st.lists(st.integers(0, 200), min_size=12, max_size=12),
        "repeat": st.sampled_from([None, None, None, (0, 1), (0, 6), (3, 9)]), "anti": st.booleans(), "seed": st.integers(0, 10**6),
    })


def check_rank(spec):
    """High-rank excitations, by their action on determinants."""
    from slowquant.unitary_coupled_cluster import operators as O

    norb, k = spec["norb"], spec["rank"]
    n = 2 * norb
    pool = list(range(n))
    idx = [pool.pop(r % len(pool)) for r in spec["idx"][: 2 * k]]
    if spec["repeat"] is not None:
        a, b = spec["repeat"]
        if max(a, b) < 2 * k:
            idx[b] = idx[a]
    op = (O.G1, O.G2, O.G3, O.G4, O.G5, O.G6)[k - 1](*idx, spec["anti"])
    occ, vir = idx[:k], idx[k:]
    string = tuple((p, True) for p in vir) + tuple((p, False) for p in reversed(occ))
    want = {string: 1.0}
    if spec["anti"]:
        back = tuple((p, True) for p in occ) + tuple((p, False) for p in reversed(vir))
        want[back] = want.get(back, 0.0) - 1.0
    rng = ref.rng_of(spec["seed"], norb, k)
    hits = 0
    for trial in range(10):
        full = [p for p in range(n) if rng.uniform() < 0.5 and p not in idx]
        full += occ if trial % 2 == 0 else vir
        det = sum(1 << (n - 1 - p) for p in set(full))
        got, exp = ref.apply_terms(op.operators, {det: 1.0}, n), ref.apply_terms(want, {det: 1.0}, n)
        for d in set(got) | set(exp):
            close(got.get(d, 0.0), exp.get(d, 0.0), f"rank {k} excitation {idx}, anti-Hermitian={spec['anti']}: amplitude of determinant {d:0{n}b} from {det:0{n}b}", 1e-12)
        hits += any(abs(v) > 0 for v in exp.values())
    return f"rank {k}" if hits else None


def strat_ham(tier):
    m = 4 if tier == "quick" else 5
    return st.fixed_dictionaries({
        "ni": st.integers(0, 2), "na": st.integers(1, 3), "nv": st.integers(0, 2), "seed": st.integers(0, 10**6), "sparse": st.integers(0, 3),
    }).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= m)


def ints(spec, norb):
    rng = ref.rng_of(spec["seed"], norb)
    h, g, x = ref.rand_sym(rng, norb), ref.rand_eri(rng, norb), rng.standard_normal((norb, norb))
    if spec["sparse"]:
        # symmetry zeros, as molecules have them
        lab = rng.integers(0, spec["sparse"] + 1, norb)
        h = h * (lab[:, None] == lab[None, :])
        par = (lab[:, None, None, None] + lab[None, :, None, None] + lab[None, None, :, None] + lab[None, None, None, :]) % 2
        g = g * (par == 0)
    if spec["seed"] % 3 == 0:
        # weakly coupled orbitals: integrals of every magnitude
        f = 10.0 ** -rng.integers(0, 5, norb)
        h, x = h * np.outer(f, f), x * np.outer(f, f)
        g = g * np.einsum("p,q,r,s->pqrs", f, f, f, f)
    return h, g, x


def check_full(spec):
    from slowquant.unitary_coupled_cluster import operators as O

    norb = spec["ni"] + spec["na"] + spec["nv"]
    h, g, x = ints(spec, norb)
    close(ref.op_matrix(O.hamiltonian_full_space(h, g, norb), 2 * norb).toarray(), ref.ham_matrix(h, g, norb).toarray(), "full-space Hamiltonian", 1e-10)
    close(ref.op_matrix(O.one_elec_op_full_space(x, norb), 2 * norb).toarray(), ref.one_matrix(x, norb).toarray(), "full-space one-electron operator", 1e-10)
    return "full" if norb > 1 else None


def block(m, rows, cols):
    return m[rows][:, cols].toarray()


def check_restricted(spec):
    """Restricted operators act like the full ones wherever they may be used.

    Reference space R: inactive filled, virtual empty, any active occupation. The 0i0a forms have the matrix elements of the full operators in R. The
    1i1a forms have them between R and the space reached from R by one one-electron excitation; the 2i2a form also between two such spaces.
    """
    from slowquant.unitary_coupled_cluster import operators as O

    ni, na, nv = spec["ni"], spec["na"], spec["nv"]
    norb = ni + na + nv
    n = 2 * norb
    h, g, x = ints(spec, norb)
    xs = 0.5 * (x + x.T)
    H = ref.ham_matrix(h, g, norb)
    X = ref.one_matrix(x, norb)
    ref_dets = ref.embed_dets(range(2 ** (2 * na)), ni, na, nv)
    H0 = ref.op_matrix(O.hamiltonian_0i_0a(h, g, ni, na), n)
    close(block(H0, ref_dets, ref_dets), block(H, ref_dets, ref_dets), "active-space Hamiltonian", 1e-10)
    X0 = ref.op_matrix(O.one_elec_op_0i_0a(x, ni, na), n)
    close(block(X0, ref_dets, ref_dets), block(X, ref_dets, ref_dets), "active-space one-electron operator", 1e-10)
    # <R| q' H |R> and <R| q' H q |R> for one-electron q: rows/columns reached from R by one inactive/active/virtual excitation
    H1 = ref.op_matrix(O.hamiltonian_1i_1a(h, g, ni, na, nv), n)
    H2 = ref.op_matrix(O.hamiltonian_2i_2a(h, g, ni, na, nv), n)
    X1 = ref.op_matrix(O.one_elec_op_1i_1a(x, ni, na, nv), n)
    pairs = [(p, q) for p in range(norb) for q in range(norb) if p > q and not (p < ni) and not (q >= ni + na) and not (ni <= q and p < ni + na)]
    rng = ref.rng_of(spec["seed"], 77)
    psi = np.zeros(2**n)
    psi[ref_dets] = rng.standard_normal(len(ref_dets))
    phi = np.zeros(2**n)
    phi[ref_dets] = rng.standard_normal(len(ref_dets))
    for p, q in pairs:
        for E in (ref.E_mat(p, q, n), ref.E_mat(q, p, n)):
            close(phi @ (E @ (H1 @ psi)), phi @ (E @ (H @ psi)), f"<q H> with the one-excitation Hamiltonian, q={(p, q)}", 1e-9)
            close(phi @ (H1 @ (E @ psi)), phi @ (H @ (E @ psi)), f"<H q> with the one-excitation Hamiltonian, q={(p, q)}", 1e-9)
            close(phi @ (E @ (X1 @ psi)), phi @ (E @ (X @ psi)), f"<q X> with the one-excitation property operator, q={(p, q)}", 1e-9)
            close(phi @ (X1 @ (E @ psi)), phi @ (X @ (E @ psi)), f"<X q> with the one-excitation property operator, q={(p, q)}", 1e-9)
            close(phi @ (E @ (H2 @ psi)), phi @ (E @ (H @ psi)), f"<q H> with the two-excitation Hamiltonian, q={(p, q)}", 1e-9)
    for (p, q) in pairs[:6]:
        for (r, s) in pairs[:6]:
            A, B = ref.E_mat(q, p, n), ref.E_mat(r, s, n)
            close(phi @ (A @ (H2 @ (B @ psi))), phi @ (A @ (H @ (B @ psi))), f"<q' H q> with the two-excitation Hamiltonian, {(p, q)} {(r, s)}", 1e-9)
            close(phi @ (A @ (B @ (H2 @ psi))), phi @ (A @ (B @ (H @ psi))), f"<q' q H> with the two-excitation Hamiltonian, {(p, q)} {(r, s)}", 1e-9)
            close(phi @ (H2 @ (A @ (B @ psi))), phi @ (H @ (A @ (B @ psi))), f"<H q' q> with the two-excitation Hamiltonian, {(p, q)} {(r, s)}", 1e-9)
            C = ref.E_mat(s, r, n)
            close(phi @ (A @ (C @ (H2 @ psi))), phi @ (A @ (C @ (H @ psi))), f"<q' q' H> with the two-excitation Hamiltonian, {(p, q)} {(r, s)}", 1e-9)
    return "restricted" if (ni or nv) and norb > 1 else None


PROPERTY = Property(
    "P02",
    "Random index tuples (distinct and coinciding) for every elementary operator and random integrals with and without symmetry zeros for every "
    "(inactive, active, virtual) split up to 4 (thorough 5) orbitals; non-trivial: the operator is not zero / the space has more than one orbital.",
    [
        Component("excitations", strat_exc, check_exc, "elementary operators vs their definition as Fock-space matrices", quick=500, thorough=3000, shards=2, budget=60),
        Component("ranks", strat_rank, check_rank, "excitations of rank one to six in up to 14 orbitals, by their action on determinants", quick=200, thorough=2000, shards=1),
        Component("hamiltonian", strat_ham, check_full, "full-space operators vs definition", quick=40, thorough=200, shards=1),
        Component("restricted", strat_ham, check_restricted, "restricted operators vs full operators where they are meant to be used", quick=40, thorough=200, shards=3),
    ],
    ["Jordan-Wigner matrices built by Kronecker products are the meaning of an operator"],
)
