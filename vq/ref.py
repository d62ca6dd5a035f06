"""Independent reference models: dense/sparse second quantisation, determinant enumeration, random model systems."""
from __future__ import annotations

import functools
import itertools

import numpy as np
import scipy.linalg
import scipy.sparse as sp


# ---------------------------------------------------------------------------------------------------------------
# Fock space. Spin orbital 0 is the most significant bit; a_p carries (-1)^(number of occupied orbitals before p).
@functools.lru_cache(maxsize=None)
def fock_a(n: int) -> tuple:
    """Annihilation matrices of n spin orbitals in the full Fock space."""
    z = sp.csr_matrix(np.diag([1.0, -1.0]))
    a = sp.csr_matrix(np.array([[0.0, 1.0], [0.0, 0.0]]))
    out = []
    for p in range(n):
        m = sp.identity(1, format="csr")
        for q in range(n):
            m = sp.kron(m, z if q < p else (a if q == p else sp.identity(2)), format="csr")
        out.append(m)
    return tuple(out)


def string_matrix(string, n: int):
    a = fock_a(n)
    m = sp.identity(2**n, format="csr")
    for idx, dag in string:
        m = m @ (a[idx].T if dag else a[idx])
    return m


def op_matrix(op, n: int):
    """Sparse matrix of a FermionicOperator-like object (attribute operators: {((idx, dagger), ...): coeff})."""
    m = sp.csr_matrix((2**n, 2**n))
    for string, c in op.operators.items():
        m = m + c * string_matrix(string, n)
    return m.tocsr()


def E_mat(p: int, q: int, n: int):
    a = fock_a(n)
    return (a[2 * p].T @ a[2 * q] + a[2 * p + 1].T @ a[2 * q + 1]).tocsr()


def ham_matrix(h, g, norb: int):
    """Spin-free Hamiltonian sum h_pq E_pq + 1/2 sum g_pqrs (E_pq E_rs - d_qr E_ps), chemists' integrals."""
    n = 2 * norb
    E = [[E_mat(p, q, n) for q in range(norb)] for p in range(norb)]
    H = sp.csr_matrix((2**n, 2**n))
    heff = h - 0.5 * np.einsum("prrs->ps", g)
    for p in range(norb):
        for q in range(norb):
            H = H + heff[p, q] * E[p][q]
    for p in range(norb):
        for q in range(norb):
            X = sp.csr_matrix((2**n, 2**n))
            for r in range(norb):
                for s in range(norb):
                    if g[p, q, r, s] != 0:
                        X = X + 0.5 * g[p, q, r, s] * E[r][s]
            H = H + E[p][q] @ X
    return H.tocsr()


def one_matrix(x, norb: int):
    n = 2 * norb
    O = sp.csr_matrix((2**n, 2**n))
    for p in range(norb):
        for q in range(norb):
            O = O + x[p, q] * E_mat(p, q, n)
    return O.tocsr()


def s2_matrix(norb: int):
    """S^2 = S- S+ + Sz (Sz + 1)."""
    n = 2 * norb
    a = fock_a(n)
    sp_ = sum((a[2 * p].T @ a[2 * p + 1] for p in range(norb)), sp.csr_matrix((2**n, 2**n)))
    sz = sum((0.5 * (a[2 * p].T @ a[2 * p] - a[2 * p + 1].T @ a[2 * p + 1]) for p in range(norb)), sp.csr_matrix((2**n, 2**n)))
    return (sp_.T @ sp_ + sz @ sz + sz).tocsr()


def num_matrix(norb: int, spin: int | None = None):
    n = 2 * norb
    a = fock_a(n)
    idx = [i for i in range(n) if spin is None or i % 2 == spin]
    return sum((a[i].T @ a[i] for i in idx), sp.csr_matrix((2**n, 2**n))).tocsr()


def sector(norb: int, na: int, nb: int) -> list:
    """Fock-space indices (== determinants) of norb orbitals with na alpha and nb beta electrons, ascending."""
    out = []
    for A in itertools.combinations(range(norb), na):
        for B in itertools.combinations(range(norb), nb):
            det = 0
            for p in A:
                det |= 1 << (2 * norb - 1 - 2 * p)
            for p in B:
                det |= 1 << (2 * norb - 2 - 2 * p)
            out.append(det)
    return sorted(out)


def embed_dets(dets, ni: int, na: int, nv: int) -> list:
    """Active-space determinants -> full-space determinants with filled inactive and empty virtual orbitals."""
    head = (1 << (2 * ni)) - 1
    return [((head << (2 * na)) | int(d)) << (2 * nv) for d in dets]


def popcounts(det: int, norb: int) -> tuple:
    s = format(det, f"0{2 * norb}b")
    return s[0::2].count("1"), s[1::2].count("1")


# ---------------------------------------------------------------------------------------------------------------
# Excitation generators by their textbook definition, as Fock-space matrices.
def gen_matrix(kind: str, idx, norb: int):
    """Excitation operator (not anti-Hermitian) by name, indices occupied first."""
    n = 2 * norb
    a = fock_a(n)
    idx = [int(i) for i in idx]
    if kind in ("single", "double", "triple", "quadruple", "quintuple", "sextuple"):
        k = len(idx) // 2
        occ, vir = idx[:k], idx[k:]
        m = sp.identity(2**n, format="csr")
        for v in vir:
            m = m @ a[v].T
        for o in reversed(occ):
            m = m @ a[o]
        return m.tocsr()
    if kind == "sa_single":  # normalised spin-adapted single
        i, v = idx
        return (E_mat(v, i, n) / np.sqrt(2)).tocsr()
    if kind.startswith("sa_double"):
        i, j, c, b = idx
        case = int(kind[-1])
        if case == 5:
            return ((E_mat(c, i, n) @ E_mat(b, j, n) - E_mat(c, j, n) @ E_mat(b, i, n)) / (2 * np.sqrt(3))).tocsr()
        f = (2 if c == b else 1) * (2 if i == j else 1)
        return ((E_mat(c, i, n) @ E_mat(b, j, n) + E_mat(c, j, n) @ E_mat(b, i, n)) / (2 * np.sqrt(f))).tocsr()
    raise KeyError(kind)


def restrict(m, dets):
    return m[dets][:, dets].toarray()


# ---------------------------------------------------------------------------------------------------------------
# Random quantities
def rng_of(*key) -> np.random.Generator:
    return np.random.default_rng([int(k) & 0x7FFFFFFF for k in key])


def angles(rng, n: int, s: float) -> list[float]:
    """Ansatz parameters: random, and in a third of the cases some exactly zero, tiny, at multiples of pi or beyond a full turn."""
    th = [float(x) for x in rng.uniform(-s, s, n)]
    if rng.integers(3) == 0:
        special = [0.0, 0.0, 1e-5, -1e-5, -1e-7, 3e-9, float(np.pi), -float(np.pi) / 2, 2 * float(np.pi) + 0.3, -7.0]
        th = [special[int(rng.integers(len(special)))] if rng.integers(2) else x for x in th]
    return th


def turns(rng, n: int, s: float) -> list[float]:
    """Orbital rotations: random, and in a third of the cases some exactly zero, tiny or large."""
    k = [float(x) for x in rng.uniform(-s, s, n)]
    if rng.integers(3) == 0:
        special = [0.0, 0.0, 1e-5, -1e-5, -1e-7, 3e-9, 1.7]
        k = [special[int(rng.integers(len(special)))] if rng.integers(2) else x for x in k]
    return k


def rand_sym(rng, n: int):
    x = rng.standard_normal((n, n))
    return 0.5 * (x + x.T)


def rand_eri(rng, n: int, rank: int = 4):
    """Random real two-electron integrals with the full 8-fold symmetry."""
    L = rng.standard_normal((rank, n, n))
    L = 0.5 * (L + L.transpose(0, 2, 1))
    w = rng.uniform(-0.3, 1.0, rank)
    return np.einsum("L,Lpq,Lrs->pqrs", w, L, L)


def rand_orth(rng, n: int):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def rand_state(rng, n: int):
    v = rng.standard_normal(n)
    return v / np.linalg.norm(v)


def model_mole(seed: int, norb: int, nelec: int, scale: float = 0.3, gap: float = 1.0, zero=()):
    """A model system in an orthonormal AO basis that presents itself as a PySCF molecule.

    zero: subset of ("h", "g") of couplings to leave out.
    """
    from pyscf import gto

    class ModelMole(gto.mole.Mole):
        """Random integrals behind the integral interface of PySCF."""

        def __init__(self, data) -> None:
            super().__init__()
            object.__setattr__(self, "_vq", data)

        def __deepcopy__(self, memo):
            import copy

            return ModelMole(copy.deepcopy(self._vq))

        def __copy__(self):
            return self

        def copy(self, *a, **k):
            return self

        @property
        def nelectron(self):
            return self._vq["nelec"]

        @nelectron.setter
        def nelectron(self, n):
            pass

        def tot_electrons(self, *a, **k):
            return self._vq["nelec"]

        @property
        def nao(self):
            return self._vq["norb"]

        def nao_nr(self, *a, **k):
            return self._vq["norb"]

        def energy_nuc(self, *a, **k):
            return self._vq["enuc"]

        def intor(self, name, *a, **k):
            base = name.replace("_sph", "").replace("_cart", "").replace("_symm", "")
            return np.array(self._vq[base])

        def intor_symmetric(self, name, *a, **k):
            return self.intor(name)

    rng = rng_of(seed, norb, nelec)
    diag = np.diag(gap * np.arange(norb))
    data = {
        "nelec": nelec, "norb": norb, "enuc": float(rng.uniform(0, 3)),
        "int1e_kin": 0.5 * diag + (0 if "h" in zero else scale) * rand_sym(rng, norb),
        "int1e_nuc": 0.5 * diag + (0 if "h" in zero else scale) * rand_sym(rng, norb) - 3 * np.eye(norb),
        "int2e": (0 if "g" in zero else scale) * rand_eri(rng, norb),
        "int1e_r": np.array([rand_sym(rng, norb) for _ in range(3)]),
        "int1e_ovlp": np.eye(norb),
    }
    return ModelMole(data)


def mo_ints(mol, c):
    """(h, g) in the basis of the columns of c, by plain einsum."""
    h = c.T @ (mol.intor("int1e_kin") + mol.intor("int1e_nuc")) @ c
    g = mol.intor("int2e")
    g = np.einsum("abcd,ai->ibcd", g, c)
    g = np.einsum("ibcd,bj->ijcd", g, c)
    g = np.einsum("ijcd,ck->ijkd", g, c)
    g = np.einsum("ijkd,dl->ijkl", g, c)
    return h, g


def active_ham(h, g, ni: int, na: int):
    """(core energy, effective one-electron, two-electron) of the active space with ni doubly occupied orbitals."""
    c = slice(0, ni)
    a = slice(ni, ni + na)
    e0 = 2 * np.einsum("ii->", h[c, c]) + 2 * np.einsum("iijj->", g[c, c, c, c]) - np.einsum("ijji->", g[c, c, c, c])
    heff = h[a, a] + 2 * np.einsum("pqii->pq", g[a, a, c, c]) - np.einsum("piiq->pq", g[a, c, c, a])
    return float(e0), heff, g[a, a, a, a]


def active_H(h, g, ni: int, na: int, dets):
    e0, heff, ga = active_ham(h, g, ni, na)
    return restrict(ham_matrix(heff, ga, na), dets) + e0 * np.eye(len(dets))


@functools.lru_cache(maxsize=None)
def E_sector(norb: int, dets: tuple) -> tuple:
    """E_pq restricted to determinants, dense."""
    n = 2 * norb
    return tuple(tuple(restrict(E_mat(p, q, n), list(dets)) for q in range(norb)) for p in range(norb))


def rdms(bra, ket, norb: int, dets, order: int):
    """<bra| e_{pq..} |ket> reduced density matrices: Gamma1[p,q] = <E_pq>, Gamma2[pqrs] = <e_pqrs>, ..., by direct construction.

    e_{pqrs} = sum_{st} a+_ps a+_rt a_st a_qs  (and the analogous strings for three and four electrons).
    """
    n = 2 * norb
    a = fock_a(n)
    full_ket = np.zeros(2**n)
    full_ket[list(dets)] = ket
    full_bra = np.zeros(2**n)
    full_bra[list(dets)] = bra

    # vectors a_{q_k s_k} ... a_{q_1 s_1} |ket>, indexed by spin orbitals
    def strings(vec):
        cur = {(): vec}
        for _ in range(order):
            nxt = {}
            for key, v in cur.items():
                for i in range(n):
                    if i in key:
                        continue
                    w = a[i] @ v
                    if np.any(w):
                        nxt[key + (i,)] = w
            cur = nxt
        return cur

    K = strings(full_ket)
    B = strings(full_bra)
    out = np.zeros((norb,) * (2 * order))
    keysK = list(K)
    keysB = list(B)
    if not keysK or not keysB:
        return out
    MK = np.array([K[k] for k in keysK])
    MB = np.array([B[k] for k in keysB])
    ov = MB @ MK.T
    spinB = np.array([[i % 2 for i in k] for k in keysB])
    spinK = np.array([[i % 2 for i in k] for k in keysK])
    ib, ik = np.nonzero((spinB[:, None, :] == spinK[None, :, :]).all(-1))
    idx = []
    spatB = np.array([[i // 2 for i in k] for k in keysB])
    spatK = np.array([[i // 2 for i in k] for k in keysK])
    for k in range(order):
        idx.append(spatB[ib, k])
        idx.append(spatK[ik, k])
    np.add.at(out, tuple(idx), ov[ib, ik])
    return out


def expm_apply(T, v):
    return scipy.linalg.expm(T) @ v


def apply_string(string, det: int, n: int):
    """Ladder operators ((index, dagger), ...) acting on a determinant (spin orbital k is bit n-1-k): (sign, determinant) or None."""
    sign = 1
    for k, dag in reversed(list(string)):
        bit = 1 << (n - 1 - k)
        if bool(det & bit) == bool(dag):
            return None
        if bin(det >> (n - k)).count("1") & 1:
            sign = -sign
        det ^= bit
    return sign, det


def apply_terms(terms: dict, vec: dict, n: int) -> dict:
    """A sum of strings {string: coefficient} acting on a sparse state {determinant: amplitude}."""
    out: dict = {}
    for det, amp in vec.items():
        for string, c in terms.items():
            r = apply_string(string, det, n)
            if r is not None:
                out[r[1]] = out.get(r[1], 0.0) + c * amp * r[0]
    return out
