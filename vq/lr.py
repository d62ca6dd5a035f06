"""Dense definitions of the linear-response parametrisations."""
from __future__ import annotations

import importlib

import numpy as np
import scipy.linalg

from vq import ref, wf as W

VARIANTS = {
    # name: (active operators, orbital operators)
    "naive": ("bare", "bare"),
    "projected": ("proj", "bare"),
    "selfconsistent": ("sc", "bare"),
    "statetransfer": ("st", "bare"),
    "allprojected": ("proj", "proj"),
    "allselfconsistent": ("sc", "sc"),
    "allstatetransfer": ("st", "st"),
    "projected_statetransfer": ("st", "proj"),
}


def lr_class(name):
    return importlib.import_module(f"slowquant.unitary_coupled_cluster.linear_response.{name}").LinearResponse


def ladder(wf, exc):
    """Active excitation operators (spatial sa singles/doubles, spin-orbital higher) as full-space Fock matrices, by textbook enumeration."""
    import itertools

    n = wf.num_orbs
    occ, vir = list(wf.active_occ_idx), list(wf.active_unocc_idx)
    exc = exc.lower()
    out = []
    if "s" in exc:
        out += [ref.gen_matrix("sa_single", (i, a), n) for i in occ for a in vir]
    if "d" in exc:
        for x, i in enumerate(occ):
            for j in occ[x:]:
                for y, a in enumerate(vir):
                    for b in vir[y:]:
                        out.append(ref.gen_matrix("sa_double_1", (i, j, a, b), n))
                        if i != j and a != b:
                            out.append(ref.gen_matrix("sa_double_5", (i, j, a, b), n))
    so, sv = list(wf.active_occ_spin_idx), list(wf.active_unocc_spin_idx)
    for key, rank in (("t", 3), ("q", 4), ("5", 5), ("6", 6)):
        if key in exc:
            for o in itertools.combinations(so, rank):
                for v in itertools.combinations(sv, rank):
                    if sum(x % 2 for x in o) == sum(x % 2 for x in v):
                        out.append(ref.gen_matrix({3: "triple", 4: "quadruple", 5: "quintuple", 6: "sextuple"}[rank], o + v, n))
    return out


class Dense:
    """All quantities in the determinants of the full orbital space with the wave function's electron numbers."""

    def __init__(self, wf, mol):
        self.wf, self.mol = wf, mol
        n = wf.num_orbs
        self.n = n
        ni, na, nv = wf.num_inactive_orbs, wf.num_active_orbs, wf.num_virtual_orbs
        ne = wf.num_inactive_orbs + wf.num_active_elec // 2
        self.dets = ref.sector(n, ne, ne)
        h, g = ref.mo_ints(mol, wf.c_mo)
        self.H = ref.restrict(ref.ham_matrix(h, g, n), self.dets)
        emb = ref.embed_dets(W.dets_of(wf), ni, na, nv)
        pos = {d: i for i, d in enumerate(self.dets)}
        self.v = np.zeros(len(self.dets))
        self.hf = np.zeros(len(self.dets))
        for e, c, r in zip(emb, np.asarray(wf.ci_coeffs), np.asarray(wf.csf_coeffs)):
            self.v[pos[e]] = c
            self.hf[pos[e]] = r
        self.mu = [ref.restrict(ref.one_matrix(wf.c_mo.T @ d @ wf.c_mo, n), self.dets) for d in mol.intor("int1e_r")]
        # ansatz unitary on the whole space
        lay = W.layout(wf)
        sh, ssh = ni, 2 * ni
        U = np.eye(len(self.dets))
        T = np.zeros_like(U)
        for t, kind, idx in zip(wf.thetas, lay.excitation_operator_type, lay.excitation_indices):
            spatial = kind.startswith("sa_")
            k = [int(i) + (sh if spatial else ssh) for i in idx]
            m = ref.gen_matrix(kind, k, n)
            if kind == "sa_single" and not hasattr(wf, "ucc_layout"):
                m = m * np.sqrt(2)
            G = ref.restrict(m - m.T, self.dets)
            T += t * G
            if not hasattr(wf, "ucc_layout"):
                U = scipy.linalg.expm(t * G) @ U
        self.U = scipy.linalg.expm(T) if hasattr(wf, "ucc_layout") else U

    def dress(self, mats, how):
        out = []
        P = np.outer(self.v, self.v)
        for m in mats:
            m = ref.restrict(m, self.dets)
            if how == "bare":
                out.append(m)
            elif how == "proj":
                out.append(m @ P - (self.v @ m @ self.v) * P)
            elif how == "sc":
                out.append(self.U @ m @ self.U.T)
            else:
                out.append(np.outer(self.U @ (m @ self.hf), self.v))
        return out

    def operators(self, variant, exc):
        g, q = VARIANTS[variant]
        kidx = self.wf.kappa_hf_like_idx if variant in ("allselfconsistent", "allstatetransfer") else self.wf.kappa_no_activeactive_idx
        qm = [ref.gen_matrix("sa_single", (int(p), int(r)), self.n) for p, r in kidx]
        return self.dress(qm, q), self.dress(ladder(self.wf, exc), g)

    def matrices(self, ops):
        v, H = self.v, self.H
        com = lambda A, B: A @ B - B @ A
        N = len(ops)
        A, B, S, D = (np.zeros((N, N)) for _ in range(4))
        for j, P in enumerate(ops):
            HP, HPd = com(H, P), com(H, P.T)
            for i, O in enumerate(ops):
                Od = O.T
                A[i, j] = 0.5 * (v @ com(Od, HP) @ v + v @ com(com(Od, H), P) @ v)
                B[i, j] = 0.5 * (v @ com(Od, HPd) @ v + v @ com(com(Od, H), P.T) @ v)
                S[i, j] = v @ com(Od, P) @ v
                D[i, j] = v @ com(Od, P.T) @ v
        return A, B, S, D

    def gradient(self, ops):
        return np.array([self.v @ (O.T @ self.H - self.H @ O.T) @ self.v for O in ops])

    def residual(self):
        """Norm of (H - E)|0> within the active space."""
        ni, na, nv = self.wf.num_inactive_orbs, self.wf.num_active_orbs, self.wf.num_virtual_orbs
        emb = set(ref.embed_dets(W.dets_of(self.wf), ni, na, nv))
        r = self.H @ self.v - (self.v @ self.H @ self.v) * self.v
        return float(np.linalg.norm([x for x, d in zip(r, self.dets) if d in emb]))
