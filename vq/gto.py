"""Reference integrals (libcint through PySCF) over individually normalised Cartesian contracted Gaussians, and an own reader of the basis-set files."""
from __future__ import annotations

import os

import numpy as np

BOHR = 1.889725989  # documented conversion factor
CART = {0: [(0, 0, 0)], 1: [(1, 0, 0), (0, 1, 0), (0, 0, 1)]}
for _l in (2, 3):
    CART[_l] = [(x, y, _l - x - y) for x in range(_l, -1, -1) for y in range(_l - x, -1, -1)]


class Cint:
    """shells: (centre, l, exponents, coefficients of normalised primitives); nuclei: (charge, coordinate)."""

    def __init__(self, shells, nuclei):
        from pyscf.gto.mole import gto_norm

        env = [0.0] * 20
        atm, bas = [], []
        for z, r in nuclei:
            atm.append([int(z), len(env), 1, len(env) + 3, 0, 0])
            env += [float(x) for x in r] + [0.0]
        for c, l, e, k in shells:
            atm.append([0, len(env), 1, len(env) + 3, 0, 0])
            env += [float(x) for x in c] + [0.0]
            pe = len(env)
            env += [float(x) for x in e]
            pc = len(env)
            env += [float(x) * gto_norm(l, float(y)) for x, y in zip(k, e)]
            bas.append([len(atm) - 1, l, len(e), 1, 0, pe, pc, 0])
        self.atm, self.bas, self.env = np.array(atm, dtype=np.int32), np.array(bas, dtype=np.int32), np.array(env)
        self.norm = np.ones(sum(len(CART[s[1]]) for s in shells))
        self.norm = 1 / np.sqrt(np.diag(self.raw("int1e_ovlp")))

    def raw(self, name, **kw):
        from pyscf.gto import moleintor

        return moleintor.getints(name + "_cart", self.atm, self.bas, self.env, **kw)

    def one(self, name, origin=None):
        if origin is not None:
            self.env[1:4] = origin
        m = self.raw(name)
        return m * self.norm[:, None] * self.norm[None, :]

    def moment(self, order, origin):
        """Cartesian multipole matrix of total order 0..4."""
        idx = [a for a, n in enumerate(order) for _ in range(n)]
        if not idx:
            return self.one("int1e_ovlp")
        m = self.one("int1e_" + "r" * len(idx), origin)
        return m[int("".join(map(str, idx)), 3)]

    def eri(self):
        n = self.norm
        return np.einsum("ijkl,i,j,k,l->ijkl", self.raw("int2e").reshape((len(n),) * 4), n, n, n, n, optimize=True)


def amplitudes(shells, norm, points):
    """Values of the normalised functions, by definition (norm: 1/sqrt of the raw self-overlap is recomputed analytically)."""
    out = []
    df = lambda n: 1.0 if n < 2 else n * df(n - 2)
    for c, l, e, k in shells:
        d = np.asarray(points) - np.asarray(c)
        for x, y, z in CART[l]:
            # unit-normalise numerically exact formula: <g|g> of a contraction of unit primitives
            pre = [a * b ** ((2 * l + 3) / 4) for a, b in zip(k, e)]
            s = sum(p * q / (a + b) ** (l + 1.5) for p, a in zip(pre, e) for q, b in zip(pre, e)) * np.pi**1.5 * df(2 * x - 1) * df(2 * y - 1) * df(2 * z - 1) / 2**l
            rad = sum(p * np.exp(-a * np.sum(d**2, axis=1)) for p, a in zip(pre, e))
            out.append(d[:, 0] ** x * d[:, 1] ** y * d[:, 2] ** z * rad / np.sqrt(s))
    return np.array(out).T


def basis_dir():
    import slowquant.molecule.basis_reader as br

    return os.path.join(os.path.dirname(os.path.abspath(br.__file__)), "basisset")


def read(path):
    """{element (lower case): [(l, exponents, coefficients)]} of the $basis section of a Turbomole-format file."""
    out, cur, n = {}, None, 0
    inside = False
    for raw in open(path, encoding="utf-8"):
        t = raw.split("#")[0].split()
        if not t:
            continue
        if t[0].startswith("$"):
            inside = t[0].lower() == "$basis"
            cur = None
            continue
        if not inside or t[0] == "*":
            continue
        if t[0][0].isalpha():
            cur = out.setdefault(t[0].lower(), [])
        elif len(t) == 2 and t[1].lower() in "spdfghi":
            cur.append(("spdfghi".index(t[1].lower()), [], []))
        else:
            cur[-1][1].append(float(t[0].upper().replace("D", "E")))
            cur[-1][2].append(float(t[1].upper().replace("D", "E")))
    return out
