"""P21: molecular integrals over contracted Cartesian Gaussians are exact."""
from __future__ import annotations

import functools
import itertools
import os

import numpy as np
from hypothesis import strategies as st

from vq import gto, ref
from vq.core import Component, Property, Skip, close, require

ELEMENTS = [("H", 1), ("He", 2), ("Li", 3), ("C", 6), ("O", 8), ("Ne", 10), ("Cl", 17)]


# --------------------------------------------------------------------------------------------------------------
def strat_boys(tier):
    z = st.one_of(st.floats(-14, 4).map(lambda x: 10.0**x), st.floats(0, 60), st.sampled_from([0.0, 1e-10, 1.0, 25.0, 25.000001, 24.999999, 1e-9, 35.0, 50.0]))
    return st.lists(st.tuples(st.integers(0, 12), z), min_size=40, max_size=40).map(lambda l: {"pts": [[n, float(x)] for n, x in l]})


@functools.lru_cache(maxsize=100000)
def boys(n, z):
    import mpmath as mp

    with mp.workdps(40):
        if z == 0:
            return float(mp.mpf(1) / (2 * n + 1))
        a = n + mp.mpf(1) / 2
        return float(mp.hyp1f1(1, a + 1, mp.mpf(z)) * mp.exp(-mp.mpf(z)) / (2 * a))


def check_boys(spec):
    from slowquant.molecularintegrals.integralfunctions import boys_function

    for n, z in spec["pts"]:
        want = boys(n, z)
        got = boys_function(n, z)
        require(abs(got - want) <= 1e-9 * want, f"Boys function of order {n} at {z!r}: {got!r} instead of {want!r}")
    return "boys"


# --------------------------------------------------------------------------------------------------------------
def geometry(rng, natom, style):
    """Random centres: generic, on a line, on a grid (coinciding coordinates), stretched (negligible integrals), squeezed."""
    r = rng.normal(size=(natom, 3)) * 1.5
    if style == 1:
        r[:, :2] = r[0, :2]
    elif style == 2:
        r = np.round(r)
        for i in range(natom):
            while any(np.allclose(r[i], r[j]) for j in range(i)):
                r[i, rng.integers(3)] += 1.0
    elif style == 3:
        r *= 6.0
    elif style == 4:
        r *= 0.2
    return r


def system(spec, tag):
    """Molecule of the code under test with arbitrary shells on its atoms, and the reference."""
    from slowquant.molecularintegrals.integralclass import _Integral
    from slowquant.molecule.moleculeclass import Shell, _Molecule

    rng = ref.rng_of(spec["seed"], tag)
    names = [ELEMENTS[i % len(ELEMENTS)] for i in spec["atoms"]]
    r = geometry(rng, len(names), spec["style"])
    m = _Molecule("".join(f"{n} {x!r} {y!r} {z!r};" for (n, _), (x, y, z) in zip(names, r.tolist())))
    m.shells, m.number_bf = [], 0
    lo, hi = [(0.1, 5.0), (0.01, 1.0), (0.05, 1000.0), (1.0, 1e5)][spec["exps"] % 4]
    ref_shells = []
    for l, at, np_ in spec["shells"]:
        at %= len(names)
        e = np.exp(rng.uniform(np.log(lo), np.log(hi), np_))
        k = rng.uniform(0.1, 1, np_) * np.where(rng.uniform(size=np_) < 0.3, -1, 1)
        # a contraction of nearly equal primitives with opposite signs is not a usable basis function
        k = np.abs(k) if np_ > 1 and np.min(np.abs(np.diff(np.sort(np.log(e))))) < 1 else k
        am = np.array(gto.CART[l])
        m.shells.append(Shell(m.atoms[at].coordinate, e, k, am, m.number_bf, m.atoms[at]))
        m.number_bf += len(am)
        ref_shells.append((r[at], l, e, k))
    return m, _Integral, gto.Cint(ref_shells, [(z, x) for (_, z), x in zip(names, r)]), ref_shells, rng


def strat_sys(ls, maxsh, maxprim, minsh=1):
    return st.fixed_dictionaries({
        "atoms": st.lists(st.integers(0, 20), min_size=1, max_size=5),
        "shells": st.lists(st.tuples(st.sampled_from(ls), st.integers(0, 2), st.integers(1, maxprim)).map(list), min_size=minsh, max_size=maxsh),
        "style": st.integers(0, 4), "exps": st.integers(0, 3), "seed": st.integers(0, 10**6),
        "order": st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2)).map(list), "mode": st.integers(0, 3),
    })


def relative(got, want, what, tol=1e-10):
    """Compare element-wise against sqrt(d_i d_j) of the (positive) diagonal of the reference."""
    got = np.asarray(got)
    require(got.shape == want.shape, f"{what}: shape {got.shape} instead of {want.shape}")
    d = np.sqrt(np.abs(np.diag(want))) + 1e-300
    close(got / d[:, None] / d[None, :], want / d[:, None] / d[None, :], what, tol)


def compare_one(I, R, m, order, what):
    S, T, V = R.one("int1e_ovlp"), R.one("int1e_kin"), R.one("int1e_nuc")
    close(I.overlap_matrix, S, f"{what} overlap", 1e-11)
    relative(I.kinetic_energy_matrix, T, f"{what} kinetic energy", 1e-11)
    relative(I.nuclear_attraction_matrix, V, f"{what} nuclear attraction", 1e-9)
    M = R.moment(order, m.center_of_mass)
    close(I.get_multipole_matrix(np.array(order)), M, f"{what} multipole {order}", 1e-10)
    for o in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
        close(I.get_multipole_matrix(np.array(o)), R.moment(o, m.center_of_mass), f"{what} multipole {o}", 1e-10)


def check_one(spec):
    m, Integral, R, sh, rng = system(spec, 21)
    order = list(spec["order"])
    while sum(order) > 4:
        order[int(np.argmax(order))] -= 1
    I = Integral(m)
    what = f"shells {[s[1] for s in sh]}"
    if spec["mode"] == 1:
        I.store_1e_int = False
    elif spec["mode"] == 2:
        I.force_recompute = True
    compare_one(I, R, m, order, what)
    if spec["mode"]:
        compare_one(I, R, m, order, what + ", second time")
    pts = rng.normal(size=(4, 3)) * 2
    pts[0] = m.atoms[0].coordinate
    close(m.get_basis_function_amplitude(pts), gto.amplitudes(sh, None, pts), f"{what} amplitudes in space", 1e-11)
    return "one:" + "".join("spdf"[s[1]] for s in sh)


def check_two(spec):
    m, Integral, R, sh, rng = system(spec, 22)
    I = Integral(m)
    what = f"shells {[s[1] for s in sh]}"
    want = R.eri()
    n = len(R.norm)
    if spec["mode"] == 1:
        I.store_2e_int = False
    elif spec["mode"] == 2:
        I.cauchy_schwarz_threshold = 0.0
    elif spec["mode"] == 3:
        I.cauchy_schwarz_threshold = 1e-5
    got = I.electron_repulsion_tensor
    # relative to the Cauchy-Schwarz bound of each element
    q = np.sqrt(np.abs(np.einsum("ijij->ij", want)))
    bound = q[:, :, None, None] * q[None, None, :, :]
    thr = I.cauchy_schwarz_threshold if spec["mode"] >= 2 else 2e-12  # what is screened by default
    require(got.shape == want.shape, f"{what} electron repulsion: shape {got.shape}")
    err = np.abs(got - want) - 1e-8 * bound - 1e-11 * float(np.max(want)) - 1.0001 * thr
    require(np.all(np.isfinite(got)) and np.max(err) <= 0, f"{what} electron repulsion: element {np.unravel_index(int(np.argmax(err)), got.shape)} is {got.flat[int(np.argmax(err))]!r} instead of {want.flat[int(np.argmax(err))]!r}")
    if thr == 0.0:
        for p in ((1, 0, 2, 3), (0, 1, 3, 2), (2, 3, 0, 1)):
            close(got.transpose(p), got, f"{what} permutation symmetry {p}", 1e-10)
    if spec["mode"] == 1:
        close(I.electron_repulsion_tensor, got, f"{what} computed again", 1e-14)
    # integrals over molecular orbitals
    from slowquant.molecularintegrals.integralfunctions import one_electron_integral_transform, two_electron_integral_transform

    C = rng.normal(size=(n, max(1, n - int(rng.integers(0, 2)))))
    h = rng.normal(size=(n, n))
    g = rng.normal(size=(n,) * 4) if n <= 6 else want
    close(one_electron_integral_transform(C, h), C.T @ h @ C, "one-electron transformation", 1e-11)
    w = g
    for _ in range(4):
        w = np.tensordot(w, C, axes=(0, 0))
    close(two_electron_integral_transform(C, g), w, "two-electron transformation", 1e-10)
    return "two:" + "".join("spdf"[s[1]] for s in sh)


# --------------------------------------------------------------------------------------------------------------
NAMED = ["sto-3g", "STO-3G", "6-31g", "6-31G*", "6-31g**", "6-311G", "cc-pVDZ", "4-31g", "dz", "dzp", "6-31++g", "def2-svp", "6-311g**", "aug-cc-pvdz", "cc-pvtz"]


def strat_real(tier):
    return st.fixed_dictionaries({
        "atoms": st.lists(st.sampled_from(["H", "H", "He", "Li", "Be", "B", "C", "N", "O", "F"]), min_size=1, max_size=2), "basis": st.sampled_from(NAMED), "style": st.integers(0, 2), "seed": st.integers(0, 10**6),
        "order": st.tuples(st.integers(0, 1), st.integers(0, 1), st.integers(0, 1)).map(list), "limit": st.just(7 if tier == "quick" else 12),
    })


def check_real(spec):
    from slowquant.SlowQuant import SlowQuant

    lib = gto.read(os.path.join(gto.basis_dir(), spec["basis"].lower().replace("*", "_st_") + ".basis"))
    if any(a.lower() not in lib for a in spec["atoms"]):
        raise Skip
    rng = ref.rng_of(spec["seed"], 23)
    r = geometry(rng, len(spec["atoms"]), spec["style"])
    A = SlowQuant()
    shells = [(x, l, e, k) for a, x in zip(spec["atoms"], r) for l, e, k in lib[a.lower()]]
    nf = sum(len(gto.CART[s[1]]) if s[1] < 4 else 99 for s in shells)
    if nf > 3 * spec["limit"]:
        raise Skip
    small = nf <= spec["limit"]
    text = "".join(f"{n} {x!r} {y!r} {z!r};" for n, (x, y, z) in zip(spec["atoms"], r.tolist()))
    if small:
        A.set_molecule(text, basis_set=spec["basis"])
        I = A.integral
    else:
        # without the two-electron screening matrix of the full interface
        from slowquant.molecularintegrals.integralclass import _Integral

        A.set_molecule(text)
        A.molecule._set_basis_set(spec["basis"])
        I = _Integral.__new__(_Integral)
        I.molecule_object, I.store_1e_int, I.force_recompute = A.molecule, False, False
    from pyscf.data import elements

    R = gto.Cint(shells, [(elements.charge(a), x) for a, x in zip(spec["atoms"], r)])
    what = f"{'-'.join(spec['atoms'])} in {spec['basis']}"
    compare_one(I, R, A.molecule, spec["order"], what)
    if small:
        close(I.electron_repulsion_tensor, R.eri(), f"{what} electron repulsion", 1e-9)
    return spec["basis"].lower()


PROPERTY = Property(
    "P21",
    "Random contracted s, p, d, f shells (exponents 0.01 to 1e5, generic, linear, grid, stretched and squeezed geometries) and elements of the shipped basis sets; every case compares full matrices or tensors and is non-trivial.",
    [
        Component("boys", strat_boys, check_boys, "Boys function of orders 0-12 at 40 points each vs 40-digit evaluation", quick=40, thorough=400, shards=1),
        Component("one", lambda t: strat_sys([0, 1, 2, 0, 1, 2, 3], 4, 3), check_one, "overlap, kinetic, nuclear attraction, Cartesian multipoles to order 4, amplitudes vs libcint and definitions; stored and recomputed", quick=30, thorough=250, shards=3, budget=40),
        Component("two", lambda t: strat_sys([0, 1, 0, 1, 2], 4, 2), check_two, "electron-repulsion tensor vs libcint with and without screening, permutation symmetry, orbital transformations", quick=25, thorough=250, shards=2, budget=40),
        Component("two_f", lambda t: strat_sys([3, 3, 2, 0], 2, 1, 1), check_two, "electron-repulsion tensor including f shells vs libcint", quick=10, thorough=60, shards=1, budget=40),
        Component("real", strat_real, check_real, "integrals of real molecules in the shipped basis sets, read by an own reader, vs libcint", quick=20, thorough=120, shards=1, budget=40),
    ],
    ["libcint (PySCF) integrals", "Cartesian functions are individually normalised, as the code documents"],
)
