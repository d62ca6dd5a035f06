"""P22: molecule input is interpreted faithfully in every form and unit."""
from __future__ import annotations

import functools
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vq import gto, ref
from vq.core import Component, Property, Skip, close, fail, require
from vq.props.p21 import geometry

FILES = {
    "sto-3g": "sto-3g", "6-31g": "6-31g", "6-31g*": "6-31g_st_", "6-31g**": "6-31g_st__st_", "6-311g": "6-311g", "6-311g**": "6-311g_st__st_", "6-31++g": "6-31++g", "4-31g": "4-31g", "cc-pvdz": "cc-pvdz", "cc-pvtz": "cc-pvtz",
    "aug-cc-pvdz": "aug-cc-pvdz", "aug-cc-pvtz": "aug-cc-pvtz", "def2-svp": "def2-svp", "dz": "dz", "dzp": "dzp",
}


@functools.lru_cache(maxsize=None)
def library(name):
    return gto.read(os.path.join(gto.basis_dir(), FILES[name] + ".basis"))


@functools.lru_cache(maxsize=None)
def element(name):
    from pyscf.data import elements

    z = elements.charge(name)
    return z, elements.MASSES[z]


# elements with a standard atomic weight
HEAVY = ["He", "Li", "Be", "B", "C", "N", "O", "F", "Ne", "Na", "Mg", "Al", "Si", "P", "S", "Cl", "Ar", "K", "Ca", "Sc", "Ti", "V", "Cr", "Mn", "Fe", "Co", "Ni", "Cu", "Zn", "Ga", "Ge", "As", "Se", "Br", "Kr", "Rb", "Sr", "Y", "Zr", "Nb", "Mo", "Ru",
         "Rh", "Pd", "Ag", "Cd", "In", "Sn", "Sb", "Te", "I", "Xe", "Cs", "Ba", "La", "Ce", "Pr", "Nd", "Sm", "Eu", "Gd", "Tb", "Dy", "Ho", "Er", "Tm", "Yb", "Lu", "Hf", "Ta", "W", "Re", "Os", "Ir", "Pt", "Au", "Hg", "Tl", "Pb", "Bi", "Th", "Pa", "U"]


# --------------------------------------------------------------------------------------------------------------
def strat_forms(tier):
    return st.fixed_dictionaries({
        "atoms": st.lists(st.one_of(st.just("H"), st.sampled_from(HEAVY[:9]), st.sampled_from(HEAVY)), min_size=1, max_size=14), "seed": st.integers(0, 10**6), "style": st.integers(0, 3),
        "unit": st.sampled_from(["bohr", "Bohr", "au", "AU", "angstrom", "Angstrom", "ANGSTROM", None]), "charge": st.integers(-2, 2), "form": st.sampled_from(["text", "text", "xyz", "xyz"]), "fmt": st.integers(0, 4), "pad": st.integers(0, 4), "end": st.integers(0, 3),
        "basis": st.sampled_from(list(FILES)), "case": st.booleans(), "via": st.booleans(),
    })


def number(x, fmt):
    return [repr(float(x)), f"{x:.12f}", f"{x:+.10e}", f"{x:12.6f}", f"{x:.8E}"][fmt]


def check_forms(spec):
    from slowquant.SlowQuant import SlowQuant

    rng = ref.rng_of(spec["seed"], 220)
    atoms = spec["atoms"]
    r = geometry(rng, len(atoms), spec["style"])
    txt = [[number(x, spec["fmt"]) for x in row] for row in r]
    r = np.array([[float(x) for x in row] for row in txt])
    sep = [" ", "   ", "\t", " \t ", "  "][spec["pad"]]
    rows = [sep.join([a] + t) for a, t in zip(atoms, txt)]
    if spec["pad"] in (1, 3):
        rows = ["  " + x + " " for x in rows]
    scratch = tempfile.mkdtemp()
    try:
        if spec["form"] == "xyz":
            arg = os.path.join(scratch, "mol.xyz")
            with open(arg, "w", encoding="utf-8") as fh:
                fh.write(f"{len(atoms)}\n" + ["comment", "", "H 0 0 0", "1 2 3 4 5"][spec["end"]] + "\n" + "\n".join(rows) + ["\n", "", "\n\n", "\n  \n\n"][spec["end"]])
        else:
            glue = [";", "; ", ";\n", " ;\n  ", ";"][spec["pad"]]
            arg = glue.join(rows) + (";" if len(rows) == 1 or spec["end"] % 2 == 0 else "") + (["", "", "\n", " "][spec["end"]])
        kw = {} if spec["unit"] is None else {"distance_unit": spec["unit"]}
        what = f"{spec['form']} form in {spec['unit']}"
        A = SlowQuant()
        try:
            A.set_molecule(arg, molecular_charge=spec["charge"], **kw)
        except Exception as err:  # noqa: BLE001
            fail(f"{what}: {arg!r} refused with {err!r}")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    m = A.molecule
    bohr = r * (1.8897261246 if spec["unit"] and spec["unit"].lower() == "angstrom" else 1.0)
    require([a.atom_name for a in m.atoms] == atoms, f"{what}: atoms {[a.atom_name for a in m.atoms]} instead of {atoms}")
    close(m.atom_coordinates, bohr, f"{what} coordinates", 1e-6 if spec["unit"] and spec["unit"].lower() == "angstrom" else 1e-15)
    close([a.coordinate for a in m.atoms], m.atom_coordinates, f"{what} coordinates of the atoms", 1e-15)
    z = np.array([element(a)[0] for a in atoms], dtype=float)
    close(m.atom_charges, z, f"{what} charges", 1e-15)
    ne = int(z.sum()) - spec["charge"]
    require(m.number_electrons == ne and m.number_electrons_alpha == ne - ne // 2 and m.number_electrons_beta == ne // 2, f"{what}: {m.number_electrons} electrons ({m.number_electrons_alpha} + {m.number_electrons_beta}) instead of {ne}")
    R = m.atom_coordinates
    close(m.nuclear_repulsion, sum(z[i] * z[j] / np.linalg.norm(R[i] - R[j]) for i in range(len(z)) for j in range(i)), f"{what} nuclear repulsion", 1e-12)
    mass = np.array([element(a)[1] for a in atoms])
    span = float(np.max(np.abs(R), initial=1.0))
    close(m.center_of_mass / span, mass @ R / mass.sum() / span, f"{what} centre of mass", 1e-3)
    close(sum((a.mass / sum(b.mass for b in m.atoms)) * a.coordinate for a in m.atoms), m.center_of_mass, f"{what} centre of mass from its masses", 1e-12)
    # basis functions
    name = spec["basis"]
    lib = library(name)
    if any(a.lower() not in lib or max(s[0] for s in lib[a.lower()]) > 3 for a in atoms) or (name == "def2-svp" and max(z) > 36):
        return f"{spec['form']}:{spec['unit']}"
    label = name.upper() if spec["case"] else name
    nf = sum(len(gto.CART[s[0]]) for a in atoms for s in lib[a.lower()])
    if spec["via"] and nf <= 10 and len(atoms) <= 2:
        A.set_basis_set(label)
        m = A.molecule
    else:
        m._set_basis_set(label)
    if spec["seed"] % 2:
        m._set_basis_set(label)  # replaces, does not accumulate
    shells = [(a, i, s) for i, a in enumerate(atoms) for s in lib[a.lower()]]
    require(m.number_shell == len(shells), f"{what}, {name}: {m.number_shell} shells instead of {len(shells)}")
    pos, labels = 0, []
    for got, (a, i, (l, e, c)) in zip(m.shells, shells):
        close(got.center, R[i], f"{what}, {name}: centre of shell on {a}", 1e-15)
        close(np.asarray(got.exponents) / np.array(e), np.ones(len(e)), f"{what}, {name}: exponents on {a}", 1e-12)
        close(got.contraction_coefficients, c, f"{what}, {name}: contraction coefficients on {a}", 1e-12)
        require([tuple(int(x) for x in y) for y in got.angular_moments] == gto.CART[l], f"{what}, {name}: angular momenta on {a}: {got.angular_moments}")
        require(list(got.bf_idx) == list(range(pos, pos + len(gto.CART[l]))), f"{what}, {name}: basis-function positions {got.bf_idx}")
        pos += len(gto.CART[l])
        labels += [a] * len(gto.CART[l])
        k = np.asarray(got.contraction_coefficients)
        ee = np.asarray(got.exponents)
        df = lambda n: 1.0 if n < 2 else n * df(n - 2)
        for b, (x, y, w) in enumerate(gto.CART[l]):
            v = k * got.normalization[b]
            n = np.pi**1.5 * df(2 * x - 1) * df(2 * y - 1) * df(2 * w - 1) / 2**l * np.sum(v[:, None] * v[None, :] / (ee[:, None] + ee[None, :]) ** (l + 1.5))
            close(n, 1.0, f"{what}, {name}: norm of function {(x, y, w)} on {a}", 1e-11)
    require(m.number_bf == pos, f"{what}, {name}: {m.number_bf} functions instead of {pos}")
    require([x.split()[0] for x in m.basis_function_labels] == labels, f"{what}, {name}: labels {m.basis_function_labels}")
    return f"{spec['form']}:{spec['unit']}:{name}"


# --------------------------------------------------------------------------------------------------------------
def strat_inv(tier):
    return st.fixed_dictionaries({
        "atoms": st.lists(st.sampled_from(["H", "H", "He", "Li", "C", "O"]), min_size=2, max_size=3), "basis": st.sampled_from(["sto-3g", "6-31g", "6-31g**", "4-31g", "dz"]), "seed": st.integers(0, 10**6), "perm": st.permutations([0, 1, 2]), "limit": st.just(20 if tier == "quick" else 40),
        "reflect": st.booleans(),
    })


def scalars(atoms, r, basis, unit):
    """Rotation- and order-independent numbers of the one-electron problem."""
    from slowquant.molecularintegrals.integralclass import _Integral
    from slowquant.molecule.moleculeclass import _Molecule

    m = _Molecule("".join(f"{n} {x!r} {y!r} {z!r};" for n, (x, y, z) in zip(atoms, r.tolist())), 0, unit)
    m._set_basis_set(basis)
    I = _Integral.__new__(_Integral)
    I.molecule_object, I.store_1e_int, I.force_recompute = m, False, False
    S = I.overlap_matrix
    w, v = np.linalg.eigh(S)
    X = v / np.sqrt(w)
    dip = [X.T @ I.get_multipole_matrix(np.array(o)) @ X for o in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
    core = np.linalg.eigvalsh(X.T @ (I.kinetic_energy_matrix + I.nuclear_attraction_matrix) @ X)
    kin = np.linalg.eigvalsh(X.T @ I.kinetic_energy_matrix @ X)
    d2 = np.linalg.eigvalsh(sum(d @ d for d in dip))
    return m, w[0], (core, kin, d2, np.array([m.nuclear_repulsion]), np.linalg.norm(m.atom_coordinates - m.center_of_mass, axis=1))


def check_inv(spec):
    rng = ref.rng_of(spec["seed"], 221)
    atoms = spec["atoms"]
    lib = library(spec["basis"])
    if any(a.lower() not in lib for a in atoms) or sum(len(gto.CART[s[0]]) for a in atoms for s in lib[a.lower()]) > spec["limit"]:
        raise Skip
    r = geometry(rng, len(atoms), 0) + np.arange(len(atoms))[:, None]
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if (np.linalg.det(Q) < 0) != spec["reflect"]:
        Q[:, 0] *= -1
    perm = [p for p in spec["perm"] if p < len(atoms)]
    r2 = (r @ Q + rng.normal(size=3) * 3)[perm]
    m1, s1, a = scalars(atoms, r, spec["basis"], "bohr")
    if s1 < 1e-4:
        raise Skip
    m2, _, b = scalars([atoms[p] for p in perm], r2 / gto.BOHR, spec["basis"], "angstrom")
    for nm, x, y in zip(("core spectrum", "kinetic spectrum", "dipole spectrum", "nuclear repulsion"), a, b):
        close(y, x, f"{'-'.join(atoms)} in {spec['basis']}: {nm} after moving, turning, reordering and changing units", 1e-6 / min(1.0, s1) * 1e-1 + 1e-7)
    close(b[4], a[4][perm], "distances from the centre of mass after moving and reordering", 1e-7)
    return f"{'-'.join(sorted(atoms))}:{spec['basis']}"


# --------------------------------------------------------------------------------------------------------------
BAD = ["unit", "element", "number", "missing", "form", "basis", "nobasis", "highl", "nofile"]


def strat_bad(tier):
    return st.fixed_dictionaries({"kind": st.sampled_from(BAD), "seed": st.integers(0, 10**6), "n": st.integers(1, 3)})


def check_bad(spec):
    from slowquant.SlowQuant import SlowQuant

    rng = ref.rng_of(spec["seed"], 222)
    k = spec["kind"]
    rows = [["H", *(repr(float(x)) for x in rng.normal(size=3))] for _ in range(spec["n"])]
    w = int(rng.integers(spec["n"]))
    unit, basis, charge = "bohr", None, 0
    pick = lambda l: l[int(rng.integers(len(l)))]
    if k == "unit":
        unit = pick(["nm", "meter", "", "bohrs", "pm", "angström"])
    elif k == "element":
        rows[w][0] = pick(["Xx", "h1", "Qq", "1", "Hh", "Lx"])
    elif k == "number":
        rows[w][1 + int(rng.integers(3))] = pick(["zero", "1,5", "--1", "1.2.3", "x"])
    elif k == "missing":
        rows[w] = rows[w][: 1 + int(rng.integers(3))]
    elif k == "basis":
        basis = pick(["sto-9g", "unknown", "cc-pv5z", "6-31"])
    elif k == "nobasis":
        a, basis = pick([("Ar", "4-31g"), ("U", "sto-3g"), ("K", "6-31++g"), ("Br", "dz"), ("Xe", "cc-pvdz"), ("Rb", "6-31g")])
        rows[w][0] = a
    elif k == "highl":
        # functions the integral code cannot represent
        basis, a = pick([(b, x) for b in ("cc-pvtz", "aug-cc-pvtz") for x in ("Sc", "Ti", "Fe", "Zn")])
        rows = [[a, "0", "0", "0"]]
    text = ";".join(" ".join(x) for x in rows) + ";"
    if k == "form":
        text = pick([text.replace(";", "\n"), "H 0 0 0", "molecule.pdb", "H2O"])
    elif k == "nofile":
        text = os.path.join(tempfile.gettempdir(), "does-not-exist", "m.xyz")
    A = SlowQuant()
    try:
        A.set_molecule(text, molecular_charge=charge, distance_unit=unit)
        if basis:
            A.molecule._set_basis_set(basis)
    except Exception:  # noqa: BLE001
        return k
    fail(f"unusable input accepted ({k}): {text!r}, unit {unit!r}, basis {basis!r}")


# --------------------------------------------------------------------------------------------------------------
# elements for which PySCF ships the same version of the basis set
NOT_SAME = {
    "sto-3g": "co y zr nb mo tc ru rh pd ag cd xe", "6-31g": "k ca ga ge as se br kr", "6-31g*": "k ca", "6-31g**": "k ca ga ge as se br kr", "6-311g": "", "6-311g**": "", "6-31++g": "he", "4-31g": "", "cc-pvdz": "li be na mg",
    "cc-pvtz": "li be na mg sc ti v cr mn fe co ni cu zn", "aug-cc-pvtz": "li be na mg sc ti v cr mn fe co ni cu zn", "dz": "ne", "def2-svp": "ba ce pr nd pm sm eu gd tb dy ho er tm yb lu",
}


def strat_lib(tier):
    return st.sampled_from(sorted(NOT_SAME)).flatmap(lambda b: st.fixed_dictionaries({"basis": st.just(b), "element": st.sampled_from(HEAVY[:9] + ["H"] + HEAVY[:53])}))


def check_lib(spec):
    """The functions the code reads are those of the published basis set."""
    from pyscf import gto as pg
    from slowquant.molecule.basis_reader import read_basis

    a, name = spec["element"], spec["basis"]
    if a.lower() not in library(name) or a.lower() in NOT_SAME[name].split():
        raise Skip
    want = []
    for b in pg.basis.load(name, a):
        arr = np.array([x for x in b[1:] if not isinstance(x, int)])
        want += [(b[0], arr[arr[:, j] != 0, 0], arr[arr[:, j] != 0, j]) for j in range(1, arr.shape[1])]
    order = lambda fs: sorted(((int(l), *sorted(zip(np.asarray(e, dtype=float), np.asarray(c) / np.linalg.norm(c)))) for l, e, c in fs), key=lambda t: (t[0], len(t), t[1]))
    e, c, l = read_basis(a, name)
    got = order([(int(np.sum(z[0])), x, y) for x, y, z in zip(e, c, l)])
    want = order(want)
    require([(x[0], len(x)) for x in got] == [(x[0], len(x)) for x in want], f"{name} of {a}: shells {[(x[0], len(x) - 1) for x in got]} instead of {[(x[0], len(x) - 1) for x in want]}")
    for x, y in zip(got, want):
        X, Y = np.array(x[1:]), np.array(y[1:])
        close(X[:, 0] / Y[:, 0], np.ones(len(X)), f"{name} of {a}: exponents", 1e-4)
        close(X[:, 1] * np.sign(X[:, 1] @ Y[:, 1]), Y[:, 1], f"{name} of {a}: contraction coefficients", 1e-3)
    return f"{name}:{a}"


PROPERTY = Property(
    "P22",
    "Molecules of up to five atoms with random elements, formatting, units and charges. Non-trivial: the molecule was accepted and compared (forms), the basis is not near-linearly dependent (invariance), the input is malformed (refusals).",
    [
        Component("forms", strat_forms, check_forms, "coordinates, charges, electrons, repulsion, centre of mass, shells, normalisation, labels of text and xyz input vs definitions and an own basis reader", quick=250, thorough=3000, shards=2),
        Component("invariance", strat_inv, check_inv, "one-electron spectra and repulsion after translation, rotation, reflection, reordering, unit change", quick=12, thorough=120, shards=3, budget=40),
        Component("library", strat_lib, check_lib, "functions read for an element vs the same published basis set in PySCF", quick=250, thorough=1500, shards=1),
        Component("refusals", strat_bad, check_bad, "malformed molecules, units, bases, unsupported angular momenta are refused", quick=60, thorough=300, shards=1),
    ],
    ["PySCF element tables", "basis files of the working tree, read by an own reader"],
)
