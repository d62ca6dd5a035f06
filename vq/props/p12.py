"""P12: integral transformations, integral sources, orbital gradients and response blocks from density matrices."""
from __future__ import annotations

import numpy as np
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, raises, require


def strat_tr(tier):
    return st.fixed_dictionaries({"n": st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 16)), "m": st.integers(1, 16), "seed": st.integers(0, 10**6), "sym": st.booleans(), "square": st.booleans(), "order": st.sampled_from(["C", "F", "T"])})


def check_tr(spec):
    from slowquant.molecularintegrals.integralfunctions import one_electron_integral_transform, two_electron_integral_transform

    rng = ref.rng_of(spec["seed"], 12)
    n = spec["n"]
    m = n if spec["square"] else min(n, spec["m"])
    c = rng.standard_normal((n, m))
    x = ref.rand_sym(rng, n) if spec["sym"] else rng.standard_normal((n, n))
    g = ref.rand_eri(rng, n) if spec["sym"] else rng.standard_normal((n, n, n, n))
    if spec["order"] == "F":
        c, x, g = np.asfortranarray(c), np.asfortranarray(x), np.asfortranarray(g)
    elif spec["order"] == "T":
        c = np.ascontiguousarray(c.T).T
        g = np.ascontiguousarray(g.transpose(3, 1, 0, 2)).transpose(2, 1, 3, 0)
    copies = [np.array(c), np.array(x), np.array(g)]
    close(one_electron_integral_transform(c, x), np.einsum("ai,bj,ab->ij", c, c, x), "one-electron transformation", 1e-10)
    close(two_electron_integral_transform(c, g), np.einsum("ai,bj,ck,dl,abcd->ijkl", c, c, c, c, g, optimize=True), "two-electron transformation", 1e-10)
    for a, b in zip((c, x, g), copies):
        require(np.array_equal(a, b), "an input of the transformation was changed")
    return f"{'sym' if spec['sym'] else 'general'}:{spec['order']}" if n > 1 else None


def strat_dm(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 2), "na": st.integers(1, 3), "nv": st.integers(0, 2), "ea": st.integers(0, 3), "eb": st.integers(0, 3), "seed": st.integers(0, 10**6), "ak": st.booleans(), "ens": st.integers(1, 2), "mixed_idx": st.booleans(),
    }).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= 4 and d["ea"] <= d["na"] and d["eb"] <= d["na"])


def check_dm(spec):
    from slowquant.unitary_coupled_cluster import density_matrix as D

    ni, na, nv = spec["ni"], spec["na"], spec["nv"]
    n = ni + na + nv
    rng = ref.rng_of(spec["seed"], 121)
    h, g = ref.rand_sym(rng, n), ref.rand_eri(rng, n)
    dets = ref.sector(na, spec["ea"], spec["eb"])
    fd = ref.embed_dets(dets, ni, na, nv)
    states = [ref.rand_state(rng, len(dets)) for _ in range(spec["ens"])]
    r1 = np.mean([ref.rdms(s, s, na, dets, 1) for s in states], axis=0)
    r2 = np.mean([ref.rdms(s, s, na, dets, 2) for s in states], axis=0)
    kap = []
    for p in range(n):
        for q in range(p + 1, n):
            sp = lambda o: 0 if o < ni else (1 if o < ni + na else 2)
            if sp(p) == sp(q) and not (sp(p) == 1 and spec["ak"]):
                continue
            kap.append((p, q))
    if not kap:
        return None
    dag = [(q, p) for p, q in kap]
    ki, kd = np.array(kap, dtype=int), np.array(dag, dtype=int)
    full = []
    for s in states:
        v = np.zeros(2 ** (2 * n))
        v[fd] = s
        full.append(v)
    ev = lambda f: float(np.mean([f(v) for v in full]))
    H = ref.ham_matrix(h, g, n)
    E = lambda p, q: ref.E_mat(p, q, 2 * n)
    com = lambda A, B: ev(lambda v: v @ (A @ (B @ v)) - v @ (B @ (A @ v)))
    args = (ni, na, r1, r2)
    close(D.get_electronic_energy(h, g, *args), ev(lambda v: v @ (H @ v)), "energy from density matrices", 1e-9)
    close(D.get_orbital_gradient(h, g, ki, *args), [com(E(m, k) - E(k, m), H) for m, k in kap], "orbital gradient", 1e-9)
    want = [com(E(m, k), H) / np.sqrt(2) for m, k in kap] + [com(E(k, m), H) / np.sqrt(2) for m, k in kap]
    close(D.get_orbital_gradient_response(h, g, ki, *args), want, "orbital response gradient", 1e-9)
    sig = np.array([[com(E(*a), E(*reversed(b))) / 2 for b in kap] for a in kap])
    close(D.get_orbital_response_metric_sigma(ki, ni, na, r1), sig, "orbital metric", 1e-9)
    extra = int(rng.integers(0, 3))
    ne = len(kap) + extra
    R = rng.standard_normal((2 * ne, 2))
    Z, Y = R[: len(kap), 1], R[ne : ne + len(kap), 1]
    close(D.get_orbital_response_vector_norm(ki, ni, na, r1, R, 1, ne), Z @ sig @ Z - Y @ sig @ Y, "orbital part of the norm", 1e-9)
    x = ref.rand_sym(rng, n)
    X = ref.one_matrix(x, n)
    close(D.get_orbital_response_property_gradient(x, ki, ni, na, r1, R, 1, ne), sum((Y[i] - Z[i]) * com(E(*kap[i]), X) / np.sqrt(2) for i in range(len(kap))), "orbital part of the property gradient", 1e-9)
    for name, i1, i2 in (("dagger-plain", dag, kap), ("plain-plain", kap, kap), ("plain-dagger", kap, dag), ("dagger-dagger", dag, dag)):
        if name in ("plain-dagger", "dagger-dagger") and not spec["mixed_idx"]:
            continue
        want = np.zeros((len(kap), len(kap)))
        for a, (t, u) in enumerate(i1):
            for b, (m, k) in enumerate(i2):
                A, B = E(t, u), E(m, k)
                want[a, b] = 0.5 * ev(lambda v: v @ (A @ (H @ (B @ v))) - v @ (A @ (B @ (H @ v))) - v @ (H @ (B @ (A @ v))) + v @ (B @ (H @ (A @ v))))
        close(D.get_orbital_response_hessian_block(h, g, np.array(i1, dtype=int), np.array(i2, dtype=int), *args), want, f"orbital Hessian block ({name})", 1e-9)
    return f"{ni}-{na}-{nv}"


def strat_src(tier):
    return st.fixed_dictionaries({"mol": st.sampled_from(["H 0 0 0; H 0 0 R", "He 0 0 0; H 0 R 0", "Li 0 0 0; H R 0 0", "H 0 0 0; H 0 R 0; H 0 0 R; H R R 0"]), "r": st.integers(5, 30), "unit": st.sampled_from(["bohr", "angstrom"]), "reads": st.lists(st.sampled_from(["kinetic_energy", "nuclear_electron_attraction", "electron_electron_repulsion", "h_ao", "electric_dipole", "nuclear_nuclear_repulsion", "num_elec"]), min_size=3, max_size=8), "charge": st.sampled_from([0, 0, 1])})


def check_src(spec):
    """The same molecule through SlowQuant and through PySCF."""
    import pyscf.gto

    from slowquant.SlowQuant import SlowQuant
    from slowquant.unitary_coupled_cluster.integral_manager import IntegralManager

    text = spec["mol"].replace("R", f"{spec['r'] / 10:.2f}")
    sq = SlowQuant()
    charge = spec["charge"]
    sq.set_molecule(text + ";", distance_unit=spec["unit"], molecular_charge=charge)
    sq.set_basis_set("sto-3g")
    # build PySCF from the coordinates SlowQuant derived (unit conversion constants differ in the last digits)
    atoms = [(a.atom_name, tuple(float(x) for x in a.coordinate)) for a in sq.molecule.atoms]
    mol = pyscf.gto.M(atom=atoms, unit="bohr", basis="sto-3g", charge=charge, spin=None, verbose=0)
    A, B = IntegralManager(sq), IntegralManager(mol)
    com = np.array(sq.molecule.center_of_mass) if hasattr(sq.molecule, "center_of_mass") else None
    S = mol.intor("int1e_ovlp")
    # later changes of the caller's objects do not reach wave functions already set up
    mol_ref = mol.copy()
    if len(spec["reads"]) % 2:
        mol.set_geom_(mol.atom_coords() * 1.7, unit="bohr")
    want = {
        "kinetic_energy": mol_ref.intor("int1e_kin"), "nuclear_electron_attraction": mol_ref.intor("int1e_nuc"), "electron_electron_repulsion": mol_ref.intor("int2e"),
        "h_ao": mol_ref.intor("int1e_kin") + mol_ref.intor("int1e_nuc"), "nuclear_nuclear_repulsion": mol_ref.energy_nuc(), "num_elec": mol_ref.nelectron,
    }
    for r in spec["reads"]:
        if r == "electric_dipole":
            d = mol_ref.intor("int1e_r")
            close(np.array(B.electric_dipole), d, "dipole integrals (PySCF source)", 1e-9)
            # SlowQuant's origin is its own; the off-origin part is a multiple of the overlap
            for k in range(3):
                diff = np.array(A.electric_dipole[k]) - d[k]
                c = diff[0, 0] / S[0, 0]
                close(diff, c * S, "dipole integrals (SlowQuant source) up to the choice of origin", 1e-5)
        else:
            close(np.array(getattr(A, r), dtype=float), np.array(want[r], dtype=float), f"{r} (SlowQuant source)", 1e-5)
            close(np.array(getattr(B, r), dtype=float), np.array(want[r], dtype=float), f"{r} (PySCF source)", 1e-10)
    return "bohr" if spec["unit"] == "bohr" else "angstrom"


def strat_bad(tier):
    return st.sampled_from(["none", "dict", "array", "str"])


def check_bad(spec):
    from slowquant.unitary_coupled_cluster.integral_manager import IntegralManager

    obj = {"none": None, "dict": {"h": 1}, "array": np.eye(2), "str": "H 0 0 0"}[spec]
    for r in ("num_elec", "kinetic_energy", "electron_electron_repulsion", "h_ao", "electric_dipole", "nuclear_nuclear_repulsion", "nuclear_electron_attraction"):
        raises(lambda: getattr(IntegralManager(obj), r), (ValueError, TypeError), f"{r} of an unknown integral source ({spec})")
    return spec


PROPERTY = Property(
    "P12",
    "Random (also non-symmetric, rectangular, differently stored) arrays for the transformations; random states, ensembles, integrals and orbital spaces for density-matrix formulas; small molecules for the integral sources. Non-trivial: more than one orbital / at least one rotation.",
    [
        Component("transform", strat_tr, check_tr, "integral transformations vs einsum", quick=150, thorough=1500, shards=1, budget=40),
        Component("response", strat_dm, check_dm, "gradients, metric, norms, property gradients and Hessian blocks vs dense commutators", quick=50, thorough=600, shards=5, budget=45),
        Component("sources", strat_src, check_src, "SlowQuant and PySCF sources offer the same integrals, independent of later changes to the source", quick=12, thorough=80, shards=2, budget=45),
        Component("unknown_source", strat_bad, check_bad, "unknown sources are refused", quick=4, thorough=4, shards=1, thorough_shards=1),
    ],
    ["integrals of the SlowQuant source are compared with PySCF to 1e-5 (basis-set digits); P21 resolves them further"],
)
