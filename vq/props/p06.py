"""P06: ansatz layouts and orbital spaces."""
from __future__ import annotations

import itertools
from collections import Counter

import numpy as np
from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, Skip, raises, require
from vq.props.p05 import generator

ORDER = {"S": 1, "D": 2, "T": 3, "Q": 4, "5": 5, "6": 6}
NAME = {1: "single", 2: "double", 3: "triple", 4: "quadruple", 5: "quintuple", 6: "sextuple"}
FLAGS = ["S", "GS", "SAS", "SAGS", "D", "GD", "pD", "GpD", "T", "Q", "5", "6", "SAD"]


def spin_conserving(occ, vir):
    return sum(o % 2 for o in occ) == sum(v % 2 for v in vir)


def family(flag, occ, unocc, norb):
    """Multiset of (type, occupied tuple, virtual tuple) that a flag stands for; None when only its bounds are stated."""
    so = sorted([2 * p for p in occ] + [2 * p + 1 for p in occ])
    sv = sorted([2 * p for p in unocc] + [2 * p + 1 for p in unocc])
    out = Counter()
    if flag in ORDER:
        k = ORDER[flag]
        for o in itertools.combinations(so, k):
            for v in itertools.combinations(sv, k):
                if spin_conserving(o, v):
                    out[(NAME[k], o, v)] += 1
    elif flag == "GS":
        for i, a in itertools.combinations(range(2 * norb), 2):
            if i % 2 == a % 2:
                out[("single", (i,), (a,))] += 1
    elif flag == "SAS":
        for i in occ:
            for a in unocc:
                out[("sa_single", (i,), (a,))] += 1
    elif flag == "SAGS":
        for i, a in itertools.combinations(range(norb), 2):
            out[("sa_single", (i,), (a,))] += 1
    elif flag == "pD":
        for i in occ:
            for a in unocc:
                out[("double", (2 * i, 2 * i + 1), (2 * a, 2 * a + 1))] += 1
    elif flag == "GpD":
        for i, a in itertools.combinations(range(norb), 2):
            out[("double", (2 * i, 2 * i + 1), (2 * a, 2 * a + 1))] += 1
    elif flag == "SAD":
        for i, j in itertools.combinations_with_replacement(occ, 2):
            for a, b in itertools.combinations_with_replacement(unocc, 2):
                if i == j and a == b:
                    cases = [1]
                elif i == j:
                    cases = [2]
                elif a == b:
                    cases = [3]
                else:
                    cases = [4, 5]
                for c in cases:
                    out[(f"sa_double_{c}", (i, j), (a, b))] += 1
    return out


def canon(kind, idx):
    idx = tuple(int(i) for i in idx)
    k = len(idx) // 2
    return (kind, tuple(sorted(idx[:k])), tuple(sorted(idx[k:])))


def entries(lay):
    require(len(lay.excitation_indices) == len(lay.excitation_operator_type) == lay.n_params,
            f"{lay.n_params} parameters, {len(lay.excitation_indices)} index tuples, {len(lay.excitation_operator_type)} types")
    return list(zip(lay.excitation_operator_type, lay.excitation_indices))


def check_params(lay, norb):
    """Parameter names and shift-rule orders belong to the excitations."""
    require(len(lay.param_names) == lay.n_params and len(set(lay.param_names)) == lay.n_params, "parameter names do not match the parameters one to one")
    for name, (kind, idx) in zip(lay.param_names, entries(lay)):
        if kind.startswith("sa_double"):
            continue
        require(name in lay.grad_param_R, f"no frequency count for {kind}")
        ev = {"sa_single": 4}.get(kind, 2)  # largest difference of the generator's eigenvalues
        require(lay.grad_param_R[name] >= ev, f"frequency count {lay.grad_param_R[name]} of {kind} {idx} is smaller than {ev}")
    require(set(lay.grad_param_R) <= set(lay.param_names), "frequency counts for parameters that do not exist")


def valid_entry(kind, idx, norb):
    idx = [int(i) for i in idx]
    if kind in NAME.values():
        k = len(idx) // 2
        require(len(idx) == 2 * [x for x, n in NAME.items() if n == kind][0], f"{kind} with indices {idx}")
        require(len(set(idx)) == len(idx), f"{kind} repeats a spin orbital: {idx}")
        require(all(0 <= i < 2 * norb for i in idx), f"{kind} outside the active space: {idx}")
        require(spin_conserving(idx[:k], idx[k:]), f"{kind} changes spin: {idx}")
    elif kind == "sa_single":
        require(len(idx) == 2 and idx[0] != idx[1] and all(0 <= i < norb for i in idx), f"{kind} {idx}")
    elif kind.startswith("sa_double"):
        require(len(idx) == 4 and all(0 <= i < norb for i in idx), f"{kind} {idx}")
    else:
        require(False, f"unknown kind {kind}")


def split_layers(ents, n):
    require(len(ents) % n == 0, f"{len(ents)} excitations cannot be {n} equal layers")
    k = len(ents) // n
    return [ents[i * k:(i + 1) * k] for i in range(n)]


def check_fucc(ents, flags, n_layers, occ, unocc, norb):
    for kind, idx in ents:
        valid_entry(kind, idx, norb)
    if n_layers == 0:
        require(not ents, "no layers but excitations")
        return
    for layer in split_layers(ents, n_layers):
        got = Counter(canon(*e) for e in layer)
        want = Counter()
        for f in flags:
            want += family(f, occ, unocc, norb)
        if "GD" in flags:
            # generalised doubles: every occupied-virtual double once, nothing twice
            missing = family("D", occ, unocc, norb) if "D" not in flags else Counter()
            rest = got - want
            require(not (want - got), f"missing excitations {list((want - got))[:3]}")
            require(all(c == 1 and k[0] == "double" for k, c in rest.items()), f"unexpected or repeated excitations {rest.most_common(2)}")
            require(not (missing - rest) or occ != list(range(len(occ))), f"generalised doubles lack {list(missing - rest)[:3]}")
        else:
            require(got == want, f"{flags}: missing {list((want - got).items())[:3]}, extra {list((got - want).items())[:3]}")


def check_sds(ents, flags, n_layers, occ, unocc, norb):
    for kind, idx in ents:
        valid_entry(kind, idx, norb)
    for layer in split_layers(ents, n_layers):
        require(len(layer) % 3 == 0, "an SDS layer is not made of single-double-single blocks")
        got = Counter()
        for b in range(0, len(layer), 3):
            (k1, i1), (k2, i2), (k3, i3) = layer[b:b + 3]
            require(k2 == "double", f"block {b // 3}: {k1}, {k2}, {k3}")
            i, j, a, c = (int(x) for x in i2)
            if k1 == "single":
                require(k3 == "single", f"block {b // 3}: {k1}, {k2}, {k3}")
                pair = {canon(k1, i1)[1:], canon(k3, i3)[1:]}
                ok = [{((i,), (x,)), ((j,), (y,))} for x, y in ((a, c), (c, a)) if i % 2 == x % 2 and j % 2 == y % 2]
                require(pair in ok, f"singles {i1}, {i3} around double {i2}")
                require(canon(k1, i1)[1] == (i,), f"the first single {i1} does not excite the first electron of {i2}")
                got[("D",) + canon(k2, i2)] += 1
            else:
                require(k1 == k3 == "sa_single", f"block {b // 3}: {k1}, {k2}, {k3}")
                require(tuple(map(int, i1)) == tuple(map(int, i3)) == (i // 2, a // 2) and j == i + 1 and c == a + 1, f"singles {i1}, {i3} around pair double {i2}")
                got[("P",) + canon(k2, i2)] += 1
        want = Counter()
        for f in flags:
            for k, v in family(f, occ, unocc, norb).items():
                want[("D" if f == "D" else "P",) + k] += v
        require(got == want, f"SDS {flags}: missing {list((want - got))[:3]}, extra {list((got - want))[:3]}")


def check_tiled(ents, tups, n_layers, skip, norb):
    want = []
    for n in range(n_layers):
        for start in (0, 1):
            for p in range(start, norb - 1, 2):
                if tups:
                    want.append(("sa_single", (p, p + 1)))
                want.append(("double", (2 * p, 2 * p + 1, 2 * p + 2, 2 * p + 3)))
                last = start == 1 or norb == 2
                if not (skip and n == n_layers - 1 and last):
                    want.append(("sa_single", (p, p + 1)))
    got = [(k, tuple(int(x) for x in i)) for k, i in ents]
    require(got == want, f"brick wall of {norb} orbitals, {n_layers} layers: got {got[:8]}..., expected {want[:8]}...")


# ---------------------------------------------------------------------------------------------------------------
def strat_struct(tier):
    big = 6 if tier == "quick" else 7

    def fin(d):
        d["nocc"] = min(d["nocc"], d["norb"])
        if d["norb"] >= 6:
            d["flags"] = d["flags"][:2]
        return d

    return st.fixed_dictionaries({
        "norb": st.sampled_from([2, 3, 4, 4, 5, 6] + [big]), "nocc": st.integers(0, 4), "n_layers": st.sampled_from([1, 1, 2, 3]),
        "flags": st.lists(st.sampled_from(FLAGS), min_size=1, max_size=4, unique=True), "which": st.sampled_from(["fucc", "fucc", "sds", "tups", "qnp"]),
        "skip": st.sampled_from([None, False, True]), "off": st.lists(st.sampled_from(FLAGS), max_size=2), "shuffle": st.booleans(),
    }).map(fin)


def check_struct(spec):
    from slowquant.unitary_coupled_cluster.util import UpsStructure

    norb, nocc = spec["norb"], spec["nocc"]
    orbs = list(range(norb))
    occ, unocc = orbs[:nocc], orbs[nocc:]
    so = [2 * p + s for p in occ for s in (0, 1)]
    sv = [2 * p + s for p in unocc for s in (0, 1)]
    lay = UpsStructure()
    which = spec["which"]
    if which in ("tups", "qnp"):
        opts = {"n_layers": spec["n_layers"], f"do_{which}": True}
        if spec["skip"] is not None:
            opts["skip_last_singles"] = spec["skip"]
        lay.create_tiled(norb, dict(opts))
        check_tiled(entries(lay), which == "tups", spec["n_layers"], bool(spec["skip"]), norb)
        check_params(lay, norb)
        bad = dict(opts)
        bad.pop("n_layers")
        raises(lambda: UpsStructure().create_tiled(norb, bad), ValueError, "a tiled ansatz without a number of layers")
        raises(lambda: UpsStructure().create_tiled(norb, dict(opts, bogus=True)), ValueError, "an unknown option")
        raises(lambda: UpsStructure().create_tiled(norb, {"n_layers": 1}), ValueError, "a tiled ansatz without a kind")
        raises(lambda: UpsStructure().create_tiled(norb, {"n_layers": 1, "do_tups": True, "do_qnp": True}), ValueError, "two tiled ansaetze")
        return which if lay.n_params > 3 else None
    if which == "sds":
        flags = [f for f in spec["flags"] if f in ("D", "pD", "GpD")] or ["GpD"]
        make = lambda l, o: l.create_SDSfUCC(occ, unocc, so, sv, norb, o)
        checker = check_sds
        off = [f for f in spec["off"] if f in ("D", "pD", "GpD") and f not in flags]
    else:
        flags = spec["flags"]
        if norb * max(nocc, 1) > 18 and any(f in ("5", "6", "Q") for f in flags) and len(flags) > 2:
            raise Skip
        make = lambda l, o: l.create_fUCC(occ, unocc, so, sv, norb, o)
        checker = check_fucc
        off = [f for f in spec["off"] if f not in flags]
    opts = {"n_layers": spec["n_layers"], **{f: True for f in flags}, **{f: False for f in off}}
    keep = dict(opts)
    make(lay, opts)
    require(opts == keep, "the options were changed")
    checker(entries(lay), flags, spec["n_layers"], occ, unocc, norb)
    check_params(lay, norb)
    raises(lambda: make(UpsStructure(), dict(opts, bogus=True)), ValueError, "an unknown option")
    raises(lambda: make(UpsStructure(), {"n_layers": 1}), ValueError, "an ansatz without excitations")
    raises(lambda: make(UpsStructure(), {k: v for k, v in opts.items() if k != "n_layers"}), ValueError, "an ansatz without a number of layers")
    return which + ":" + ",".join(sorted(flags)) if lay.n_params else None


# ---------------------------------------------------------------------------------------------------------------
UPS = {"fUCC": None, "fUCCSD": ["S", "D"], "kSAfUpCCGSD": ["SAGS", "GpD"], "fUCCpD": ["pD"], "SAfUCCSD": ["SAS", "SAD"],
       "SDSfUCCSD": ["D"], "kSASDSfUpCCGSD": ["GpD"], "tUPS": [], "QNP": []}
SA = ["fUCC", "kSAfUpCCGSD", "SAfUCCSD", "kSASDSfUpCCGSD", "tUPS", "QNP"]


def strat_wf(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 2), "na": st.integers(2, 4), "nv": st.integers(0, 2), "pairs": st.integers(1, 3), "name": st.sampled_from(sorted(UPS) + sorted(UPS) + ["?"]),
        "case": st.sampled_from(["as", "lower", "upper"]), "n_layers": st.sampled_from([None, 1, 2, 3]), "flags": st.lists(st.sampled_from(FLAGS), min_size=1, max_size=3, unique=True),
        "skip": st.sampled_from([None, True]), "pp": st.booleans(), "bogus": st.sampled_from([None, None, None, "bogus", "n_layer", "s"]), "sa": st.booleans(), "ak": st.booleans(),
        "seed": st.integers(0, 10**6),
    }).filter(lambda d: d["pairs"] <= d["na"])


def orbital_spaces(wf, spec):
    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    require((wf.num_inactive_orbs, wf.num_active_orbs, wf.num_virtual_orbs, wf.num_orbs) == (ni, na, nv, n), "orbital spaces")
    require(list(wf.inactive_idx) == list(range(ni)) and list(wf.active_idx) == list(range(ni, ni + na)) and list(wf.virtual_idx) == list(range(ni + na, n)), "orbital space indices")
    require(list(wf.active_occ_idx_shifted) == list(range(pairs)) and list(wf.active_unocc_idx_shifted) == list(range(pairs, na)), "occupied and unoccupied active orbitals")
    require(wf.num_active_elec == 2 * pairs, "number of active electrons")
    want = {(p, q) for p in range(n) for q in range(p + 1, n)
            if not (q < ni or p >= ni + na or (ni <= p and q < ni + na and not spec["ak"]))}
    got = [tuple(int(x) for x in pq) for pq in wf.kappa_idx]
    require(len(got) == len(set(got)) and set(got) == want, f"non-redundant orbital rotations: {sorted(set(got) ^ want)[:4]}")
    require(len(wf.kappa) == len(got) and not np.any(wf.kappa), "orbital rotation parameters")
    dets = ref.sector(na, pairs, pairs)
    require(sorted(int(d) for d in wf.ci_info.idx2det) == dets, "determinant basis")


def check_wf(spec):
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    c = ref.rand_orth(ref.rng_of(spec["seed"], 1), n)
    c0 = c.copy()
    name = spec["name"]
    text = {"as": name, "lower": name.lower(), "upper": name.upper()}[spec["case"]]
    sa = spec["sa"]
    hf = "1" * (2 * pairs) + "0" * (2 * (na - pairs))
    states = ([[1.0]], [[hf]])

    def make(opts):
        if sa:
            return WaveFunctionSAUPS((2 * pairs, na), c, mol, states, text, opts, include_active_kappa=spec["ak"])
        return WaveFunctionUPS((2 * pairs, na), c, mol, text, opts, include_active_kappa=spec["ak"])

    if name == "?" or (sa and name not in SA):
        raises(lambda: make({"n_layers": 1} if name in ("?", "tUPS", "QNP") else {}), ValueError, f"the unknown ansatz {text!r}")
        return "refused"
    opts = {}
    if spec["n_layers"] is not None or name in ("tUPS", "QNP"):
        opts["n_layers"] = spec["n_layers"] or 1
    tiled = name in ("tUPS", "QNP")
    if tiled and spec["skip"]:
        opts["skip_last_singles"] = True
    pp = spec["pp"] and name == "tUPS" and not sa
    if pp:
        opts["do_pp"] = True
    flags = UPS[name]
    if flags is None:
        flags = spec["flags"]
        opts.update({f: True for f in flags})
    if spec["bogus"]:
        raises(lambda: make(dict(opts, **{spec["bogus"]: True})), ValueError, f"the unknown option {spec['bogus']!r} for {text}")
        return "refused"
    keep = dict(opts)
    wf = make(opts)
    require(opts == keep, f"the caller's options became {opts}")
    require(np.array_equal(c, c0), "the caller's orbital coefficients were changed")
    orbital_spaces(wf, spec)
    lay = wf.ups_layout
    L = opts.get("n_layers", 1)
    occ, unocc = list(range(pairs)), list(range(pairs, na))
    if tiled:
        check_tiled(entries(lay), name == "tUPS", L, bool(opts.get("skip_last_singles")), na)
    elif name in ("SDSfUCCSD", "kSASDSfUpCCGSD"):
        check_sds(entries(lay), flags, L, occ, unocc, na)
    else:
        check_fucc(entries(lay), flags, L, occ, unocc, na)
    check_params(lay, na)
    require(len(wf.thetas) == lay.n_params and not np.any(wf.thetas), "the ansatz does not start at zero")
    ci = np.asarray(wf.ci_coeffs)
    ci = ci[0] if sa else ci
    dets = [int(d) for d in wf.ci_info.idx2det]
    nz = np.flatnonzero(ci)
    require(len(nz) == 1 and ci[nz[0]] == 1.0, "the initial state is not one determinant")
    occs = [int(ch) for ch in format(dets[nz[0]], f"0{2 * na}b")]
    if not pp:
        require(dets[nz[0]] == int(hf, 2), "the initial state is not the Hartree-Fock determinant")
        require(np.allclose(wf.c_mo, c0, atol=1e-12), "initial orbitals")
    else:
        # Perfect pairing permutes the orbitals together with the occupations: same determinant, electrons stay paired.
        require(occs[0::2] == occs[1::2] and sum(occs) == 2 * pairs, "perfect-pairing reference breaks pairs")
        cm = wf.c_mo
        core = ni + np.flatnonzero(occs[0::2])
        P_ref = c0[:, ni:ni + pairs] @ c0[:, ni:ni + pairs].T
        require(np.allclose(cm[:, core] @ cm[:, core].T, P_ref, atol=1e-10), "the perfect-pairing reference is not the Hartree-Fock determinant of the given orbitals")
        require(np.allclose(cm[:, :ni], c0[:, :ni]) and np.allclose(cm[:, ni + na:], c0[:, ni + na:]), "perfect pairing touched inactive or virtual orbitals")
        if 2 * pairs <= na:
            require(occs[0::2] == [1 if p % 2 == 0 and p < 2 * pairs else 0 for p in range(na)], f"perfect-pairing occupation {occs}")
    return name + (":sa" if sa else "") if lay.n_params else None


# ---------------------------------------------------------------------------------------------------------------
def strat_ucc(tier):
    return st.fixed_dictionaries({
        "ni": st.integers(0, 1), "na": st.integers(2, 5), "nv": st.integers(0, 1), "pairs": st.integers(1, 3),
        "exc": st.lists(st.sampled_from(list("sdtq56SDTQ")), min_size=1, max_size=4, unique=True), "seed": st.integers(0, 10**6), "ak": st.booleans(),
    }).filter(lambda d: d["pairs"] <= d["na"])


def check_ucc(spec):
    from slowquant.unitary_coupled_cluster.ucc_wavefunction import WaveFunctionUCC

    ni, na, nv, pairs = spec["ni"], spec["na"], spec["nv"], spec["pairs"]
    n = ni + na + nv
    if n > 6:
        raise Skip
    mol = ref.model_mole(spec["seed"], n, 2 * (ni + pairs))
    c = ref.rand_orth(ref.rng_of(spec["seed"], 1), n)
    wf = WaveFunctionUCC((2 * pairs, na), c, mol, "".join(spec["exc"]), include_active_kappa=spec["ak"])
    orbital_spaces(wf, spec)
    occ, unocc = list(range(pairs)), list(range(pairs, na))
    letters = {x.lower() for x in spec["exc"]}
    want = Counter()
    for x, f in (("s", "SAS"), ("d", "SAD"), ("t", "T"), ("q", "Q"), ("5", "5"), ("6", "6")):
        if x in letters:
            want += family(f, occ, unocc, na)
    ents = entries(wf.ucc_layout)
    for kind, idx in ents:
        valid_entry(kind, idx, na)
    got = Counter(canon(*e) for e in ents)
    require(got == want, f"UCC {spec['exc']}: missing {list((want - got))[:3]}, extra {list((got - want))[:3]}")
    require(len(wf.thetas) == wf.ucc_layout.n_params and not np.any(wf.thetas), "the ansatz does not start at zero")
    return "".join(sorted(letters)) if ents else None


PROPERTY = Property(
    "P06",
    "Random active spaces, ansatz names, option dictionaries (with unknown or missing options) and excitation strings. Non-trivial: the layout has parameters, or the request is one to refuse.",
    [
        Component("structures", strat_struct, check_struct, "factorised, SDS and tiled structures vs independent enumeration", quick=250, thorough=2500, shards=2, budget=50),
        Component("named", strat_wf, check_wf, "named ansaetze of single-state and state-averaged wave functions: layout, start state, orbital spaces, refusals, caller's options", quick=200, thorough=1500, shards=3, budget=60),
        Component("ucc", strat_ucc, check_ucc, "UCC excitation strings vs independent enumeration", quick=100, thorough=800, shards=1, budget=60),
    ],
    ["Order of excitations inside a factorised layer is not part of the property; the brick wall and single-double-single blocks are"],
)
