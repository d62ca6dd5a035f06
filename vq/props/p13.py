"""P13: linear-response Hessian and metric equal the commutator definitions of each parametrisation."""
from __future__ import annotations

import contextlib
import io

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from vq import lr, ref, wf as W
from vq.core import Component, Property, Skip, close, fail, require

ANSATZ = [
    ("ucc", "sd", {}), ("ups", "SAfUCCSD", {}), ("ups", "tUPS", {"n_layers": 2}), ("ups", "QNP", {"n_layers": 2}), ("ups", "kSAfUpCCGSD", {"n_layers": 2}), ("ups", "fUCC", {"n_layers": 1, "SAS": True, "SAD": True}),
    ("ups", "tUPS", {"n_layers": 1}), ("ucc", "sdt", {}), ("ups", "kSASDSfUpCCGSD", {}),
]


def strategy(max_orb=4, na=(2, 3), ranks=("SD", "SD", "SD", "S", "D", "sd", "SDT")):
    def fin(d):
        d["pairs"] = 1 + d["pairs"] % max(1, d["na"] - 1)
        k, name, opts = ANSATZ[d.pop("a") % len(ANSATZ)]
        if "SAf" in name and d["na"] == 2 and "k" not in name:
            k, name, opts = "ups", "tUPS", {"n_layers": 1}
        d["kind"], d["ansatz"] = k, [name, dict(opts)]
        d.update(ak=False, nstates=1, big=False)
        return d

    return st.fixed_dictionaries({
        "ni": st.integers(0, 2), "na": st.sampled_from(list(na)), "nv": st.integers(0, 2), "pairs": st.integers(0, 5), "a": st.integers(0, 26), "seed": st.integers(0, 10**6), "exc": st.sampled_from(list(ranks)), "off": st.integers(0, 5), "scale": st.sampled_from([0.1, 0.3, 0.3]),
    }).map(fin).filter(lambda d: d["ni"] + d["na"] + d["nv"] <= max_orb)


def optimised(spec, maxiter=300):
    """Wave function at a stationary point, started near the canonical ordering of the model's orbitals."""
    n = spec["ni"] + spec["na"] + spec["nv"]
    mol = ref.model_mole(spec["seed"], n, 2 * (spec["ni"] + spec["pairs"]), scale=spec["scale"])
    rng = ref.rng_of(spec["seed"], 1313)
    K = 0.2 * rng.standard_normal((n, n))
    with contextlib.redirect_stdout(io.StringIO()):
        wf, mol, _ = W.build(spec, mol, scipy.linalg.expm(K - K.T), thetas=False)
        wf.thetas = [float(x) for x in rng.uniform(-0.05, 0.05, len(wf.thetas))]
        if spec.get("raw"):
            wf.thetas = [float(x) for x in rng.uniform(-1, 1, len(wf.thetas)) * spec["raw"]]
        else:
            wf.run_wf_optimization_1step("bfgs", True, tol=1e-12, maxiter=maxiter)
        if spec.get("off") == 5:
            wf.thetas = [t + 0.02 for t in wf.thetas]
        elif spec.get("off") == 4 and len(wf.kappa_idx):
            wf.kappa = [k + 0.02 for k in wf.kappa]
        for which, k, size in spec.get("shift", []):
            p = list(wf.thetas if which == "theta" else wf.kappa)
            if p:
                p[k % len(p)] += size
                setattr(wf, "thetas" if which == "theta" else "kappa", p)
    return wf, mol, rng


def make(variant, wf, exc):
    with contextlib.redirect_stdout(io.StringIO()):
        return lr.lr_class(variant)(wf, exc)


def match(mats, want, what):
    """Matrices are the expected ones up to order and sign; returns them."""
    require(len(mats) == len(want), f"{what}: {len(mats)} operators instead of {len(want)}")
    left = list(want)
    for m in mats:
        for k, w in enumerate(left):
            if np.allclose(m, w, atol=1e-10) or np.allclose(m, -w, atol=1e-10):
                del left[k]
                break
        else:
            fail(f"{what}: an excitation operator is not among the documented ones, or is repeated")


def dressed(D, L, variant, exc, what):
    """The variant's operators in the order of the implementation."""
    g, q = lr.VARIANTS[variant]
    Gm = [ref.op_matrix(o, 2 * D.n) for o in L.G_ops]
    qm = [ref.op_matrix(o, 2 * D.n) for o in L.q_ops]
    dn = lambda ms: [ref.restrict(m, D.dets) for m in ms]
    match(dn(Gm), dn(lr.ladder(D.wf, exc)), f"{what} active operators")
    kidx = D.wf.kappa_hf_like_idx if variant in ("allselfconsistent", "allstatetransfer") else D.wf.kappa_no_activeactive_idx
    match(dn(qm), dn([ref.gen_matrix("sa_single", (int(p), int(r)), D.n) for p, r in kidx]), f"{what} orbital operators")
    return D.dress(qm, q), D.dress(Gm, g)


def check_mat(spec):
    wf, mol, _ = optimised(spec)
    if not len(wf.thetas):
        raise Skip
    D = lr.Dense(wf, mol)
    th0, c0 = list(wf.thetas), np.array(wf.c_mo)
    done = refused = 0
    sharp = 0
    for v in spec.get("variants") or lr.VARIANTS:
        what = f"{v}({spec['exc']})"
        kidx = wf.kappa_hf_like_idx if v in ("allselfconsistent", "allstatetransfer") else wf.kappa_no_activeactive_idx
        if len(kidx) + len(lr.ladder(wf, spec["exc"])) == 0:
            continue
        qo, Go = D.operators(v, spec["exc"])
        gq = float(np.max(np.abs(D.gradient(qo)), initial=0.0)) if not v.startswith("alls") else 0.0
        gG = float(np.max(np.abs(D.gradient(Go)), initial=0.0))
        try:
            L = make(v, wf, spec["exc"])
        except ValueError as e:
            require(max(gq, gG) > 0.99e-3, f"{what}: refused although the largest gradient element is {max(gq, gG):.1e}: {e}")
            refused += 1
            continue
        require(max(gq, gG) < 2e-3, f"{what}: accepted although a gradient element is {max(gq, gG):.3e}")
        qo, Go = dressed(D, L, v, spec["exc"], what)
        ops = qo + Go
        g = float(np.max(np.abs(D.gradient(ops)), initial=0.0))
        if lr.VARIANTS[v][0] in ("sc", "st"):
            g = max(g, D.residual())
        tol = 1e-9 + 20 * g
        for name, want, got in zip(("A", "B", "Sigma", "Delta"), D.matrices(ops), (L.A, L.B, L.Sigma, L.Delta)):
            close(got, want, f"{what} {name}", tol)
        done += 1
        sharp += g < 1e-5
    require(np.array_equal(np.asarray(wf.thetas), np.asarray(th0)) and np.array_equal(wf.c_mo, c0), "constructing linear response changed the wave function")
    if done + refused == 0:
        raise Skip
    if not done:
        return f"all refused:{spec['ansatz'][0]}"
    return f"{spec['ansatz'][0]}:{'orb' if len(wf.kappa_no_activeactive_idx) else 'full'}" if sharp else None


def strat_shift(tier):
    """One or two parameters pushed off the stationary point, in either direction and by little or much."""
    size = st.tuples(st.sampled_from([-1, 1]), st.sampled_from([0.001, 0.004, 0.01, 0.05, 0.3])).map(lambda t: t[0] * t[1])
    shift = st.lists(st.tuples(st.sampled_from(["theta", "theta", "kappa"]), st.integers(0, 5), size), min_size=1, max_size=2)
    raw = st.tuples(strategy(2, na=(2,), ranks=("S", "S", "D", "SD")), st.sampled_from([0.01, 0.1, 1.0])).map(lambda t: dict(t[0], off=0, raw=t[1], scale=t[0]["scale"] * (10 if t[1] == 1 else 1)))
    return raw | raw | st.tuples(strategy(3, na=(2, 2, 3), ranks=("S", "D", "SD")), shift).map(lambda t: dict(t[0], off=0, shift=[list(x) for x in t[1]]))


HIGH = [(4, 2, "t"), (4, 2, "q"), (4, 2, "tq"), (5, 2, "t"), (5, 3, "t"), (5, 2, "q"), (5, 3, "q"), (5, 2, "tq"), (6, 3, "5"), (6, 3, "6"), (6, 3, "56"), (4, 2, "T56"), (4, 1, "q"), (5, 3, "TQ")]


def strat_high(tier):
    return st.fixed_dictionaries({"space": st.sampled_from(HIGH), "ni": st.sampled_from([0, 0, 1]), "variant": st.sampled_from([v for v in lr.VARIANTS if not v.startswith("all")]), "seed": st.integers(0, 10**6)}).map(lambda d: dict(zip(("na", "pairs", "exc"), d.pop("space")), **d)).filter(lambda d: not (d["variant"] == "projected" and d["na"] > 4 and tier == "quick"))


def high_ops(wf, exc, det, n):
    """{determinant: multiplicity} the operators of the requested ranks produce from the reference."""
    import itertools

    out = []
    so, sv = list(wf.active_occ_spin_idx), list(wf.active_unocc_spin_idx)
    for key, rank in (("t", 3), ("q", 4), ("5", 5), ("6", 6)):
        if key in exc.lower():
            for o in itertools.combinations(so, rank):
                for v in itertools.combinations(sv, rank):
                    if sum(x % 2 for x in o) == sum(x % 2 for x in v):
                        d = det
                        for x in o + v:
                            d ^= 1 << (n - 1 - x)
                        out.append(d)
    return out


def scf_orbitals(mol, n, nelec):
    """Closed-shell Hartree-Fock orbitals of a model molecule (Brillouin's theorem removes the order dependence of the commutators)."""
    import pyscf

    m = pyscf.gto.M(verbose=0)
    m.nelectron, m.incore_anyway = nelec, True
    mf = pyscf.scf.RHF(m)
    h, g = ref.mo_ints(mol, np.eye(n))
    mf.get_hcore, mf.get_ovlp, mf._eri = lambda *a: h, lambda *a: np.eye(n), g
    mf.conv_tol, mf.conv_tol_grad, mf.max_cycle = 1e-14, 1e-9, 200
    mf.kernel(dm0=np.diag([2.0] * (nelec // 2) + [0.0] * (n - nelec // 2)))
    if not mf.converged:
        raise Skip
    return mf.mo_coeff


def check_high(spec):
    """Triple to sextuple response operators on the Hartree-Fock determinant: the Hessian is the CI matrix of those determinants."""
    from slowquant.unitary_coupled_cluster.ups_wavefunction import WaveFunctionUPS

    ni, na, pairs = spec["ni"], spec["na"], spec["pairs"]
    N = ni + na
    n = 2 * N
    mol = ref.model_mole(spec["seed"], N, 2 * (ni + pairs), scale=0.1)
    c = scf_orbitals(mol, N, 2 * (ni + pairs))
    with contextlib.redirect_stdout(io.StringIO()):
        wf = WaveFunctionUPS((2 * pairs, na), c, mol, "tUPS", ansatz_options={"n_layers": 1})
    v = spec["variant"]
    what = f"{v}({spec['exc']}) on the reference determinant of ({2 * pairs}, {na})"
    h, g = ref.mo_ints(mol, c)
    det = sum(1 << (n - 1 - x) for x in range(2 * (ni + pairs)))
    want = high_ops(wf, spec["exc"], det, n)
    if not want:
        raise Skip
    L = make(v, wf, spec["exc"])
    nq = len(L.q_ops)
    got = []
    for o in L.G_ops:
        r = ref.apply_terms(o.operators, {det: 1.0}, n)
        require(len(r) == 1 and abs(abs(next(iter(r.values()))) - 1) < 1e-12, f"{what}: an active operator does not produce one determinant from the reference: {r}")
        got.append(next(iter(r.items())))
    require(sorted(d for d, _ in got) == sorted(want), f"{what}: the active operators do not produce each excited determinant once ({len(got)} instead of {len(want)})")
    terms = {}
    for s in (0, 1):
        for p in range(N):
            for q in range(N):
                terms[((2 * p + s, True), (2 * q + s, False))] = h[p, q]
                for t in (0, 1):
                    for r in range(N):
                        for u in range(N):
                            if (2 * p + s) != (2 * r + t) and (2 * q + s) != (2 * u + t):
                                terms[((2 * p + s, True), (2 * r + t, True), (2 * u + t, False), (2 * q + s, False))] = 0.5 * g[p, q, r, u]
    E0 = ref.apply_terms(terms, {det: 1.0}, n)[det]
    A = np.zeros((len(got), len(got)))
    for j, (d, x) in enumerate(got):
        r = ref.apply_terms(terms, {d: x}, n)
        for i, (e, y) in enumerate(got):
            A[i, j] = r.get(e, 0.0) * y - (E0 if i == j else 0.0)
    z = np.zeros_like(A)
    for nm, w, m in (("A", A, L.A), ("B", z, L.B), ("Sigma", np.eye(len(got)), L.Sigma), ("Delta", z, L.Delta)):
        close(np.asarray(m)[nq:, nq:], w, f"{what} {nm}", 1e-9)
    return f"{spec['exc']}:{v}"


def strat_ref(tier):
    return strategy().map(lambda d: dict(d, which=d["seed"] % 4))


def check_refuse(spec):
    """Wave functions of other kinds are refused."""
    from slowquant.unitary_coupled_cluster.sa_ups_wavefunction import WaveFunctionSAUPS

    n = spec["ni"] + spec["na"] + spec["nv"]
    mol = ref.model_mole(spec["seed"], n, 2 * (spec["ni"] + spec["pairs"]))
    dets = ref.sector(spec["na"], spec["pairs"], spec["pairs"])
    with contextlib.redirect_stdout(io.StringIO()):
        wf = WaveFunctionSAUPS((2 * spec["pairs"], spec["na"]), np.eye(n), mol, ([[1.0]], [[format(dets[0], f"0{2 * spec['na']}b")]]), "tUPS", {"n_layers": 1})
        for v in lr.VARIANTS:
            try:
                lr.lr_class(v)(wf, spec["exc"])
            except (ValueError, TypeError):
                continue
            fail(f"{v}: a state-averaged wave function was accepted")
    return "refused"


PROPERTY = Property(
    "P13",
    "the wave function has ansatz parameters, at least one variant was built or refused, and at least one built variant had all gradient elements below 1e-5 (so blocks are resolved to 2e-4 or better, typically 1e-8)",
    [
        Component("matrices", lambda t: strategy(4 if t == "quick" else 5), check_mat, "A, B, Sigma, Delta of all eight variants vs dense (double) commutators at optimised and slightly displaced points; refusal of large gradients; operators match the textbook lists", quick=14, thorough=120, shards=5, thorough_shards=8, budget=45, case_limit=300),
        Component("ranks", lambda t: strategy(4, na=(4,), ranks=("SDTQ", "T", "DQ")), check_mat, "same for four active orbitals with triple and quadruple response operators", quick=1, thorough=12, shards=1, thorough_shards=4, budget=40, case_limit=600),
        Component("displaced", strat_shift, check_mat, "one or two parameters displaced in either direction: each variant is refused exactly when a gradient element of its own operators exceeds the documented limit", quick=40, thorough=120, shards=2, budget=40),
        Component("high", strat_high, check_high, "triple to sextuple response operators in up to six active orbitals: operators and all blocks vs the CI matrix of the excited determinants", quick=12, thorough=150, shards=1, thorough_shards=4, budget=40),
        Component("refuse", strat_ref, check_refuse, "state-averaged wave functions are refused", quick=3, thorough=20, shards=1, budget=40),
    ],
    ["determinant basis of the full orbital space, Fock matrices of ladder operators (vq/ref.py)", "blocks compared within 1e-9 + 20 x largest gradient element (for self-consistent and state-transfer operators: norm of the active-space residual (H-E)|0>, which their working equations take to vanish; symmetrised double commutators differ from unsymmetrised by the gradient)"],
)
