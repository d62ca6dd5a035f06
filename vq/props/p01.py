"""P01: fermionic operator algebra is exact."""
from __future__ import annotations

import copy

from hypothesis import strategies as st

from vq import ref
from vq.core import Component, Property, close, require

OPS = ["add", "sub", "mul", "neg", "dag", "scal", "rscal", "iadd", "isub", "imul", "iscal", "comm", "dcomm", "dcomm_sym"]


def strat(tier):
    n = 5 if tier == "quick" else 6
    ladder = st.tuples(st.integers(0, n - 1), st.booleans()).map(list)
    coeff = st.sampled_from([1.0, -1.0, 0.5, 2.0, -1.25, 3, 0.125])
    string = st.lists(ladder, min_size=1, max_size=4)
    conserving = st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=2).map(
        lambda l: [[p, True] for p, _ in l] + [[q, False] for _, q in l]
    )
    leaf = st.lists(st.tuples(coeff, st.one_of(string, conserving)).map(list), min_size=1, max_size=3)
    step = st.fixed_dictionaries({
        "op": st.sampled_from(OPS), "i": st.integers(0, 7), "j": st.integers(0, 7), "k": st.integers(0, 7),
        "c": st.sampled_from([2.0, -0.5, 3, -1, 0.25]),
    })
    return st.fixed_dictionaries({
        "n": st.just(n), "leaves": st.lists(leaf, min_size=2, max_size=4), "steps": st.lists(step, min_size=1, max_size=5),
    })


def check(spec):
    from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator
    from slowquant.unitary_coupled_cluster.operators import a_op_spin, commutator, double_commutator

    n = spec["n"]
    ops, mats = [], []
    for leaf in spec["leaves"]:
        tot, mat = None, None
        for c, string in leaf:
            term, m = None, None
            for idx, dag in string:
                a = a_op_spin(idx, dag)
                am = ref.string_matrix([(idx, dag)], n)
                term = a if term is None else term * a
                m = am if m is None else m @ am
            term = c * term
            m = c * m
            tot = term if tot is None else tot + term
            mat = m if mat is None else mat + m
        ops.append(tot)
        mats.append(mat)
        compare(tot, mat, n, "operator built from ladder operators")
    interesting = False
    for s in spec["steps"]:
        i, j, k = s["i"] % len(ops), s["j"] % len(ops), s["k"] % len(ops)
        A, B, C = ops[i], ops[j], ops[k]
        MA, MB, MC = mats[i], mats[j], mats[k]
        la, lb, lc = len(A.operators), len(B.operators), len(C.operators)
        op = s["op"]
        if (op in ("mul", "imul", "comm") and la * lb > 60) or (op in ("dcomm", "dcomm_sym") and la * lb * lc > 60):
            continue
        before = [dict(o.operators) for o in ops]
        target = None
        if op == "add":
            R, M = A + B, MA + MB
        elif op == "sub":
            R, M = A - B, MA - MB
        elif op == "mul":
            R, M = A * B, MA @ MB
        elif op == "neg":
            R, M = -A, -MA
        elif op == "dag":
            R, M = A.dagger, MA.T
        elif op == "scal":
            R, M = A * s["c"], s["c"] * MA
        elif op == "rscal":
            R, M = s["c"] * A, s["c"] * MA
        elif op == "comm":
            R, M = commutator(A, B), MA @ MB - MB @ MA
        elif op == "dcomm":
            inner = MB @ MC - MC @ MB
            R, M = double_commutator(A, B, C), MA @ inner - inner @ MA
        elif op == "dcomm_sym":
            x = MB @ MC - MC @ MB
            y = MA @ MB - MB @ MA
            R = double_commutator(A, B, C, do_symmetrized=True)
            M = 0.5 * ((MA @ x - x @ MA) + (y @ MC - MC @ y))
        else:
            # in-place forms act on a copy held by the pool
            T = FermionicOperator(copy.copy(A.operators))
            alias = T if (i == j and op != "iscal" and s["k"] % 2) else B
            if op == "iadd":
                T += alias
                M = MA + MB
            elif op == "isub":
                T -= alias
                M = MA - MB
            elif op == "imul":
                T *= alias
                M = MA @ MB
            else:
                T *= s["c"]
                M = s["c"] * MA
            R = T
        require(type(R) is FermionicOperator, f"{op} returned {type(R)}")
        compare(R, M, n, op)
        for o, b in zip(ops, before):
            require(o.operators == b, f"{op} changed one of its operands")
        if op in ("mul", "comm", "dcomm", "dcomm_sym", "imul", "dag", "isub", "sub") and la and lb:
            interesting = True
        ops.append(R)
        mats.append(M)
    return "algebra" if interesting else None


def compare(R, M, n, what):
    close(ref.op_matrix(R, n).toarray(), M.toarray(), f"{what}: Fock-space matrix", 1e-10)
    # normal-ordered and unique: creators first, descending in both blocks, no vanishing terms
    for string, c in R.operators.items():
        cre = [p for p, d in string if d]
        ann = [p for p, d in string if not d]
        require([d for _, d in string] == [True] * len(cre) + [False] * len(ann), f"{what}: term {string} is not normal ordered")
        require(cre == sorted(set(cre), reverse=True) and ann == sorted(set(ann), reverse=True), f"{what}: term {string} is not in canonical order")
        require(c == c, f"{what}: coefficient is not a number")


def strat_ident(tier):
    n = 5
    op = st.lists(st.tuples(st.sampled_from([1.0, -2.0, 0.5]), st.lists(st.tuples(st.integers(0, n - 1), st.booleans()).map(list), min_size=1, max_size=3)).map(list), min_size=1, max_size=2)
    return st.fixed_dictionaries({"n": st.just(n), "A": op, "B": op, "C": op})


def build(leaf):
    from slowquant.unitary_coupled_cluster.operators import a_op_spin

    tot = None
    for c, string in leaf:
        term = None
        for idx, dag in string:
            a = a_op_spin(idx, dag)
            term = a if term is None else term * a
        term = c * term
        tot = term if tot is None else tot + term
    return tot


def same(X, Y, what):
    D = X - Y
    big = {k: v for k, v in D.operators.items() if abs(v) > 1e-10}
    require(not big, f"{what}: {list(big.items())[:3]}")


def check_ident(spec):
    """Ring identities judged on the stored terms alone (no matrices): equal operators have equal terms."""
    from slowquant.unitary_coupled_cluster.operators import commutator

    A, B, C = build(spec["A"]), build(spec["B"]), build(spec["C"])
    same((A * B) * C, A * (B * C), "associativity")
    same(A * (B + C), A * B + A * C, "distributivity")
    same((A * B).dagger, B.dagger * A.dagger, "(AB)+ = B+A+")
    same(A.dagger.dagger, A, "A++ = A")
    same(commutator(A, B * C), commutator(A, B) * C + B * commutator(A, C), "Leibniz rule")
    jac = commutator(A, commutator(B, C)) + commutator(B, commutator(C, A)) + commutator(C, commutator(A, B))
    same(jac, 0.0 * A, "Jacobi identity")
    return "identities" if (A * B * C).operators else None


def strat_mag(tier):
    term = st.fixed_dictionaries({"p": st.lists(st.integers(0, 4), min_size=1, max_size=2), "q": st.lists(st.integers(0, 4), min_size=1, max_size=2), "m": st.sampled_from([1.0, -1.0, 1.5, -2.5, 3.0]), "e": st.integers(-7, 7)})
    step = st.fixed_dictionaries({"op": st.sampled_from(["add", "sub", "iadd", "isub", "scal", "rscal", "iscal", "neg", "mul", "imul"]), "i": st.integers(0, 6), "j": st.integers(0, 6), "d": st.sampled_from([0.0, 1e-3, -1e-5, 1e-7, 1e-8, -1e-9, 3e-11]), "s": st.sampled_from([1e-6, 1e-3, 1e3, 1e6, -1.0])})
    return st.fixed_dictionaries({"A": st.lists(term, min_size=1, max_size=3), "B": st.lists(term, min_size=1, max_size=3), "steps": st.lists(step, min_size=1, max_size=4)})


def exact_normal(terms):
    """Normal ordering in rational arithmetic: {string: Fraction}, and the largest contribution to each string."""
    from fractions import Fraction

    todo, out, size = [(list(k), Fraction(c)) for k, c in terms], {}, {}
    while todo:
        s, c = todo.pop()
        for x in range(len(s) - 1):
            (p, dp), (q, dq) = s[x], s[x + 1]
            if dp == dq:
                if p == q:
                    break
                if p < q:
                    todo.append((s[:x] + [s[x + 1], s[x]] + s[x + 2 :], -c))
                    break
            elif dq:
                todo.append((s[:x] + [s[x + 1], s[x]] + s[x + 2 :], -c))
                if p == q:
                    todo.append((s[:x] + s[x + 2 :], c))
                break
        else:
            k = tuple(s)
            out[k] = out.get(k, 0) + c
            size[k] = max(size.get(k, 0.0), abs(float(c)))
    return out, size


def check_mag(spec):
    """Coefficients of every size, and sums that nearly cancel: nothing above the documented cut-off (1e-14) gets lost."""
    from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator

    def make(leaf):
        d = {}
        for t in leaf:
            cre, ann = sorted(set(t["p"]), reverse=True), sorted(set(t["q"]), reverse=True)
            d[tuple((p, True) for p in cre) + tuple((p, False) for p in ann)] = t["m"] * 10.0 ** t["e"]
        return FermionicOperator(d)

    ops = [make(spec["A"]), make(spec["B"])]
    near = False

    def judge(R, terms, what, extra=1):
        want, size = exact_normal(terms)
        for k in set(want) | set(R.operators):
            w, z = float(want.get(k, 0)), size.get(k, 0.0)
            require(abs(R.operators.get(k, 0.0) - w) <= 1e-14 * extra + 1e-15 * z * extra, f"{what}: coefficient of {k} is {R.operators.get(k, 0.0)!r} instead of {w!r}")

    for s in spec["steps"]:
        A = ops[s["i"] % len(ops)]
        B = ops[s["j"] % len(ops)]
        op = s["op"]
        a, b = list(A.operators.items()), list(B.operators.items())
        if op in ("add", "sub", "iadd", "isub"):
            sign = -1 if op in ("sub", "isub") else 1
            if s["d"] is not None and s["i"] % 2:
                # an operator that cancels A up to a small relative difference
                B = FermionicOperator({k: -sign * c * (1 + s["d"]) for k, c in a[: 1 + s["j"]]})
                b = list(B.operators.items())
                near = True
            terms = a + [(k, sign * c) for k, c in b]
            if op in ("iadd", "isub"):
                R = FermionicOperator(dict(A.operators))
                if op == "iadd":
                    R += B
                else:
                    R -= B
            else:
                R = A + B if op == "add" else A - B
            judge(R, terms, op)
        elif op in ("mul", "imul"):
            if len(a) * len(b) > 12 or max((len(k) for k, _ in a + b), default=0) > 4:
                continue
            from fractions import Fraction

            if s["i"] % 2:
                # (c1 p^q + c2 p^r)(q^s + x r^s): the contributions to p^s cancel up to a small difference
                p, q, r, t = [int(x) for x in ref.rng_of(s["i"] * 7 + s["j"], len(a)).permutation(5)[:4]]
                c1, c2 = a[0][1] if a else 1.0, b[0][1] if b else 1.0
                string = lambda x, y: ((x, True), (y, False))
                A = FermionicOperator({string(p, q): c1, string(p, r): c2})
                B = FermionicOperator({string(q, t): 1.0, string(r, t): -c1 / c2 * (1 + s["d"])})
                a, b = list(A.operators.items()), list(B.operators.items())
                near = True
            R = FermionicOperator(dict(A.operators))
            if op == "mul":
                R = A * B
            else:
                R *= B
            judge(R, [(k + q, Fraction(c) * Fraction(e)) for k, c in a for q, e in b], op, 1 + len(a) * len(b) * 4)
        else:
            f = -1.0 if op == "neg" else s["s"]
            if op == "neg":
                R = -A
            elif op == "scal":
                R = A * f
            elif op == "rscal":
                R = f * A
            else:
                R = FermionicOperator(dict(A.operators))
                R *= f
            judge(R, [(k, c * f) for k, c in a], op)
        ops.append(R)
    return "cancellation" if near else "magnitudes"


def strat_views(tier):
    n = 6
    pair = st.lists(st.integers(0, n - 1), min_size=0, max_size=3, unique=True)
    return st.fixed_dictionaries({
        "norb": st.integers(3, 6),
        "terms": st.lists(st.tuples(st.integers(1, 3), st.integers(0, 10**6), st.sampled_from([1.0, -0.5, 2.5])).map(list), min_size=1, max_size=4),
    })


def check_views(spec):
    """Other presentations of an operator (readable, Qiskit labels, index lists, counts) describe the same operator."""
    from slowquant.unitary_coupled_cluster.fermionic_operator import FermionicOperator

    norb = spec["norb"]
    n = 2 * norb
    ops = {}
    for k, seed, c in spec["terms"]:
        rng = ref.rng_of(seed)
        cre = sorted((int(x) for x in rng.choice(n, k, replace=False)), reverse=True)
        ann = sorted((int(x) for x in rng.choice(n, k, replace=False)), reverse=True)
        ops[tuple((p, True) for p in cre) + tuple((p, False) for p in ann)] = c
    op = FermionicOperator(dict(ops))
    # qiskit labels: alpha block then beta block
    q = {}
    for label, c in op.get_qiskit_form(norb).items():
        string = []
        for tok in label.split():
            i = int(tok[2:])
            string.append((2 * i if i < norb else 2 * (i - norb) + 1, tok[0] == "+"))
        q[tuple(string)] = c
    require(q == ops, f"Qiskit form describes {q}")
    r = {}
    import re

    for label, c in op.operators_readable.items():
        r[tuple((int(x), k == "c") for k, x in re.findall(r"([ca])(\d+)", label))] = c
    require(r == ops, f"readable form describes {r}")
    annihilation, creation, coeffs = op.get_info()
    i = {}
    for an, cr, c in zip(annihilation, creation, coeffs, strict=True):
        i[tuple((p, True) for p in cr) + tuple((p, False) for p in an)] = c
    require(i == ops, f"index lists describe {i}")
    cnt = {}
    for s in ops:
        cnt[len(s)] = cnt.get(len(s), 0) + 1
    require(op.operator_count == cnt, "operator count")
    return "views"


PROPERTY = Property(
    "P01",
    "Random programs over operators built from ladder operators (particle-conserving and not, up to 4 ladder operators per term); non-trivial: "
    "the program contains a product, commutator, adjoint or subtraction of non-zero operators.",
    [
        Component("programs", strat, check, "operator programs vs Fock-space matrices, canonical form, operands unchanged", quick=500, thorough=4000, shards=3),
        Component("identities", strat_ident, check_ident, "ring/adjoint/commutator identities on the stored terms", quick=250, thorough=3000, shards=3),
        Component("magnitudes", strat_mag, check_mag, "coefficients over fourteen orders of magnitude and sums that nearly cancel vs rational arithmetic", quick=400, thorough=4000),
        Component("views", strat_views, check_views, "Qiskit/readable/index-list forms describe the same operator", quick=300, thorough=3000),
    ],
    ["Jordan-Wigner matrices built by Kronecker products are the meaning of an operator"],
)
