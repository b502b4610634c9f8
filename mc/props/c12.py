"""C12: whatever state the eigensolver answers, the result is the best outcome it contains."""

import itertools

import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit.opflow import CircuitStateFn, DictStateFn, VectorStateFn
from qiskit import QuantumCircuit

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import MinimumEigenOptimizer, OptimizationResultStatus
from qiskit_optimization.converters import (
    InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo,
)

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "the converters and the Ising translation are decided by C05 and C08-C11 and reused as oracle",
    "eigenstates are normalized; outcomes with probability below 1e-6 may be dropped",
    "exact eigensolver: at most 10 qubits",
]

BASES = [
    dom.make("p0", [("a", "b"), ("b", "b"), ("c", "b")], "max", 1, {0: 1, 1: 2, 2: -1},
             {(0, 1): -4, (1, 2): 2}, []),
    dom.make("p1", [("a", "b"), ("k", "i", -1, 2)], "min", -2, {0: 3, 1: -2}, {(0, 1): -1, (1, 1): 1},
             []),
    dom.make("p2", [("u", "b"), ("v", "b")], "max", 0, {0: 1, 1: 3}, {(0, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=1, name="c")]),
    dom.make("p3", [("u", "b"), ("v", "b"), ("w", "b")], "min", 0, {0: -1, 1: -3, 2: -1}, {(0, 2): 1},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="c")]),
]


def chain(kind, penalty):
    if kind == "list":
        return [InequalityToEquality(), IntegerToBinary(), LinearEqualityToPenalty(penalty)]
    return [QuadraticProgramToQubo(penalty)]


def encode(ch, probs, n):
    """an eigenstate with the given outcome probabilities, in one of the accepted forms"""
    form = ch.choose("form", ["array", "dict", "vector", "dictfn", "circuit", "real array"],
                     free=True)
    phase = ch.choose("phases", [[1], [1, -1], [1, 1j, -1, -1j]])
    vec = np.zeros(2**n, dtype=complex)
    for k, p in probs.items():
        vec[k] = np.sqrt(p) * phase[k % len(phase)]
    if form == "array":
        return vec
    if form == "real array":
        return np.sqrt(np.abs(vec) ** 2).real
    label = lambda k: format(k, "0%db" % n)
    if form == "dict":
        items = [(label(k), vec[k]) for k in probs]
        if ch.flag("dictionary in reverse order"):
            items.reverse()
        return dict(items)
    if form == "vector":
        return VectorStateFn(vec)
    if form == "dictfn":
        return DictStateFn({label(k): vec[k] for k in probs})
    circ = QuantumCircuit(n)
    circ.initialize(vec / np.linalg.norm(vec), range(n))
    return CircuitStateFn(circ)


def verify(ch, spec, qp, res, solver, conv, probs):
    """the result for an eigenstate with known outcome probabilities"""
    qubo = qp
    for c in conv:
        qubo = c.convert(qubo)
    dst = dom.spec_of(qubo)
    m = len(dst["vars"])
    sign = 1 if dst["sense"] == "min" else -1
    osign = 1 if spec["sense"] == "min" else -1
    kept = {k: p for k, p in probs.items() if p >= 1e-6}

    def back(z):
        x = np.array(z)
        for c in conv[::-1]:
            x = c.interpret(x)
        return tuple(round(float(v), 9) for v in x)

    zs = {k: tuple((k >> i) & 1 for i in range(m)) for k in kept}
    want_raw = {zs[k]: (dom.obj(dst, zs[k]), p) for k, p in kept.items()}
    got_raw = {}
    for s in res.raw_samples:
        z = tuple(int(v) for v in s.x)
        check(z not in got_raw, "raw sample twice", z)
        got_raw[z] = (s.fval, s.probability)
    check(set(got_raw) == set(want_raw), "raw samples", sorted(got_raw), "expected",
          sorted(want_raw))
    for z, (f, p) in want_raw.items():
        check(opt.close(got_raw[z][0], f), "value of raw sample", z, got_raw[z][0], f)
        check(abs(got_raw[z][1] - p) < 1e-9, "probability of raw sample", z, got_raw[z][1], p)
    vals = [sign * float(s.fval) for s in res.raw_samples]
    check(all(a <= b + 1e-9 * max(1, abs(b)) for a, b in zip(vals, vals[1:])),
          "order of the raw samples", vals)
    merged = {}
    for k, z in zs.items():
        x = back(z)
        merged[x] = merged.get(x, 0.0) + kept[k]
    opt.check_samples(res, spec, merged)
    opt.check_correlations(res, len(spec["vars"]))
    x = opt.check_result(res, spec)
    rank = {p: (not dom.feas(spec, p), osign * dom.obj(spec, p)) for p in merged}
    check(tuple(round(v, 9) for v in x) in rank, "the point", x, "is no outcome")
    best = min(rank.values())
    mine = rank[tuple(round(v, 9) for v in x)]
    check(mine[0] == best[0] and mine[1] <= best[1] + 1e-9, "the point", x,
          "is not the best outcome", [p for p, r in rank.items() if r == best])
    check(res.min_eigen_solver_result is solver.results[-1], "result of the eigensolver")
    if m < 6:
        mat = np.array(np.diag(np.asarray(solver.operators[-1].to_matrix())).real)
    else:
        mat = solver.operators[-1].to_spmatrix().diagonal().real
    mat = mat - sign * dom.evals(dst, dom.cube(m))
    check(np.ptp(mat) < 1e-9, "the operator is not the objective up to a constant")
    ch.state((dom.canon(spec), tuple(sorted(kept.items()))))
    ch.step(len(kept))
    return tuple(x)


def run_support(ch):
    """every set of outcomes of the default programs, in every form"""
    spec = ch.choose("program", BASES, free=True)
    conv = chain("default", None)
    qp = dom.build(spec)
    qubo = qp
    for c in conv:
        qubo = c.convert(qubo)
    m = qubo.get_num_vars()
    if m > 3:
        raise Skip()
    support = [k for k in range(2**m) if ch.flag("outcome %d" % k, free=True)]
    if not support:
        raise Skip()
    weights = ch.choose("weights", ["equal", "increasing", "decreasing", "tiny"])
    w = {k: {"equal": 1, "increasing": 1 + i, "decreasing": len(support) - i,
             "tiny": 1 if i else 1e-8}[weights] for i, k in enumerate(support)}
    if weights == "tiny" and len(support) == 1:
        raise Skip()
    total = sum(w.values())
    probs = {k: v / total for k, v in w.items()}
    solver = opt.Scripted(lambda op, k: state)
    state = encode(ch, probs, m)
    before = dom.snap(qp)
    res = MinimumEigenOptimizer(solver).solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    check(len(solver.operators) == 1, "number of eigensolver calls")
    return verify(ch, spec, qp, res, solver, conv, probs)


def run_prog(ch):
    """programs, converters, penalties, reuse and answers within the bound"""
    spec = dom.vary(
        ch, ch.choose("base", BASES, free=True),
        var_alts=[("b", 0, 1), ("i", -1, 2), ("i", 1, 1), ("c", 0, 1)],
        coefs=[0, 2, -3, 0.5], rhss=[0, 3, -1], consts=[0.5],
        extra=[dom.con({0: 1, 1: 1}, {}, ">=", 1, "x1"), dom.con({}, {(0, 1): 1}, "<=", 0, "x2"),
               dom.con({0: 1, 1: 1}, {}, "==", 5, "x3")],
    )
    kind = ch.choose("converters", ["default", "given", "list", "none"])
    penalty = ch.choose("penalty", [None, 0.25, 20])
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = chain(kind, penalty)
    answer = {}
    solver = opt.Scripted(lambda op, k: answer["state"])
    if kind == "none":
        conv = []
        if spec["cons"] or any(v[1] != "b" for v in spec["vars"]):
            raise Skip()
        optimizer = MinimumEigenOptimizer(solver, converters=[])
    elif kind == "given":
        optimizer = MinimumEigenOptimizer(solver, converters=chain("default", penalty)[0])
    elif kind == "list":
        optimizer = MinimumEigenOptimizer(solver, converters=chain("list", penalty))
    elif penalty is None:
        optimizer = MinimumEigenOptimizer(solver)
    else:
        optimizer = MinimumEigenOptimizer(solver, penalty=penalty)
    other = ch.choose("used before for", [None, 0, 1, 3, "the same"])
    if other is not None:
        first = qp if other == "the same" else dom.build(BASES[other])
        answer["state"] = None
        if optimizer.is_compatible(first) and kind != "none":
            opt.check_failure(optimizer.solve(first), [v.name for v in first.variables])
    okay = (not any(v[1] == "c" for v in spec["vars"])
            and not any(c["kind"] == "q" for c in spec["cons"])
            and all(float(v).is_integer() for c in spec["cons"] for v in c["lin"].values()))
    check(optimizer.is_compatible(qp) == okay, "is_compatible", optimizer.get_compatibility_msg(qp))
    if not okay:
        n_calls = len(solver.operators)
        check(opt.rejects(lambda: optimizer.solve(qp)), "an incompatible program was solved")
        check(len(solver.operators) == n_calls, "the eigensolver was called")
        check(dom.snap(qp) == before, "rejected program modified")
        return "rejected"
    qubo = qp
    for c in conv:
        qubo = c.convert(qubo)
    m = qubo.get_num_vars()
    if m > 9 or m == 0:
        raise Skip()
    if ch.flag("no eigenstate"):
        answer["state"] = None
        res = optimizer.solve(qp)
        opt.check_failure(res, [v[0] for v in spec["vars"]])
        check(res.min_eigen_solver_result is solver.results[-1], "result of the eigensolver")
        check(dom.snap(qp) == before, "program modified")
        return "failure"
    pick = ch.choose("outcomes", ["all", "even", "odd", "first", "last", "pair"])
    size = 2**m
    support = {"all": range(size), "even": range(0, size, 2), "odd": range(1, size, 2),
               "first": [0], "last": [size - 1], "pair": [1, size - 2] if m > 1 else [1]}[pick]
    support = list(support)
    probs = {k: (1 + i % 3) for i, k in enumerate(support)}
    total = sum(probs.values())
    probs = {k: v / total for k, v in probs.items()}
    vec = np.zeros(size, dtype=complex)
    for k, p in probs.items():
        vec[k] = np.sqrt(p)
    answer["state"] = vec if not ch.flag("dictionary") else {
        format(k, "0%db" % m): vec[k] for k in support}
    res = optimizer.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    return verify(ch, spec, qp, res, solver, conv, probs)


def run_many(ch):
    """eleven variables: outcomes of high and low qubits"""
    n = 11
    spec = dom.wide(n, "b", sense=ch.choose("sense", ["min", "max"], free=True))
    if ch.flag("constrained", free=True):
        spec["cons"] = [dom.con({10: 1, 0: 1, 2: 1}, {}, "==", 1, "c")]
    form = ch.choose("form", ["array", "dict", "dictfn", "vector"], free=True)
    first = ch.choose("outcome", [1 << i for i in range(n)] + [0, 2**n - 1], free=True)
    support = sorted({first, first ^ 5, (first * 3) % 2**n, 1023})
    probs = {k: (i + 1) for i, k in enumerate(support)}
    total = sum(probs.values())
    probs = {k: v / total for k, v in probs.items()}
    vec = np.zeros(2**n, dtype=complex)
    for k, p in probs.items():
        vec[k] = np.sqrt(p)
    label = {format(k, "011b"): vec[k] for k in support}
    state = {"array": lambda: vec, "dict": lambda: label, "dictfn": lambda: DictStateFn(label),
             "vector": lambda: VectorStateFn(vec)}[form]()
    qp = dom.build(spec)
    solver = opt.Scripted(lambda op, k: state)
    res = MinimumEigenOptimizer(solver).solve(qp)
    return verify(ch, spec, qp, res, solver, chain("default", None), probs)


def run_scale(ch):
    """objectives of any magnitude, all outcomes or all but one"""
    spec = dom.magnify(ch, ch.choose("program", BASES, free=True), [2.0 ** -16, 2.0 ** -22, 2.0 ** 16,
                                                                   2.0 ** 24],
                       ["objective", "constant", "linear", "quadratic"])
    qp = dom.build(spec)
    conv = chain("default", None)
    qubo = conv[0].convert(qp)
    m = qubo.get_num_vars()
    skip = ch.choose("missing", [None] + list(range(2 ** m)), free=True)
    support = [k for k in range(2 ** m) if k != skip]
    if ch.flag("reverse", free=True):
        support.reverse()
    probs = {k: (1 + i % 3) for i, k in enumerate(support)}
    total = sum(probs.values())
    probs = {k: v / total for k, v in probs.items()}
    state = {format(k, "0%db" % m): np.sqrt(p) for k, p in probs.items()}
    solver = opt.Scripted(lambda op, k: state)
    res = MinimumEigenOptimizer(solver).solve(qp)
    return verify(ch, spec, qp, res, solver, conv, probs)


def run_ranges(ch):
    """integer variables with many values, also far from zero: outcomes that differ in one bit"""
    low, upp = ch.choose("bounds", [(0, 511), (-300, 300), (1000, 1400), (2 ** 31, 2 ** 31 + 300),
                                    (-(2 ** 33), 3 - 2 ** 33), (0, 128), (-129, 127), (0, 1000)],
                         free=True)
    sense = ch.choose("sense", ["min", "max"], free=True)
    coef = ch.choose("coefficient", [1, -0.5], free=True)
    qp_vars = [("k", "i", low, upp)]
    if ch.flag("binary in front", free=True):
        qp_vars.insert(0, ("b", "b"))
    spec = dom.make("n", qp_vars, sense, 0, {i: coef for i in range(len(qp_vars))}, {}, [])
    qp = dom.build(spec)
    conv = chain("default", None)
    m = conv[0].convert(qp).get_num_vars()
    base = ch.choose("base outcome", [0, 2 ** m - 1, (2 ** m) // 3], free=True)
    support = [base] + [base ^ (1 << i) for i in range(m)]
    probs = {k: (1 + i % 3) for i, k in enumerate(support)}
    total = sum(probs.values())
    probs = {k: v / total for k, v in probs.items()}
    state = {format(k, "0%db" % m): np.sqrt(p) for k, p in probs.items()}
    solver = opt.Scripted(lambda op, k: state)
    res = MinimumEigenOptimizer(solver).solve(qp)
    return verify(ch, spec, qp, res, solver, conv, probs)


def run_exact(ch):
    """the exact eigensolver finds the optimum of every program"""
    spec = dom.vary(
        ch, ch.choose("base", BASES, free=True),
        var_alts=[("b", 0, 1), ("i", -1, 2), ("i", 1, 1), ("i", -2, 0)],
        coefs=[0, 2, -3, 0.5], rhss=[0, 1, 2], consts=[0.5],
        extra=[dom.con({0: 1, 1: 1}, {}, ">=", 1, "x1"), dom.con({0: 1, 1: -1}, {}, "<=", 0, "x2"),
               dom.con({0: 1, 1: 1}, {}, "==", 5, "x3")],
    )
    if any(not float(v).is_integer() for c in spec["cons"] for v in c["lin"].values()):
        raise Skip()
    qp = dom.build(spec)
    if QuadraticProgramToQubo().convert(qp).get_num_vars() > 10:
        raise Skip()
    before = dom.snap(qp)
    res = MinimumEigenOptimizer(NumPyMinimumEigensolver()).solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    best, arg = dom.solve(spec)
    x = opt.check_result(res, spec)
    opt.check_samples(res, spec)
    if best is None:
        check(res.status == OptimizationResultStatus.INFEASIBLE, "status", res.status)
        return "infeasible"
    check(tuple(x) in {tuple(float(v) for v in a) for a in arg}, "the point", x,
          "is not optimal, expected", arg)
    ch.state(dom.canon(spec))
    return tuple(x)


def run_types(ch):
    """what is not accepted is rejected"""
    kind = ch.choose("kind", ["no eigenstate support", "converter", "list", "state"], free=True)
    ch.step()
    if kind == "no eigenstate support":
        check(opt.rejects(lambda: MinimumEigenOptimizer(opt.ScriptedNoAux(lambda o, k: None))),
              "accepted")
        return kind
    bad = ch.choose("value", ["x", 3, ("a",)], free=True)
    try:
        if kind == "converter":
            MinimumEigenOptimizer(opt.Scripted(None), converters=bad)
        elif kind == "list":
            MinimumEigenOptimizer(opt.Scripted(None), converters=[QuadraticProgramToQubo(), bad])
        else:
            MinimumEigenOptimizer(opt.Scripted(lambda o, k: bad)).solve(dom.build(BASES[0]))
    except (TypeError, QiskitOptimizationError):
        return kind
    check(False, "accepted", kind, bad)
    return None


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("every set of outcomes", run_support, 2 if deep else 0),
        Tree("programs and answers", run_prog, 3 if deep else 2),
        Tree("eleven variables", run_many, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("wide ranges", run_ranges, 0),
        Tree("exact eigensolver", run_exact, 3 if deep else 2),
        Tree("rejected arguments", run_types, 0),
    ]


del itertools
