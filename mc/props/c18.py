"""C18: warm starts use exactly the relaxed points and combine all runs."""

import itertools

import numpy as np
from qiskit import BasicAer
from qiskit.algorithms import QAOA
from qiskit.algorithms.optimizers import Optimizer, OptimizerSupportLevel
from qiskit.quantum_info import Operator, Statevector
from qiskit.utils import QuantumInstance

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    MeanAggregator, OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus,
    SolutionSample, WarmStartQAOAFactory, WarmStartQAOAOptimizer,
)
from qiskit_optimization.algorithms.warm_start_qaoa_optimizer import BaseAggregator
from qiskit_optimization.converters import (
    InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo,
)

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "the QUBO conversion is decided by C11 and reused; the pre-solver is scripted",
    "every run returns an eigenstate; QAOA itself is trusted (one scenario runs the real one with a "
    "fixed parameter point and compares with a direct simulation)",
    "values of the regularization: 0, 1/8, 1/4, 3/8, 1/2",
]
EPS = [0.25, 0.0, 0.125, 0.375, 0.5]
VALUES = [0.0, 0.125, 0.25, 0.5, 0.625, 0.75, 0.875, 1.0]
SUCCESS = OptimizationResultStatus.SUCCESS


def regular(v, eps):
    """the regularized value of a relaxed variable"""
    return min(max(v, eps), 1 - eps)


def product(values):
    """the state in which qubit i is measured as one with probability values[i]"""
    vec = np.array([1.0])
    for v in values:
        vec = np.kron(np.array([np.sqrt(1 - v), np.sqrt(v)]), vec)
    return vec


def check_state(circuit, values, tag):
    got = np.asarray(Statevector.from_instruction(circuit).data)
    want = product(values)
    check(got.shape == want.shape, tag, "number of qubits", got.shape)
    check(abs(abs(np.vdot(want, got)) - 1) < 1e-7, tag, "initial state", np.round(got, 4),
          "expected", np.round(want, 4))
    return want


def check_mixer(circuit, values, tag, betas=(0.3, -1.1)):
    """the mixer is exp(i beta sum of (2 |s><s| - 1)), up to a phase"""
    check(len(circuit.parameters) == 1, tag, "mixer parameters", circuit.parameters)
    if len(values) > 6:
        return check_mixer_wide(circuit, values, tag, betas)
    for beta in betas:
        mat = np.asarray(Operator(circuit.bind_parameters({list(circuit.parameters)[0]: beta})).data)
        want = np.array([[1.0]])
        for v in values:
            s = np.array([[np.sqrt(1 - v)], [np.sqrt(v)]])
            proj = s @ s.T
            one = np.exp(1j * beta) * proj + np.exp(-1j * beta) * (np.eye(2) - proj)
            want = np.kron(one, want)
        check(mat.shape == want.shape, tag, "size of the mixer", mat.shape)
        overlap = abs(np.trace(want.conj().T @ mat)) / len(want)
        check(abs(overlap - 1) < 1e-7, tag, "mixer at", beta, "for", values, "is", np.round(mat, 3))


def check_mixer_wide(circuit, values, tag, betas):
    """the same for many qubits, by its action on two states that tell any two mixers apart"""
    n = len(values)
    check(circuit.num_qubits == n, tag, "size of the mixer", circuit.num_qubits)
    for beta in betas:
        bound = circuit.bind_parameters({list(circuit.parameters)[0]: beta})
        for shift in (0.1, 0.9):
            start, want = np.array([1.0]), np.array([1.0])
            for k, v in enumerate(values):
                q = np.array([np.cos(shift + k), np.sin(shift + k) * np.exp(0.7j * k)])
                s = np.array([[np.sqrt(1 - v)], [np.sqrt(v)]])
                proj = s @ s.T
                one = np.exp(1j * beta) * proj + np.exp(-1j * beta) * (np.eye(2) - proj)
                start, want = np.kron(q, start), np.kron(one @ q, want)
            got = np.asarray(Statevector(start).evolve(bound).data)
            check(abs(abs(np.vdot(want, got)) - 1) < 1e-7, tag, "mixer at", beta, "for", values)


def same_operator(got, want):
    """equality of two diagonal operators"""
    one, two = got.to_spmatrix(), want.to_spmatrix()
    return one.shape == two.shape and not abs(one - two).max() > 1e-8


def run_factory(ch):
    """circuits for every list of relaxed values"""
    eps = ch.choose("epsilon", EPS, free=True)
    n = ch.choose("qubits", [1, 2, 3], free=True)
    sol = [ch.choose("v%d" % i, VALUES[1:4:2] + VALUES[:1] + VALUES[5:] if n == 3 else VALUES,
                     free=True) for i in range(n)]
    fac = WarmStartQAOAFactory(eps)
    arg = np.array(sol)
    got = fac.create_initial_variables(arg)
    want = [regular(v, eps) for v in sol]
    check([float(v) for v in got] == want, "initial variables of", sol, "are", got)
    check(list(arg) == sol, "the solution was modified")
    check_state(fac.create_initial_state(got), want, "factory")
    check_mixer(fac.create_mixer(got), want, "factory", (0.3,) if n == 3 else (0.3, -1.1))
    ch.state((eps, tuple(sol)))
    return tuple(want)


class Pre(OptimizationAlgorithm):
    """a scripted pre-solver"""

    def __init__(self, answer):
        self.answer = answer
        self.specs = []
        self.problems = []

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        self.specs.append(dom.spec_of(problem))
        dom.consistent(problem)
        self.problems.append(problem)
        return self.answer(problem)


class Solver(opt.Scripted):
    """a scripted QAOA that records the circuits it was given"""

    def __init__(self, answer):
        super().__init__(answer)
        self.initial_state = None
        self.mixer = None
        self.seen = []

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        self.seen.append((self.initial_state, self.mixer))
        return super().compute_minimum_eigenvalue(operator, aux_operators)


class Best(BaseAggregator):
    """a custom aggregator"""

    def __init__(self):
        self.calls = []

    def aggregate(self, results):
        self.calls.append(results)
        return [SolutionSample(s.x, s.fval, s.probability, s.status) for s in results[-1].samples]


class Factory(WarmStartQAOAFactory):
    """a custom factory"""

    def create_initial_variables(self, solution):
        return [0.5 * regular(v, 0.125) for v in solution]


BASES = [
    dom.make("w0", [("a", "b"), ("b", "b")], "max", 1, {0: 1, 1: 2}, {(0, 1): -4}, []),
    dom.make("w1", [("k", "i", -1, 1)], "min", 0, {0: 1}, {(0, 0): 2}, []),
    dom.make("w2", [("u", "b"), ("v", "b")], "max", 0, {0: 1, 1: 3}, {(0, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="==", rhs=1, name="c")]),
    dom.make("w3", [("u", "b"), ("v", "b"), ("w", "b")], "min", -1, {0: -1, 1: 2}, {(0, 2): 2}, []),
    dom.make("w4", [("u", "b"), ("v", "b")], "min", 0, {0: -1, 1: -1}, {},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=2, name="c")]),
]


def chain(kind, penalty):
    if kind == "none":
        return []
    if kind == "list":
        return [InequalityToEquality(), IntegerToBinary(), LinearEqualityToPenalty(penalty)]
    return [QuadraticProgramToQubo(penalty)]


def convert(conv, qp):
    for c in conv:
        qp = c.convert(qp)
    return qp


def back(conv, z):
    x = np.array(z)
    for c in conv[::-1]:
        x = c.interpret(x)
    return tuple(round(float(v), 9) for v in x)


def solve_once(ch, spec, eps, wanted, points, states, settings):
    """one warm-started solve with the given relaxed points and answers; returns the result"""
    relax, kind, penalty, agg, factory, given = settings
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = chain(kind, penalty)
    qubo = convert(conv, qp)
    dst = dom.spec_of(qubo)
    m = len(dst["vars"])
    status = given

    def pre_answer(problem):
        samples = [SolutionSample(np.array(p), problem.objective.evaluate(list(p)),
                                  (2 * k + 1) / len(points) ** 2, SUCCESS)
                   for k, p in enumerate(points)]
        return OptimizationResult(x=samples[0].x, fval=samples[0].fval,
                                  variables=problem.variables, status=status, samples=samples)

    pre = Pre(pre_answer)
    qaoa = Solver(lambda op, k: states[k])
    kwargs = {}
    if factory is not None:
        kwargs["warm_start_factory"] = factory
    if agg is not None:
        kwargs["aggregator"] = agg
    if wanted != 1:
        kwargs["num_initial_solutions"] = wanted
    if eps != 0.25:
        kwargs["epsilon"] = eps
    if kind == "none":
        kwargs["converters"] = []
    elif kind == "list":
        kwargs["converters"] = chain("list", penalty)
    elif penalty is not None:
        kwargs["penalty"] = penalty
    optimizer = WarmStartQAOAOptimizer(pre, relax, qaoa, **kwargs)
    if status != SUCCESS:
        check(opt.rejects(lambda: optimizer.solve(qp)), "a failed pre-solver is ignored")
        check(not qaoa.seen, "QAOA ran without a start")
        return None, None
    res = optimizer.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    # the pre-solver got the (relaxed) QUBO
    check(len(pre.specs) == 1, "pre-solver calls", len(pre.specs))
    want = dict(dst, vars=[(v[0], "c", v[2], v[3]) for v in dst["vars"]]) if relax else dst
    check(dom.canon(dict(pre.specs[0], name="")) == dom.canon(dict(want, name="")),
          "problem of the pre-solver", pre.specs[0], "expected", want)
    # one run per relaxed point, each from its own start
    used = points[:wanted]
    check(len(qaoa.seen) == len(used), "number of runs", len(qaoa.seen), "expected", len(used))
    op, _ = qubo.to_ising()
    for (state, mixer), point, got in zip(qaoa.seen, used, qaoa.operators):
        vals = [regular(v, eps) for v in point] if factory is None else [
            0.5 * regular(v, 0.125) for v in point]
        check_state(state, vals, "run from %r" % (point,))
        check_mixer(mixer, vals, "run from %r" % (point,), (0.7,))
        check(same_operator(got, op), "the operator of a run")
        ch.step()
    # the distribution of the runs
    dists = []
    for vec in states[:len(used)]:
        dist = {}
        for k in np.nonzero(np.abs(vec) ** 2 > 1e-6)[0]:
            x = back(conv, [(int(k) >> i) & 1 for i in range(m)])
            dist[x] = dist.get(x, 0) + abs(vec[k]) ** 2
        dists.append(dist)
    if isinstance(agg, Best) and len(used) > 1:
        check(len(agg.calls) == 1 and len(agg.calls[0]) == len(used), "aggregator calls")
        for r, d in zip(agg.calls[0], dists):
            opt.check_samples(r, spec, d)
        merged = dists[-1]
    else:
        check(not isinstance(agg, Best) or not agg.calls, "aggregated a single run")
        merged = {}
        for d in dists:
            for x, p in d.items():
                merged[x] = merged.get(x, 0) + p / len(dists)
    opt.check_samples(res, spec, merged)
    x = opt.check_result(res, spec)
    if len(used) > 1:
        sign = 1 if spec["sense"] == "min" else -1
        key = lambda p: (not dom.feas(spec, p), sign * dom.obj(spec, p))
        best = min(key(p) for p in merged)
        check(opt.close(key(x)[1], best[1]) and key(x)[0] == best[0], "point", x, "is not the best",
              "of", merged)
    ch.state((dom.canon(spec), tuple(map(tuple, used)), eps))
    return res, tuple(x)


def state_of(kind, m):
    """an answer of QAOA"""
    size = 2**m
    support = {"all": range(size), "even": range(0, size, 2), "last": [size - 1], "first": [0],
               "odd": range(1, size, 2)}[kind]
    vec = np.zeros(size, dtype=complex)
    for i, k in enumerate(support):
        vec[k] = np.sqrt(1 + i % 3) * (1j if i % 2 else 1)
    return vec / np.linalg.norm(vec)


def run_small(ch, bases, most, answers):
    """every list of relaxed points and of answers of a two variable program"""
    spec = ch.choose("program", bases, free=True)
    points = []
    for k in range(most):
        opts = [None] if k else []
        p = ch.choose("point %d" % k, opts + [(0.0, 1.0), (0.5, 0.125), (1.0, 0.75)], free=True)
        if p is None:
            break
        points.append(p)
    wanted = ch.choose("number of solutions", [1, 2, 4], free=True)
    states = [state_of(ch.choose("answer %d" % k, answers, free=True), 2)
              for k in range(min(wanted, len(points)))]
    return solve_once(ch, spec, 0.25, wanted, points, states,
                      (True, "default", None, None, None, SUCCESS))[1]


def run_prog(ch, bases):
    """programs, settings, points and answers within the bound"""
    spec = dom.vary(ch, ch.choose("base", bases, free=True), coefs=[0, 1, -3], consts=[2],
                    rhss=[0, 3], var_alts=[("b", 0, 1), ("i", -1, 1), ("i", 0, 0), ("c", 0, 1)])
    kind = ch.choose("converters", ["default", "list", "none"])
    penalty = ch.choose("penalty", [None, 5])
    relax = ch.choose("relax", [True, False])
    eps = ch.choose("epsilon", EPS)
    wanted = ch.choose("number of solutions", [2, 1, 3])
    agg = ch.choose("aggregator", [None, "mean", "custom"])
    factory = ch.choose("factory", [None, "custom"])
    status = ch.choose("pre-solver status", [SUCCESS, OptimizationResultStatus.FAILURE,
                                             OptimizationResultStatus.INFEASIBLE])
    pure = not spec["cons"] and all(v[1] == "b" for v in spec["vars"])
    if kind == "none" and not pure:
        raise Skip()
    if any(v[1] == "c" for v in spec["vars"]) or any(
            not float(v).is_integer() for c in spec["cons"] for v in c["lin"].values()):
        qp = dom.build(spec)
        before = dom.snap(qp)
        pre, qaoa = Pre(lambda p: None), Solver(lambda op, k: None)
        check(opt.rejects(lambda: WarmStartQAOAOptimizer(pre, relax, qaoa).solve(qp)),
              "an incompatible program was solved")
        check(not pre.specs and not qaoa.seen, "solvers were called for a rejected program")
        check(dom.snap(qp) == before, "rejected program was modified")
        return "rejected"
    m = convert(chain(kind, penalty), dom.build(spec)).get_num_vars()
    if not 0 < m <= 6:
        raise Skip()
    points = []
    for k in range(2):
        base = [1.0, 0.5, 0.25, 0.0, 0.75, 0.875]
        points.append(tuple(ch.choose("p%d %d" % (k, i), [base[(k * 2 + i) % 6], 0.125, 0.625])
                            for i in range(m)))
    states = [state_of(ch.choose("answer %d" % k, ["all", "even", "odd", "last"]), m)
              for k in range(2)]
    obj = {None: None, "mean": MeanAggregator(), "custom": Best()}[agg]
    return solve_once(ch, spec, eps, wanted, points, states, (
        relax, kind, penalty, obj, Factory(0.25) if factory else None, status))[1]


WIDE = dom.make("wide", [("x%d" % i, "b") for i in range(11)], "max", -1,
                {i: (i % 4) - 1 for i in range(11)},
                {(0, 10): 2, (1, 9): -1, (3, 4): 1, (2, 7): -2}, [])


def run_wide(ch):
    """eleven variables: every single deviation of a point from the default"""
    spec = ch.choose("program", [WIDE, dom.reordered(WIDE)], free=True)
    m = 11
    points = []
    for k in range(2):
        base = [0.0, 0.25, 0.5, 1.0, 0.75]
        points.append(tuple(ch.choose("p%d %d" % (k, i), [base[(k + i) % 5], 0.375])
                            for i in range(m)))
    states = []
    for k in range(2):
        vec = np.zeros(2**m, dtype=complex)
        hits = [37, 1024, 2047 - 512, 1]
        for h in hits[: ch.choose("outcomes of run %d" % k, [3, 1])]:
            vec[(h * (k + 1)) % 2**m] = np.sqrt(1 + h % 3)
        states.append(vec / np.linalg.norm(vec))
    wanted = ch.choose("number of solutions", [2, 1])
    return solve_once(ch, spec, ch.choose("epsilon", [0.25, 0.125]), wanted, points, states,
                      (ch.choose("relax", [True, False]), "default", None, None, None, SUCCESS))[1]


class Still(Optimizer):
    """a classical optimizer that returns its initial point"""

    def __init__(self, count=None):
        super().__init__()

    def get_support_level(self):
        level = OptimizerSupportLevel
        return {"gradient": level.ignored, "bounds": level.ignored, "initial_point": level.required}

    def optimize(self, num_vars, objective_function, gradient_function=None,
                 variable_bounds=None, initial_point=None):
        point = np.array(initial_point)
        return point, float(np.real(objective_function(point))), 1


def run_real(ch):
    """the real QAOA at a fixed parameter point, against a direct simulation"""
    spec = ch.choose("program", [BASES[0], BASES[2], BASES[3]], free=True)
    eps = ch.choose("epsilon", [0.25, 0.0, 0.5], free=True)
    point = ch.choose("angles", [[0.4, 0.9], [-0.7, 0.3]], free=True)
    wanted = ch.choose("solutions", [1, 2], free=True)
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = chain("default", None)
    qubo = convert(conv, qp)
    m = qubo.get_num_vars()
    starts = [[1.0, 0.0, 0.5][:m], [0.25, 0.75, 0.0][:m]]

    def pre_answer(problem):
        samples = [SolutionSample(np.array(p), 0.0, 0.25 + 0.5 * k, SUCCESS)
                   for k, p in enumerate(starts)]
        return OptimizationResult(x=samples[0].x, fval=0.0, variables=problem.variables,
                                  status=SUCCESS, samples=samples)

    backend = QuantumInstance(BasicAer.get_backend("statevector_simulator"), seed_simulator=1,
                              seed_transpiler=1)
    qaoa = QAOA(optimizer=Still(), reps=1, initial_point=np.array(point), quantum_instance=backend)
    optimizer = WarmStartQAOAOptimizer(Pre(pre_answer), True, qaoa, epsilon=eps,
                                       num_initial_solutions=wanted)
    res = optimizer.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    opt.check_result(res, spec)
    op, _ = qubo.to_ising()
    diag = np.diag(op.to_matrix()).real
    cands = []
    for beta, gamma in (point, point[::-1]):
        merged = {}
        for start in starts[:wanted]:
            vals = [regular(v, eps) for v in start]
            vec = np.exp(-1j * gamma * diag) * product(vals)
            mix = np.array([[1.0]])
            for v in vals:
                s = np.array([[np.sqrt(1 - v)], [np.sqrt(v)]])
                proj = s @ s.T
                mix = np.kron(np.exp(1j * beta) * proj + np.exp(-1j * beta) * (np.eye(2) - proj),
                              mix)
            vec = mix @ vec
            for k in range(2**m):
                p = abs(vec[k]) ** 2
                if p > 1e-6:
                    x = back(conv, [(k >> i) & 1 for i in range(m)])
                    merged[x] = merged.get(x, 0) + p / wanted
        cands.append(merged)
    got = opt.check_samples(res, spec)
    check(any(all(abs(got.get(x, 0) - c.get(x, 0)) < 1e-4 for x in set(got) | set(c))
              for c in cands), "samples", got, "expected", cands)
    ch.state((spec["name"], eps, tuple(point), wanted))
    return tuple(sorted(round(p, 6) for p in got.values()))


def run_mean(ch):
    """the mean of every collection of sample lists"""
    pts = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)]
    n = ch.choose("results", [1, 2, 3], free=True)
    results, want = [], {}
    for k in range(n):
        sup = ch.choose("support %d" % k, [s for r in (1, 2, 3)
                                           for s in itertools.combinations(range(3), r)], free=True)
        w = [1 + (i + k) % 3 for i in range(len(sup))]
        samples = []
        for i, v in zip(sup, w):
            p = v / sum(w)
            samples.append(SolutionSample(np.array(pts[i]), 10.0 * i - 1, p, SUCCESS if i != 1 else
                                          OptimizationResultStatus.INFEASIBLE))
            want[pts[i]] = want.get(pts[i], 0) + p / n
        results.append(type("R", (), {"samples": samples})())
    got = MeanAggregator().aggregate(results)
    seen = {}
    for s in got:
        x = tuple(float(v) for v in s.x)
        check(x not in seen, "sample twice", x)
        seen[x] = s.probability
        i = pts.index(x)
        check(s.fval == 10.0 * i - 1, "value of", x, s.fval)
        check((s.status == SUCCESS) == (i != 1), "status of", x, s.status)
    check(set(seen) == set(want) and all(abs(seen[x] - want[x]) < 1e-9 for x in want), "mean", seen,
          "expected", want)
    ch.state(tuple(sorted(want.items())))
    return tuple(sorted(want.items()))


def run_eps(ch):
    """regularization values outside [0, 1/2] are rejected"""
    eps = ch.choose("epsilon", [-0.01, 0.51, 1.0, 0.0, 0.5, -1, 2], free=True)
    which = ch.choose("class", ["factory", "optimizer"], free=True)
    bad = not 0 <= eps <= 0.5
    make = (lambda: WarmStartQAOAFactory(eps)) if which == "factory" else (
        lambda: WarmStartQAOAOptimizer(Pre(None), True, Solver(None), epsilon=eps))
    check(opt.rejects(make) == bad, which, "epsilon", eps, "rejected:", not bad)
    ch.step()
    return bad


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("circuits", run_factory, 0),
        Tree("every answer", lambda ch: run_small(ch, [BASES[0], BASES[2]], 2,
                                                  ["all", "even", "last", "first"]), 0),
        Tree("three points", lambda ch: run_small(ch, [BASES[2]], 3, [
            "all", "even", "last", "first"] if deep else ["all", "last"]), 0),
        Tree("programs", lambda ch: run_prog(ch, BASES), 3 if deep else 1),
        Tree("programs, pairs", lambda ch: run_prog(ch, BASES[1:3]), 3 if deep else 2),
        Tree("eleven variables", run_wide, 1),
        Tree("real QAOA", run_real, 0),
        Tree("mean of samples", run_mean, 0),
        Tree("epsilon", run_eps, 0),
    ]
