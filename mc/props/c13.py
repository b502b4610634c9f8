"""C13: solving never modifies the problem, results obey the same laws, optimizers can be reused."""

import numpy as np
from qiskit import QuantumCircuit
from qiskit.algorithms import NumPyMinimumEigensolver
from qiskit.quantum_info import Statevector
from qiskit.utils import algorithm_globals

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    ADMMOptimizer, ADMMParameters, CobylaOptimizer, CplexOptimizer, GoemansWilliamsonOptimizer,
    GroverOptimizer, MinimumEigenOptimizer, OptimizationResult, OptimizationResultStatus,
    RecursiveMinimumEigenOptimizer, SlsqpOptimizer, WarmStartQAOAOptimizer,
)
from qiskit_optimization.converters import QuadraticProgramToQubo

from .. import dom, opt
from .c24 import convex as c24_convex
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "the random generators are reset before every solve, so that a new and a used optimizer object "
    "are comparable",
    "eigensolvers are exact and stateless; circuits are simulated exactly",
    "Goemans-Williamson is only given maximum cut programs or programs it must reject",
]


class Exact(NumPyMinimumEigensolver):
    """an exact eigensolver that accepts the settings of QAOA"""

    initial_state = None
    mixer = None


class Config:
    shots = 1


class Result:
    def __init__(self, state):
        self.state = state

    def get_statevector(self, _circuit=None, decimals=None):
        return self.state.copy()


class Instance:
    """an exact statevector backend"""

    is_statevector = True
    run_config = Config()

    def execute(self, circuits, had_transpiled=False):
        circ = circuits[0] if isinstance(circuits, list) else circuits
        bare = QuantumCircuit(*circ.qregs)
        for inst, qargs, _c in circ.data:
            if inst.name not in ("measure", "barrier"):
                bare.append(inst, qargs)
        return Result(np.asarray(Statevector.from_instruction(bare).data))


def recursive(**kwargs):
    return RecursiveMinimumEigenOptimizer(
        MinimumEigenOptimizer(NumPyMinimumEigensolver()), min_num_vars=1, **kwargs)


def warm(**kwargs):
    return WarmStartQAOAOptimizer(MinimumEigenOptimizer(NumPyMinimumEigensolver()), False, Exact(),
                                  **kwargs)


MAKERS = {
    "eigen": lambda: MinimumEigenOptimizer(NumPyMinimumEigensolver()),
    "eigen, given converter": lambda: MinimumEigenOptimizer(
        NumPyMinimumEigensolver(), converters=QuadraticProgramToQubo()),
    "eigen, penalty": lambda: MinimumEigenOptimizer(NumPyMinimumEigensolver(), penalty=9),
    "eigen, no converter": lambda: MinimumEigenOptimizer(NumPyMinimumEigensolver(), converters=[]),
    "recursive": recursive,
    "recursive, no converter": lambda: recursive(converters=[]),
    "warm start": warm,
    "warm start, two": lambda: warm(num_initial_solutions=2),
    "cplex": CplexOptimizer,
    "slsqp": SlsqpOptimizer,
    "slsqp, trials": lambda: SlsqpOptimizer(trials=3, full_output=True),
    "cobyla": CobylaOptimizer,
    "admm": lambda: ADMMOptimizer(params=ADMMParameters(rho_initial=8, maxiter=3)),
    "admm, cplex": lambda: ADMMOptimizer(CplexOptimizer(), CplexOptimizer(),
                                         ADMMParameters(rho_initial=8, maxiter=3)),
    "grover": lambda: GroverOptimizer(6, num_iterations=1, quantum_instance=Instance()),
    "grover, no converter": lambda: GroverOptimizer(5, num_iterations=1, converters=[],
                                                    quantum_instance=Instance()),
    "cuts": lambda: GoemansWilliamsonOptimizer(3, seed=2),
}
POOL = [
    dom.make("cut", [("a", "b"), ("b", "b"), ("c", "b")], "max", 0, {0: 1, 1: 3, 2: 2},
             {(0, 1): -2, (1, 2): -4}, []),
    dom.make("bin", [("a", "b"), ("b", "b"), ("c", "b")], "min", 1, {0: 1, 1: -2, 2: 1}, {(0, 2): -3},
             []),
    dom.make("mix", [("k", "i", 0, 2), ("a", "b")], "max", -1, {0: 1, 1: 2}, {},
             [dict(lin={0: 1, 1: 1}, sense="==", rhs=2, name="e")]),
    dom.make("con", [("u", "c", -1, 2), ("v", "c", 0, 2)], "min", 2, {0: 1, 1: -1},
             {(0, 0): 1, (1, 1): 1}, [dict(lin={0: 1, 1: 1}, sense=">=", rhs=1, name="l")]),
    dom.make("sep", [("u", "c", 0, 2), ("a", "b")], "max", 0, {0: -1, 1: 1}, {},
             [dict(lin={0: 1, 1: -1}, sense=">=", rhs=0, name="l")]),
    dom.make("prod", [("u", "c", 0, 2), ("a", "b")], "max", 0, {0: 1}, {(0, 1): 1}, []),
    dom.make("none", [("a", "b"), ("b", "b")], "min", 0, {0: 1}, {},
             [dict(lin={0: 1, 1: 1}, sense="==", rhs=3, name="e")]),
    dom.make("quad", [("u", "c", -2, 2), ("v", "c", -1, 2)], "max", 0, {0: 1, 1: 1}, {},
             [dict(quad={(0, 0): 1, (1, 1): 1}, sense="<=", rhs=2, name="q")]),
]
CUTS = {"cut"}


def verdict(kind, spec):
    """'solve', 'reject' or None if nothing is promised"""
    types = {v[1] for v in spec["vars"]}
    mixed = any({spec["vars"][i][1] == "c", spec["vars"][j][1] == "c"} == {True, False}
                for i, j in spec["quad"])
    if kind.startswith(("cplex",)):
        return "solve" if not mixed else None
    if kind.startswith(("slsqp", "cobyla")):
        return "solve" if types == {"c"} else "reject"
    if kind.startswith("admm"):
        if mixed:
            return "reject"
        return None if spec["name"] in ("none", "prod") else "solve"
    if kind == "cuts":
        return "reject" if types != {"b"} else "solve" if spec["name"] in CUTS else None
    quad = any(c["kind"] == "q" for c in spec["cons"])
    frac = any(not float(v).is_integer() for c in spec["cons"] for v in c["lin"].values())
    if "c" in types or quad or frac:
        return "reject"
    if "no converter" in kind and (spec["cons"] or types != {"b"}):
        return None
    return "solve"


def seeds():
    algorithm_globals.random_seed = 5
    np.random.seed(3)


def summary(res):
    """what a user sees of a result"""
    samples = [(tuple(float(v) for v in s.x), round(float(s.fval), 7), round(s.probability, 7),
                s.status.name) for s in res.samples] if res.x is not None else None
    x = None if res.x is None else tuple(round(float(v), 7) for v in res.x)
    return (x, None if res.fval is None else round(float(res.fval), 7), res.status.name,
            tuple(res.variable_names), tuple(v.name for v in res.variables), samples)


def attempt(optimizer, qp):
    """(summary or 'rejected', result)"""
    seeds()
    try:
        res = optimizer.solve(qp)
    except QiskitOptimizationError:
        return "rejected", None
    return summary(res), res


def check_one(kind, optimizer, spec, qp):
    """solves one problem and checks everything except for the reuse"""
    want = verdict(kind, spec)
    if want is None:
        return None, None
    before = dom.snap(qp)
    msg = optimizer.get_compatibility_msg(qp)
    check(dom.snap(qp) == before, kind, "the compatibility check modified", spec["name"])
    check(isinstance(msg, str) and bool(msg) == (want == "reject"), kind, "message for",
          spec["name"], repr(msg))
    check(optimizer.is_compatible(qp) == (want == "solve"), kind, "is_compatible")
    got, res = attempt(optimizer, qp)
    check(dom.snap(qp) == before, kind, "modified", spec["name"])
    if want == "reject":
        check(got == "rejected", kind, "accepted", spec["name"])
        return got, res
    check(got != "rejected", kind, "rejected", spec["name"])
    names = [v[0] for v in spec["vars"]]
    if res.x is None:
        opt.check_failure(res, names)
        check(kind == "cplex" and dom.solve(spec)[0] is None, kind, "failed for", spec)
        return got, res
    x = opt.check_result(res, spec, feasible=bool(qp.is_feasible(res.x)), tol=1e-6)
    low = [v[2] for v in spec["vars"]]
    upp = [v[3] for v in spec["vars"]]
    if not kind.startswith("cobyla"):
        check(all(a - 1e-4 <= v <= b + 1e-4 for a, v, b in zip(low, x, upp)), kind, "point", x,
              "is out of bounds")
    for s in res.samples:
        check(len(s.x) == len(names), "size of a sample")
        check(opt.close(float(s.fval), dom.obj(spec, [float(v) for v in s.x]), 1e-6),
              "value of a sample", s)
        okay = s.status == OptimizationResultStatus.SUCCESS
        check(okay == bool(qp.is_feasible(s.x)), "status of a sample", s)
    return got, res


FRESH = {}


def fresh(kind, idx):
    """the answer of a new optimizer object to a new problem"""
    if (kind, idx) not in FRESH:
        FRESH[kind, idx] = attempt(MAKERS[kind](), dom.build(POOL[idx]))[0]
    return FRESH[kind, idx]


def run_history(ch, depth):
    """every sequence of problems solved by one optimizer object"""
    kind = ch.choose("optimizer", list(MAKERS), free=True)
    usable = [i for i, s in enumerate(POOL) if verdict(kind, s) is not None]
    optimizer = MAKERS[kind]()
    problems = {}
    kept = []
    seq = []
    for k in range(depth):
        idx = ch.choose("problem %d" % k, usable, free=True)
        spec = POOL[idx]
        qp = problems.setdefault(idx, dom.build(spec))
        got, res = check_one(kind, optimizer, spec, qp)
        want = fresh(kind, idx)
        check(got == want, kind, "after", seq, "answers", got, "to", spec["name"],
              "but a new optimizer answers", want)
        if res is not None:
            kept.append((res, got))
        seq.append(spec["name"])
        for old, was in kept:
            check(summary(old) == was, kind, "an earlier result changed")
        ch.state((kind, tuple(seq)))
    return kind, tuple(seq)


def edit(qp, how):
    """changes a program in place, False if there is nothing to change"""
    n_lin = qp.get_num_linear_constraints()
    if how == "coefficient":
        qp.objective.linear[0] = qp.objective.linear[0] - 2
    elif how == "quadratic":
        qp.objective.quadratic[0, 0] = qp.objective.quadratic[0, 0] + (
            1 if qp.objective.sense == qp.objective.sense.MINIMIZE else -1)
    elif how == "constant":
        qp.objective.constant = 3
    elif how == "objective":
        qp.minimize(1, [1] * (qp.get_num_vars() - 1) + [-1])
    elif how == "sense":
        if qp.objective.quadratic.coefficients.nnz:
            return False
        qp.objective.sense = {
            qp.objective.sense.MINIMIZE: qp.objective.sense.MAXIMIZE,
            qp.objective.sense.MAXIMIZE: qp.objective.sense.MINIMIZE}[qp.objective.sense]
    elif how == "rhs":
        if not n_lin:
            return False
        qp.linear_constraints[0].rhs = 1 if qp.linear_constraints[0].rhs != 1 else 2
    elif how == "constraint sense":
        if not n_lin:
            return False
        con = qp.linear_constraints[0]
        con.sense = con.sense.LE
    elif how == "removed":
        if not n_lin:
            return False
        qp.remove_linear_constraint(0)
    elif how == "added":
        qp.linear_constraint([1] * qp.get_num_vars(), "<=", 1, "new")
    elif how == "bounds":
        var = [v for v in qp.variables if v.vartype != v.vartype.BINARY]
        if not var:
            return False
        var[0].upperbound = 1
    elif how == "name":
        qp.name = "renamed"
    else:
        qp.clear()
        if how == "rebuilt binary":
            qp.binary_var_list(2)
            qp.maximize(0, [1, -1], {(0, 1): 1})
        else:
            qp.continuous_var(-1, 1, "w")
            qp.minimize(0, [1], {(0, 0): 1})
    return True


def run_edited(ch, depth):
    """one optimizer object solves one program object that the user changes in between"""
    kind = ch.choose("optimizer", [k for k in MAKERS if k != "cuts"], free=True)
    idx = ch.choose("problem", [i for i, s in enumerate(POOL) if verdict(kind, s) == "solve"],
                    free=True)
    optimizer = MAKERS[kind]()
    qp = dom.build(POOL[idx])
    attempt(optimizer, qp)
    hows = ["coefficient", "quadratic", "constant", "objective", "sense", "rhs", "constraint sense",
            "removed", "added", "bounds", "name", "rebuilt binary", "rebuilt continuous"]
    for k in range(depth):
        how = ch.choose("change %d" % k, hows, free=True)
        if not edit(qp, how):
            raise Skip()
        spec = dom.spec_of(qp)
        if verdict(kind, spec) is None or kind.startswith("admm") and dom.solve(spec)[0] is None:
            raise Skip()
        if kind.startswith("cplex") and not (
                c24_convex(spec) and dom.solve(dict(spec, vars=spec["vars"]))[0] is not None):
            raise Skip()
        got, _res = check_one(kind, optimizer, spec, qp)
        want, _ = attempt(MAKERS[kind](), dom.build(spec))
        check(got == want, kind, "answers", got, "to", POOL[idx]["name"], "after", how,
              "but a new optimizer answers a new program with", want)
        ch.state((kind, dom.canon(spec)))
    return kind, how, got


def run_prog(ch):
    """every optimizer on all programs within the deviation bound"""
    kind = ch.choose("optimizer", [k for k in MAKERS if k != "cuts"], free=True)
    base = ch.choose("base", [POOL[i] for i in (1, 2, 3, 6)], free=True)
    spec = dom.vary(ch, base, var_alts=[("b", 0, 1), ("i", -1, 1), ("i", 1, 1), ("c", 0, 2)],
                    coefs=[0, 1, -2], consts=[3], rhss=[0, 1, 2],
                    extra=[dom.con({0: 1}, {}, "<=", 1, "x1"), dom.con({0: 1}, {(1, 1): 1}, "<=", 2, "x2"),
                           dom.con({1: 0.5}, {}, ">=", 0, "x3")])
    spec["name"] = "p"
    convex = not spec["quad"] and not any(c["kind"] == "q" for c in spec["cons"])
    if kind in ("cplex", "admm, cplex") and not convex:
        raise Skip()
    if kind.startswith("admm"):
        # without a feasible relaxation the local solvers may answer anything
        if dom.solve(spec)[0] is None or any(c["kind"] == "q" for c in spec["cons"]):
            raise Skip()
    if kind.startswith("grover"):
        if dom.solve(spec)[0] is None or spec["cons"] and len(spec["vars"]) > 2:
            raise Skip()
    if verdict(kind, spec) == "solve" and kind.startswith(("eigen", "recursive", "warm", "grover")):
        m = QuadraticProgramToQubo().convert(dom.build(spec)).get_num_vars()
        if m > 6 or m < 2 or kind.startswith("grover") and m > 3:
            raise Skip()
    fmt = ch.choose("format", ["name", "csr"])
    qp = dom.build(spec, fmt)
    got, _res = check_one(kind, MAKERS[kind](), spec, qp)
    if got is None:
        raise Skip()
    ch.state((kind, dom.canon(spec)))
    return kind, got if got == "rejected" else got[:3]


def put(obj, **settings):
    """an optimizer whose settings are replaced"""
    for name, val in settings.items():
        setattr(obj, name, val)
        check(getattr(obj, name) is val or getattr(obj, name) == val, "setting", name)
    return obj


# kind -> an optimizer made with other settings, and the settings that make it of that kind
LATER = {
    "eigen": (lambda: MinimumEigenOptimizer(opt.Scripted(lambda o, k: None)),
              lambda: dict(min_eigen_solver=NumPyMinimumEigensolver())),
    "grover": (lambda: GroverOptimizer(6, num_iterations=1),
               lambda: dict(quantum_instance=Instance())),
    "slsqp, trials": (lambda: SlsqpOptimizer(full_output=True, clip=3),
                      lambda: dict(trials=3, clip=100.0)),
    "slsqp": (lambda: SlsqpOptimizer(trials=4), lambda: dict(trials=1)),
    "cobyla": (lambda: CobylaOptimizer(trials=2, clip=7), lambda: dict(trials=1, clip=100.0)),
    "cplex": (lambda: CplexOptimizer(disp=True), lambda: dict(disp=False)),
    "admm": (ADMMOptimizer, lambda: dict(parameters=ADMMParameters(rho_initial=8, maxiter=3))),
}


def run_settings(ch):
    """settings replaced later, before or after a use, act like those given at the beginning"""
    kind = ch.choose("optimizer", list(LATER), free=True)
    usable = [i for i, s in enumerate(POOL) if verdict(kind, s) is not None]
    make, settings = LATER[kind]
    optimizer = make()
    first = ch.choose("used before for", [None] + usable, free=True)
    if first is not None:
        qp = dom.build(POOL[first])
        before = dom.snap(qp)
        if kind == "grover":
            try:
                optimizer.solve(qp)
                check(False, "solved without a backend")
            except AttributeError:
                pass
        elif kind != "cplex":
            attempt(optimizer, qp)
        check(dom.snap(qp) == before, "modified", POOL[first]["name"])
    put(optimizer, **settings())
    idx = ch.choose("problem", usable, free=True)
    got, _ = check_one(kind, optimizer, POOL[idx], dom.build(POOL[idx]))
    check(got == fresh(kind, idx), kind, "with replaced settings answers", got, "to",
          POOL[idx]["name"], "but a new optimizer answers", fresh(kind, idx))
    ch.state((kind, first, idx))
    return kind, first, idx


def run_results(ch):
    """results built from parts: what fits is kept, what does not fit is rejected"""
    spec = ch.choose("program", POOL, free=True)
    qp = dom.build(spec)
    names = [v[0] for v in spec["vars"]]
    size = len(names) + ch.choose("excess", [0, 1, -1, 2], free=True)
    x = [0.5 * k - 1 for k in range(size)]
    form = ch.choose("form", [list, tuple, np.array], free=True)
    status = ch.choose("status", list(OptimizationResultStatus), free=True)
    try:
        res = OptimizationResult(form(x), 1.5, qp.variables, status, raw_results="raw")
    except QiskitOptimizationError:
        check(size != len(names), "a fitting point was rejected")
        return "rejected"
    check(size == len(names), "a point of the wrong size was accepted")
    opt.accessors(res, names, x)
    check(res.fval == 1.5 and res.status == status and res.raw_results == "raw", "parts")
    check([list(s.x) for s in res.samples] == [x] and res.samples[0].fval == 1.5
          and res.samples[0].probability == 1.0 and res.samples[0].status == status, "the sample")
    for key, kind in ((size, IndexError), ("no such name", KeyError), (1.5, TypeError)):
        try:
            res[key]
            check(False, "an answer for", key)
        except kind:
            pass
    ch.step()
    ch.state((spec["name"], status, form.__name__))
    return spec["name"]


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("histories", lambda ch: run_history(ch, 3 if deep else 2), 0),
        Tree("changed programs", lambda ch: run_edited(ch, 2 if deep else 1), 0),
        Tree("programs", run_prog, 2 if deep else 1),
        Tree("settings replaced later", run_settings, 0),
        Tree("results from parts", run_results, 0),
    ]
