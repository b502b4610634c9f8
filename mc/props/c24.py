"""C24: the classical optimizers return optimal points of what they can solve."""

import itertools
import sys

import numpy as np
from qiskit.utils import algorithm_globals
from scipy.optimize import fmin_cobyla, fmin_slsqp

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    CobylaOptimizer, CplexOptimizer, OptimizationResultStatus, SlsqpOptimizer,
)

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "CPLEX, SLSQP and COBYLA themselves are trusted; what is decided is what the wrappers hand "
    "over and report back",
    "programs with an optimum; CPLEX may reject non-convex ones with the documented error",
    "SLSQP and COBYLA are only held to the optimum where the solver reaches it on its own",
    "continuous programs are convex; optimal within 1e-3 of the best point of a grid",
]

BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 3), ("l", "i", 0, 2)], "min", 1, {0: 1, 1: -2, 2: 0.5},
             {(1, 1): 1, (0, 1): 0.5},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-1, name="l1")]),
    dom.make("p1", [("u", "b"), ("v", "b"), ("w", "b")], "max", -2, {0: 1, 1: 1, 2: -3},
             {(0, 1): -2, (1, 2): 4},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="e")]),
    dom.make("p2", [("j", "i", -3, 1), ("k", "i", 1, 4)], "max", 0, {0: 2, 1: -1}, {},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=2, name="g"),
              dict(lin={0: 1}, quad={(1, 1): 1}, sense="<=", rhs=6, name="q")]),
]


def matrix(quad, n):
    mat = np.zeros((n, n))
    for (i, j), v in quad.items():
        mat[i, j] += v / 2
        mat[j, i] += v / 2
    return mat


def convex(spec):
    """is this program certainly within the reach of a convex solver"""
    n = len(spec["vars"])
    free = [i for i, v in enumerate(spec["vars"]) if v[1] != "b"]
    sign = 1 if spec["sense"] == "min" else -1
    # products of two binary variables can be convexified
    if any(i in free or j in free for i, j in spec["quad"]):
        if np.linalg.eigvalsh(sign * matrix(spec["quad"], n)).min() < -1e-12:
            return False
    for c in spec["cons"]:
        if c["quad"]:
            if c["sense"] == "==":
                return False
            s = 1 if c["sense"] == "<=" else -1
            if np.linalg.eigvalsh(s * matrix(c["quad"], n)).min() < -1e-12:
                return False
    return True


def run_cplex(ch):
    """integer programs against brute force"""
    spec = dom.vary(
        ch, ch.choose("base", BASES, free=True),
        var_alts=[("b", 0, 1), ("i", -1, 2), ("i", 2, 2), ("i", -3, -1)],
        coefs=[0, 2, -3, 0.5], rhss=[0, 1, 2.5, -4], consts=[0.5],
        extra=[dom.con({0: 1, 1: 1}, {}, ">=", 1, "x1"), dom.con({0: 1, 1: 1}, {}, "==", 9, "x3"),
               dom.con({}, {(0, 0): 1, (1, 1): 1}, "<=", 2, "x4")],
    )
    qp = dom.build(spec)
    before = dom.snap(qp)
    disp = ch.flag("disp given")
    solver = CplexOptimizer(disp=False) if disp else CplexOptimizer()
    if not disp and not convex(spec):
        raise Skip()
    check(solver.is_compatible(qp), "is_compatible")
    if ch.flag("used before"):
        solver.solve(dom.build(BASES[2]))
    try:
        res = solver.solve(qp)
    except QiskitOptimizationError:
        check(not convex(spec), "a convex program was rejected")
        check(dom.snap(qp) == before, "the program was modified")
        return "rejected"
    check(dom.snap(qp) == before, "the program was modified")
    if not convex(spec):
        return "not convex"
    best, arg = dom.solve(spec)
    ch.state(dom.canon(spec))
    if best is None:
        opt.check_failure(res, [v[0] for v in spec["vars"]])
        return "infeasible"
    check(res.x is not None, "no point although the program is feasible")
    x = [float(v) for v in res.x]
    rounded = tuple(round(v) for v in x)
    check(max(abs(a - b) for a, b in zip(x, rounded)) < 1e-6, "not integral", x)
    check(abs(float(res.fval) - best) < 1e-6 * max(1, abs(best)), "fval", res.fval, "optimum", best)
    check(rounded in arg, "the point", x, "is not optimal, expected", arg)
    opt.accessors(res, [v[0] for v in spec["vars"]], x)
    okay = res.status == OptimizationResultStatus.SUCCESS
    check(okay == qp.is_feasible(res.x), "status", res.status)
    check([v.name for v in res.variables] == [v[0] for v in spec["vars"]], "variables")
    return rounded


CONT = [
    dom.make("c0", [("x", "c", -1, 2), ("y", "c", 0, 3)], "min", 1, {0: 1, 1: -4}, {(0, 0): 1, (1, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=2, name="l")]),
    dom.make("c1", [("x", "c", -2, 2), ("y", "c", -2, 2)], "max", 0, {0: 1, 1: 1}, {(0, 1): 0.5,
                                                                                   (0, 0): -1, (1, 1): -1},
             [dict(lin={0: 1, 1: -1}, sense="==", rhs=0.5, name="e"),
              dict(lin={0: 1}, sense=">=", rhs=-1, name="g")]),
    dom.make("c2", [("x", "c", -2, 2), ("y", "c", -3, 1)], "min", 0, {0: 1, 1: -1}, {},
             [dict(quad={(0, 0): 1, (1, 1): 1}, lin={}, sense="<=", rhs=4, name="q")]),
]


def violation(spec, x):
    worst = max(max(v[2] - a, a - v[3]) for v, a in zip(spec["vars"], x))
    for c in spec["cons"]:
        d = dom.ev(c["lin"], c["quad"], x) - c["rhs"]
        worst = max(worst, d if c["sense"] == "<=" else -d if c["sense"] == ">=" else abs(d))
    return worst


def grid_best(spec):
    """best value over a fine grid of the box, with an allowance on equations"""
    axes = [np.linspace(v[2], v[3], 33) for v in spec["vars"]]
    mesh = np.stack([m.ravel() for m in np.meshgrid(*axes)], axis=1)
    ok = np.ones(len(mesh), dtype=bool)
    for c in spec["cons"]:
        lhs = dom.evals(dict(const=0, lin=c["lin"], quad=c["quad"]), mesh)
        d = lhs - c["rhs"]
        ok &= (d <= 1e-9) if c["sense"] == "<=" else (d >= -1e-9) if c["sense"] == ">=" else (
            np.abs(d) <= 1e-9)
    if not ok.any():
        return None
    vals = dom.evals(spec, mesh[ok])
    return vals.min() if spec["sense"] == "min" else vals.max()


def capable(spec, kind, best):
    """does the trusted solver itself reach the optimum when it gets the program from this model"""
    if kind == "cplex":
        return True
    sign = 1 if spec["sense"] == "min" else -1
    n = len(spec["vars"])
    func = lambda x: sign * dom.obj(spec, x)
    mat = matrix(spec["quad"], n)
    lin = np.array([spec["lin"].get(i, 0.0) for i in range(n)])
    grad = lambda x: sign * (lin + 2 * mat @ np.asarray(x))
    eqs, ineqs = [], []
    for c in spec["cons"]:
        low = lambda x, c=c: dom.ev(c["lin"], c["quad"], x) - c["rhs"]
        upp = lambda x, c=c: c["rhs"] - dom.ev(c["lin"], c["quad"], x)
        if c["sense"] == "==":
            eqs.append(upp)
        else:
            ineqs.append(upp if c["sense"] == "<=" else low)
    start = np.zeros(n)
    if kind == "cobyla":
        box = []
        for i, v in enumerate(spec["vars"]):
            box += [lambda x, i=i, v=v: x[i] - v[2], lambda x, i=i, v=v: v[3] - x[i]]
        for e in eqs:
            box += [e, lambda x, e=e: -e(x)]
        x = fmin_cobyla(func, start, box + ineqs, rhobeg=1.0, rhoend=1e-5, maxfun=300, disp=0,
                        catol=1e-5)
    else:
        x = fmin_slsqp(func, start, eqcons=eqs, ieqcons=ineqs,
                       bounds=[(v[2], v[3]) for v in spec["vars"]], fprime=grad, iprint=0)
    return violation(spec, x) < 1e-4 and func(x) <= sign * best + 1e-4


def run_cont(ch):
    """convex continuous programs against a grid"""
    spec = dom.vary(
        ch, ch.choose("base", CONT, free=True),
        var_alts=[("c", -1, 2), ("c", 0.5, 2), ("c", -3, -1), ("c", -2, 1), ("i", 0, 2), ("b", 0, 1)],
        coefs=[0, 1, -2, 0.5], rhss=[0, 1, 2.5], consts=[0.5], con_quad=False,
    )
    kind = ch.choose("solver", ["cplex", "slsqp", "cobyla", "slsqp full"], free=True)
    solver = {"cplex": CplexOptimizer, "slsqp": SlsqpOptimizer,
              "cobyla": lambda: CobylaOptimizer(rhoend=1e-5, maxfun=300, catol=1e-5, disp=0),
              "slsqp full": lambda: SlsqpOptimizer(full_output=True)}[kind]()
    qp = dom.build(spec)
    before = dom.snap(qp)
    if kind != "cplex" and any(v[1] != "c" for v in spec["vars"]):
        check(not solver.is_compatible(qp), "is_compatible")
        check(opt.rejects(lambda: solver.solve(qp)), "an incompatible program was solved")
        check(dom.snap(qp) == before, "the program was modified")
        return "rejected"
    if any(v[1] != "c" for v in spec["vars"]):
        raise Skip()
    check(solver.is_compatible(qp), "is_compatible", solver.get_compatibility_msg(qp))
    if not convex(spec):
        raise Skip()
    res = solver.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    best = grid_best(spec)
    if best is None:
        raise Skip()
    if not capable(spec, kind, best):
        opt.check_result(res, spec, feasible=qp.is_feasible(res.x), tol=1e-6)
        return kind, "solver limit"
    check(res.x is not None, "no point although the program is feasible")
    x = [float(v) for v in res.x]
    sign = 1 if spec["sense"] == "min" else -1
    check(violation(spec, x) < 1e-3, "the point", x, "violates the program by", violation(spec, x))
    check(sign * float(res.fval) <= sign * best + 1e-3, kind, "value", res.fval, "at", x,
          "a grid point has", best)
    check(opt.close(float(res.fval), dom.obj(spec, x), 1e-6), "fval", res.fval)
    opt.accessors(res, [v[0] for v in spec["vars"]], x)
    okay = res.status == OptimizationResultStatus.SUCCESS
    check(okay == qp.is_feasible(res.x), "status", res.status)
    ch.state((kind, dom.canon(spec)))
    return kind


WIDE = [("c", 0, 400), ("c", -1000, 2), ("c", 150, 800), ("c", -500, -120), ("c", -dom.INF, dom.INF),
        ("c", 3, dom.INF), ("c", -dom.INF, -3)]


def run_wide(ch):
    """continuous programs with wide, one-sided or no bounds against their exact optimum"""
    v_0 = ch.choose("bounds of x", WIDE, free=True)
    v_1 = ch.choose("bounds of y", [("c", -1, 2)] + WIDE)
    kind = ch.choose("solver", ["cplex", "slsqp", "cobyla", "slsqp trials", "slsqp clip"], free=True)
    shape = ch.choose("shape", ["linear", "square"], free=True)
    sense = ch.choose("sense", ["min", "max"])
    sign = 1 if sense == "min" else -1
    opt_x = []
    lin, quad, const = {}, {}, 0.0
    for i, v in enumerate([v_0, v_1]):
        low, upp = v[1:]
        if shape == "square":
            goal = ch.choose("goal %d" % i, [0.5, 130.0, -310.0])
            lin[i], quad[i, i], const = -2 * goal * sign, sign, const + sign * goal * goal
            opt_x.append(min(max(goal, low), upp))
        else:
            coef = ch.choose("coefficient %d" % i, [1, -1])
            if low <= -dom.INF and upp >= dom.INF:
                coef = 0
            elif low <= -dom.INF:
                coef = -1
            elif upp >= dom.INF:
                coef = 1
            if coef:
                lin[i] = coef * sign
            opt_x.append(low if coef > 0 else upp if coef < 0 else None)
    cons = []
    if ch.flag("redundant constraint"):
        val = sum(a for a in opt_x if a is not None)
        if None in opt_x:
            raise Skip()
        cons.append(dict(lin={0: 1, 1: 1}, sense=">=" if lin.get(0, 0) * sign > 0 else "<=", rhs=val + (
            -50 if lin.get(0, 0) * sign > 0 else 50), name="r"))
    spec = dom.make("w", [("x",) + v_0, ("y",) + v_1], sense, const, lin, quad, cons)
    best = dom.obj(spec, [0.0 if a is None else a for a in opt_x])
    if not capable(spec, "cplex" if kind == "cplex" else kind[:6].strip(), best):
        raise Skip()
    if kind == "cobyla" and max(abs(a or 0) for a in opt_x) > 100:
        raise Skip()
    algorithm_globals.random_seed = 7
    solver = {"cplex": CplexOptimizer, "slsqp": SlsqpOptimizer,
              "cobyla": lambda: CobylaOptimizer(rhoend=1e-5, maxfun=300, catol=1e-5, disp=0),
              "slsqp trials": lambda: SlsqpOptimizer(trials=3),
              "slsqp clip": lambda: SlsqpOptimizer(trials=2, clip=5.0)}[kind]()
    qp = dom.build(spec)
    before = dom.snap(qp)
    res = solver.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    check(res.x is not None, "no point although the program is feasible")
    x = [float(v) for v in res.x]
    tol = 1e-3 * max(1, abs(best), 0.1 * abs(const))
    check(violation(spec, x) < 1e-3, "the point", x, "violates the program by", violation(spec, x))
    check(sign * float(res.fval) <= sign * best + tol, kind, "value", res.fval, "at", x,
          "optimum", best, "at", opt_x)
    check(opt.close(float(res.fval), dom.obj(spec, x), 1e-6), "fval", res.fval)
    okay = res.status == OptimizationResultStatus.SUCCESS
    check(okay == qp.is_feasible(res.x), "status", res.status)
    ch.state((kind, dom.canon(spec)))
    return kind


class Spy:
    """records every run of a local solver: what it was handed and what it answered"""

    HOOKS = [(fmin_slsqp, "_minimize_slsqp"), (fmin_cobyla, "_minimize_cobyla")]

    def __init__(self, probe):
        self.probe, self.runs, self.undo = probe, [], []

    def __enter__(self):
        for func, name in self.HOOKS:
            home = sys.modules[func.__module__]
            for mod in (home, sys.modules.get("scipy.optimize._minimize")):
                if mod is not None and hasattr(mod, name):
                    self.undo.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, self.wrap(getattr(mod, name)))
        return self

    def wrap(self, inner):
        def call(func, x_0, args=(), **kwargs):
            self.probe(func, args, kwargs)
            start = [float(v) for v in x_0]
            res = inner(func, x_0, args, **kwargs)
            self.runs.append((start, res, kwargs))
            return res

        return call

    def __exit__(self, *_):
        for mod, name, old in self.undo:
            setattr(mod, name, old)


HANDED = [
    dom.make("h0", [("x", "c", -1, 2), ("y", "c", 0, 3)], "min", 1, {0: 1, 1: -4}, {(0, 0): 1, (0, 1): -3},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=2, name="l"),
              dict(quad={(0, 0): 1, (0, 1): 0.5}, lin={1: 1}, sense=">=", rhs=-3, name="q")]),
    dom.make("h1", [("x", "c", -2, dom.INF), ("y", "c", -dom.INF, 1), ("z", "c", -1, 1)], "max", -2,
             {0: -1, 2: 1}, {(1, 1): -1, (0, 2): 0.5},
             [dict(lin={0: 1, 2: -1}, sense="==", rhs=0.5, name="e"),
              dict(lin={1: 1}, sense=">=", rhs=-1, name="g"),
              dict(quad={(2, 2): 1, (0, 1): 1}, sense="<=", rhs=1, name="q")]),
    dom.make("h2", [("x", "c", 0, 1)], "min", 0, {0: 1}, {},
             [dict(lin={0: 1}, sense=">=", rhs=2, name="never")]),
    dom.make("h3", [("x", "c", -dom.INF, dom.INF), ("y", "c", 2, 2)], "max", 0, {0: 1}, {(0, 0): -1},
             [dict(lin={}, quad={(0, 1): 1}, sense="==", rhs=1, name="qe")]),
]


def run_handed(ch):
    """the local solvers get exactly the program and the settings, and their answers are passed on"""
    spec = dom.vary(
        ch, ch.choose("base", HANDED, free=True),
        var_alts=[("c", -1, 2), ("c", -dom.INF, 1), ("c", -0.5, dom.INF), ("c", 1, 1)],
        coefs=[0, 1, -2, 0.5], rhss=[0, 1, 2.5], consts=[0.5],
        extra=[dom.con({0: 2}, {}, "==", 1, "x0"), dom.con({0: 1}, {(0, 0): 1}, "<=", 3, "x1")],
    )
    kind = ch.choose("solver", ["slsqp", "slsqp full", "cobyla"], free=True)
    trials = ch.choose("trials", [1, 3])
    steps = ch.choose("steps", [None, 2, 40])
    acc = ch.choose("accuracy", [None, 1e-3])
    n = len(spec["vars"])
    sign = 1 if spec["sense"] == "min" else -1
    grids = [[a for a in (-2.5, -1, 0, 0.5, 1, 2, 3.5)] for _ in range(n)]
    probes = list(itertools.product(*grids))[:: 1 if n < 3 else 5]
    zero = [0.0] * n
    lin = [spec["lin"].get(i, 0.0) for i in range(n)]
    mat = matrix(spec["quad"], n)

    def probe(func, args, kwargs):
        base = float(func(np.array(zero), *args))
        cons = kwargs.get("constraints") or ()
        bounds = kwargs.get("bounds")
        known = all(isinstance(c, dict) for c in cons) and (bounds is None or isinstance(bounds, (list, tuple)))
        for x in probes:
            arr = np.array(x, dtype=float)
            got = float(func(arr, *args)) - base
            want = sign * (dom.obj(spec, x) - dom.obj(spec, zero))
            check(abs(got - want) < 1e-9, "objective handed over at", x, got, "expected", want)
            if callable(kwargs.get("jac")):
                grad = np.asarray(kwargs["jac"](arr, *args), dtype=float).ravel()
                check(np.allclose(grad, sign * (np.array(lin) + 2 * mat @ arr)), "gradient at", x, grad)
            if not known:
                continue
            okay = True
            for c in cons:
                val = np.atleast_1d(c["fun"](arr, *c.get("args", ())))
                okay = okay and bool((np.abs(val) < 1e-9).all() if c["type"] == "eq" else
                                     (val > -1e-9).all())
            for v, b in zip(x, bounds or ()):
                low = -np.inf if b[0] is None else b[0]
                upp = np.inf if b[1] is None else b[1]
                okay = okay and low - 1e-9 <= v <= upp + 1e-9
            check(okay == dom.feas(spec, x), "the point", x, "is admissible for the solver:", okay)
            ch.step()

    qp = dom.build(spec)
    algorithm_globals.random_seed = 7
    np.random.seed(7)
    args = {}
    if kind == "cobyla":
        args["disp"] = 0
        args["maxfun"] = steps or 60
        if acc:
            args.update(rhoend=acc, rhobeg=0.5, catol=2 * acc)
        solver = CobylaOptimizer(trials=trials, **args)
    else:
        if steps:
            args["iter"] = steps
        if acc:
            args["acc"] = acc
        solver = SlsqpOptimizer(trials=trials, full_output=kind == "slsqp full", **args)
    with Spy(probe) as spy:
        try:
            res = solver.solve(qp)
        except TypeError:
            if all(np.isnan(run["x"]).any() for _, run, _ in spy.runs):
                raise Skip()  # the trusted solver itself finds no numbers
            raise
    ch.state((kind, trials, steps, acc, dom.canon(spec)))
    if not spy.runs:
        return "another way"
    check(len(spy.runs) == trials, "number of runs", len(spy.runs))
    names = dict(iter="maxiter", acc="ftol", maxfun="maxiter", rhoend="tol", rhobeg="rhobeg", catol="catol")
    for start, run, kwargs in spy.runs:
        for key, val in args.items():
            if key in names:
                check(kwargs.get(names[key]) == val, "setting", key, kwargs.get(names[key]), val)
    check(spy.runs[0][0] == zero, "first start", spy.runs[0][0])
    vals = [sign * dom.obj(spec, [float(v) for v in run["x"]]) for _, run, _ in spy.runs]
    check(sign * float(res.fval) <= min(vals) + 1e-9 * max(1, abs(min(vals))), "value", res.fval,
          "of the runs", vals)
    mine = [run for _, run, _ in spy.runs if np.array_equal(np.asarray(run["x"]), np.asarray(res.x))]
    check(mine, "the point", res.x, "is the answer of no run")
    if kind == "slsqp full":
        check(any((res.its, res.imode, res.smode) == (r["nit"], r["status"], r["message"])
                  and float(res.fx) == float(r["fun"]) for r in mine), "details",
              (res.fx, res.its, res.imode, res.smode), "expected",
              [(r["fun"], r["nit"], r["status"], r["message"]) for r in mine])
    return kind, len(mine)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("integer programs", run_cplex, 3 if deep else 2),
        Tree("continuous programs", run_cont, 3 if deep else 2),
        Tree("what the local solver gets", run_handed, 2 if deep else 1),
        Tree("wide bounds", run_wide, 3 if deep else 2),
    ]
