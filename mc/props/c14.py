"""C14: the multi start method returns the best of its trials."""

import itertools

import numpy as np

from qiskit_optimization.algorithms import CobylaOptimizer, SlsqpOptimizer
from qiskit_optimization.algorithms.multistart_optimizer import MultiStartOptimizer

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "best means the objective value in the sense of the problem, as reported by the trials",
    "starting points are checked for their range, not for their distribution",
]

INF = dom.INF

PROGS = [
    dom.make("p0", [("x", "c", -1, 2), ("y", "c", 0, 3)], "min", 1, {0: 1, 1: -2}, {(0, 1): 1, (1, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=3, name="c")]),
    dom.make("p1", [("x", "c", -1, 2), ("y", "c", 1, 3)], "max", -2, {0: 2, 1: -1}, {(0, 0): 1},
             [dict(lin={0: 1}, quad={(1, 1): 1}, sense=">=", rhs=1, name="c")]),
    dom.make("p2", [("x", "c", -2, 2)], "max", 0, {}, {(0, 0): -1}, []),
    dom.make("p3", [("x", "c", -2, 2)], "min", 5, {}, {}, []),
    dom.make("p4", [("x", "c", -2, 2), ("y", "c", -2, 2)], "max", 0, {1: -3}, {}, []),
]


class Local(MultiStartOptimizer):
    """a multi start optimizer whose local solver is scripted"""

    def __init__(self, answer, **kwargs):
        super().__init__(**kwargs)
        self.answer = answer
        self.starts = []
        self.given = None

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        def local(x_0):
            self.starts.append([float(v) for v in x_0])
            self.given = x_0
            return self.answer(len(self.starts) - 1)

        return self.multi_start_solve(local, problem)


def run_answers(ch, most):
    """every sequence of answers of the local solver"""
    spec = ch.choose("program", PROGS, free=True)
    n = len(spec["vars"])
    trials = ch.choose("trials", list(range(1, most + 1)), free=True)
    grid = {1: [[0.0], [-2.0], [1.5], [2.0], [9.0]],
            2: [[0.0, 1.0], [-1.0, 3.0], [2.0, 0.5], [1.5, 2.0], [7.0, 7.0]]}[n]
    qp = dom.build(spec)
    before = dom.snap(qp)
    answers = []

    none_at = ch.choose("trial without details", [None] + list(range(trials)))

    def answer(k):
        x = ch.choose("answer %d" % k, grid, free=True)
        rest = "rest %d" % k if k != none_at else None
        answers.append((list(x), rest))
        if handed:
            local.given[:] = x
            return local.given, rest
        return np.array(x), rest

    handed = ch.flag("answers in the array of the start")
    local = Local(answer, trials=trials) if not ch.flag("trials set later") else Local(answer)
    local.trials = trials
    check(local.trials == trials, "trials")
    np.random.seed(11)
    res = local.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    check(len(answers) == trials, "number of trials", len(answers))
    sign = 1 if spec["sense"] == "min" else -1
    x = opt.check_result(res, spec)
    best = min(sign * dom.obj(spec, a) for a, _ in answers)
    check(opt.close(sign * float(res.fval), best), "fval", res.fval, "of the trials", answers)
    check([x, res.raw_results] in [[a, r] for a, r in answers], "result", x, res.raw_results,
          "is not a trial of", answers)
    check(all(v == 0 for v in local.starts[0]), "first start", local.starts[0])
    for start in local.starts[1:]:
        check(all(v[2] <= s <= v[3] for v, s in zip(spec["vars"], start)), "start out of bounds",
              start)
    ch.state((spec["name"], trials, tuple(map(repr, answers))))
    return tuple(x)


def run_scale(ch):
    """objectives of any magnitude: values that differ by little or lie far from zero"""
    sense = ch.choose("sense", ["min", "max"], free=True)
    factor = ch.choose("magnitude", [1, 2.0 ** -16, 2.0 ** -30, 2.0 ** 20, 2.0 ** 40], free=True)
    shift = ch.choose("constant", [0, 1, -1, 2 ** 20, -(2 ** 20)], free=True)
    if factor > 1:
        shift *= factor
    step = ch.choose("step", [1, 2.0 ** -8, 2.0 ** -20, 2.0 ** -30], free=True)
    around = ch.choose("around", [0, 1, -4], free=True)
    order = ch.choose("answers", list(itertools.permutations([-1, 0, 1, 2], 3)), free=True)
    spec = dom.make("m", [("x", "c", -9, 9)], sense, shift, {0: factor}, {}, [])
    local = Local(lambda k: (np.array([around + order[k] * step]), k), trials=3)
    res = local.solve(dom.build(spec))
    sign = 1 if sense == "min" else -1
    want = sign * min(sign * o for o in order)
    vals = [shift + factor * (around + step * o) for o in order]
    if len(set(vals)) < 3:
        raise Skip()
    check(float(res.fval) == sign * min(sign * v for v in vals), "fval", res.fval, "of", vals)
    check([float(v) for v in res.x] == [around + want * step], "point", res.x, "of", order, step)
    check(res.raw_results == order.index(want), "raw results", res.raw_results)
    ch.step(3)
    ch.state((sense, factor, shift, step, around, order))
    return want


BOUNDS = [(-1, 2), (0, INF), (-INF, 0), (-INF, INF), (5, 5), (150, INF), (-INF, -150), (3, 400),
          (-400, 4)]


def run_starts(ch):
    """starting points lie in the bounds, infinite sides are replaced by the clip value"""
    bounds = [ch.choose("bounds %d" % i, BOUNDS, free=True) for i in range(2)]
    clip = ch.choose("clip", [100.0, 1.0, 7.5], free=True)
    later = ch.flag("clip set later", free=True)
    seed = ch.choose("seed", [0, 1, 2], free=True)
    spec = dom.make("s", [("x", "c") + bounds[0], ("y", "c") + bounds[1]], "min", 0, {0: 1}, {}, [])
    qp = dom.build(spec)
    local = Local(lambda k: (np.array([float(k), 0.0]), None), trials=4,
                  **({} if later else {"clip": clip}))
    if later:
        local.clip = clip
    check(local.clip == clip, "clip")
    np.random.seed(seed)
    local.solve(qp)
    check(len(local.starts) == 4 and local.starts[0] == [0.0, 0.0], "starts", local.starts)
    for (low, upp), vals in zip(bounds, zip(*local.starts[1:])):
        l_c = low if low > -INF else min(-clip, upp)
        u_c = upp if upp < INF else max(clip, low)
        check(all(l_c <= v <= u_c for v in vals), "starts", vals, "out of", l_c, u_c)
        if l_c < u_c:
            check(len(set(vals)) == 3, "starts do not differ", vals)
        ch.step(3)
    ch.state((tuple(bounds), clip))
    return tuple(bounds)


def run_real(ch):
    """more trials are never worse than fewer, for the real local solvers"""
    kind = ch.choose("solver", ["slsqp", "cobyla", "slsqp full"], free=True)
    sense = ch.choose("sense", ["min", "max"], free=True)
    lin = [ch.choose("lin %d" % i, [1, -2, 0], free=True) for i in range(2)]
    quad = ch.choose("quad", [{(0, 0): 1, (1, 1): -1}, {(0, 1): 2}, {(0, 0): -1, (1, 1): -0.5},
                              {}], free=True)
    spec = dom.make("r", [("x", "c", -2, 3), ("y", "c", -1, 2)], sense, 0.5,
                    {0: lin[0], 1: lin[1]}, quad,
                    [dict(lin={0: 1, 1: 1}, sense="<=", rhs=4, name="c")])
    qp = dom.build(spec)
    sign = 1 if sense == "min" else -1
    fvals = []
    for trials in (1, 4):
        if kind == "cobyla":
            solver = CobylaOptimizer(trials=trials, disp=0)
        else:
            solver = SlsqpOptimizer(trials=trials, full_output=kind == "slsqp full")
        np.random.seed(5)
        res = solver.solve(qp)
        opt.check_result(res, spec, feasible=qp.is_feasible(res.x))
        fvals.append(sign * res.fval)
        if kind == "slsqp full":
            check(opt.close(float(res.fx), sign * res.fval, 1e-6), "fx", res.fx, res.fval)
            check(res.its is not None and res.imode is not None and res.smode is not None, "info")
        ch.step()
    check(fvals[1] <= fvals[0] + 1e-6, "more trials are worse", fvals)
    ch.state((kind, dom.canon(spec)))
    return kind, round(fvals[1], 3)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("answers of the local solver", lambda ch: run_answers(ch, 5 if deep else 4), 1),
        Tree("magnitudes", run_scale, 0),
        Tree("starting points", run_starts, 0),
        Tree("real local solvers", run_real, 0),
    ]
