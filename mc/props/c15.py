"""C15: recursive elimination keeps the problem exact for every sequence of correlations."""

import itertools

import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver

from qiskit_optimization.algorithms import (
    MinimumEigenOptimizer, OptimizationAlgorithm, OptimizationResult, OptimizationResultStatus,
    RecursiveMinimumEigenOptimizer, SolutionSample,
)
from qiskit_optimization.algorithms.recursive_minimum_eigen_optimizer import IntermediateResult
from qiskit_optimization.converters import QuadraticProgramToQubo

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "QUBOs of up to 6 variables, and of 9 and 11 with one choice off its default; the conversion itself is decided by C11",
    "the intermediate optimizer answers any correlation matrix with one strongest entry",
]


class Answer(OptimizationResult):
    """a result with scripted correlations"""

    def __init__(self, corr, variables):
        n = len(variables)
        super().__init__(x=[0.0] * n, fval=0.0, variables=variables,
                         status=OptimizationResultStatus.SUCCESS)
        self.corr = corr

    def get_correlations(self):
        return self.corr.copy()


class Script(OptimizationAlgorithm):
    """an optimizer that records what it is asked and answers what it is told to"""

    def __init__(self, answer):
        self.answer = answer
        self.specs = []
        self.results = []

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        self.specs.append(exact(problem))
        dom.consistent(problem)
        self.results.append(self.answer(problem, len(self.specs) - 1))
        return self.results[-1]


class Relations:
    """x_a = x_b or x_a = 1 - x_b, as a union-find with parity"""

    def __init__(self, names):
        self.parent = {n: (n, 0) for n in names}

    def find(self, n):
        par = 0
        while self.parent[n][0] != n:
            par ^= self.parent[n][1]
            n = self.parent[n][0]
        return n, par

    def join(self, a, b, sign):
        (r_a, p_a), (r_b, p_b) = self.find(a), self.find(b)
        if r_a == r_b:
            return
        self.parent[r_a] = (r_b, p_a ^ p_b ^ (0 if sign > 0 else 1))

    def extend(self, names, values):
        """the values of all variables that follow from those of some"""
        root = {}
        for n, v in zip(names, values):
            r, p = self.find(n)
            val = v if not p else 1 - v
            check(r not in root or root[r] == val, "variables", names, "are not independent")
            root[r] = val
        out = {}
        for n in self.parent:
            r, p = self.find(n)
            check(r in root, "the value of", n, "is lost")
            out[n] = root[r] if not p else 1 - root[r]
        return out


def exact(qp):
    """the spec of a program, with unrounded coefficients"""
    spec = dom.spec_of(qp)
    spec["const"] = float(qp.objective.constant)
    spec["lin"] = {int(k): float(v) for k, v in qp.objective.linear.to_dict().items()}
    spec["quad"] = {}
    for (i, j), v in qp.objective.quadratic.to_dict().items():
        key = (int(min(i, j)), int(max(i, j)))
        spec["quad"][key] = spec["quad"].get(key, 0.0) + float(v)
    return spec


def same_program(spec, ref, rel, unit=1.0):
    """the reduced program is the reference restricted by the relations"""
    names = [v[0] for v in spec["vars"]]
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary", spec["vars"])
    check(not spec["cons"], "constraints appeared")
    order = [v[0] for v in ref["vars"]]
    s_1 = 1 if spec["sense"] == "min" else -1
    s_2 = 1 if ref["sense"] == "min" else -1
    for y in itertools.product([0, 1], repeat=len(names)):
        full = rel.extend(names, y)
        want = s_2 * dom.obj(ref, [full[n] for n in order])
        got = s_1 * dom.obj(spec, y)
        check(abs(got - want) < 1e-9 * unit, "objective of the reduced program at",
              dict(zip(names, y)), "is", got, "expected", want)


BASES = [
    dom.make("q0", [("a", "b"), ("b", "b"), ("c", "b")], "min", 1, {0: 1, 1: -2, 2: 3},
             {(0, 1): 2, (1, 2): -1, (0, 0): -3}, []),
    dom.make("q1", [("a", "b"), ("b", "b"), ("c", "b"), ("d", "b")], "max", -0.5, {0: 1, 1: 2, 3: -1},
             {(0, 1): -2, (1, 2): 3, (0, 3): 1, (2, 3): -4}, []),
    dom.make("q2", [("z", "b"), ("k", "i", -1, 2)], "max", 0, {0: 1, 1: 2}, {(0, 1): -2, (1, 1): -1},
             []),
    dom.make("q3", [("u", "b"), ("v", "b")], "min", 2, {0: -1, 1: -3}, {(0, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=1, name="c")]),
    dom.make("q4", [("a", "b"), ("b", "b"), ("c", "b"), ("d", "b"), ("e", "b")], "min", 0,
             {0: 1, 4: -1}, {(0, 1): -1, (1, 2): 1, (2, 3): -2, (3, 4): 2, (0, 4): 1, (1, 1): 0.5},
             []),
]


def solve_recursive(ch, spec, corr_free, vary, unit=1.0, most=6):
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = QuadraticProgramToQubo()
    ref_qp = conv.convert(qp)
    ref = exact(ref_qp)
    names = [v[0] for v in ref["vars"]]
    n = len(names)
    if n < 1 or n > most:
        raise Skip()
    pure = not spec["cons"] and all(v[1] == "b" for v in spec["vars"])
    no_conv = pure and vary and ch.flag("no converters")
    stop = ch.choose("stop at", list(range(1, n + 1)), free=not vary and most < 7)
    mode = ch.choose("history", [None] + list(IntermediateResult)) if vary else None
    rel = Relations(names)
    cur = {"names": names}

    def step(problem, k):
        now = [v.name for v in problem.variables]
        m = len(now)
        same_program(exact(problem), ref, rel, unit)
        check(m > stop, "asked for a problem with", m, "variables")
        check(m == n - k, "number of variables in round", k, "is", m)
        pairs = [(i, j) for i in range(m) for j in range(i)]
        i, j = ch.choose("pair %d" % k, pairs, free=corr_free)
        val = ch.choose("correlation %d" % k, [1.0, -1.0, 0.6, -0.6], free=corr_free)
        noise = ch.choose("others %d" % k, [0.0, 0.3, -0.3][:3 if most < 7 else 1])
        corr = np.zeros((m, m))
        for a, b in pairs:
            corr[a, b] = noise * (1 if (a + b) % 2 else -1)
        corr[i, j] = val
        rel.join(now[i], now[j], val)
        cur["names"] = now
        return Answer(corr, problem.variables)

    def last(problem, k):
        now = [v.name for v in problem.variables]
        same_program(exact(problem), ref, rel, unit)
        check(k == 0, "the last optimizer was called again")
        check(len(now) <= stop, "stopped at", len(now), "instead of", stop)
        y = [ch.choose("final %s" % v, [0, 1], free=most < 7) for v in now]
        return OptimizationResult(x=[float(v) for v in y], fval=problem.objective.evaluate(y),
                                  variables=problem.variables,
                                  status=OptimizationResultStatus.SUCCESS)

    inner, final = Script(step), Script(last)
    kwargs = {}
    if mode is not None:
        kwargs["history"] = mode
    if no_conv:
        kwargs["converters"] = []
    rec = RecursiveMinimumEigenOptimizer(inner, min_num_vars=stop, min_num_vars_optimizer=final,
                                         **kwargs)
    res = rec.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    check(len(final.results) == 1, "the last optimizer was not called")
    check(len(inner.results) == max(0, n - stop), "rounds", len(inner.results))
    full = rel.extend([v.name for v in final.results[0].variables], final.results[0].x)
    want = conv.interpret(np.array([full[v] for v in names]))
    x = opt.check_result(res, spec)
    check([round(v, 9) for v in x] == [round(float(v), 9) for v in want], "point", x, "expected",
          want)
    # replacements describe the same relations
    check(len(res.replacements) == max(0, n - stop), "replacements", res.replacements)
    for a, (b, sign) in res.replacements.items():
        check(full[a] == (full[b] if sign == 1 else 1 - full[b]), "replacement", a, b, sign)
    if mode in (None, IntermediateResult.LAST_ITERATION):
        check(list(res.history[0]) == [] and res.history[1] is final.results[0], "history")
    elif mode == IntermediateResult.NO_ITERATIONS:
        check(list(res.history[0]) == [] and res.history[1] is None, "history")
    else:
        check(len(res.history[0]) == len(inner.results)
              and all(a is b for a, b in zip(res.history[0], inner.results))
              and res.history[1] is final.results[0], "history")
    for s in inner.specs + final.specs:
        ch.state(dom.canon(s))
    ch.step(len(inner.specs))
    return tuple(x), tuple(sorted(res.replacements.items()))


def run_seq(ch):
    """every sequence of strongest pairs and signs, on the default programs"""
    spec = ch.choose("program", BASES[:4], free=True)
    return solve_recursive(ch, spec, True, False)


def run_prog(ch, coefs):
    """programs, stopping points, histories and correlations within the bound"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(ch, base, var_alts=[("b", 0, 1), ("i", 0, 2)], coefs=coefs,
                    rhss=[0, 2], consts=[0.5], senses=("<=", "=="))
    if any(not float(v).is_integer() for c in spec["cons"] for v in c["lin"].values()):
        raise Skip()
    return solve_recursive(ch, spec, False, True)


def run_scaled(ch):
    """the size of the coefficients does not matter"""
    spec = ch.choose("program", [BASES[0], BASES[1], BASES[4]], free=True)
    unit = ch.choose("unit", [2.0**-4, 2.0**-10, 2.0**-20, 2.0**12, 2.0**24], free=True)
    spec = dict(spec, const=spec["const"] * unit, lin={k: v * unit for k, v in spec["lin"].items()},
                quad={k: v * unit for k, v in spec["quad"].items()})
    return solve_recursive(ch, spec, False, False, unit)


WIDE = [
    dom.make("w0", [("x%d" % i, "b") for i in range(9)], "min", 0.5,
             {i: (-1) ** i * (i + 1) for i in range(9)},
             {(i, (4 * i + 3) % 9): 2 - i % 5 for i in range(9) if i != (4 * i + 3) % 9}, []),
    dom.make("w1", [("v%d" % (10 - i), "b") for i in range(11)], "max", -1, {0: 2, 5: -3, 10: 1},
             {(i, i + 1): (i % 4) - 2 for i in range(10)}, []),
    dom.make("w2", [("y%d" % i, "b") for i in range(12)], "min", 0, {0: 1, 11: -2},
             {(0, 11): -3, (0, 10): 2, (1, 11): 1, (3, 4): -1}, []),
]


def run_wide(ch):
    """as above, with names and indices of several digits"""
    spec = ch.choose("program", WIDE, free=True)
    return solve_recursive(ch, spec, False, False, most=12)


class Tied(OptimizationResult):
    """a result whose correlations are those of its samples, or are given"""

    corr = None

    def get_correlations(self):
        return super().get_correlations() if self.corr is None else self.corr.copy()


def run_ties(ch, bases):
    """several pairs are equally strong, or no pair is correlated at all"""
    spec = ch.choose("program", bases, free=True)
    qp = dom.build(spec)
    ref = exact(QuadraticProgramToQubo().convert(qp))
    order = [v[0] for v in ref["vars"]]
    n = len(order)
    stop = ch.choose("stop at", [1, n - 1])
    asked = []

    def step(problem, k):
        names = [v.name for v in problem.variables]
        m = len(names)
        check(m == n - k, "number of variables in round", k, "is", m)
        kind = ch.choose("answer %d" % k, ["correlations", "two samples", "one sample", "all points"])
        res = Tied(x=[0.0] * m, fval=0.0, variables=problem.variables,
                   status=OptimizationResultStatus.SUCCESS)
        if kind == "correlations":
            corr = np.zeros((m, m))
            vals = [0.0, 0.5, -0.5, 1.0]
            for i in range(m):
                for j in range(i):
                    corr[i, j] = ch.choose("correlation %d %d" % (i, j), vals, free=k == 0 and m < 4)
            if ch.flag("symmetric"):
                corr = corr + corr.T
            if ch.flag("diagonal"):
                corr = corr + np.eye(m)
            res.corr = corr
        else:
            pts = [[1] * m] if kind == "one sample" else [[0] * m, [i % 2 for i in range(m)]]
            if kind == "all points":
                pts = list(itertools.product([0, 1], repeat=m))
            res = Tied(x=pts[0], fval=0.0, variables=problem.variables,
                       status=OptimizationResultStatus.SUCCESS,
                       samples=[SolutionSample(np.array(q, dtype=float), 0.0, 1 / len(pts),
                                               OptimizationResultStatus.SUCCESS) for q in pts])
            corr = np.zeros((m, m))
            for i in range(m):
                for j in range(i):
                    corr[i, j] = sum((1 if q[i] == q[j] else -1) for q in pts) / len(pts)
        asked.append((names, corr))
        return res

    def last(problem, k):
        y = [ch.choose("final %s" % v.name, [0, 1]) for v in problem.variables]
        return OptimizationResult(x=[float(v) for v in y], fval=problem.objective.evaluate(y),
                                  variables=problem.variables,
                                  status=OptimizationResultStatus.SUCCESS)

    inner, final = Script(step), Script(last)
    res = RecursiveMinimumEigenOptimizer(inner, min_num_vars=stop,
                                         min_num_vars_optimizer=final).solve(qp)
    check(len(asked) == max(0, n - stop), "rounds", len(asked))
    rel = Relations(order)
    left = [q[0] for q in asked] + [[v.name for v in final.results[0].variables]]
    for k, (names, corr) in enumerate(asked):
        same_program(inner.specs[k], ref, rel)
        gone = set(names) - set(left[k + 1])
        check(len(gone) == 1 and set(left[k + 1]) < set(names), "round", k, "eliminated", gone)
        gone = gone.pop()
        check(gone in res.replacements, gone, "was not replaced")
        other, sign = res.replacements[gone]
        check(other in left[k + 1], gone, "is replaced by", other)
        i, j = names.index(gone), names.index(other)
        full = corr + np.triu(corr.T, 1) if not np.triu(corr, 1).any() else corr
        mags = [abs(full[a, b]) for a in range(len(names)) for b in range(a)]
        check(abs(full[i, j]) > max(mags) - 1e-9, "the pair", gone, other, "has correlation",
              full[i, j], "but the strongest is", max(mags))
        check(abs(full[i, j]) < 1e-9 or sign == (1 if full[i, j] > 0 else -1), "sign of", gone,
              other)
        rel.join(gone, other, sign)
    same_program(final.specs[0], ref, rel)
    full = rel.extend([v.name for v in final.results[0].variables], final.results[0].x)
    x = opt.check_result(res, spec)
    check([round(v, 9) for v in x] == [round(float(full[v]), 9) for v in order], "point", x)
    ch.state((dom.canon(spec), tuple(sorted(res.replacements.items()))))
    return tuple(x), tuple(sorted(res.replacements.items()))


class Best(OptimizationAlgorithm):
    """answers an optimal point of the problem, found by brute force"""

    def __init__(self, pick):
        self.pick = pick

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        spec = dom.spec_of(problem)
        _, arg = dom.solve(spec)
        x = arg[self.pick % len(arg)]
        return OptimizationResult(x=[float(v) for v in x], fval=dom.obj(spec, x),
                                  variables=problem.variables,
                                  status=OptimizationResultStatus.SUCCESS)


def run_optimal(ch):
    """with optimal intermediate answers the result is optimal"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(ch, base, var_alts=[("b", 0, 1), ("i", 0, 2)], coefs=[2, -3],
                    rhss=[0, 2], consts=[0.5], senses=("<=", "=="))
    if any(not float(v).is_integer() for c in spec["cons"] for v in c["lin"].values()):
        raise Skip()
    qp = dom.build(spec)
    m = QuadraticProgramToQubo().convert(qp).get_num_vars()
    if m > 7:
        raise Skip()
    stop = ch.choose("stop at", [1, 2, 9])
    pick = ch.choose("optimum", [0, 1, -1])
    before = dom.snap(qp)
    last = ch.choose("last optimizer", [None, "brute force", "exact"])
    kwargs = {}
    if last == "brute force":
        kwargs["min_num_vars_optimizer"] = Best(0)
    elif last == "exact":
        kwargs["min_num_vars_optimizer"] = MinimumEigenOptimizer(NumPyMinimumEigensolver())
    rec = RecursiveMinimumEigenOptimizer(Best(pick), min_num_vars=stop, **kwargs)
    if ch.flag("used before"):
        rec.solve(dom.build(BASES[1]))
    res = rec.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    best, arg = dom.solve(spec)
    x = opt.check_result(res, spec)
    if best is not None:
        check(abs(float(res.fval) - best) < 1e-9, "value", res.fval, "at", x, "optimum", best, arg)
        check(res.status == OptimizationResultStatus.SUCCESS, "status")
    ch.state((dom.canon(spec), stop))
    return tuple(x)


def run_reject(ch):
    """programs that are no QUBOs are rejected and left alone"""
    bad = ch.choose("program", [
        dom.make("b0", [("x", "c", 0, 1)], "min", 0, {0: 1}, {}, []),
        dom.make("b1", [("x", "b"), ("y", "b")], "min", 0, {0: 1}, {},
                 [dom.con({}, {(0, 1): 1}, "<=", 0, "q")]),
        dom.make("b2", [("x", "b"), ("y", "b")], "min", 0, {0: 1}, {},
                 [dom.con({0: 0.5}, {}, "<=", 0, "l")]),
    ], free=True)
    qp = dom.build(bad)
    before = dom.snap(qp)
    rec = RecursiveMinimumEigenOptimizer(Best(0))
    check(not rec.is_compatible(qp), "is_compatible")
    check(opt.rejects(lambda: rec.solve(qp)), "an incompatible program was solved")
    check(dom.snap(qp) == before, "the program was modified")
    ch.step(2)
    return bad["name"]


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("every sequence of correlations", run_seq, 1 if deep else 0),
        Tree("programs", lambda ch: run_prog(ch, [0, 2, -3, 0.5] if deep else [0, -3]),
             3 if deep else 2),
        Tree("scaled coefficients", run_scaled, 2 if deep else 1),
        Tree("nine to twelve variables", run_wide, 2 if deep else 1),
        Tree("tied correlations", lambda ch: run_ties(ch, BASES[:5] if deep else BASES[:2]),
             3 if deep else 2),
        Tree("optimal answers", run_optimal, 3 if deep else 2),
        Tree("rejected programs", run_reject, 0),
    ]
