"""Helpers shared by the optimizer checks: scripted solvers and the laws every result obeys."""

import numpy as np
from qiskit.algorithms import MinimumEigensolver, MinimumEigensolverResult

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus

from . import dom
from .core import check

TOL = 1e-9


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Scripted(MinimumEigensolver):
    """a minimum eigensolver that answers what it is told to; answer(operator, k) -> eigenstate"""

    def __init__(self, answer, aux=True):
        super().__init__()
        self.answer = answer
        self.operators = []
        self.results = []

    def compute_minimum_eigenvalue(self, operator, aux_operators=None):
        state = self.answer(operator, len(self.operators))
        self.operators.append(operator)
        res = MinimumEigensolverResult()
        res.eigenstate = state
        self.results.append(res)
        return res

    @classmethod
    def supports_aux_operators(cls):
        return True


class ScriptedNoAux(Scripted):
    """a solver that does not return eigenstates"""

    @classmethod
    def supports_aux_operators(cls):
        return False


def check_result(res, spec, qp=None, feasible=None, tol=TOL):
    """laws of every successful result: objective value, status, accessors"""
    check(isinstance(res, OptimizationResult), "type of the result", type(res))
    names = [v[0] for v in spec["vars"]]
    check(list(res.variable_names) == names, "variable names", res.variable_names)
    check([v.name for v in res.variables] == names, "variables")
    check(res.x is not None, "no point")
    check(len(res.x) == len(names), "size of the point", res.x)
    x = [float(v) for v in res.x]
    want = dom.obj(spec, x)
    check(close(float(res.fval), want, max(tol, 1e-9)), "fval", res.fval, "but the objective at",
          x, "is", want)
    if feasible is None:
        feasible = dom.feas(spec, x)
    okay = res.status == OptimizationResultStatus.SUCCESS
    check(res.status in (OptimizationResultStatus.SUCCESS, OptimizationResultStatus.INFEASIBLE),
          "status", res.status)
    check(res.status.name == ("SUCCESS" if okay else "INFEASIBLE"), "name of the status",
          res.status.name)
    check(okay == feasible, "status", res.status, "at", x, "which is feasible:", feasible)
    accessors(res, names, x)
    return x


def accessors(res, names, x):
    """index, name and dictionary access agree"""
    for i, (name, val) in enumerate(zip(names, x)):
        check(res[i] == val, "result[%d]" % i, res[i])
        check(res[name] == val, "result[%r]" % name, res[name])
    check({k: float(v) for k, v in res.variables_dict.items()} == dict(zip(names, x)),
          "variables_dict", res.variables_dict)
    check(len(res.samples) >= 1, "no samples")


def check_samples(res, spec, want=None, order=True):
    """samples are distinct points with their own objective values, statuses and probabilities;
    want: {point: probability}"""
    sign = 1 if spec["sense"] == "min" else -1
    got = {}
    keys = []
    for s in res.samples:
        x = tuple(round(float(v), 9) for v in s.x)
        check(x not in got, "two samples of the same point", x)
        got[x] = s.probability
        value = dom.obj(spec, x)
        check(close(float(s.fval), value), "value of sample", x, s.fval, "expected", value)
        okay = s.status == OptimizationResultStatus.SUCCESS
        check(okay == dom.feas(spec, x), "status of sample", x, s.status)
        keys.append((not okay, sign * value))
    check(abs(sum(got.values()) - 1) < 1e-4, "probabilities sum to", sum(got.values()))
    if want is not None:
        check(set(got) == set(want), "samples", sorted(got), "expected", sorted(want))
        for x, p in want.items():
            check(abs(got[x] - p) < 1e-9, "probability of", x, got[x], "expected", p)
    if order:
        check(all(a[0] < b[0] or (a[0] == b[0] and a[1] <= b[1] + 1e-9)
                  for a, b in zip(keys, keys[1:])), "order of the samples", keys)
    return got


def check_correlations(res, n):
    """<ZiZj> of the samples, below the diagonal"""
    corr = np.asarray(res.get_correlations())
    check(corr.shape == (n, n), "shape of the correlations", corr.shape)
    for i in range(n):
        for j in range(i):
            want = sum(s.probability * (1 if s.x[i] == s.x[j] else -1) for s in res.samples)
            check(abs(corr[i, j] - want) < 1e-9, "correlation", i, j, corr[i, j], want)


def check_failure(res, names):
    """laws of a result without a point"""
    check(res.status == OptimizationResultStatus.FAILURE
          and res.status.name == "FAILURE", "status", res.status)
    check(res.x is None, "x", res.x)
    check(list(res.variable_names) == names, "variable names")


def rejects(func):
    """True if func rejects its input with the documented error"""
    try:
        func()
    except QiskitOptimizationError:
        return True
    return False
