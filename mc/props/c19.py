"""C19: randomized rounding reports real cuts with their true weights."""

import itertools

import cvxpy
import networkx as nx
import numpy as np

from qiskit_optimization.algorithms import GoemansWilliamsonOptimizer, OptimizationResultStatus
from qiskit_optimization.applications import Maxcut

from .. import dom, opt
from ..core import Tree, check

ASSUMPTIONS = [
    "maximum cut programs of graphs with up to 4 nodes (5 in the thorough tier)",
    "the semidefinite solver is cvxpy's; in the scripted scenarios its answer is chosen",
    "hyperplanes are drawn from numpy's global generator; with any other source the laws of the "
    "result are still checked, but not every sign pattern",
]
NORMAL = np.random.normal
FAULTS = ["SolverError", "DCPError", "DGPError"]


class Patched:
    """cvxpy's solve and numpy's normal generator answer what they are told to"""

    def __init__(self, solve, normal):
        self.solve = solve
        self.normal = normal

    def __enter__(self):
        self.old = cvxpy.Problem.solve, np.random.normal
        if self.solve:
            answer = self.solve
            cvxpy.Problem.solve = lambda prob, *a, **k: answer(prob)
        if self.normal:
            np.random.normal = self.normal

    def __exit__(self, *_):
        cvxpy.Problem.solve, np.random.normal = self.old


def cut_value(weights, x):
    return sum(w for (i, j), w in weights.items() if x[i] != x[j])


def graph(n, weights):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for (i, j), w in weights.items():
        g.add_edge(i, j, weight=w)
    return g


def laws(res, spec, n, weights, num, sort, unique, drawn=None):
    """what every successful result satisfies"""
    check(res.status == OptimizationResultStatus.SUCCESS, "status", res.status)
    names = [v[0] for v in spec["vars"]]
    check([v.name for v in res.variables] == names, "variables")
    x = [float(v) for v in res.x]
    opt.accessors(res, names, res.x)
    cuts = []
    for s in res.samples:
        z = tuple(int(v) for v in s.x)
        check(len(z) == n and set(z) <= {0, 1}, "no assignment", s.x)
        check(opt.close(float(s.fval), cut_value(weights, z)), "value of cut", z, s.fval, "is",
              cut_value(weights, z))
        check(opt.close(dom.obj(spec, z), cut_value(weights, z)), "harness")
        check(s.status == OptimizationResultStatus.SUCCESS, "status of a cut")
        check(opt.close(s.probability, 1 / len(res.samples)), "probability", s.probability)
        cuts.append(z)
    check(tuple(x) == tuple(map(float, cuts[0])) and opt.close(float(res.fval), res.samples[0].fval),
          "the point is not the first cut")
    check(1 <= len(cuts) <= num, "number of cuts", len(cuts))
    side = lambda z: z if z[0] == 0 else tuple(1 - v for v in z)
    if unique:
        check(len({side(z) for z in cuts}) == len(cuts), "a cut is reported twice", cuts)
    else:
        check(len(cuts) == num, "number of cuts", len(cuts), "expected", num)
    if sort:
        vals = [cut_value(weights, z) for z in cuts]
        check(all(a >= b - 1e-9 for a, b in zip(vals, vals[1:])), "order of the cuts", vals)
        if drawn is not None:
            check(opt.close(vals[0], max(cut_value(weights, z) for z in drawn)), "best cut", vals[0])
    if drawn is not None:
        got, want = sorted(map(side, cuts)), sorted(map(side, drawn))
        if unique:
            want = sorted(set(want))
        check(got == want, "cuts", cuts, "but the hyperplanes give", drawn)
        if not sort:
            seq = [side(z) for z in drawn]
            order = [z for k, z in enumerate(seq) if z not in seq[:k]] if unique else seq
            check([side(z) for z in cuts] == order, "order of the cuts", cuts, drawn)
    return tuple(cuts)


def choose_graph(ch, n, alts, free=True):
    weights = {}
    for i, j in itertools.combinations(range(n), 2):
        w = ch.choose("w%d%d" % (i, j), alts, free=free)
        if w:
            weights[i, j] = w
    return weights


def run_cuts(ch, n, rows, alts, free):
    """every sign pattern of the hyperplanes"""
    weights = choose_graph(ch, n, alts, free)
    qp = Maxcut(graph(n, weights)).to_quadratic_program()
    spec = dom.spec_of(qp)
    before = dom.snap(qp)
    num = ch.choose("number of cuts", list(range(1, rows + 1)), free=True)
    sort = ch.choose("sort", [True, False], free=True)
    unique = ch.choose("unique", [True, False], free=True)
    drawn = []

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None or tuple(np.atleast_1d(size)) != (num, n):
            return NORMAL(loc, scale, size)
        out = np.empty(size)
        for r in range(size[0]):
            bits = ch.choose("cut %d" % r, list(itertools.product([0, 1], repeat=n)), free=True)
            drawn.append(bits)
            out[r] = [scale * (0.5 + 0.25 * k) * (1 if b else -1) for k, b in enumerate(bits)]
        return out

    def solve(prob):
        for var in prob.variables():
            var.value = np.eye(n)
        return 0.0

    with Patched(solve, normal):
        res = GoemansWilliamsonOptimizer(num, sort, unique, seed=1).solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    out = laws(res, spec, n, weights, num, sort, unique, drawn if len(drawn) == num else None)
    ch.state((n, tuple(weights.items()), tuple(drawn), sort, unique))
    return out


def run_many(ch):
    """eleven nodes, fixed families of hyperplanes"""
    n = 11
    shape = ch.choose("graph", ["ring", "star", "dense"], free=True)
    weights = {"ring": {(i, i + 1): 1 + i % 3 for i in range(n - 1)},
               "star": {(i, n - 1): (-1) ** i * (i + 1) for i in range(n - 1)},
               "dense": {(i, j): (i * j + i) % 5 - 1 for i in range(n) for j in range(i)
                         if (i + j) % 3}}[shape]
    weights = {(min(e), max(e)): w for e, w in weights.items() if w}
    qp = Maxcut(graph(n, weights)).to_quadratic_program()
    spec = dom.spec_of(qp)
    num = ch.choose("number of cuts", [12, 1, 30], free=True)
    sort = ch.choose("sort", [True, False], free=True)
    unique = ch.choose("unique", [True, False], free=True)
    shift = ch.choose("first cut", list(range(0, 90, 9)), free=True)
    pts = dom.spread(n)
    drawn = [pts[(shift + 7 * r) % len(pts)] for r in range(num)]
    if len(drawn) > 5:
        drawn[5] = tuple(1 - v for v in drawn[0])
        drawn[4] = drawn[1]

    used = []

    def normal(loc=0.0, scale=1.0, size=None):
        if size is None or tuple(np.atleast_1d(size)) != (num, n):
            return NORMAL(loc, scale, size)
        used.append(1)
        return np.array([[scale * (0.5 + 0.25 * (k % 3)) * (1 if b else -1)
                          for k, b in enumerate(bits)] for bits in drawn])

    def solve(prob):
        for var in prob.variables():
            var.value = np.eye(n)
        return 0.0

    with Patched(solve, normal):
        res = GoemansWilliamsonOptimizer(num, sort, unique, seed=1).solve(qp)
    laws(res, spec, n, weights, num, sort, unique, drawn if len(used) == 1 else None)
    ch.state((shape, num, sort, unique, shift))
    return shape, num


def run_sdp(ch, n, alts):
    """the real relaxation: its matrix is feasible and its value bounds every cut"""
    weights = choose_graph(ch, n, alts)
    qp = Maxcut(graph(n, weights)).to_quadratic_program()
    spec = dom.spec_of(qp)
    before = dom.snap(qp)
    num = ch.choose("number of cuts", [4, 1, 10])
    sort = ch.choose("sort", [True, False])
    unique = ch.choose("unique", [True, False])
    seed = ch.choose("seed", [0, 1, 7])
    optimizer = GoemansWilliamsonOptimizer(num_cuts=num, sort_cuts=sort, unique_cuts=unique,
                                           seed=seed)
    res = optimizer.solve(qp)
    check(dom.snap(qp) == before, "the program was modified")
    out = laws(res, spec, n, weights, num, sort, unique)
    chi = np.asarray(res.sdp_solution)
    check(chi.shape == (n, n) and np.allclose(chi, chi.T, atol=1e-3), "matrix", chi)
    check(np.allclose(np.diag(chi), 1, atol=1e-3), "diagonal", np.diag(chi))
    check(np.linalg.eigvalsh((chi + chi.T) / 2).min() > -1e-3, "not positive semidefinite", chi)
    value = sum(w * (1 - chi[i, j]) / 2 for (i, j), w in weights.items())
    best = max(cut_value(weights, z) for z in itertools.product([0, 1], repeat=n))
    check(value >= best - 1e-2, "the relaxation", value, "is below the cut", best)
    if ch.flag("same seed again"):
        again = GoemansWilliamsonOptimizer(num, sort, unique, seed).solve(qp)
        check([tuple(s.x) for s in again.samples] == [tuple(s.x) for s in res.samples],
              "another result with the same seed")
        second = optimizer.solve(qp)
        laws(second, spec, n, weights, num, sort, unique)
        check(tuple(tuple(int(v) for v in s.x) for s in res.samples) == out,
              "an earlier result changed")
    ch.state((n, tuple(weights.items())))
    return best, len(out)


def run_fault(ch):
    """failures of the semidefinite solver, at any solve of a history"""
    n = ch.choose("nodes", [2, 3], free=True)
    weights = {(0, 1): 2} if n == 2 else {(0, 1): 1, (1, 2): 3}
    qp = Maxcut(graph(n, weights)).to_quadratic_program()
    spec = dom.spec_of(qp)
    before = dom.snap(qp)
    sort = ch.choose("sort", [True, False], free=True)
    optimizer = GoemansWilliamsonOptimizer(3, sort_cuts=sort)
    out = []
    for k in range(3):
        fault = ch.choose("solve %d" % k, ["fine"] + FAULTS, free=True)

        def solve(prob):
            if fault != "fine":
                raise getattr(cvxpy, fault)("scripted")
            for var in prob.variables():
                var.value = np.eye(n)
            return 0.0

        with Patched(solve, None):
            res = optimizer.solve(qp)
        if fault == "fine":
            laws(res, spec, n, weights, 3, sort, True)
        else:
            opt.check_failure(res, [v[0] for v in spec["vars"]])
        check(dom.snap(qp) == before, "the program was modified")
        ch.step()
        out.append(fault)
    return tuple(out)


def run_reject(ch):
    """programs with other variables are rejected"""
    types = [ch.choose("type %d" % i, ["b", "c", "i"], free=True) for i in range(3)]
    bounds = {"b": ("b", 0, 1), "c": ("c", 0, 1), "i": ("i", 0, 1)}
    spec = dom.make("r", [("v%d" % i,) + bounds[t] for i, t in enumerate(types)], "max", 0,
                    {0: 1, 1: 1}, {(0, 1): -2}, [])
    qp = dom.build(spec)
    before = dom.snap(qp)
    bad = set(types) != {"b"}
    optimizer = GoemansWilliamsonOptimizer(2)
    check(bool(optimizer.get_compatibility_msg(qp)) == bad, "compatibility of", types)
    check(optimizer.is_compatible(qp) == (not bad), "is_compatible", types)
    check(opt.rejects(lambda: optimizer.solve(qp)) == bad, "solve", types)
    check(dom.snap(qp) == before, "program modified")
    ch.state(tuple(types))
    return bad


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("hyperplanes, 2 nodes", lambda ch: run_cuts(ch, 2, 4 if deep else 3, [1, -2, 0.5],
                                                         True), 0),
        Tree("hyperplanes, 3 nodes", lambda ch: run_cuts(ch, 3, 3 if deep else 2, [1, 0, -2, 0.5],
                                                         deep), 2),
        Tree("hyperplanes, 4 nodes", lambda ch: run_cuts(ch, 4, 2, [1, 0, 3], False),
             2 if deep else 0),
        Tree("relaxation, 3 nodes", lambda ch: run_sdp(ch, 3, [1, 0, 2.5]), 2 if deep else 1),
        Tree("relaxation, 4 nodes", lambda ch: run_sdp(ch, 4, [1, 0, 2] if deep else [1, 0]), 0),
        Tree("eleven nodes", run_many, 0),
        Tree("failures", run_fault, 0),
        Tree("rejected", run_reject, 0),
    ]
