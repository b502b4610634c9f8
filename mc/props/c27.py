"""C27: from an instance to an answer: every exact way gives a best answer of the instance itself."""

import itertools
import os
import shutil
import tempfile

import networkx as nx
import numpy as np
from qiskit.algorithms import NumPyMinimumEigensolver

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.algorithms import (
    CplexOptimizer, MinimumEigenOptimizer, OptimizationResultStatus,
)
from qiskit_optimization.applications import (
    Clique, ExactCover, GraphPartition, Knapsack, Maxcut, NumberPartition, SetPacking, StableSet,
    Tsp, VehicleRouting, VertexCover,
)
from qiskit_optimization.converters import (
    InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo,
)

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "exact ways only: the exact eigensolver with up to 12 qubits, and CPLEX; both are trusted",
    "the best answer of an instance is found by enumerating the instance, not the program",
]
TOL = 1e-6


def spread(score, answers, sense):
    """(set of best answers, best value)"""
    table = {a: score(a) for a in answers}
    table = {a: v for a, v in table.items() if v is not None}
    if not table:
        return {}, None
    best = (max if sense == "max" else min)(table.values())
    return {a for a, v in table.items() if abs(v - best) < TOL}, best


def subsets(n):
    return [frozenset(c) for k in range(n + 1) for c in itertools.combinations(range(n), k)]


# ---- ways from a program to an interpreted answer ------------------------------------------------


def by_eigen(app, qp):
    res = MinimumEigenOptimizer(NumPyMinimumEigensolver()).solve(qp)
    return res if res.status == OptimizationResultStatus.SUCCESS else None, res.fval


def by_eigen_penalty(app, qp):
    conv = QuadraticProgramToQubo(penalty=1000)
    res = MinimumEigenOptimizer(NumPyMinimumEigensolver(), converters=conv).solve(qp)
    return res if res.status == OptimizationResultStatus.SUCCESS else None, res.fval


def by_parts(app, qp):
    parts = [InequalityToEquality("integer"), IntegerToBinary(), LinearEqualityToPenalty()]
    res = MinimumEigenOptimizer(NumPyMinimumEigensolver(), converters=parts).solve(qp)
    return res if res.status == OptimizationResultStatus.SUCCESS else None, res.fval


def by_cplex(app, qp):
    res = CplexOptimizer().solve(qp)
    return res if res.x is not None else None, res.fval


def by_docplex(app, qp):
    mdl = qp.to_docplex()
    sol = mdl.solve()
    if sol is None:
        return None, None
    x = np.array([round(v.solution_value) for v in mdl.iter_variables()])
    return x, mdl.objective_value


def by_file(app, qp):
    folder = tempfile.mkdtemp(prefix="mc_c27_")
    try:
        path = os.path.join(folder, "p.lp")
        qp.write_to_lp_file(path)
        back = QuadraticProgram()
        back.read_from_lp_file(path)
    finally:
        shutil.rmtree(folder)
    res = CplexOptimizer().solve(back)
    if res.x is None:
        return None, None
    byname = res.variables_dict
    # a variable used nowhere has no place in the file: any value will do
    return np.array([byname.get(v.name, 0) for v in qp.variables]), res.fval


def finish(qp, qubo, conv, bits):
    x = conv.interpret(bits)
    res = dom.answer(x, qp, qp.objective.evaluate(x))
    return (res if qp.is_feasible(x) else None), qubo.objective.evaluate(bits)


def by_hand(app, qp):
    conv = QuadraticProgramToQubo()
    qubo = conv.convert(qp)
    op, offset = qubo.to_ising()
    sol = NumPyMinimumEigensolver().compute_minimum_eigenvalue(op)
    bits = app.sample_most_likely(sol.eigenstate.primitive.data)
    sign = 1 if qubo.objective.sense == qubo.objective.sense.MINIMIZE else -1
    val = sign * (float(np.real(sol.eigenvalue)) + offset)
    got, obj = finish(qp, qubo, conv, bits)
    check(abs(obj - val) < TOL * max(1, abs(val)), "ground energy", val, "but the most likely "
          "string", bits, "has", obj)
    return got, val


def by_operator(app, qp):
    conv = QuadraticProgramToQubo()
    qubo = conv.convert(qp)
    back = QuadraticProgram()
    back.from_ising(*qubo.to_ising())
    res = CplexOptimizer().solve(back)
    sign = 1 if qubo.objective.sense == qubo.objective.sense.MINIMIZE else -1
    got, obj = finish(qp, qubo, conv, np.round(res.x))
    check(abs(sign * res.fval - obj) < TOL * max(1, abs(obj)), "the operator's program says",
          sign * res.fval, "the binary program", obj)
    return got, obj


WAYS = {
    "eigensolver": by_eigen, "eigensolver with a given penalty": by_eigen_penalty,
    "eigensolver with single converters": by_parts, "cplex": by_cplex, "docplex model": by_docplex,
    "file": by_file, "by hand": by_hand, "operator and back": by_operator,
}


def qubits(qp):
    return QuadraticProgramToQubo().convert(qp).get_num_vars()


def go(ch, tag, app, best, value, read, objective=True, ways=None, most=10):
    """solves in one way; the answer must be among the best ones; an unsolvable instance has none"""
    qp = app.to_quadratic_program()
    way = ch.choose("way", ways or list(WAYS), free=True)
    if way not in ("cplex", "docplex model", "file") and qubits(qp) > most:
        raise Skip()
    got, val = WAYS[way](app, qp)
    ch.step()
    ch.state((tag, way, repr(sorted(map(repr, best))), value))
    if not best:
        check(got is None, tag, way, "answers", got is not None and app.interpret(got),
              "but there is none")
        return tag, way, "none"
    check(got is not None, tag, way, "finds no answer although there are", len(best))
    answer = read(app.interpret(got))
    check(answer in best, tag, way, "answers", answer, "best are", sorted(map(repr, best))[:4])
    if objective:
        check(abs(val - value) < TOL * max(1, abs(value)), tag, way, "says the value is", val,
              "but the best is", value)
    return tag, way, len(best)


# ---- instances -----------------------------------------------------------------------------------


def pick_edges(ch, n, weights):
    out = {}
    for i, j in itertools.combinations(range(n), 2):
        w = ch.choose("edge %d-%d" % (i, j), [None] + weights, free=True)
        if w is not None:
            out[i, j] = w
    return out


def graph(n, edges, plain):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for (i, j), w in edges.items():
        if plain:
            g.add_edge(i, j)
        else:
            g.add_edge(i, j, weight=w)
    return g


def nodes(lst):
    return frozenset(int(i) for i in lst)


def run_graph(ch, kind, n, weights):
    """every graph with n nodes"""
    edges = pick_edges(ch, n, weights if kind in ("maxcut", "partition") else [1])
    g = graph(n, edges, plain=weights == [1])
    cut = lambda s: sum(w for (i, j), w in edges.items() if (i in s) != (j in s))
    stable = lambda s: not any(i in s and j in s for i, j in edges)
    clique = lambda s: all((min(p), max(p)) in edges for p in itertools.combinations(s, 2))
    first = lambda parts: nodes(parts[1])

    def whole(parts):
        check(sorted(nodes(parts[0]) | nodes(parts[1])) == list(range(n)) and
              not nodes(parts[0]) & nodes(parts[1]), "not a partition of the nodes", parts)
        return first(parts)

    if kind == "maxcut":
        best = spread(cut, subsets(n), "max")
        return go(ch, kind, Maxcut(g), *best, whole)
    if kind == "partition":
        best = spread(lambda s: cut(s) if len(s) == n // 2 else None, subsets(n), "min")
        return go(ch, kind, GraphPartition(g), *best, whole)
    if kind == "stable set":
        best = spread(lambda s: len(s) if stable(s) else None, subsets(n), "max")
        return go(ch, kind, StableSet(g), *best, nodes)
    if kind == "vertex cover":
        best = spread(lambda s: len(s) if stable(frozenset(range(n)) - s) else None, subsets(n),
                      "min")
        return go(ch, kind, VertexCover(g), *best, nodes)
    size = ch.choose("size", [None] + list(range(1, n + 2)), free=True)
    best = spread(lambda s: len(s) if clique(s) and size in (None, len(s)) else None, subsets(n),
                  "max")
    return go(ch, kind, Clique(g) if size is None else Clique(g, size), *best, nodes,
              objective=size is None)


def run_sets(ch, kind, n):
    """every family of n subsets of three elements"""
    family = [[b for b in range(3) if ch.flag("S%d has %d" % (k, b), free=True)] for k in range(n)]
    universe = sorted({e for s in family for e in s})
    if not universe and kind == "cover":
        raise Skip()
    hits = lambda c: [sum(e in family[i] for i in c) for e in universe]
    okay = (lambda c: all(h == 1 for h in hits(c))) if kind == "cover" else (
        lambda c: all(h <= 1 for h in hits(c)))
    table, value = spread(lambda c: len(c) if okay(c) else None, subsets(n),
                          "min" if kind == "cover" else "max")
    best = {tuple(tuple(family[i]) for i in sorted(c)) for c in table}
    app = (ExactCover if kind == "cover" else SetPacking)([list(s) for s in family])
    return go(ch, kind, app, best, value, lambda r: tuple(tuple(s) for s in r))


def run_knapsack(ch, n):
    """items of all weights, values and capacities"""
    weights = [ch.choose("weight %d" % i, [1, 2, 3], free=True) for i in range(n)]
    values = [ch.choose("value %d" % i, [1, 3, 2], free=True) for i in range(n)]
    cap = ch.choose("capacity", [3, 1, 2, 4, 7], free=True)
    best = spread(lambda s: sum(values[i] for i in s)
                  if sum(weights[i] for i in s) <= cap else None, subsets(n), "max")
    return go(ch, "knapsack", Knapsack(values, weights, cap), *best, nodes)


def run_numbers(ch, n):
    """every list of numbers"""
    nums = [ch.choose("number %d" % i, [1, 2, 3, 5], free=True) for i in range(n)]
    table, _ = spread(lambda s: 0 if 2 * sum(nums[i] for i in s) == sum(nums) else None,
                      subsets(n), "min")
    best = {(tuple(nums[i] for i in range(n) if i not in s), tuple(nums[i] for i in sorted(s)))
            for s in table}
    return go(ch, "numbers", NumberPartition(nums), best, 0,
              lambda r: tuple(tuple(p) for p in r), objective=False)


def complete(n, weights):
    g = nx.Graph()
    g.add_nodes_from(range(n))
    for (i, j), w in weights.items():
        g.add_edge(i, j, weight=w)
    return g


def lengths(ch, n, alts):
    weights = {(i, j): ch.choose("length %d-%d" % (i, j), alts, free=True)
               for i, j in itertools.combinations(range(n), 2)}
    return weights, lambda i, j: weights[min(i, j), max(i, j)]


def run_tsp(ch, n, alts):
    """every weighting of a complete graph"""
    weights, dist = lengths(ch, n, alts)
    length = lambda p: sum(dist(p[k], p[(k + 1) % n]) for k in range(n))
    best = spread(length, itertools.permutations(range(n)), "min")
    return go(ch, "tsp", Tsp(complete(n, weights)), *best, lambda r: tuple(int(i) for i in r),
              ways=None if n < 4 else ["cplex", "docplex model", "file"])


def run_vrp(ch, n, alts):
    """every weighting of a complete graph, number of vehicles and depot"""
    vehicles = ch.choose("vehicles", [1, 2, 3][:n], free=True)
    depot = ch.choose("depot", list(range(n)), free=True)
    weights, dist = lengths(ch, n, alts)
    others = [i for i in range(n) if i != depot]
    table = {}
    for perm in itertools.permutations(others):
        for cuts in itertools.combinations(range(1, len(perm)), vehicles - 1):
            ends = (0,) + cuts + (len(perm),)
            routes = [(depot,) + perm[a:b] + (depot,) for a, b in zip(ends, ends[1:])]
            if all(len(r) > 2 for r in routes):
                table[frozenset(routes)] = sum(dist(a, b) for r in routes
                                               for a, b in zip(r, r[1:]))
    best, value = spread(table.get, table, "min")

    def read(routes):
        out = []
        for r in routes:
            check(all(a[1] == b[0] for a, b in zip(r, r[1:])), "broken route", r)
            out.append(tuple(int(e[0]) for e in r) + (int(r[-1][1]),))
        check(len(out) == vehicles, "number of routes", routes)
        return frozenset(out)

    return go(ch, "routing", VehicleRouting(complete(n, weights), vehicles, depot), best, value,
              read, ways=None if n < 4 else ["cplex", "docplex model", "file"])


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for kind in ("maxcut", "partition", "stable set", "vertex cover", "clique"):
        for n in (2, 3, 4):
            out.append(Tree("%s, %d nodes" % (kind, n),
                            lambda ch, k=kind, n=n: run_graph(ch, k, n, [1]), 0))
    for kind in ("maxcut", "partition"):
        out.append(Tree("%s, weights" % kind,
                        lambda ch, k=kind: run_graph(ch, k, 3, [1, 2.5, -1]), 0))
    for kind in ("cover", "packing"):
        for n in (1, 2, 3):
            out.append(Tree("%s, %d subsets" % (kind, n),
                            lambda ch, k=kind, n=n: run_sets(ch, k, n), 0))
    for n in (1, 2) + ((3,) if deep else ()):
        out.append(Tree("knapsack, %d items" % n, lambda ch, n=n: run_knapsack(ch, n), 0))
    for n in (2, 3) + ((4,) if deep else ()):
        out.append(Tree("%d numbers" % n, lambda ch, n=n: run_numbers(ch, n), 0))
    out.append(Tree("tsp, 3 nodes", lambda ch: run_tsp(ch, 3, [1, 2, 4]), 0))
    out.append(Tree("tsp, 4 nodes", lambda ch: run_tsp(ch, 4, [1, 3, 4] if deep else [1, 3]), 0))
    out.append(Tree("routing, 3 nodes", lambda ch: run_vrp(ch, 3, [1, 4]), 0))
    out.append(Tree("routing, 4 nodes", lambda ch: run_vrp(ch, 4, [1, 4]), 0))
    return out
