"""C22: routing applications: feasible points are exactly the tours, with their lengths."""

import functools
import itertools

import networkx as nx
import numpy as np

from qiskit_optimization.applications import Tsp, VehicleRouting

from .. import dom
from ..core import Tree, check

ASSUMPTIONS = [
    "complete graphs with a weight on every edge, nodes 0..n-1 in any insertion order",
    "all assignments of up to 16 variables (20 in the thorough tier) are enumerated; with up to 7 "
    "nodes all placements of every node at one step, all choices of one way out per customer, and "
    "the neighbours of all feasible assignments",
]


def graph_of(n, weights, form):
    if form == "matrix":
        mat = np.zeros((n, n))
        for (i, j), w in weights.items():
            mat[i, j] = mat[j, i] = w
        return mat
    g = nx.Graph()
    g.add_nodes_from(range(n) if form == "graph" else range(n)[::-1])
    for (i, j), w in sorted(weights.items(), reverse=form != "graph"):
        g.add_edge(*((i, j) if form == "graph" else (j, i)), weight=w)
    return g


def dist(weights, i, j):
    return weights[min(i, j), max(i, j)]


@functools.lru_cache(maxsize=4)
def cube(n):
    return dom.cube(n)


def feasible_rows(spec, pts):
    """vectorised feasibility of all rows"""
    ok = np.ones(len(pts), dtype=bool)
    for c in spec["cons"]:
        check(c["kind"] == "l", "quadratic constraint")
        row = np.zeros(pts.shape[1])
        for i, v in c["lin"].items():
            row[i] = v
        lhs = pts @ row
        ok &= lhs <= c["rhs"] if c["sense"] == "<=" else (
            lhs >= c["rhs"] if c["sense"] == ">=" else lhs == c["rhs"])
    return ok


def forms(x, qp):
    return (np.array(x), dom.answer(x, qp))


def choose_weights(ch, n, alts):
    return {(i, j): ch.choose("weight %d-%d" % (i, j), [1 + i + 2 * j] + alts)
            for i, j in itertools.combinations(range(n), 2)}


def run_tsp(ch, n, some):
    """travelling salesman: all assignments"""
    weights = choose_weights(ch, n, [0.5, 7, -1])
    form = ch.choose("form", ["graph", "reversed", "matrix"])
    data = graph_of(n, weights, form)
    app = Tsp(data)
    qp = app.to_quadratic_program()
    if ch.flag("again"):
        qp_0, qp = qp, app.to_quadratic_program()
        check(dom.canon(dom.spec_of(qp)) == dom.canon(dom.spec_of(qp_0)), "second program differs")
    spec = dom.spec_of(qp)
    check(len(spec["vars"]) == n * n, "number of variables", len(spec["vars"]))
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary")
    check(spec["sense"] == "min", "sense")
    pts = cube(n * n)
    ok = feasible_rows(spec, pts)
    tours = {}
    adj = np.zeros((n, n))
    for (i, j), w in weights.items():
        adj[i, j] = adj[j, i] = w
    for perm in itertools.permutations(range(n)):
        x = np.zeros(n * n)
        for k, i in enumerate(perm):
            x[i * n + k] = 1
        tours[tuple(x)] = perm
    got = {tuple(x) for x in pts[ok]}
    check(got == set(tours), "feasible points are not the tours: missing", len(set(tours) - got),
          "too many", len(got - set(tours)))
    for x, perm in tours.items():
        want = sum(dist(weights, perm[k], perm[(k + 1) % n]) for k in range(n)) if n > 1 else 0
        check(abs(dom.obj(spec, x) - want) < 1e-9, "length of", perm, dom.obj(spec, x), want)
        check(abs(Tsp.tsp_value(list(perm), adj) - want) < 1e-9, "tsp_value", perm)
        for f in forms(x, qp):
            route = app.interpret(f)
            check(list(route) == list(perm), "interpret", x, "gives", route, "expected", perm)
        ch.step(3)
    # an infeasible assignment is reported step by step: the nodes visited at that step
    for x in pts[:: some]:
        want = []
        for k in range(n):
            at = [i for i in range(n) if x[i * n + k]]
            want.append(at[0] if len(at) == 1 else at)
        check(app.interpret(x) == want, "interpret", x, "expected", want)
        ch.step()
    ch.state((n, dom.canon(spec)))
    return n, len(got)


@functools.lru_cache(maxsize=64)
def routings(n, vehicles, depot):
    """all sets of arcs that are `vehicles` routes through the depot covering every node once"""
    others = [i for i in range(n) if i != depot]
    out = set()
    for perm in itertools.permutations(others):
        for cuts in itertools.combinations(range(1, len(perm)), vehicles - 1):
            bounds = (0,) + cuts + (len(perm),)
            arcs = set()
            for a, b in zip(bounds, bounds[1:]):
                path = (depot,) + perm[a:b] + (depot,)
                arcs |= set(zip(path, path[1:]))
            out.add(frozenset(arcs))
    return out if vehicles >= 1 and len(others) >= vehicles else set()


def check_routes(routes, arcs, vehicles, depot):
    """routes of a feasible point"""
    routes = [[tuple(e) for e in r] for r in routes]
    check(len(routes) == vehicles, "number of routes", routes)
    for r in routes:
        check(r and r[0][0] == depot and r[-1][1] == depot, "route does not start and end at the "
              "depot", r)
        check(all(a[1] == b[0] for a, b in zip(r, r[1:])), "route is not connected", r)
        check(all(e[0] != depot for e in r[1:]), "route passes the depot", r)
    check(sorted(e for r in routes for e in r) == sorted(arcs), "edges of the routes", routes)


def run_vrp(ch, n, some):
    """vehicle routing: all assignments"""
    vehicles = ch.choose("vehicles", [2, 1, 3], free=True)
    depot = ch.choose("depot", list(range(n)), free=True)
    weights = choose_weights(ch, n, [0.5, 7, -1])
    form = ch.choose("form", ["graph", "reversed", "matrix"])
    data = graph_of(n, weights, form)
    if ch.flag("settings changed later"):
        app = VehicleRouting(data)
        app.to_quadratic_program()
        app.num_vehicles = vehicles
        app.depot = depot
    else:
        app = VehicleRouting(data, vehicles, depot)
    check(app.num_vehicles == vehicles and app.depot == depot, "settings")
    qp = app.to_quadratic_program()
    spec = dom.spec_of(qp)
    arcs = [(i, j) for i in range(n) for j in range(n) if i != j]
    check(len(spec["vars"]) == len(arcs), "number of variables", len(spec["vars"]))
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary")
    check(spec["sense"] == "min", "sense")
    pts = cube(len(arcs))
    ok = feasible_rows(spec, pts)
    want = routings(n, vehicles, depot)
    got = {frozenset(a for a, v in zip(arcs, x) if v): x for x in pts[ok]}
    check(set(got) == want, "feasible points are not the routings: missing", len(want - set(got)),
          "too many", len(set(got) - want))
    cost = np.array([dist(weights, i, j) for i, j in arcs])
    if spec["quad"] or spec["const"]:
        vals = dom.evals(spec, pts)
    else:
        vals = pts @ np.array([spec["lin"].get(k, 0.0) for k in range(len(arcs))])
    check(np.abs(vals - pts @ cost).max() < 1e-9, "objective is not the length")
    for sel, x in got.items():
        for f in forms(x, qp):
            check_routes(app.interpret(f), sel, vehicles, depot)
        ch.step(2)
    # nothing is lost when an infeasible assignment is interpreted
    for x in pts[:: some]:
        routes = app.interpret(x)
        sel = sorted(a for a, v in zip(arcs, x) if v)
        check(sorted(tuple(e) for r in routes for e in r) == sel, "edges of", routes, "selected",
              sel)
        for r in routes[:vehicles]:
            if r:
                check(r[0][0] == depot, "route does not start at the depot", r)
            check(all(a[1] == b[0] for a, b in zip(r, r[1:])), "route is not connected", r)
        ch.step()
    ch.state((n, dom.canon(spec)))
    return n, vehicles, depot, len(got)


def default_weights(ch, n):
    """the default weights, one of them replaced"""
    out = {(i, j): 1 + i + 2 * j + (i * j) % 3 for i, j in itertools.combinations(range(n), 2)}
    pair = ch.choose("changed weight", [None] + sorted(out))
    if pair is not None:
        out[pair] = ch.choose("weight", [0.5, -1, 2.0 ** -16, 2.0 ** 30], free=True)
    return out


@functools.lru_cache(maxsize=4)
def placements(n):
    """all assignments that give every node exactly one step, as rows, and the steps"""
    steps = np.array(list(itertools.product(range(n), repeat=n)))
    mat = np.zeros((len(steps), n * n))
    rows = np.arange(len(steps))
    for i in range(n):
        mat[rows, i * n + steps[:, i]] = 1
    return mat, steps


def run_tsp_large(ch, n):
    """larger instances: all assignments of one step per node, all tours, all their neighbours"""
    weights = default_weights(ch, n)
    app = Tsp(graph_of(n, weights, ch.choose("form", ["matrix", "graph", "reversed"])))
    qp = app.to_quadratic_program()
    spec = dom.spec_of(qp)
    check(len(spec["vars"]) == n * n and all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]),
          "variables")
    check(spec["sense"] == "min", "sense")
    pts, steps = placements(n)
    tour = np.array([len(set(row)) == n for row in steps.tolist()])
    check((feasible_rows(spec, pts) == tour).all(), "feasible placements are not the tours")
    tours = pts[tour]
    dmat = np.zeros((n, n))
    for (i, j), w in weights.items():
        dmat[i, j] = dmat[j, i] = w
    order = np.argsort(steps[tour], axis=1)
    want = sum(dmat[order[:, k], order[:, (k + 1) % n]] for k in range(n))
    vals = dom.evals(spec, tours)
    bad = np.nonzero(np.abs(vals - want) > 1e-9)[0]
    check(not len(bad), "length of", order[bad[:1]].tolist(), vals[bad[:1]], want[bad[:1]])
    for k in range(n * n):
        other = tours.copy()
        other[:, k] = 1 - other[:, k]
        check(not feasible_rows(spec, other).any(), "a neighbour of a tour is feasible", k)
    for x, perm in zip(tours[::7], order[::7].tolist()):
        check(list(app.interpret(x)) == perm, "interpret", x, "expected", perm)
        check(abs(Tsp.tsp_value(perm, dmat) - sum(
            dist(weights, perm[k], perm[(k + 1) % n]) for k in range(n))) < 1e-9, "tsp_value", perm)
    ch.step(len(pts) + len(tours) * (n * n + 1))
    ch.state((n, dom.canon(spec)))
    return n, len(tours)


@functools.lru_cache(maxsize=64)
def successors(n, depot, full):
    """all assignments with one way out of every customer; ways out of the depot free or forced"""
    arcs = {a: k for k, a in enumerate((i, j) for i in range(n) for j in range(n) if i != j)}
    others = [i for i in range(n) if i != depot]
    rows = []
    for nxt in itertools.product(range(n), repeat=len(others)):
        if any(a == b for a, b in zip(others, nxt)):
            continue
        entered = set(nxt)
        starts = [[i for i in others if i not in entered]]
        if full:
            starts = [s for r in range(len(others) + 1) for s in itertools.combinations(others, r)]
        for s in starts:
            rows.append([arcs[a] for a in zip(others, nxt)] + [arcs[depot, i] for i in s])
    mat = np.zeros((len(rows), len(arcs)))
    for r, idx in enumerate(rows):
        mat[r, idx] = 1
    return mat


def run_vrp_large(ch, n, full):
    """larger instances: all assignments with one way out of every customer"""
    vehicles = ch.choose("vehicles", [2, 1, 3], free=True)
    depot = ch.choose("depot", [0, n - 1] if not full else [1, n - 1, 0], free=True)
    weights = default_weights(ch, n)
    app = VehicleRouting(graph_of(n, weights, ch.choose("form", ["matrix", "graph", "reversed"])),
                         vehicles, depot)
    qp = app.to_quadratic_program()
    spec = dom.spec_of(qp)
    arcs = [(i, j) for i in range(n) for j in range(n) if i != j]
    check(len(spec["vars"]) == len(arcs), "number of variables", len(spec["vars"]))
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]) and spec["sense"] == "min", "variables")
    pts = successors(n, depot, full)
    want = routings(n, vehicles, depot)
    found = pts[feasible_rows(spec, pts)]
    got = {frozenset(a for a, v in zip(arcs, x) if v): x for x in found}
    check(set(got) == want, "feasible points are not the routings: missing", len(want - set(got)),
          "too many", len(set(got) - want), [sorted(g) for g in list(set(got) - want)[:1]])
    check(not spec["quad"] and not spec["const"], "objective is not linear")
    check(all(abs(spec["lin"].get(k, 0) - dist(weights, i, j)) < 1e-9
              for k, (i, j) in enumerate(arcs)), "objective is not the length")
    for k in range(len(arcs)):
        other = found.copy()
        other[:, k] = 1 - other[:, k]
        check(not feasible_rows(spec, other).any(), "a neighbour of a routing is feasible")
    for x in found[::5]:
        sel = [a for a, v in zip(arcs, x) if v]
        check_routes(app.interpret(x), sel, vehicles, depot)
    ch.step(len(pts) + len(found) * len(arcs))
    ch.state((n, dom.canon(spec)))
    return n, vehicles, depot, len(got)


def scenarios(tier):
    deep = tier == "thorough"
    out = [Tree("tsp, %d nodes" % n, lambda ch, n=n: run_tsp(ch, n, 7 if n > 3 else 1), b)
           for n, b in [(1, 2), (2, 3), (3, 5 if deep else 4), (4, 3 if deep else 2)]]
    out += [Tree("routing, %d nodes" % n, lambda ch, n=n, s=s: run_vrp(ch, n, s), b)
            for n, b, s in [(2, 3, 1), (3, 4 if deep else 3, 1), (4, 2, 1 if deep else 5),
                            (5, 1 if deep else 0, 997 if deep else 9973)]]
    out += [Tree("tsp, %d nodes, placements" % n, lambda ch, n=n: run_tsp_large(ch, n), b)
            for n, b in [(5, 1), (6, 1 if deep else 0)] + [(7, 0)] * deep]
    out += [Tree("routing, %d nodes, successors" % n, lambda ch, n=n, f=f: run_vrp_large(ch, n, f), b)
            for n, f, b in [(5, True, 1), (6, True, 1 if deep else 0), (7, False, 0)]]
    return out
