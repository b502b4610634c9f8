"""C20: graph applications: the program is the graph problem, and results are read back as nodes."""

import itertools

import networkx as nx
import numpy as np

from qiskit_optimization.applications import (
    Clique, GraphPartition, Maxcut, StableSet, VertexCover,
)

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "nodes are 0..n-1 with n <= 5 (6 in the thorough tier), in any insertion order",
    "docplex is trusted",
]


def edge_values(n, edges):
    """edges: {(i, j): weight or None (no weight attribute)}"""
    return {e: (1 if w is None else w) for e, w in edges.items()}


def sides(n, x):
    return [[i for i in range(n) if x[i] == 0], [i for i in range(n) if x[i] == 1]]


def ones(n, x):
    return [i for i in range(n) if x[i] == 1]


def cut(n, edges, x):
    return sum(w for (i, j), w in edge_values(n, edges).items() if x[i] != x[j])


def adjacent(edges, i, j):
    return (i, j) in edges or (j, i) in edges


def stable(n, edges, x):
    s = ones(n, x)
    return not any(adjacent(edges, i, j) for i in s for j in s)


def covers(n, edges, x):
    return all(x[i] or x[j] for i, j in edges)


def clique(n, edges, x):
    s = ones(n, x)
    return all(adjacent(edges, i, j) for i, j in itertools.combinations(s, 2))


# name -> (make, sense, feasible, value, interpreted)
APPS = {
    "maxcut": (lambda g, s: Maxcut(g), "max", lambda n, e, x, s: True,
               lambda n, e, x, s: cut(n, e, x), sides),
    "partition": (lambda g, s: GraphPartition(g), "min",
                  lambda n, e, x, s: sum(x) == n // 2, lambda n, e, x, s: cut(n, e, x), sides),
    "stable set": (lambda g, s: StableSet(g), "max", lambda n, e, x, s: stable(n, e, x),
                   lambda n, e, x, s: sum(x), ones),
    "vertex cover": (lambda g, s: VertexCover(g), "min", lambda n, e, x, s: covers(n, e, x),
                     lambda n, e, x, s: sum(x), ones),
    "clique": (lambda g, s: Clique(g) if s is None else Clique(g, s), "max",
               lambda n, e, x, s: clique(n, e, x) and (s is None or sum(x) == s),
               lambda n, e, x, s: sum(x) if s is None else None, ones),
}


def same_nodes(got, want):
    if want and isinstance(want[0], list):
        return [sorted(int(v) for v in part) for part in got] == want
    return sorted(int(v) for v in got) == want


def compare(ch, app_name, app, n, edges, size, pts=None):
    """feasible set, objective and interpretation on all assignments"""
    _, sense, feasible, value, read = APPS[app_name]
    qp = app.to_quadratic_program()
    spec = dom.spec_of(qp)
    check(len(spec["vars"]) == n, "number of variables", len(spec["vars"]), n)
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary", spec["vars"])
    if value(n, edges, [0] * n, size) is not None:
        check(spec["sense"] == sense, "sense", spec["sense"])
    for x in itertools.product([0, 1], repeat=n) if pts is None else pts:
        okay = feasible(n, edges, x, size)
        check(dom.feas(spec, x) == okay, app_name, "feasibility of", x, "expected", okay)
        want = value(n, edges, x, size)
        if want is not None:
            got = dom.obj(spec, x)
            check(abs(got - want) < 1e-9, app_name, "objective at", x, "is", got, "expected", want)
        nodes = read(n, x)
        for form in (np.array(x), np.array(x, dtype=float),
                     dom.answer(x, qp)):
            got = app.interpret(form)
            check(same_nodes(got, nodes), app_name, "interpret", x, "gives", got)
        ch.step(3)
    ch.state((app_name, n, dom.canon(spec)))
    return spec


def graph_of(n, edges, form, order=None):
    """the input of the application in one of the accepted forms"""
    if form in ("graph", "reversed"):
        g = nx.Graph()
        nodes = list(range(n))
        g.add_nodes_from(nodes if form == "graph" else nodes[::-1])
        for (i, j), w in sorted(edges.items(), reverse=form == "reversed"):
            if form == "reversed":
                i, j = j, i
            if w is None:
                g.add_edge(i, j)
            else:
                g.add_edge(i, j, weight=w)
        return g
    if form == "matrix":
        mat = np.zeros((n, n))
        for (i, j), w in edge_values(n, edges).items():
            if w == 0:
                raise Skip()
            mat[i, j] = mat[j, i] = w
        return mat
    if len({v for e in edges for v in e}) < n:
        raise Skip()
    return [(i, j) if w is None else (i, j, {"weight": w}) for (i, j), w in edges.items()]


def run_graph(ch, n):
    """every graph; up to the bound: weights, loops, forms, sizes, repeated use"""
    app_name = ch.choose("application", list(APPS), free=True)
    pairs = list(itertools.combinations(range(n), 2))
    edges = {}
    for e in pairs:
        if ch.flag("edge %d-%d" % e, free=True):
            edges[e] = None
    for e in list(edges):
        edges[e] = ch.choose("weight %d-%d" % e, [None, 2, -1, 0.5, 0])
    loop = ch.choose("loop", [None] + list(range(n)))
    if loop is not None:
        edges[loop, loop] = None
    form = ch.choose("form", ["graph", "reversed", "matrix", "edge list"])
    data = graph_of(n, edges, form)
    before = (sorted((min(e), max(e), tuple(d.items())) for *e, d in data.edges(data=True))
              if isinstance(data, nx.Graph) else None)
    size = None
    if app_name == "clique":
        size = ch.choose("size", [None] + list(range(n + 1)))
    app = APPS[app_name][0](data, size)
    if app_name == "clique" and ch.flag("size changed"):
        app.to_quadratic_program()
        size = 2 if size is None else None
        app.size = size
        check(app.size == size, "size")
    spec = compare(ch, app_name, app, n, edges, size)
    if ch.flag("again"):
        again = compare(ch, app_name, app, n, edges, size)
        check(dom.canon(spec) == dom.canon(again), "second program differs")
    if before is not None:
        after = sorted((min(e), max(e), tuple(d.items())) for *e, d in data.edges(data=True))
        check(before == after, "the given graph was modified")
    if isinstance(data, nx.Graph) and ch.flag("given graph changed afterwards"):
        data.add_edge(0, n - 1, weight=7)
        data.add_node(n)
        compare(ch, app_name, app, n, edges, size)
    check(set(app.graph.nodes) == set(range(n)), "nodes", app.graph.nodes)
    check({(min(e), max(e)) for e in app.graph.edges} == set(edges), "edges", app.graph.edges)
    return app_name, len(edges)


def run_many(ch):
    """structured graphs on a dozen nodes, also with one edge more or less"""
    n = ch.choose("nodes", [12, 11], free=True)
    app_name = ch.choose("application", list(APPS), free=True)
    shape = ch.choose("graph", ["ring", "path", "star", "grid", "complete", "matching", "empty"],
                      free=True)
    edges = {
        "ring": [(i, (i + 1) % n) for i in range(n)], "path": [(i, i + 1) for i in range(n - 1)],
        "star": [(i, 10) for i in range(n) if i != 10],
        "grid": [(i, i + 1) for i in range(n - 1) if i % 4 != 3] + [
            (i, i + 4) for i in range(n - 4)],
        "complete": list(itertools.combinations(range(n), 2)),
        "matching": [(i, n - 1 - i) for i in range(n // 2)], "empty": [],
    }[shape]
    edges = {(min(e), max(e)): None for e in edges}
    for k, e in enumerate(sorted(edges)):
        edges[e] = (None, 2, -1, 0.5)[k % 4]
    flip = ch.choose("toggled edge", [None, (0, n - 1), (2, 10), (1, 9), (9, 10)])
    if flip is not None:
        if flip in edges:
            del edges[flip]
        else:
            edges[flip] = 3
    size = None
    if app_name == "clique":
        size = ch.choose("size", [None, 2, 10])
    data = graph_of(n, edges, ch.choose("form", ["graph", "reversed", "matrix"]))
    app = APPS[app_name][0](data, size)
    pts = dom.spread(n) + [tuple(int(i < n // 2) for i in range(n))]
    compare(ch, app_name, app, n, edges, size, pts)
    return app_name, shape


def run_scale(ch):
    """edge weights of any magnitude, on every graph of up to four nodes"""
    n = ch.choose("nodes", [4, 3, 2], free=True)
    app_name = ch.choose("application", list(APPS), free=True)
    edges = {e: 1.0 for e in itertools.combinations(range(n), 2) if ch.flag("edge %d-%d" % e, free=True)}
    if not edges:
        raise Skip()
    factor = ch.choose("magnitude", [2.0 ** -16, 2.0 ** 30, -(2.0 ** 16), 2 ** 20], free=True)
    which = ch.choose("of", ["all", "first", "last"], free=True)
    for k, e in enumerate(sorted(edges)):
        if which == "all" or k == {"first": 0, "last": len(edges) - 1}[which]:
            edges[e] = factor * (k + 1)
    form = ch.choose("form", ["graph", "matrix", "edge list"], free=True)
    app = APPS[app_name][0](graph_of(n, edges, form), None)
    compare(ch, app_name, app, n, edges, None)
    return app_name, factor


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for n, bound in [(1, 3), (2, 3), (3, 3), (4, 2 if deep else 1), (5, 1 if deep else 0)]:
        out.append(Tree("graphs on %d nodes" % n, lambda ch, n=n: run_graph(ch, n), bound))
    out.append(Tree("magnitudes", run_scale, 0))
    out.append(Tree("graphs on a dozen nodes", run_many, 2 if deep else 1))
    if deep:
        out.append(Tree("graphs on 6 nodes", lambda ch: run_graph(ch, 6), 0))
    return out
