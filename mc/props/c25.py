"""C25: a drawn result shows exactly the chosen nodes and routes."""

import itertools

import networkx as nx
import numpy as np
import matplotlib

matplotlib.use("Agg")
# pylint: disable=wrong-import-position
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection, PathCollection

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.applications import (
    Clique, GraphPartition, Maxcut, StableSet, Tsp, VehicleRouting, VertexCover,
)

from .. import dom
from ..core import Tree, check
from .c22 import routings

ASSUMPTIONS = [
    "feasible routes; positions are given or a default layout is used",
    "networkx and matplotlib draw what they are told; the drawn artists are read back",
]

POS = [(0.0, 0.0), (1.0, 0.25), (0.25, 1.0), (1.5, 1.25)]
KINDS = {"maxcut": Maxcut, "partition": GraphPartition, "stable set": StableSet,
         "vertex cover": VertexCover, "clique": Clique}


def artists():
    """node positions with colours, and the segments of every line collection"""
    axes = plt.gcf().axes
    check(len(axes) == 1, "number of axes", len(axes))
    nodes, lines = [], []
    for c in axes[0].collections:
        if isinstance(c, PathCollection):
            cols = [tuple(v) for v in c.get_facecolor()]
            offs = [tuple(float(v) for v in o) for o in c.get_offsets()]
            if len(cols) == 1:
                cols = cols * len(offs)
            nodes += list(zip(offs, cols))
        elif isinstance(c, LineCollection):
            cols = [tuple(v) for v in c.get_edgecolor()]
            segs = [tuple(tuple(float(x) for x in p) for p in s) for s in c.get_segments()]
            if len(cols) == 1:
                cols = cols * len(segs)
            lines.append((float(max(c.get_linewidth())), list(zip(segs, cols))))
    labels = {t.get_text(): tuple(float(v) for v in t.get_position()) for t in axes[0].texts}
    return nodes, lines, labels


def result_of(x, form, qp):
    if form == "array":
        return np.array(x)
    return dom.answer(x, qp)


def node_pos(n, given, labels):
    """position of every node: given, or where its label was written"""
    if given:
        return [POS[i] for i in range(n)]
    check(sorted(labels) == [str(i) for i in range(n)], "labels", labels)
    return [labels[str(i)] for i in range(n)]


def make_graph(ch, n, edges):
    g = nx.Graph()
    order = ch.choose("node order", [list(range(n)), list(range(n))[::-1],
                                     list(range(1, n)) + [0]], free=True)
    g.add_nodes_from(order)
    for i, j in edges:
        g.add_edge(i, j, weight=1.0 + i + j)
    return g


def run_nodes(ch, n):
    """colours of the nodes for every assignment"""
    kind = ch.choose("application", list(KINDS), free=True)
    edges = [e for e in itertools.combinations(range(n), 2)
             if not ch.flag("no edge %d-%d" % e)]
    g = make_graph(ch, n, edges)
    x = [ch.choose("x%d" % i, [0, 1], free=True) for i in range(n)]
    given = not ch.flag("no positions")
    form = ch.choose("form", ["array", "result"])
    app = KINDS[kind](g)
    qp = app.to_quadratic_program()
    plt.close("all")
    try:
        app.draw(result_of(x, form, qp), {i: POS[i] for i in range(n)} if given else None)
        nodes, lines, labels = artists()
        pos = node_pos(n, given, labels)
        col = {}
        for off, c in nodes:
            hit = [i for i in range(n) if np.allclose(pos[i], off, atol=1e-9)]
            check(len(hit) == 1, "a node is drawn elsewhere", off)
            col[hit[0]] = c
        check(sorted(col) == list(range(n)), "nodes drawn", sorted(col))
        for i, j in itertools.combinations(range(n), 2):
            check((col[i] == col[j]) == (x[i] == x[j]), kind, "colours of nodes", i, j, "with x =",
                  x, "are", col[i], col[j])
        check(sum(len(s) for _, s in lines) == len(edges), "edges drawn")
    finally:
        plt.close("all")
    ch.state((kind, tuple(x), tuple(sorted(col.items()))))
    return kind, tuple(x)


def segments(lines, pos, n):
    """the highlighted edges as node pairs with colours"""
    top = max(w for w, _ in lines)
    check(sum(w == top for w, _ in lines) == 1, "no highlighted edges")
    out = []
    for seg, c in [s for w, segs in lines if w == top for s in segs]:
        ends = []
        for p in (seg[0], seg[-1]):
            hit = [i for i in range(n) if np.allclose(pos[i], p, atol=1e-9)]
            check(len(hit) == 1, "an edge ends elsewhere", p)
            ends.append(hit[0])
        out.append((tuple(sorted(ends)), c))
    return out


def run_tsp(ch, n):
    """the highlighted tour"""
    g = make_graph(ch, n, itertools.combinations(range(n), 2))
    perm = ch.choose("tour", list(itertools.permutations(range(n))), free=True)
    given = not ch.flag("no positions")
    x = np.zeros(n * n)
    for k, i in enumerate(perm):
        x[i * n + k] = 1
    app = Tsp(g)
    qp = app.to_quadratic_program()
    form = ch.choose("form", ["array", "result"])
    plt.close("all")
    try:
        app.draw(result_of(x, form, qp), {i: POS[i] for i in range(n)} if given else None)
        _, lines, labels = artists()
        got = sorted(e for e, _ in segments(lines, node_pos(n, given, labels), n))
    finally:
        plt.close("all")
    want = sorted(tuple(sorted((perm[k], perm[(k + 1) % n]))) for k in range(n))
    check(got == want, "highlighted edges", got, "expected", want)
    ch.state((perm, tuple(got)))
    return tuple(got)


def run_vrp(ch, n):
    """the highlighted routes, one colour per vehicle"""
    cars = ch.choose("vehicles", [2, 1], free=True)
    depot = ch.choose("depot", list(range(n)), free=True)
    g = make_graph(ch, n, itertools.combinations(range(n), 2))
    sel = ch.choose("routes", sorted(sorted(r) for r in routings(n, cars, depot)), free=True)
    given = not ch.flag("no positions")
    arcs = [(i, j) for i in range(n) for j in range(n) if i != j]
    x = [1 if a in sel else 0 for a in arcs]
    app = VehicleRouting(g, cars, depot)
    qp = app.to_quadratic_program()
    form = ch.choose("form", ["array", "result"])
    plt.close("all")
    try:
        app.draw(result_of(x, form, qp), {i: POS[i] for i in range(n)} if given else None)
        _, lines, labels = artists()
        got = segments(lines, node_pos(n, given, labels), n)
    finally:
        plt.close("all")
    check(sorted(e for e, _ in got) == sorted(tuple(sorted(a)) for a in sel), "highlighted edges",
          got, sel)
    # the vehicle of every edge, from the arcs alone
    nxt = {}
    for a, b in sel:
        if a != depot:
            nxt[a] = b
    car = {}
    for k, (_, b) in enumerate(sorted(a for a in sel if a[0] == depot)):
        car[tuple(sorted((depot, b)))] = {k} | car.get(tuple(sorted((depot, b))), set())
        while b != depot:
            e = tuple(sorted((b, nxt[b])))
            car[e] = {k} | car.get(e, set())
            b = nxt[b]
    for (e, c), (f, d) in itertools.combinations(got, 2):
        check((c == d) == bool(car[e] & car[f]), "colours of edges", e, f)
    ch.state((tuple(sel), len(got)))
    return tuple(sel)


def run_many(ch):
    """a dozen nodes, three or more routes"""
    kind = ch.choose("application", list(KINDS) + ["tour", "routes", "star"], free=True)
    turn = ch.choose("turn", list(range(11)), free=True)
    given = ch.choose("positions", [True, False], free=True)
    form = ch.choose("form", ["array", "result"], free=True)
    n = {"routes": 7, "star": 13}.get(kind, 11)
    pos = {i: (float((i * 5 + turn) % n), float(i * i)) for i in range(n)} if given else None
    where = lambda labels: [pos[i] if given else labels[str(i)] for i in range(n)]
    g = nx.Graph()
    g.add_nodes_from((i + turn) % n for i in range(n))
    if kind in KINDS:
        for i in range(n):
            g.add_edge((i + turn) % n, (3 * i + 1) % n if (3 * i + 1) % n != (i + turn) % n else
                       (3 * i + 2) % n, weight=1.0)
        app = KINDS[kind](g)
        points = [x for k, x in enumerate(dom.spread(n)) if k % 11 == turn][:4]
    else:
        for i, j in itertools.combinations(range(n), 2):
            g.add_edge((i + turn) % n, (j + turn) % n, weight=1.0 + i + j)
        if kind == "tour":
            step = turn % (n - 1) + 1
            perm = [(turn + k * step) % n for k in range(n)]
            x = np.zeros(n * n)
            for k, i in enumerate(perm):
                x[i * n + k] = 1
            app, points = Tsp(g), [list(x)]
            want = {tuple(sorted((perm[k], perm[(k + 1) % n]))): 0 for k in range(n)}
        else:
            depot, cars = turn % n, 2 + turn % 3 if kind == "routes" else n - 1
            rest = [(depot + (k + 1) * (turn % 6 + 1)) % n for k in range(n - 1)]
            cuts = [0] + [1 + k for k in range(cars - 1)] + [n - 1]
            routes = [[depot] + rest[a:b] + [depot] for a, b in zip(cuts, cuts[1:])]
            arcs = {a: k for k, r in enumerate(routes) for a in zip(r, r[1:])}
            app = VehicleRouting(g, cars, depot)
            points = [[int((i, j) in arcs) for i in range(n) for j in range(n) if i != j]]
            want = {tuple(sorted(a)): k for a, k in arcs.items()}
    size = len(points[0])
    names = QuadraticProgram()
    names.binary_var_list(size)
    for x in points:
        plt.close("all")
        try:
            app.draw(result_of(x, form, names), pos)
            nodes, lines, labels = artists()
            at = where(labels)
            if kind not in KINDS:
                got = segments(lines, at, n)
        finally:
            plt.close("all")
        if kind in KINDS:
            col = {}
            for off, c in nodes:
                hit = [i for i in range(n) if np.allclose(at[i], off, atol=1e-9)]
                check(len(hit) == 1, "a node is drawn elsewhere", off)
                col[hit[0]] = c
            check(sorted(col) == list(range(n)), "nodes drawn", sorted(col))
            for i, j in itertools.combinations(range(n), 2):
                check((col[i] == col[j]) == (x[i] == x[j]), kind, "colours of nodes", i, j, "with",
                      x, "are", col[i], col[j])
        else:
            check({e for e, _ in got} == set(want), "highlighted edges", got, "expected", want)
            for (e, c), (f, d) in itertools.combinations(got, 2):
                check((c == d) == (want[e] == want[f]) or e == f, "colours of edges", e, f)
        ch.step()
        ch.state((kind, tuple(x)))
    return kind, turn


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("nodes, 3", lambda ch: run_nodes(ch, 3), 2 if deep else 1),
        Tree("nodes, 4", lambda ch: run_nodes(ch, 4), 1 if deep else 0),
        Tree("a dozen nodes", run_many, 0),
        Tree("tour, 3 nodes", lambda ch: run_tsp(ch, 3), 2),
        Tree("tour, 4 nodes", lambda ch: run_tsp(ch, 4), 2 if deep else 1),
        Tree("routes, 3 nodes", lambda ch: run_vrp(ch, 3), 2),
        Tree("routes, 4 nodes", lambda ch: run_vrp(ch, 4), 1 if deep else 0),
    ]
