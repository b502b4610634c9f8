"""C23: instance files, random instances and measured strings are read as what they say."""

import itertools
import os
import shutil
import tempfile
from collections import OrderedDict

import networkx as nx
import numpy as np
from qiskit.opflow import DictStateFn, VectorStateFn
from qiskit.utils import algorithm_globals

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.applications import Maxcut, StableSet, Tsp, VehicleRouting
from qiskit_optimization.applications import OptimizationApplication

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "Gset files without blank lines, every edge listed once, integer weights",
    "TSPLIB files of type TSP with EUC_2D coordinates; other types must be rejected",
    "random instances: a fixed set of sizes, ranges and seeds",
    "a StateFn is only promised to be read exactly when one outcome is certain",
]


def in_file(text, func):
    """writes a scratch file, calls func on it and removes it"""
    folder = tempfile.mkdtemp(prefix="mc_c23_")
    try:
        path = os.path.join(folder, "instance.txt")
        with open(path, "w") as file:
            file.write(text)
        return func(path)
    finally:
        shutil.rmtree(folder)


def run_gset(ch, n):
    """every graph in Gset format, with weights, edge directions and line orders"""
    edges = []
    for i, j in itertools.combinations(range(n), 2):
        if ch.flag("edge %d-%d" % (i, j), free=True):
            w = ch.choose("weight %d-%d" % (i, j), [1, -1, 3, 20, 0])
            if ch.flag("%d-%d reversed" % (i, j)):
                i, j = j, i
            edges.append((i, j, w))
    if ch.flag("lines in reverse order"):
        edges.reverse()
    sep = ch.choose("separator", [" ", "  ", "\t"])
    end = ch.choose("last line", ["\n", ""])
    text = "\n".join([sep.join([str(n), str(len(edges))])]
                     + [sep.join(str(v) for v in (i + 1, j + 1, w)) for i, j, w in edges]) + end
    want = np.zeros((n, n))
    for i, j, w in edges:
        want[i, j] = want[j, i] = w
    got = in_file(text, Maxcut.parse_gset_format)
    check(np.array_equal(np.asarray(got), want), "adjacency matrix", got, "expected", want)
    qp = Maxcut(got).to_quadratic_program()
    spec = dom.spec_of(qp)
    for x in itertools.product([0, 1], repeat=n):
        cut = sum(w for i, j, w in edges if x[i] != x[j])
        check(abs(dom.obj(spec, x) - cut) < 1e-9, "cut value of", x)
        res = Maxcut.get_gset_result(np.array(x))
        check({int(k): int(v) for k, v in res.items()} == {i + 1: 1 - x[i] for i in range(n)},
              "Gset result of", x, res)
        ch.step(2)
    ch.state((n, tuple(sorted(edges))))
    return len(edges)


COORDS = [(0, 0), (3, 4), (10, 0), (1, 1), (-2.5, 7), (0.5, 0.25)]


def run_tsplib(ch, n):
    """TSPLIB files: coordinates, header orders and styles, node orders, endings"""
    coord = [ch.choose("node %d" % i, COORDS[i % 6:] + COORDS[: i % 6], free=n < 3)
             for i in range(n)]
    colon = ch.choose("colon", [": ", " : ", ":"], free=True)
    typ = ch.choose("type", ["TSP", "ATSP", "TSP ", "HCP"])
    weight = ch.choose("weight type", ["EUC_2D", "GEO", "EUC_2D  ", "EXPLICIT"])
    comment = ch.choose("comment", ["", "COMMENT%s5 towns\n", "COMMENT%sTSP: EUC_3D\n"])
    order = list(range(n))
    if ch.flag("nodes in reverse order"):
        order.reverse()
    num = ch.choose("numbers", ["plain", "exponent", "aligned"])
    ending = ch.choose("ending", ["EOF\n", "", "EOF", "\nEOF\n", "\n"])
    swap = ch.flag("header in another order")
    head = ["NAME%stest" % colon, (comment % colon).rstrip("\n") if comment else None,
            "TYPE%s%s" % (colon, typ), "DIMENSION%s%d" % (colon, n),
            "EDGE_WEIGHT_TYPE%s%s" % (colon, weight)]
    head = [h for h in head if h]
    if swap:
        head.reverse()
    fmt = {"plain": "%d %s %s", "exponent": "%d %s %s", "aligned": "  %d   %s   %s"}[num]
    form = (lambda v: "%.6e" % v) if num == "exponent" else (lambda v: repr(v))
    text = "\n".join(head + ["NODE_COORD_SECTION"]
                     + [fmt % (i + 1, form(coord[i][0]), form(coord[i][1])) for i in order])
    text += "\n" + ending
    okay = typ.strip() == "TSP" and weight.strip() == "EUC_2D"
    try:
        app = in_file(text, Tsp.parse_tsplib_format)
    except QiskitOptimizationError:
        check(not okay, "a valid file was rejected")
        return "rejected"
    check(okay, "an unsupported file was accepted", typ, weight)
    check_metric(app.graph, n, lambda i: coord[i])
    ch.state(text)
    return "read"


def run_lines(ch):
    """all orders of the node lines and of the header lines, with and without the optional ones"""
    n = ch.choose("nodes", [3, 4], free=True)
    order = ch.choose("order", list(itertools.permutations(range(n))), free=True)
    head = ch.choose("header order", list(itertools.permutations(range(4))), free=True)
    name = ch.choose("name", ["NAME : t", "", "NAME: a : b", "NAME :"], free=True)
    coord = [(5, 5), (1, 0), (9, 9), (0, 0)][-n:]
    coord = coord[1:] + coord[:1] if ch.flag("rotated", free=True) else coord
    lines = [name, "TYPE : TSP", "DIMENSION : %d" % n, "EDGE_WEIGHT_TYPE : EUC_2D"]
    lines = [lines[k] for k in head if lines[k]]
    lines.append("NODE_COORD_SECTION")
    lines += ["%d %d %d" % (i + 1, coord[i][0], coord[i][1]) for i in order]
    if ch.flag("end marked", free=True):
        lines.append("EOF")
    app = in_file("\n".join(lines) + "\n", Tsp.parse_tsplib_format)
    check_metric(app.graph, n, lambda i: coord[i])
    ch.step()
    ch.state((n, order, head, name))
    return order


def check_metric(graph, n, pos):
    """a complete graph with rounded Euclidean distances"""
    check(sorted(graph.nodes) == list(range(n)), "nodes", graph.nodes)
    check(graph.number_of_edges() == n * (n - 1) // 2, "graph is not complete", graph.edges)
    for i, j in itertools.combinations(range(n), 2):
        want = np.rint(np.hypot(pos(i)[0] - pos(j)[0], pos(i)[1] - pos(j)[1]))
        check(graph.edges[i, j]["weight"] == want, "weight", i, j, graph.edges[i, j], want)
    for i in range(n):
        check(tuple(float(v) for v in graph.nodes[i]["pos"]) == tuple(float(v) for v in pos(i)),
              "position", i)


def describe(app):
    g = app.graph
    return (sorted((int(v), tuple(float(c) for c in d["pos"])) for v, d in g.nodes(data=True)),
            sorted((int(min(e)), int(max(e)), float(d["weight"])) for *e, d in g.edges(data=True)))


def run_random(ch):
    """random instances are complete, in range and reproducible"""
    kind = ch.choose("kind", ["tsp", "routing", "graph"], free=True)
    seed = ch.choose("seed", [0, 1, 2, 7, 123, 2**31], free=True)
    n = ch.choose("nodes", [3, 1, 2, 5], free=True)
    low, high = ch.choose("range", [(0, 100), (-3, 2), (10, 11)], free=True)
    ch.step(2)
    if kind == "graph":
        m = ch.choose("edges", list(range(n * (n - 1) // 2 + 1)), free=True)
        g_1, g_2 = StableSet.random_graph(n, m, seed), StableSet.random_graph(n, m, seed)
        check(sorted(g_1.nodes) == list(range(n)) and g_1.number_of_edges() == m, "size")
        check(sorted(g_1.edges) == sorted(g_2.edges), "not reproducible")
        return kind, sorted(g_1.edges)
    if kind == "tsp":
        make = lambda: Tsp.create_random_instance(n, low, high, seed)
    else:
        cars = ch.choose("vehicles", [2, 1, 3], free=True)
        depot = ch.choose("depot", list(range(n)), free=True)
        make = lambda: VehicleRouting.create_random_instance(n, low, high, seed, cars, depot)
    app = make()
    pos = nx.get_node_attributes(app.graph, "pos")
    check_metric(app.graph, n, lambda i: pos[i])
    check(all(low <= c <= high for p in pos.values() for c in p), "coordinates out of range", pos)
    if kind == "routing":
        check(app.num_vehicles == cars and app.depot == depot, "settings")
    disturb = ch.choose("between", [None, "numpy", "qiskit"], free=True)
    if disturb == "numpy":
        np.random.rand(3)
    elif disturb == "qiskit":
        algorithm_globals.random.random(3)
    check(describe(make()) == describe(app), "not reproducible")
    ch.state(describe(app))
    return kind, seed, n


def run_likely(ch, n):
    """most likely string of counts, amplitudes and state functions"""
    size = 2**n
    kind = ch.choose("kind", ["dict", "ordered", "array", "statefn", "dictfn"], free=True)
    best = ch.choose("most likely", list(range(size)), free=True)
    want = [(best >> i) & 1 for i in range(n)]
    if kind in ("statefn", "dictfn"):
        phase = ch.choose("phase", [1, -1, 1j], free=True)
        vec = np.zeros(size, dtype=complex)
        vec[best] = phase
        state = VectorStateFn(vec) if kind == "statefn" else DictStateFn(
            {format(best, "0%db" % n): phase})
        got = OptimizationApplication.sample_most_likely(state)
    else:
        vals = [ch.choose("amount %d" % k, [1, 0, 5], free=True) if k != best else 8
                for k in range(size)]
        if kind == "array":
            phase = ch.choose("phase", [1, -1, 1j, -1j])
            vec = np.array(vals, dtype=complex)
            vec[best] *= phase
            if phase == 1 and ch.flag("real"):
                vec = vec.real
            got = OptimizationApplication.sample_most_likely(vec)
        else:
            items = [(format(k, "0%db" % n), v) for k, v in enumerate(vals) if v]
            if ch.flag("reverse order"):
                items.reverse()
            cont = (dict if kind == "dict" else OrderedDict)(items)
            got = OptimizationApplication.sample_most_likely(cont)
    check([int(v) for v in got] == want, "most likely", got, "expected", want)
    ch.step()
    return kind, best


def run_close(ch):
    """amounts that differ by little, and little amounts"""
    n = ch.choose("qubits", [2, 1, 3], free=True)
    best = ch.choose("most likely", list(range(2**n)), free=True)
    other = ch.choose("second", list(range(2**n)), free=True)
    if best == other:
        raise Skip()
    gap = 2.0 ** -ch.choose("gap", list(range(2, 42, 3)), free=True)
    size = ch.choose("size", [1.0, 2.0 ** -20, 2.0 ** 30], free=True)
    rest = ch.choose("rest", [0, 0.5, 1], free=True)
    kind = ch.choose("kind", ["array", "complex", "dict", "ordered"], free=True)
    vals = np.full(2**n, 1.0)
    vals[:] = rest
    vals[other] = 1
    vals[best] = 1 + gap
    if kind == "array":
        state = size * vals * np.where(np.arange(2**n) % 2, 1, -1)
    elif kind == "complex":
        state = size * vals * np.array([1, -1j, 1j, -1] * 2)[:2**n]
    else:
        state = (dict if kind == "dict" else OrderedDict)(
            [(format(k, "0%db" % n), size * v) for k, v in enumerate(vals)])
    got = OptimizationApplication.sample_most_likely(state)
    check([int(v) for v in got] == [(best >> i) & 1 for i in range(n)], "most likely", got,
          "of", vals)
    ch.state((kind, n, best))
    ch.step()
    return kind, best


def run_many(ch):
    """files and outcomes with numbers of two digits"""
    n = ch.choose("nodes", [12, 10, 11], free=True)
    kind = ch.choose("kind", ["gset", "tsplib", "dict", "array"], free=True)
    shift = ch.choose("shift", list(range(n)), free=True)
    if kind == "gset":
        edges = [((i + shift) % n, (3 * i + shift + 1) % n, 10 * i - 25) for i in range(n)]
        edges = {frozenset(e[:2]): e for e in edges if e[0] != e[1]}.values()
        text = "\n".join(["%d %d" % (n, len(edges))]
                         + ["%d %d %d" % (i + 1, j + 1, w) for i, j, w in edges]) + "\n"
        want = np.zeros((n, n))
        for i, j, w in edges:
            want[i, j] = want[j, i] = w
        got = in_file(text, Maxcut.parse_gset_format)
        check(np.array_equal(np.asarray(got), want), "adjacency matrix", got, "expected", want)
        for x in dom.spread(n):
            res = Maxcut.get_gset_result(np.array(x))
            check({int(k): int(v) for k, v in res.items()} == {i + 1: 1 - x[i] for i in range(n)},
                  "Gset result of", x, res)
    elif kind == "tsplib":
        coord = [(7 * ((i + shift) % n) - 20, 113 * i % 97 + 0.5) for i in range(n)]
        text = "\n".join(["NAME: t", "TYPE: TSP", "DIMENSION: %d" % n, "EDGE_WEIGHT_TYPE: EUC_2D",
                          "NODE_COORD_SECTION"]
                         + ["%d %r %r" % (i + 1, coord[i][0], coord[i][1])
                            for i in sorted(range(n), key=lambda i: (i * 5 + shift) % n)] + ["EOF"])
        app = in_file(text, Tsp.parse_tsplib_format)
        check_metric(app.graph, n, lambda i: coord[i])
    else:
        for best in (1 << shift, 2**n - 1 - (1 << shift), (37 * shift + 5) % 2**n):
            want = [(best >> i) & 1 for i in range(n)]
            if kind == "dict":
                counts = {format((best + 3 * k) % 2**n, "0%db" % n): 9 - k for k in range(6)}
                got = OptimizationApplication.sample_most_likely(counts)
            else:
                vec = np.full(2**n, 0.01, dtype=complex)
                vec[best] = -0.4j
                got = OptimizationApplication.sample_most_likely(vec)
            check([int(v) for v in got] == want, "most likely", got, "expected", want)
    ch.state((kind, n, shift))
    ch.step()
    return kind, shift


def scenarios(tier):
    deep = tier == "thorough"
    out = [Tree("gset, %d nodes" % n, lambda ch, n=n: run_gset(ch, n), b)
           for n, b in [(1, 2), (2, 4), (3, 4 if deep else 3), (4, 2)]
           + ([(5, 1)] if deep else [])]
    out += [Tree("tsplib, %d nodes" % n, lambda ch, n=n: run_tsplib(ch, n), b)
            for n, b in [(1, 3), (2, 2), (3, 4 if deep else 3), (4, 3 if deep else 2)]]
    out.append(Tree("a dozen nodes", run_many, 0))
    out.append(Tree("random instances", run_random, 0))
    out.append(Tree("order of lines", run_lines, 0))
    out.append(Tree("close calls", run_close, 0))
    out += [Tree("most likely, %d qubits" % n, lambda ch, n=n: run_likely(ch, n), 2)
            for n in ((1, 2, 3) if deep else (1, 2))]
    return out
