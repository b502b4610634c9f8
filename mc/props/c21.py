"""C21: set, knapsack and number applications: the program is the problem, results are read back."""

import copy
import itertools

import numpy as np

from qiskit_optimization.applications import (
    ExactCover, Knapsack, NumberPartition, SetPacking,
)

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = ["at least one subset / item / number, at most 5", "docplex is trusted"]


def compare(ch, tag, app, n, sense, feasible, value, read, pts=None):
    """feasible set, objective and interpretation on all assignments"""
    qp = app.to_quadratic_program()
    spec = dom.spec_of(qp)
    check(len(spec["vars"]) == n, tag, "number of variables", len(spec["vars"]))
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary", spec["vars"])
    if sense:
        check(spec["sense"] == sense, tag, "sense")
    for x in itertools.product([0, 1], repeat=n) if pts is None else pts:
        okay = bool(feasible(x))
        check(dom.feas(spec, x) == okay, tag, "feasibility of", x, "expected", okay)
        if sense:
            want, got = value(x), dom.obj(spec, x)
            check(abs(want - got) < 1e-9, tag, "objective at", x, "is", got, "expected", want)
        want = read(x)
        for form in (np.array(x), np.array(x, dtype=float),
                     dom.answer(x, qp)):
            got = app.interpret(form)
            check(plain(got) == plain(want), tag, "interpret", x, "gives", got, "expected", want)
        ch.step(3)
    ch.state((tag, dom.canon(spec)))
    return spec


def plain(obj):
    if isinstance(obj, (list, tuple, np.ndarray)):
        return [plain(o) for o in obj]
    return obj.item() if isinstance(obj, np.generic) else obj


LABELS = [[0, 1, 2], [5, -3, 12], ["b", "a", "c"]]


def run_sets(ch, kind, n):
    """every family of n subsets of a three element set"""
    labels = ch.choose("labels", LABELS)
    family = []
    for k in range(n):
        family.append([labels[b] for b in range(3) if ch.flag("S%d has %d" % (k, b), free=True)])
    if ch.flag("an element is listed twice"):
        if not family[0]:
            raise Skip()
        family[0] = family[0] + family[0][:1]
    if ch.flag("subsets in reverse order"):
        family = [s[::-1] for s in family]
    universe = sorted({e for s in family for e in s})
    given = copy.deepcopy(family)

    def hits(x):
        return [sum(1 for s, v in zip(given, x) if v and e in s) for e in universe]

    if kind == "cover":
        app, sense, okay = ExactCover(family), "min", lambda x: all(h == 1 for h in hits(x))
    else:
        app, sense, okay = SetPacking(family), "max", lambda x: all(h <= 1 for h in hits(x))
    args = (ch, kind, app, n, sense, okay, sum, lambda x: [s for s, v in zip(given, x) if v])
    spec = compare(*args)
    if ch.flag("again"):
        check(dom.canon(compare(*args)) == dom.canon(spec), "second program differs")
    check(family == given, "the given subsets were modified")
    return kind, len(universe)


def run_knapsack(ch, n):
    """items with all combinations of weights; values and capacity within the bound"""
    weights = [ch.choose("weight %d" % i, [1, 2, 3, 0], free=True) for i in range(n)]
    values = [ch.choose("value %d" % i, [i + 1, 0, -2, 1.5]) for i in range(n)]
    cap = ch.choose("capacity", [3, 0, 1, 4, 5, 2.5, 100], free=True)
    w_0, v_0 = list(weights), list(values)
    app = Knapsack(values, weights, cap)

    def args(cap):
        return (ch, "knapsack", app, n, "max",
                lambda x: sum(w * v for w, v in zip(w_0, x)) <= cap,
                lambda x: sum(w * v for w, v in zip(v_0, x)),
                lambda x: [i for i, v in enumerate(x) if v])

    spec = compare(*args(cap))
    check(app.max_weight == cap, "capacity")
    new = ch.choose("capacity changed to", [None, 2, 0, 7])
    if new is not None:
        app.max_weight = new
        check(app.max_weight == new, "capacity")
        compare(*args(new))
        app.max_weight = cap
        check(dom.canon(compare(*args(cap))) == dom.canon(spec), "program after changing back")
    check(weights == w_0 and values == v_0, "the given lists were modified")
    return tuple(weights), cap


def run_numbers(ch, n):
    """every list of numbers"""
    nums = [ch.choose("number %d" % i, [1, 2, 3, 5, 0, -1], free=True) for i in range(n)]
    given = list(nums)
    app = NumberPartition(nums)
    args = (ch, "numbers", app, n, None,
            lambda x: sum(a for a, v in zip(given, x) if v) == sum(
                a for a, v in zip(given, x) if not v),
            None,
            lambda x: [[a for a, v in zip(given, x) if not v], [a for a, v in zip(given, x) if v]])
    spec = compare(*args)
    check(not spec["lin"] and not spec["quad"], "objective of a pure feasibility problem", spec)
    if ch.flag("again"):
        check(dom.canon(compare(*args)) == dom.canon(spec), "second program differs")
    check(nums == given, "the given list was modified")
    return tuple(sorted(given))


def run_many(ch):
    """a dozen subsets, items or numbers"""
    n = ch.choose("number", [12, 11], free=True)
    kind = ch.choose("application", ["cover", "packing", "knapsack", "numbers"], free=True)
    var = ch.choose("variant", [0, 1, 2, 3, 4, 5], free=True)
    pts = dom.spread(n)
    ids = lambda x: [i for i, v in enumerate(x) if v]
    if kind in ("cover", "packing"):
        family = {0: [[i] for i in range(n)], 1: [[i, (i + 1) % n] for i in range(n)],
                  2: [list(range(i + 1)) for i in range(n)], 3: [["e%d" % (i // 2)] for i in range(n)],
                  4: [[i % 3, 3 + i % 4] for i in range(n)],
                  5: [[100 - i, i] for i in range(n)]}[var]
        universe = {e for s in family for e in s}
        hits = lambda x: [sum(1 for s, v in zip(family, x) if v and e in s) for e in universe]
        if kind == "cover":
            app, sense, okay = ExactCover(family), "min", lambda x: all(h == 1 for h in hits(x))
        else:
            app, sense, okay = SetPacking(family), "max", lambda x: all(h <= 1 for h in hits(x))
        compare(ch, kind, app, n, sense, okay, sum, lambda x: [family[i] for i in ids(x)], pts)
    elif kind == "knapsack":
        weights = [(i * (var + 3)) % 7 + (var % 2) for i in range(n)]
        values = [(i * 5 + var) % 11 - 2 for i in range(n)]
        cap = [4, 9, 15, 0, sum(weights), sum(weights) - 1][var]
        compare(ch, kind, Knapsack(values, weights, cap), n, "max",
                lambda x: sum(weights[i] for i in ids(x)) <= cap,
                lambda x: sum(values[i] for i in ids(x)), ids, pts)
    else:
        nums = [[1] * n, list(range(n)), [(-1) ** i * (i + 1) for i in range(n)],
                [10] + [1] * (n - 1), [n - 1] + [1] * (n - 1), [3, 5] * 6][var][:n]
        compare(ch, kind, NumberPartition(nums), n, None,
                lambda x: 2 * sum(nums[i] for i in ids(x)) == sum(nums), None,
                lambda x: [[a for a, v in zip(nums, x) if not v], [a for a, v in zip(nums, x) if v]],
                pts)
    return kind, var


def run_scale(ch):
    """weights, values, capacities and numbers of any magnitude"""
    kind = ch.choose("application", ["knapsack", "numbers"], free=True)
    n = ch.choose("number", [3, 2, 4], free=True)
    factor = ch.choose("magnitude", [2.0 ** -16, 2 ** 20, 2 ** 31, 10 ** 9, 0.5], free=True)
    if kind == "numbers":
        which = ch.choose("of", ["all"] + list(range(n)), free=True)
        base = ch.choose("numbers", [[1, 2, 3, 4], [3, 1, 2, 0], [1, 1, 2, 2], [-1, 1, 5, 5]], free=True)
        nums = [v * factor if which in ("all", k) else v for k, v in enumerate(base[:n])]
        compare(ch, kind, NumberPartition(list(nums)), n, None,
                lambda x: 2 * sum(a for a, v in zip(nums, x) if v) == sum(nums), None,
                lambda x: [[a for a, v in zip(nums, x) if not v], [a for a, v in zip(nums, x) if v]])
        return kind, factor
    part = ch.choose("of", ["weights", "values", "one weight", "one value"], free=True)
    weights, values = [2, 3, 1, 4][:n], [3, -1, 2, 5][:n]
    cap = ch.choose("capacity", [4, 0, 3.5], free=True)
    if part == "weights":
        weights, cap = [w * factor for w in weights], cap * factor
    elif part == "values":
        values = [v * factor for v in values]
    elif part == "one weight":
        weights[n - 1] = factor
    else:
        values[n - 1] = factor
    compare(ch, kind, Knapsack(list(values), list(weights), cap), n, "max",
            lambda x: sum(w * v for w, v in zip(weights, x)) <= cap,
            lambda x: sum(w * v for w, v in zip(values, x)),
            lambda x: [i for i, v in enumerate(x) if v])
    return kind, part, factor


def scenarios(tier):
    deep = tier == "thorough"
    out = []
    for n in range(1, 6 if deep else 5):
        for kind in ("cover", "packing"):
            out.append(Tree("%s, %d subsets" % (kind, n),
                            lambda ch, k=kind, n=n: run_sets(ch, k, n),
                            2 if n < 4 else 1 if deep and n < 5 else 0))
    for n in range(1, 5 if deep else 4):
        out.append(Tree("knapsack, %d items" % n, lambda ch, n=n: run_knapsack(ch, n),
                        2 if deep or n < 3 else 1))
    for n in range(1, 6 if deep else 5):
        out.append(Tree("%d numbers" % n, lambda ch, n=n: run_numbers(ch, n), 1))
    out.append(Tree("magnitudes", run_scale, 0))
    out.append(Tree("a dozen elements", run_many, 0))
    return out
