"""C08: slack variables turn inequalities into equalities without changing the problem."""

import itertools

import numpy as np

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import InequalityToEquality

from .. import conv as shared, dom
from ..core import Tree, check

ASSUMPTIONS = [
    "binary variables have the bounds 0 and 1; variable names do not contain '@' (documented)",
    "mode 'integer' is checked for programs without continuous variables in inequalities",
    "continuous variables are evaluated on a grid that contains their bounds",
]

INF = dom.INF

BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 2), ("j", "i", 1, 3)], "min", 1, {0: 1, 1: -2},
             {(0, 1): 1, (1, 1): 2},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-3, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1}, sense="<=", rhs=4, name="q0")]),
    dom.make("p1", [("u", "b"), ("v", "b"), ("w", "c", -1, 1)], "max", -2, {1: 1, 2: 3},
             {(0, 2): 1, (0, 0): 3},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="<=", rhs=2, name="c"),
              dict(quad={(0, 0): 1, (1, 2): -1}, sense=">=", rhs=0, name="c"),
              dict(lin={0: 1, 1: -2}, sense="==", rhs=-1, name="e"),
              dict(quad={(0, 1): 1, (1, 1): 2}, lin={0: -1}, sense="<=", rhs=1, name="d")]),
    dom.make("p2", [("x", "i", -3, -1), ("y", "i", 0, 2), ("z", "b")], "max", 0,
             {0: 1, 1: -1, 2: 2}, {},
             [dict(lin={0: 1, 1: 1}, sense=">=", rhs=-2, name="g"),
              dict(lin={0: -2, 2: 1}, sense="<=", rhs=5, name="h"),
              dict(quad={(0, 1): 1, (0, 0): -1}, sense=">=", rhs=-9, name="g")]),
]


def residual_ok(res, slacks, dst, memo):
    """is there a value of the slack variables of one constraint that closes the gap"""
    if not slacks:
        return abs(res) < 1e-9
    if len(slacks) > 1 or slacks[0][0] in memo:
        return None
    i, coef = slacks[0]
    _, typ, low, upp = dst["vars"][i]
    val = res / coef
    memo[i] = val
    if typ in "ib" and abs(val - round(val)) > 1e-9:
        return False
    return low - 1e-9 <= val <= upp + 1e-9


def compare(ch, spec, dst_qp, conv, pts=None):
    """x is feasible for spec iff it can be completed by slacks, with the same objective"""
    dst = dom.spec_of(dst_qp)
    dom.consistent(dst_qp)
    pos = {v[0]: i for i, v in enumerate(dst["vars"])}
    n = len(spec["vars"])
    where = []
    for v in spec["vars"]:
        check(v[0] in pos, "variable lost", v)
        got = dst["vars"][pos[v[0]]]
        check(got[1] == v[1] and got[2] == dom.num(v[2]) and got[3] == dom.num(v[3]),
              "variable changed", got, v)
        where.append(pos[v[0]])
    check(dst["sense"] == spec["sense"], "objective sense")
    check(all(c["sense"] == "==" for c in dst["cons"]), "an inequality is left")
    check(len(dst["cons"]) == len(spec["cons"]), "number of constraints")
    slack = [i for i in range(len(dst["vars"])) if i not in where]
    rows = []
    for c in dst["cons"]:
        rows.append([(i, v) for i, v in c["lin"].items() if i in slack])
        for i, j in c["quad"]:
            check(i not in slack and j not in slack, "slack in a quadratic term")
    n_feas = 0
    for x in pts if pts is not None else dom.points(spec, cont=(0, 0.25, 0.5, 1)):
        full = [0.0] * len(dst["vars"])
        for p, xi in zip(where, x):
            full[p] = xi
        feasible = dom.feas(spec, x)
        memo = {}
        oks = []
        for c, row in zip(dst["cons"], rows):
            res = c["rhs"] - dom.ev(c["lin"], c["quad"], full)
            oks.append(residual_ok(res, row, dst, memo))
        check(None not in oks, "slack variables are shared between constraints")
        check(all(oks) == feasible, "at", x, "original feasible:", feasible, "completable:",
              all(oks), oks, "slacks", [dst["vars"][i] for i in slack])
        for i, val in memo.items():
            full[i] = val
        check(abs(dom.obj(dst, full) - dom.obj(spec, x)) < 1e-9, "objective at", x)
        back = conv.interpret(full if len(spec["cons"]) % 2 else np.array(full))
        check(len(back) == n and all(abs(p - q) < 1e-9 for p, q in zip(back, x)),
              "interpret", full, "is", list(back), "expected", x)
        n_feas += feasible
        ch.step()
    ch.state(dom.canon(dst))
    return n_feas, len(slack)


def has_float(spec):
    for c in spec["cons"]:
        if c["sense"] == "==":
            continue
        if any(v != int(v) for v in list(c["lin"].values()) + list(c["quad"].values())):
            return True
    return False


def run_conv(ch):
    """all programs within the deviation bound, all modes, also with a used converter"""
    return _conv(ch, dict(
        var_alts=[("b", 0, 1), ("i", -2, 1), ("i", 2, 2), ("i", 0, 3), ("c", -1, 2)],
        coefs=[0, 1, -2, 0.5], rhss=[0, -1, 2.5, 3, -6]))


def run_pairs(ch):
    """the same with narrower alphabets"""
    return _conv(ch, dict(
        var_alts=[("i", -2, 1), ("c", -1, 2)], coefs=[-2, 0.5], rhss=[2.5, -6], drop=False))


def _conv(ch, alphabets):
    base = ch.choose("base", BASES, free=True)
    mode = ch.choose("mode", ["auto", "integer", "continuous"], free=True)
    spec = dom.vary(
        ch, base, **alphabets, consts=(), quad=False,
        extra=[dom.con({}, {}, "<=", 1, "n0"), dom.con({}, {}, ">=", 1, "n1"),
               dom.con({0: 1, 1: 1, 2: 1}, {}, "<=", -7, "n2"),
               dom.con({0: 1, 1: 1, 2: 1}, {}, ">=", 0.5, "n3")],
    )
    if mode == "integer":
        for c in spec["cons"]:
            used = set(c["lin"]) | {i for k in c["quad"] for i in k}
            if c["sense"] != "==" and any(spec["vars"][i][1] == "c" for i in used):
                return "user's choice"
    qp = dom.build(spec)
    before = dom.snap(qp)
    set_mode = ch.flag("set the mode later")
    conv = InequalityToEquality("continuous") if set_mode else (
        InequalityToEquality() if mode == "auto" else InequalityToEquality(mode=mode))
    if set_mode:
        conv.mode = mode
    check(conv.mode == mode, "mode")
    used = ch.choose("converter used before", [None, 0, 1, 2])
    first = None
    if used is not None:
        other = dom.build(BASES[used])
        try:
            first = conv.convert(other)
            first_snap = dom.snap(first)
        except QiskitOptimizationError:
            first = None
    try:
        dst = conv.convert(qp)
    except QiskitOptimizationError:
        check(mode == "integer" and has_float(spec), "a convertible program was rejected")
        check(dom.snap(qp) == before, "rejected conversion changed the program")
        return "rejected"
    check(not (mode == "integer" and has_float(spec)),
          "integer slack for an inequality with fractional coefficients")
    check(dom.snap(qp) == before, "conversion changed its input")
    if first is not None:
        check(dom.snap(first) == first_snap, "conversion changed an earlier result")
    out = compare(ch, spec, dst, conv)
    check(dom.snap(qp) == before, "interpretation changed the program")
    return out


def run_small(ch):
    """one constraint over two variables: all senses, right-hand sides and bounds"""
    kind = ch.choose("kind", ["l", "q"], free=True)
    mode = ch.choose("mode", ["auto", "integer", "continuous"], free=True)
    bounds = [("b", 0, 1), ("i", -2, 1), ("i", -3, -1), ("i", 1, 3), ("i", 0, 0)]
    v_1 = ch.choose("x", bounds, free=True)
    v_2 = ch.choose("y", bounds, free=True)
    c_1 = ch.choose("a", [1, -2, 3], free=True)
    c_2 = ch.choose("b", [1, -1, 0], free=True)
    sense = ch.choose("sense", ["<=", ">="], free=True)
    rhs = ch.choose("rhs", [0, 1, -1, 2.5, -1.5, 4], free=True)
    spec = dom.make("s", [("x",) + v_1, ("y",) + v_2], "min", 0, {0: 1}, {})
    if kind == "l":
        spec["cons"] = [dom.con({0: c_1, 1: c_2}, {}, sense, rhs, "c")]
    else:
        spec["cons"] = [dom.con({1: c_2} if c_2 else {}, {(0, 1): c_1, (1, 1): 1}, sense, rhs, "c")]
    qp = dom.build(spec)
    conv = InequalityToEquality(mode)
    return compare(ch, spec, conv.convert(qp), conv)


def run_many(ch):
    """a dozen variables and of constraints of each kind"""
    n = ch.choose("variables", [12, 11], free=True)
    types = ch.choose("types", ["b", "bi", "ib"], free=True)
    mode = ch.choose("mode", ["auto", "integer", "continuous"], free=True)
    shift = ch.choose("first sense", [0, 1, 2], free=True)
    spec = dom.wide(n, types, 12, ch.choose("quadratic constraints", [0, 11], free=True))
    for k, c in enumerate(spec["cons"]):
        c["sense"] = ("<=", ">=", "==")[(k + shift) % 3]
        # feasible around the point of the bounds, but tight
        at = dom.ev(c["lin"], c["quad"], [v[2] for v in spec["vars"]])
        c["rhs"] = at + {"<=": 2, ">=": -2, "==": 0}[c["sense"]]
    qp = dom.build(spec)
    conv = InequalityToEquality(mode)
    return compare(ch, spec, conv.convert(qp), conv, dom.near(spec))


def run_inf(ch):
    """unbounded variables"""
    kind = ch.choose("kind", ["l", "q"], free=True)
    mode = ch.choose("mode", ["auto", "continuous"], free=True)
    sense = ch.choose("sense", ["<=", ">="], free=True)
    v_1 = ch.choose("x", [("c", 0, INF), ("c", -INF, INF), ("i", 0, INF)], free=True)
    c_1 = ch.choose("a", [1, -2], free=True)
    c_2 = ch.choose("b", [1, -1], free=True)
    rhs = ch.choose("rhs", [0, 1, -1.5], free=True)
    spec = dom.make("s", [("x",) + v_1, ("y", "b", 0, 1)], "min", 0, {0: 1}, {})
    if kind == "l":
        spec["cons"] = [dom.con({0: c_1, 1: c_2}, {}, sense, rhs, "c")]
    else:
        spec["cons"] = [dom.con({1: c_2}, {(0, 1): c_1}, sense, rhs, "c")]
    qp = dom.build(spec)
    conv = InequalityToEquality(mode)
    return compare(ch, spec, conv.convert(qp), conv)


def run_scale(ch):
    """coefficients of any magnitude"""
    spec = dom.magnify(ch, ch.choose("base", BASES, free=True), [2.0 ** -16, 2.0 ** 20, 2.0 ** 33],
                       dom.MORE)
    qp = dom.build(spec)
    mode = ch.choose("mode", ["auto", "integer", "continuous"], free=True)
    for c in spec["cons"] if mode == "integer" else []:
        used = set(c["lin"]) | {i for k in c["quad"] for i in k}
        if c["sense"] != "==" and any(spec["vars"][i][1] == "c" for i in used):
            return "user's choice"
    conv = InequalityToEquality(mode)
    try:
        dst = conv.convert(qp)
    except QiskitOptimizationError:
        check(mode == "integer" and has_float(spec), "a convertible program was rejected")
        return "rejected"
    check(not (mode == "integer" and has_float(spec)),
          "integer slack for an inequality with fractional coefficients")
    return compare(ch, spec, dst, conv)


def run_reject(ch):
    """an unknown mode is rejected"""
    kind = ch.choose("kind", ["l", "q"], free=True)
    mode = ch.choose("mode", ["int", "", "AUTO"], free=True)
    spec = dom.make("s", [("x", "b"), ("y", "b")], "min", 0, {0: 1}, {})
    spec["cons"] = [dom.con({0: 1}, {(0, 1): 1} if kind == "q" else {}, "<=", 1, "c")]
    qp = dom.build(spec)
    before = dom.snap(qp)
    try:
        InequalityToEquality(mode).convert(qp)
    except QiskitOptimizationError:
        check(dom.snap(qp) == before, "rejected conversion changed the program")
        ch.state((kind, mode))
        return "rejected"
    check(False, "unknown mode accepted", mode)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("one constraint", run_small, 0),
        Tree("programs", run_conv, 2 if deep else 1),
        Tree("programs, pairs of deviations", run_pairs, 3 if deep else 2),
        Tree("many elements", run_many, 0),
        Tree("unbounded variables", run_inf, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("variable names", shared.names(BASES, InequalityToEquality, compare), 0),
        Tree("two programs in turn", shared.reuse(BASES, InequalityToEquality, compare), 0),
        Tree("rejected", run_reject, 0),
    ]


del itertools
