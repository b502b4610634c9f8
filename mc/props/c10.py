"""C10: penalty terms replace linear equations exactly, and the automatic factor is large enough."""

import numpy as np

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import LinearEqualityToPenalty

from .. import conv as shared, dom
from ..core import Tree, check

ASSUMPTIONS = [
    "the automatic factor is only promised to be large enough for programs with bounded binary and "
    "integer variables and integer coefficients in the equations",
    "binary variables have the bounds 0 and 1",
]


def compare(ch, spec, dst_qp, conv, penalty, near=False):
    """the objective is the original one plus the weighted squared violations"""
    dst = dom.spec_of(dst_qp)
    dom.consistent(dst_qp)
    check(not dst["cons"], "a constraint is left")
    check(dst["sense"] == spec["sense"], "sense", dst["sense"])
    check([v[:2] for v in dst["vars"]] == [v[:2] for v in spec["vars"]], "variables")
    check([(dom.num(v[2]), dom.num(v[3])) for v in spec["vars"]] == [v[2:] for v in dst["vars"]],
          "bounds", dst["vars"])
    factor = conv.penalty
    if penalty is not None:
        check(factor == penalty, "penalty", factor, penalty)
    check(factor is not None and (penalty is not None or factor > 0), "penalty", factor)
    sign = 1 if spec["sense"] == "min" else -1
    best = None
    rows = []
    exact_obj = dom.spec_of(dst_qp, float)
    size = [sum(abs(v) * max(abs(spec["vars"][i][2]), abs(spec["vars"][i][3]))
                for i, v in c["lin"].items()) + abs(c["rhs"]) for c in spec["cons"]]
    size = abs(factor) * sum(v * v for v in size)
    for k, x in enumerate(dom.near(spec) if near else dom.points(spec)):
        viol = sum((dom.ev(c["lin"], {}, x) - c["rhs"]) ** 2 for c in spec["cons"])
        want = dom.obj(spec, x) + sign * factor * viol
        got = dom.obj(exact_obj, x)
        check(abs(got - want) <= 1e-9 + 1e-13 * max(abs(want), size), "objective at",
              x, "is", got, "expected", want)
        back = conv.interpret(list(x) if k % 2 else np.array(x))
        check(list(back) == list(x), "interpret", x, list(back))
        rows.append((viol == 0, sign * got))
        if viol == 0:
            val = sign * dom.obj(spec, x)
            best = val if best is None else min(best, val)
        ch.step()
    exact = all(v[1] != "c" for v in spec["vars"]) and all(
        float(v).is_integer() for c in spec["cons"] for v in [c["rhs"]] + list(c["lin"].values())
    )
    if penalty is None and not near and exact and best is not None:
        for okay, val in rows:
            check(okay or val > best + 1e-9, "an infeasible point is not worse than the optimum:",
                  val, best, "penalty", factor)
    ch.state((dom.canon(dst), factor))
    return best is not None, len(rows)


BASES = [
    dom.make("p0", [("a", "b"), ("b", "b"), ("c", "b")], "min", 1, {0: 1, 1: -2, 2: 1},
             {(0, 1): 1, (1, 1): 2},
             [dict(lin={0: 1, 1: 2}, sense="==", rhs=2, name="l0"),
              dict(lin={1: 1, 2: -1}, sense="==", rhs=0, name="l1")]),
    dom.make("p1", [("x", "i", -2, 1), ("y", "b"), ("z", "i", 1, 3)], "max", -2, {0: 4, 2: 3},
             {(0, 2): 1, (0, 0): -3, (1, 2): -2},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=1, name="c"),
              dict(lin={0: 2}, sense="==", rhs=-2, name="d")]),
    dom.make("p2", [("u", "b"), ("w", "c", -1, 1), ("v", "i", 0, 4)], "max", 0, {0: 1, 1: 5, 2: -1},
             {(1, 1): 1}, [dict(lin={0: 1, 2: 1}, sense="==", rhs=3, name="e")]),
]


def run_prog(ch):
    """all programs within the deviation bound, automatic and given factors"""
    base = ch.choose("base", BASES, free=True)
    penalty = ch.choose("penalty", [None, 7.5], free=True)
    spec = dom.vary(
        ch, base, var_alts=[("b", 0, 1), ("i", -3, 0), ("i", 2, 2), ("c", -1, 2)],
        coefs=[0, 3, -20, 0.5], rhss=[0, -1, 2.5], consts=[0, 2.5], senses=("==",),
        extra=[dom.con({}, {}, "==", 0, "n0"), dom.con({}, {}, "==", 2, "n1"),
               dom.con({0: 1, 1: -1, 2: 2}, {}, "==", 1, "n2")],
    )
    qp = dom.build(spec, ch.choose("format", ["name", "csr"]))
    before = dom.snap(qp)
    how = ch.choose("converter", ["new", "used before", "factor set later", "factor reset"])
    if how == "new":
        conv = (LinearEqualityToPenalty() if penalty is None else
                LinearEqualityToPenalty(penalty))
    elif how == "used before":
        conv = LinearEqualityToPenalty(penalty=penalty)
        conv.convert(dom.build(dom.make("o", [("q", "b")], "max", 0, {0: 0.25}, {},
                                        [dict(lin={0: 1}, sense="==", rhs=1, name="c")])))
    elif how == "factor set later":
        conv = LinearEqualityToPenalty(penalty=123.0)
        conv.penalty = penalty
    else:
        conv = LinearEqualityToPenalty()
        conv.convert(dom.build(BASES[0]))
        conv.penalty = 3
        conv.convert(dom.build(BASES[1]))
        conv.penalty = penalty
    dst = conv.convert(qp)
    check(dom.snap(qp) == before, "conversion changed its input")
    out = compare(ch, spec, dst, conv, penalty)
    if how == "new":
        for bad in ([0] * (len(spec["vars"]) + 1), [0] * (len(spec["vars"]) - 1)):
            try:
                conv.interpret(bad)
            except QiskitOptimizationError:
                continue
            check(False, "a point of the wrong length was interpreted")
    return out


def run_auto(ch, alts=(("b", 0, 1), ("i", -3, 2), ("i", 4, 6), ("i", -5, -4)), others=None,
             sides=(1, 0, 5)):
    """the automatic factor against all objectives over two variables with an alphabet of
    coefficients and bounds"""
    v_1 = ch.choose("x", list(alts), free=True)
    v_2 = ch.choose("y", list(others or alts), free=True)
    sense = ch.choose("sense", ["min", "max"], free=True)
    l_1 = ch.choose("lx", [0, 10, -0.5], free=True)
    l_2 = ch.choose("ly", [0, 7], free=True)
    q_1 = ch.choose("xx", [0, 3, -4], free=True)
    q_2 = ch.choose("xy", [0, 5, -6], free=True)
    eq = ch.choose("equation", [(1, 1), (1, -1), (2, 1), (1, 0)], free=True)
    rhs = ch.choose("rhs", list(sides), free=True)
    spec = dom.make("s", [("x",) + v_1, ("y",) + v_2], sense, 0, {0: l_1, 1: l_2},
                    {(0, 0): q_1, (0, 1): q_2},
                    [dict(lin={0: eq[0], 1: eq[1]}, sense="==", rhs=rhs, name="c")])
    qp = dom.build(spec)
    conv = LinearEqualityToPenalty()
    return compare(ch, spec, conv.convert(qp), conv, None)


def run_many(ch):
    """a dozen variables and equations"""
    n = ch.choose("variables", [12, 11], free=True)
    spec = dom.wide(n, ch.choose("types", ["b", "i", "bic"], free=True),
                    ch.choose("equations", [12, 11, 1], free=True),
                    sense=ch.choose("sense", ["min", "max"], free=True))
    penalty = ch.choose("penalty", [None, 7.5], free=True)
    for c in spec["cons"]:
        c["sense"] = "=="
    qp = dom.build(spec)
    conv = LinearEqualityToPenalty(penalty)
    return compare(ch, spec, conv.convert(qp), conv, penalty, near=True)


def run_factor(ch):
    """given factors of any magnitude, also zero and negative ones, given in any way"""
    spec = ch.choose("base", BASES, free=True)
    penalty = ch.choose("penalty", [0, 0.0, 1, -1, -2.5, 2.0 ** -16, 2.0 ** 30, 2 ** 31, True],
                        free=True)
    how = ch.choose("given", ["first argument", "by name", "later", "after another", "after use"],
                    free=True)
    if how == "first argument":
        conv = LinearEqualityToPenalty(penalty)
    elif how == "by name":
        conv = LinearEqualityToPenalty(penalty=penalty)
    else:
        conv = LinearEqualityToPenalty(4) if how == "after another" else LinearEqualityToPenalty()
        if how == "after use":
            conv.convert(dom.build(BASES[1]))
        conv.penalty = penalty
    for _ in range(2):
        out = compare(ch, spec, conv.convert(dom.build(spec)), conv, penalty)
    return out


def run_scale(ch):
    """coefficients of any magnitude"""
    spec = dom.magnify(ch, ch.choose("base", BASES, free=True), [2.0 ** -16, 2 ** 12, 2.0 ** 20],
                       dom.MORE)
    penalty = ch.choose("penalty", [None, 0.5, 64], free=True)
    conv = LinearEqualityToPenalty(penalty)
    return compare(ch, spec, conv.convert(dom.build(spec)), conv, penalty)


def run_reject(ch):
    """inequalities and quadratic constraints are rejected wherever they stand"""
    kind = ch.choose("kind", ["<=", ">=", "q==", "q<="], free=True)
    pos = ch.choose("position", [0, 1, 2], free=True)
    penalty = ch.choose("penalty", [None, 1.0], free=True)
    spec = dom.make("s", [("x", "b"), ("y", "b")], "min", 0, {0: 1}, {})
    cons = [dom.con({0: 1}, {}, "==", 1, "c0"), dom.con({1: 1}, {}, "==", 1, "c1")]
    bad = dom.con({0: 1}, {(0, 1): 1}, kind[1:], 1, "bad") if kind[0] == "q" else dom.con(
        {0: 1}, {}, kind, 1, "bad")
    cons.insert(pos, bad)
    spec["cons"] = cons
    qp = dom.build(spec)
    before = dom.snap(qp)
    try:
        LinearEqualityToPenalty(penalty).convert(qp)
    except QiskitOptimizationError:
        check(dom.snap(qp) == before, "rejected conversion changed the program")
        ch.state((kind, pos))
        return "rejected"
    check(False, "a constraint that is no linear equation was dropped", kind, pos)


def automatic(ch, spec, dst_qp, conv):
    """the automatic factor"""
    return compare(ch, spec, dst_qp, conv, None)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("programs", run_prog, 3 if deep else 2),
        Tree("automatic factor", run_auto, 0),
        Tree("automatic factor both signs",
             lambda ch: run_auto(ch, [("i", -3, 3), ("i", -4, 3)], [("b", 0, 1), ("i", -2, 2)], [-3, 3, -4]),
             0),
        Tree("a dozen variables", run_many, 0),
        Tree("given factors", run_factor, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("variable names", shared.names(BASES, LinearEqualityToPenalty, automatic), 0),
        Tree("two programs in turn", shared.reuse(BASES, LinearEqualityToPenalty, automatic), 0),
        Tree("rejected", run_reject, 0),
    ]
