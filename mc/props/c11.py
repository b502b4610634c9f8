"""C11: the QUBO of a program has the same optima."""

import numpy as np

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.converters import QuadraticProgramToQubo

from .. import conv as shared, dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "at most 14 binary variables in the QUBO; all their assignments are enumerated",
    "binary variables have the bounds 0 and 1, integer variables have finite bounds",
]


def compatible(spec):
    """what can be expressed as a QUBO: no continuous variable, no quadratic constraint, integer
    coefficients in the constraints"""
    if any(v[1] == "c" for v in spec["vars"]):
        return False
    if any(c["kind"] == "q" for c in spec["cons"]):
        return False
    return all(float(v).is_integer() for c in spec["cons"] for v in c["lin"].values())


def compare(ch, spec, dst_qp, conv, penalty):
    dst = dom.spec_of(dst_qp)
    dom.consistent(dst_qp)
    check(all(v[1:] == ("b", 0.0, 1.0) for v in dst["vars"]), "not binary", dst["vars"])
    check(not dst["cons"], "a constraint is left")
    check(dst["sense"] == spec["sense"], "sense")
    m = len(dst["vars"])
    if m > 14:
        raise Skip()
    sign = 1 if spec["sense"] == "min" else -1
    zs = dom.cube(m)
    vals = sign * dom.evals(dst, zs)
    best, arg = dom.solve(spec)
    seen = {}
    for z, val in zip(zs, vals):
        x = conv.interpret(z if m % 2 else list(z))
        check(len(x) == len(spec["vars"]), "length of the interpreted point")
        key = tuple(round(float(v), 9) for v in x)
        for v, var in zip(key, spec["vars"]):
            check(var[2] <= v <= var[3] and v == int(v), "interpreted value", v, var)
        if key not in seen or val < seen[key]:
            seen[key] = val
        ch.step()
    for x in dom.points(spec):
        key = tuple(float(v) for v in x)
        check(key in seen, "no assignment is interpreted as", x)
        own = sign * dom.obj(spec, x)
        if dom.feas(spec, x):
            check(abs(seen[key] - own) < 1e-6 * max(1, abs(own)), "best value of the feasible point",
                  x, "is", sign * seen[key], "expected", sign * own)
        else:
            check(seen[key] > own + 1e-9, "no penalty at the infeasible point", x)
            if best is not None and penalty is None:
                check(seen[key] > sign * best + 1e-9, "the infeasible point", x,
                      "is not worse than the optimum", sign * seen[key], best)
    if best is not None and penalty is None:
        low = vals.min()
        check(abs(low - sign * best) < 1e-6 * max(1, abs(best)), "optimum", sign * low, "expected",
              best)
        opt = {tuple(round(float(v), 9) for v in conv.interpret(z))
               for z, val in zip(zs, vals) if val <= low + 1e-7}
        check(opt == {tuple(float(v) for v in x) for x in arg}, "optimal points", opt, arg)
    ch.state(dom.canon(dst))
    return best, m


BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -1, 2), ("c", "b")], "min", 1, {0: 1, 1: -2, 2: 1},
             {(0, 1): 1, (1, 1): 2},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense="==", rhs=0, name="l1")]),
    dom.make("p1", [("x", "b"), ("y", "b"), ("z", "i", 1, 3)], "max", -2, {0: 4, 2: 3},
             {(0, 2): 1, (0, 1): -3, (1, 2): -2},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense=">=", rhs=2, name="c"),
              dict(lin={0: -2, 1: 1}, sense="<=", rhs=1, name="d")]),
    dom.make("p2", [("u", "b"), ("w", "b"), ("v", "b")], "max", 0, {0: 1, 1: 5, 2: -1},
             {(1, 2): 1, (0, 0): -2}, []),
]


def run_prog(ch):
    """all programs within the deviation bound, also with a used converter"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(
        ch, base, var_alts=[("b", 0, 1), ("i", -3, 0), ("i", 2, 2), ("c", -1, 2)],
        coefs=[0, 3, -6, 0.5], rhss=[0, -1, 2.5], consts=[0.5],
        extra=[dom.con({}, {}, "<=", 2, "n1"), dom.con({0: 1, 1: -1, 2: 2}, {}, ">=", 1, "n2"),
               dom.con({0: 1}, {(0, 1): 1}, "==", 0, "n3"), dom.con({1: 1}, {}, "<=", 0, "n0", "q"),
               dom.con({0: 1, 1: 1, 2: 1}, {}, "<=", -9, "n4")],
    )
    penalty = ch.choose("penalty", [None, 2.5])
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = QuadraticProgramToQubo(penalty) if penalty else QuadraticProgramToQubo()
    used = ch.choose("converter used before", [None, 0, 1, 2, "itself", "incompatible"])
    if ch.flag("factor set later"):
        conv.penalty = 10
        if used is not None and used in (0, 1, 2):
            conv.convert(dom.build(BASES[used]))
        conv.penalty = penalty
    if used == "incompatible":
        bad = dom.make("bad", [("n", "c", 0, 1), ("a", "i", 0, 3)], "min", 0, {0: 1}, {}, [])
        try:
            conv.convert(dom.build(bad))
        except QiskitOptimizationError:
            pass
    elif used is not None:
        try:
            conv.convert(dom.build(BASES[used]) if used != "itself" else qp)
        except QiskitOptimizationError:
            pass
    okay = compatible(spec)
    msg = conv.get_compatibility_msg(qp)
    check((len(msg) == 0) == okay, "compatibility message", repr(msg), "expected compatible:", okay)
    check(conv.is_compatible(qp) == okay, "is_compatible")
    try:
        dst = conv.convert(qp)
    except QiskitOptimizationError:
        check(not okay, "a compatible program was rejected")
        check(dom.snap(qp) == before, "rejected conversion changed the program")
        return "rejected"
    check(okay, "an incompatible program was converted")
    check(dom.snap(qp) == before, "conversion changed its input")
    out = compare(ch, spec, dst, conv, penalty)
    check(penalty is None or conv.penalty == penalty, "the given factor is", conv.penalty)
    check(dom.snap(qp) == before, "interpretation changed the program")
    return out


def run_small(ch):
    """two variables, one constraint: all bounds, senses, coefficients and right-hand sides"""
    alts = [("b", 0, 1), ("i", -2, 1), ("i", 1, 3)]
    v_1 = ch.choose("x", alts, free=True)
    v_2 = ch.choose("y", alts, free=True)
    sense = ch.choose("sense", ["min", "max"], free=True)
    objective = ch.choose("objective", [({0: 2, 1: -1}, {}), ({0: -1}, {(0, 1): 2, (1, 1): -1})],
                          free=True)
    c_1 = ch.choose("a", [1, -2, 3], free=True)
    c_2 = ch.choose("b", [1, -1], free=True)
    con_sense = ch.choose("constraint", ["<=", ">=", "=="], free=True)
    rhs = ch.choose("rhs", [0, 1, -1, 2.5], free=True)
    spec = dom.make("s", [("x",) + v_1, ("y",) + v_2], sense, 0, objective[0], objective[1],
                    [dict(lin={0: c_1, 1: c_2}, sense=con_sense, rhs=rhs, name="c")])
    qp = dom.build(spec)
    conv = QuadraticProgramToQubo()
    return compare(ch, spec, conv.convert(qp), conv, None)


def run_many(ch):
    """eleven variables"""
    n = 11
    spec = dom.wide(n, "b", sense=ch.choose("sense", ["min", "max"], free=True))
    rule = ch.choose("constraints", ["one-hot", "pairs", "range", "none"], free=True)
    if rule == "one-hot":
        spec["cons"] = [dom.con({i: 1 for i in range(n)}, {}, "==", 1, "c0")]
    elif rule == "pairs":
        spec["cons"] = [dom.con({0: 1, 10: 1}, {}, "<=", 1, "c0"),
                        dom.con({2: 1, 9: -1}, {}, "==", 0, "c1"),
                        dom.con({1: 1, 7: 1}, {}, ">=", 1, "c2")]
    elif rule == "range":
        spec["cons"] = [dom.con({i: 1 for i in range(0, n, 3)}, {}, "<=", 2, "c0")]
    qp = dom.build(spec)
    conv = QuadraticProgramToQubo()
    return compare(ch, spec, conv.convert(qp), conv, None)


def run_scale(ch):
    """objectives and constraints of any magnitude, automatic and given factors"""
    spec = ch.choose("base", BASES, free=True)
    part = ch.choose("of", ["objective", "constraints", "constant", "linear", "quadratic",
                            "one constraint"], free=True)
    if part in ("constraints", "one constraint"):
        factor = ch.choose("magnitude", [2 ** 4, 2 ** 10, -1, -(2 ** 8)], free=True)
    else:
        factor = ch.choose("magnitude", [2.0 ** -16, 2.0 ** 12, 2.0 ** 20, -1], free=True)
    spec = dom.scaled(spec, factor, part)
    penalty = ch.choose("penalty", [None, 0.5, 2.0 ** 20], free=True)
    conv = QuadraticProgramToQubo(penalty)
    return compare(ch, spec, conv.convert(dom.build(spec)), conv, penalty)


def automatic(ch, spec, dst_qp, conv):
    """the automatic factor"""
    return compare(ch, spec, dst_qp, conv, None)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("two variables", run_small, 0),
        Tree("eleven variables", run_many, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("variable names", shared.names(BASES, QuadraticProgramToQubo, automatic), 0),
        Tree("two programs in turn", shared.reuse(BASES, QuadraticProgramToQubo, automatic), 0),
        Tree("programs", run_prog, 3 if deep else 2),
    ]


del np
