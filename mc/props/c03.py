"""C03: feasibility information is exact for every point."""

import itertools

import numpy as np

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "points whose integrality matches the variable types are not distinguished: the statement is "
    "about bounds and constraints",
    "dyadic coefficients, so that left-hand sides are exact",
]

BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 3), ("y", "c", -1, 2)], "min", 0, {0: 1}, {},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-1, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1}, sense="<=", rhs=4, name="q0")]),
    dom.make("p1", [("u", "b"), ("v", "b"), ("w", "b")], "max", 1, {1: 1}, {(0, 2): 1},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="c"),
              dict(quad={(0, 0): 1, (1, 2): -1}, sense=">=", rhs=0, name="c"),
              dict(lin={}, sense="<=", rhs=1, name="empty"),
              dict(quad={(0, 1): 1, (2, 2): 2}, lin={0: -1}, sense="==", rhs=1, name="qe")]),
]


def values(k, var):
    """in-range and out-of-range values of a variable, including the bounds themselves"""
    _, typ, low, upp = var
    if typ == "b":
        return ([0, 1, 2], [0, 1], [-1, 0, 1], [0, 1])[k]
    cap = min(upp, 6)
    out = ([low, cap, cap + 0.5], [low - 1, low, cap, cap + 1], [low - 0.5, low, cap], [-1, 1])[k]
    return sorted(set(out))


def run_feas(ch):
    """all programs within the deviation bound of the bases, all points around their boxes"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(
        ch, base,
        var_alts=[("b", 0, 1), ("i", 0, 3), ("i", -2, 1), ("i", 2, 2), ("c", -1, 2),
                  ("c", -1.5, dom.INF), ("i", 0, dom.INF)],
        coefs=[1, 0, -2] + ([0.5] if DEEP else []), rhss=[0, -1, 2.5], obj_sense=False, consts=(), quad=False,
        con_quad=True,
    )
    fmt = ch.choose("format", ["name", "list", "csr"])
    late = ch.flag("variable added after the constraints")
    if ch.flag("variable tightened") and spec["vars"][1][3] >= 1 and spec["vars"][1][1] != "b":
        tight = True
    else:
        tight = False
    qp = dom.build(spec, fmt)
    if late:
        var = ("late", "i", -1, 1)
        dom.add_var(qp, var)
        spec["vars"].append(var)
    if tight:
        name, typ, low, upp = spec["vars"][1]
        if low <= 1 <= upp:
            qp.get_variable(1).upperbound = 1
            spec["vars"][1] = (name, typ, low, 1)
    before = dom.snap(qp)
    cons = list(qp.linear_constraints) + list(qp.quadratic_constraints)
    ref_cons = [c for c in spec["cons"] if c["kind"] == "l"] + [
        c for c in spec["cons"] if c["kind"] == "q"
    ]
    seen = 0
    for k, x in enumerate(itertools.product(*[values(i, v) for i, v in enumerate(spec["vars"])])):
        if late and k % 3:
            continue
        arg = (list(x), np.array(x), np.array(x, dtype=float))[k % 3]
        feasible, bad_vars, bad_cons = qp.get_feasibility_info(arg)
        want_vars = [v[0] for v, xi in zip(spec["vars"], x) if not v[2] <= xi <= v[3]]
        want_cons = [i for i, c in enumerate(ref_cons) if not dom.sat(c, x)]
        check([v.name for v in bad_vars] == want_vars, "violated variables at", x,
              [v.name for v in bad_vars], want_vars)
        check(all(v is qp.get_variable(v.name) for v in bad_vars), "not the program's variables")
        check(len(bad_cons) == len(want_cons), "violated constraints at", x,
              [c.name for c in bad_cons], [ref_cons[i]["name"] for i in want_cons])
        check(all(any(c is cons[i] for c in bad_cons) for i in want_cons),
              "violated constraints at", x, [c.name for c in bad_cons])
        check(bool(feasible) == (not want_vars and not want_cons), "feasible flag at", x, feasible)
        if k % 13 == 0:
            check(qp.objective.evaluate(arg) == dom.obj(spec, x), "objective at", x)
            for con, ref in zip(cons, ref_cons):
                check(con.evaluate(arg) == dom.ev(ref["lin"], ref["quad"], x), "constraint at", x,
                      con.name)
        if k % 4 == 0:
            check(bool(qp.is_feasible(arg)) == bool(feasible), "is_feasible differs at", x)
        seen = seen * 2 % 1000003 + bool(feasible)
        ch.step()
    check(dom.snap(qp) == before, "feasibility check changed the program")
    for bad in ([0] * (len(spec["vars"]) + 1), [0] * (len(spec["vars"]) - 1)):
        try:
            qp.get_feasibility_info(bad)
        except Exception:  # pylint: disable=broad-except
            continue
        check(False, "a point of the wrong length was accepted", bad)
    ch.state(before)
    return seen


def run_scale(ch):
    """one constraint or bound of any magnitude, missed by a little or by much"""
    kind = ch.choose("kind", ["linear", "quadratic", "bounds"], free=True)
    sense = ch.choose("sense", ["<=", ">=", "=="], free=True)
    scale = ch.choose("scale", [1, 0, -1, 2 ** 6, -(2 ** 10), 500, 2 ** 16, 2 ** 30, -(2 ** 31), 2.0 ** -16], free=True)
    coef = ch.choose("coefficient", [1, -2, 0.5], free=True)
    delta = ch.choose("miss", [0, 2 ** -3, -(2 ** -3), 1, -1, 2 ** -8, -(2 ** -8), 40, -40,
                                2.0 ** -18, -(2.0 ** -18), 2.0 ** -24, -(2.0 ** -24)], free=True)
    if 0 < abs(delta) < 2.0 ** -20 and abs(scale) > 2 ** 16:
        raise Skip()  # beyond the precision of floating point numbers
    if sense == "==" and kind != "bounds" and scale and abs(delta) / abs(scale) < 1e-6:
        delta *= 2.0 ** 40  # equations are compared with a relative tolerance
    spec = dom.make("s", [("x", "c", -dom.INF, dom.INF), ("y", "i", -3, 3)], "max", 2, {0: 1}, {})
    val = (scale + delta) / coef
    point = [val, 2]
    if kind == "linear":
        spec["cons"].append(dom.con({0: coef, 1: 3}, {}, sense, scale + 6, "c"))
    elif kind == "quadratic":
        spec["cons"].append(dom.con({1: -1}, {(0, 1): coef}, sense, 2 * scale - 2, "c"))
    else:
        low = scale if sense != "<=" else -dom.INF
        upp = scale if sense != ">=" else dom.INF
        spec["vars"][0] = ("x", "c", low, upp)
        point = [scale + delta, 2]
    qp = dom.build(spec)
    ok, bad_vars, bad_cons = qp.get_feasibility_info(point)
    want = {"<=": delta <= 0, ">=": delta >= 0, "==": delta == 0}[sense]
    check(bool(ok) == want, "feasible flag", ok, "expected", want, kind, sense, scale, delta, coef)
    check(len(bad_vars) == int(not want and kind == "bounds"), "violated variables", bad_vars)
    check(len(bad_cons) == int(not want and kind != "bounds"), "violated constraints", bad_cons)
    ch.step()
    ch.state((kind, sense, scale, coef, delta))
    return want


def run_forms(ch):
    """points in every form a caller can give: lists, arrays of other types, dictionaries by name
    and index, complete or not, with numbers of several types"""
    values = ch.choose("values", [(0, 1, 2), (1, 0.5, 2), (0.5, 3, -1), (-1.5, 2, 0.25),
                                  (True, 2, 0.5), (1, 1, 1.5)], free=True)
    form = ch.choose("form", ["list", "tuple array", "float array", "object types", "names",
                              "indices", "mixed", "partial", "reversed", "single precision"],
                     free=True)
    sense = ch.choose("sense", ["<=", ">=", "=="], free=True)
    spec = dom.make("f", [("k", "c", -5, 5), ("a", "c", -5, 5), ("x1", "c", -5, 5)], "max", 0.5,
                    {0: 3, 1: -0.5, 2: 1}, {(0, 1): 2, (1, 2): -1, (0, 0): 1, (2, 2): 0.25},
                    [dict(lin={0: 1, 1: -2}, sense=sense, rhs=0.5, name="l"),
                     dict(lin={2: 1}, quad={(0, 2): 1, (1, 1): -1, (0, 0): 0.5}, sense=sense, rhs=1,
                          name="q")])
    qp = dom.build(spec)
    x = [float(v) for v in values]
    names = [v[0] for v in spec["vars"]]
    if form == "list":
        arg = list(values)
    elif form == "tuple array":
        arg = np.array(values)
    elif form == "float array":
        arg = np.array(x)
    elif form == "single precision":
        arg = np.array(x, dtype=np.float32)
    elif form == "object types":
        arg = [np.float64(values[0]), values[1], np.float32(values[2])]
    elif form == "names":
        arg = dict(zip(names, values))
    elif form == "indices":
        arg = dict(enumerate(values))
    elif form == "mixed":
        arg = {names[0]: values[0], 1: values[1], names[2]: values[2]}
    elif form == "partial":
        arg = {names[2]: values[2], 0: values[0]}
        x[1] = 0.0
    else:
        arg = {names[k]: values[k] for k in (2, 1, 0)}
    check(qp.objective.evaluate(arg) == dom.obj(spec, x), "objective at", arg,
          qp.objective.evaluate(arg), "expected", dom.obj(spec, x))
    for con, ref in zip(list(qp.linear_constraints) + list(qp.quadratic_constraints), spec["cons"]):
        check(con.evaluate(arg) == dom.ev(ref["lin"], ref["quad"], x), "constraint at", arg,
              con.evaluate(arg))
        check(con.linear.evaluate(arg) == dom.ev(ref["lin"], {}, x), "linear part at", arg)
    quad = qp.objective.quadratic.evaluate(arg)
    check(quad == dom.ev({}, spec["quad"], x), "quadratic part at", arg, quad)
    ch.step(6)
    if not isinstance(arg, dict):
        feasible, _, bad = qp.get_feasibility_info(arg)
        want = [c["name"] for c in spec["cons"] if not dom.sat(c, x)]
        check([c.name for c in bad] == want, "violated constraints at", arg, want)
        check(bool(feasible) == (not want), "feasible flag at", arg)
        ch.step()
    ch.state((values, form, sense))
    return form


def run_wide(ch):
    """programs with a dozen variables and of constraints of each kind"""
    types = ch.choose("types", ["b", "bi", "ibc"], free=True)
    fmt = ch.choose("format", ["name", "list", "csr", "idx"], free=True)
    n = ch.choose("variables", [12, 11], free=True)
    spec = dom.wide(n, types, 12, 11)
    qp = dom.build(spec, fmt)
    cons = list(qp.linear_constraints) + list(qp.quadratic_constraints)
    pts = list(dom.near(spec))
    for i, v in enumerate(spec["vars"]):
        for val in (v[2] - 1, v[3] + 0.5):
            x = [w[3] for w in spec["vars"]]
            x[i] = val
            pts.append(tuple(x))
            x[(i + 5) % n] = spec["vars"][(i + 5) % n][3] + 2
            pts.append(tuple(x))
    for x in pts:
        feasible, bad_vars, bad_cons = qp.get_feasibility_info(list(x))
        want_vars = [v[0] for v, xi in zip(spec["vars"], x) if not v[2] <= xi <= v[3]]
        want_cons = [c["name"] for c in spec["cons"] if not dom.sat(c, x)]
        check([v.name for v in bad_vars] == want_vars, "violated variables at", x,
              [v.name for v in bad_vars], want_vars)
        check(sorted(c.name for c in bad_cons) == sorted(want_cons), "violated constraints at", x,
              [c.name for c in bad_cons], want_cons)
        check(bool(feasible) == (not want_vars and not want_cons), "feasible flag at", x, feasible)
        check(qp.objective.evaluate(list(x)) == dom.obj(spec, x), "objective at", x)
        ch.step()
    for con, ref in zip(cons, spec["cons"]):
        check(con.evaluate(list(pts[-1])) == dom.ev(ref["lin"], ref["quad"], pts[-1]), "constraint",
              con.name)
    ch.state((types, fmt, n))
    return len(pts)


DEEP = False


def scenarios(tier):
    global DEEP  # pylint: disable=global-statement
    deep = DEEP = tier == "thorough"
    return [
        Tree("points", run_feas, 3 if deep else 2),
        Tree("many elements", run_wide, 0),
        Tree("magnitudes", run_scale, 1),
        Tree("forms of a point", run_forms, 0),
    ]
