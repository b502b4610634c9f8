"""C06: exchanging programs with docplex loses and invents nothing."""

from docplex.mp.model import Model
from docplex.mp.quad import QuadExpr
from docplex.mp.dvar import Var

from qiskit_optimization import QuadraticProgram

from .. import dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "binary variables have the bounds 0 and 1",
    "no linear constraint shares its name with a quadratic constraint without quadratic terms "
    "(docplex has one name space for what it sees as linear constraints)",
]


def parts(expr):
    """(constant, linear, quadratic) of a docplex expression, by variable index"""
    if isinstance(expr, Var):
        return 0.0, {expr.index: 1.0}, {}
    lin, quad = {}, {}
    if isinstance(expr, QuadExpr):
        for a, b, v in expr.iter_quad_triplets():
            key = (min(a.index, b.index), max(a.index, b.index))
            quad[key] = quad.get(key, 0) + v
        part = expr.get_linear_part()
        const = expr.constant
    else:
        part = expr
        const = expr.constant if hasattr(expr, "constant") else float(expr)
    if isinstance(part, Var):
        lin[part.index] = 1.0
    elif hasattr(part, "iter_terms"):
        for x, v in part.iter_terms():
            lin[x.index] = lin.get(x.index, 0) + v
    return const, lin, quad


def spec_of_model(mdl):
    """an independent reader of docplex models"""
    typ = {"B": "b", "I": "i", "C": "c"}
    spec = dom.make(mdl.name, [
        (x.name, typ[x.vartype.cplex_typecode], x.lb, x.ub) for x in mdl.iter_variables()
    ])
    spec["sense"] = "min" if mdl.objective_sense.is_minimize() else "max"
    spec["const"], spec["lin"], spec["quad"] = parts(mdl.objective_expr)
    senses = {"LE": "<=", "GE": ">=", "EQ": "=="}
    for c in mdl.iter_constraints():
        c_1, l_1, q_1 = parts(c.get_left_expr())
        c_2, l_2, q_2 = parts(c.get_right_expr())
        for k, v in l_2.items():
            l_1[k] = l_1.get(k, 0) - v
        for k, v in q_2.items():
            q_1[k] = q_1.get(k, 0) - v
        spec["cons"].append(
            dom.con(l_1, q_1, senses[c.sense.name], c_2 - c_1, c.name,
                    "q" if any(q_1.values()) else "l")
        )
    return spec


def normal(spec, by_name=False):
    """drops trivially true constraints and treats quadratic constraints by their terms"""
    spec = dict(spec)
    cons = []
    for c in spec["cons"]:
        lin = {k: v for k, v in c["lin"].items() if dom.num(v)}
        quad = {k: v for k, v in c["quad"].items() if dom.num(v)}
        if not lin and not quad and dom.num(c["rhs"]) == 0:
            continue
        cons.append(dom.con(lin, quad, c["sense"], c["rhs"], c["name"], "q" if quad else "l"))
    spec["cons"] = sorted(cons, key=lambda c: (c["kind"], c["name"] or ""))
    if by_name:
        names = [v[0] for v in spec["vars"]]
        ren = {i: n for i, n in enumerate(names)}
        key = lambda d: {
            (ren[k] if isinstance(k, int) else tuple(sorted((ren[k[0]], ren[k[1]])))): v
            for k, v in d.items()
        }
        spec["lin"], spec["quad"] = key(spec["lin"]), key(spec["quad"])
        spec["cons"] = [dict(c, lin=key(c["lin"]), quad=key(c["quad"])) for c in spec["cons"]]
        spec["vars"] = sorted(spec["vars"])
    return dom.canon(spec)


BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 3), ("y", "c", -1, 2)], "min", 1, {0: 1, 1: -2},
             {(0, 1): 1, (1, 1): 2, (1, 2): -1},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-1, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1}, sense="<=", rhs=4, name="q0")]),
    dom.make("p1", [("u", "b"), ("v", "b"), ("w", "c", -dom.INF, dom.INF)], "max", -2, {1: 1},
             {(0, 2): 1, (0, 0): 3},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="c"),
              dict(quad={(0, 0): 1, (1, 2): -1}, sense=">=", rhs=0, name="c0"),
              dict(quad={(0, 1): 1, (2, 2): 2}, lin={0: -1}, sense="==", rhs=1, name="q0")]),
    dom.make("", [("x", "i", 2, 2)], "min", 0, {}, {}, []),
]


def run_round(ch):
    """program -> docplex -> program, all programs within the deviation bound"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(
        ch, base,
        var_alts=[("b", 0, 1), ("i", -2, 1), ("i", 0, dom.INF), ("c", -dom.INF, 1), ("c", 0.5, 2),
                  ("i", 0, 1), ("c", 0, 1), ("i", 1, 1)],
        coefs=[1, 0, -2.5], rhss=[0, -1, 2.5], consts=[0, 2.5],
        extra=[dom.con({}, {}, "<=", 0, "e0"), dom.con({}, {}, ">=", -1, "e1"),
               dom.con({0: 3}, {}, "==", 0, "e2"), dom.con({}, {}, "<=", 2, "e3", "q")],
    )
    qp = dom.build(spec, ch.choose("format", ["name", "csr"]))
    before = dom.snap(qp)
    mdl = qp.to_docplex()
    check(dom.snap(qp) == before, "to_docplex changed the program")
    check(normal(spec_of_model(mdl)) == normal(spec), "docplex model differs from the program",
          normal(spec_of_model(mdl)), normal(spec))
    back = QuadraticProgram("old")
    if ch.flag("load over previous contents"):
        back.binary_var("a")
        back.linear_constraint({"a": 1}, "<=", 1, "c")
        back.maximize(1, {"a": 2})
    back.from_docplex(mdl)
    dom.consistent(back)
    got = dom.spec_of(back)
    check(normal(got) == normal(spec), "program read back differs", normal(got), normal(spec))
    check(back.status == back.Status.VALID, "status")
    check(normal(spec_of_model(mdl)) == normal(spec), "from_docplex changed the model")
    ch.state(dom.canon(got))
    return normal(got)


def run_model(ch):
    """docplex models written the way users write them: expressions on both sides, no names,
    colliding names, repeated terms"""
    mdl = Model("m")
    n = 3
    var_names = []
    xs = []
    for k in range(n):
        name = ch.choose("name %d" % k, ["v%d" % k, None, "x1", "x0", "x2"])
        if name is not None and name in var_names:
            name = "w%d" % k
        var_names.append(name)
        typ = ch.choose("type %d" % k, ["bic"[k], "i", "b", "c"])
        if typ == "b":
            xs.append(mdl.binary_var(name=name))
        elif typ == "i":
            xs.append(mdl.integer_var(lb=-1, ub=4, name=name))
        else:
            xs.append(mdl.continuous_var(lb=-1.5, ub=2, name=name))
    a, b, c = xs
    exprs = [
        2 * a - b + 1, a, b + c, 3.0, a * b + 2 * c - 4, a * a, (a - 2 * b) ** 2, a + b - a,
        b * a + a * b, -c, 0 * a + 2, a * c + b,
    ]
    refs = [
        (1, {0: 2, 1: -1}, {}), (0, {0: 1}, {}), (0, {1: 1, 2: 1}, {}), (3, {}, {}),
        (-4, {2: 2}, {(0, 1): 1}), (0, {}, {(0, 0): 1}), (0, {}, {(0, 0): 1, (0, 1): -4, (1, 1): 4}),
        (0, {1: 1}, {}), (0, {}, {(0, 1): 2}), (0, {2: -1}, {}), (2, {}, {}), (0, {1: 1}, {(0, 2): 1}),
    ]
    pick = ch.choose("objective", list(range(len(exprs))))
    sense = ch.choose("sense", ["min", "max"])
    (mdl.minimize if sense == "min" else mdl.maximize)(exprs[pick])
    want_obj = refs[pick]
    cons = []
    used = set()
    for k in range(2):
        left = ch.choose("left %d" % k, list(range(len(exprs))), free=(k == 0))
        right = ch.choose("right %d" % k, [3, 0, 1, 2, 4, 5, 6, 7, 8, 9, 11], free=(k == 0))
        op = ch.choose("op %d" % k, ["<=", ">=", "=="])
        name = ch.choose("ct name %d" % k, [None, "c0", "c1", "q0", "q1", "lim"])
        if name in used:
            name = None
        l_c, l_l, l_q = refs[left]
        r_c, r_l, r_q = refs[right]
        lin, quad = dict(l_l), dict(l_q)
        for key, v in r_l.items():
            lin[key] = lin.get(key, 0) - v
        for key, v in r_q.items():
            quad[key] = quad.get(key, 0) - v
        lin = {key: v for key, v in lin.items() if v}
        quad = {key: v for key, v in quad.items() if v}
        if not lin and not quad:
            continue
        lhs, rhs = exprs[left], exprs[right]
        if isinstance(lhs, float):
            continue
        cst = lhs <= rhs if op == "<=" else (lhs >= rhs if op == ">=" else lhs == rhs)
        if isinstance(cst, bool):
            continue
        mdl.add_constraint(cst, ctname=name)
        if name:
            used.add(name)
        cons.append((name, lin, quad, op, r_c - l_c))
    qp = QuadraticProgram()
    qp.from_docplex(mdl)
    dom.consistent(qp)
    got = dom.spec_of(qp)
    check(got["name"] == "m", "name", got["name"])
    check(len(got["vars"]) == n, "number of variables")
    for k, (x, v) in enumerate(zip(xs, got["vars"])):
        if var_names[k] is not None:
            check(v[0] == var_names[k], "variable name", v, var_names[k])
        check(v[1] == {"B": "b", "I": "i", "C": "c"}[x.vartype.cplex_typecode], "type", v)
        check((v[2], v[3]) == (dom.num(x.lb), dom.num(x.ub)), "bounds", v, x.lb, x.ub)
    clean = lambda d: {k: dom.num(v) for k, v in d.items() if dom.num(v)}
    check(got["sense"] == sense, "sense")
    check(
        (got["const"], got["lin"], got["quad"])
        == (dom.num(want_obj[0]), clean(want_obj[1]), clean(want_obj[2])),
        "objective", got["const"], got["lin"], got["quad"], want_obj,
    )
    have = []
    for c in got["cons"]:
        have.append((c["name"], tuple(sorted(c["lin"].items())), tuple(sorted(c["quad"].items())),
                     c["sense"], dom.num(c["rhs"])))
    check(len(have) == len(cons), "number of constraints", have, cons)
    for name, lin, quad, op, rhs in cons:
        body = (tuple(sorted(clean(lin).items())), tuple(sorted(clean(quad).items())), op,
                dom.num(rhs))
        neg = (tuple((k, dom.num(-v)) for k, v in body[0]), tuple((k, dom.num(-v)) for k, v in body[1]),
               {"<=": ">=", ">=": "<=", "==": "=="}[op], dom.num(-rhs))
        hit = [h for h in have if h[1:] in (body, neg) and (name is None or h[0] == name)]
        check(hit, "constraint lost or changed:", (name,) + body, "have", have)
    ch.state(dom.canon(got))
    return dom.canon(got)


def run_many(ch):
    """a dozen variables and of constraints of each kind, with names in unusual orders"""
    n = ch.choose("variables", [12, 11], free=True)
    names = ch.choose("names", ["x%d", "v%02d", "c%d"], free=True)
    spec = dom.wide(n, ch.choose("types", ["bic", "cb", "i"], free=True), 12, 11, names=names,
                    sense=ch.choose("sense", ["min", "max"], free=True))
    order = ch.choose("order", ["given", "reversed", "rotated"], free=True)
    plain = [v[0] for v in spec["vars"]]
    plain = {"given": plain, "reversed": plain[::-1], "rotated": plain[5:] + plain[:5]}[order]
    spec["vars"] = [(p,) + v[1:] for p, v in zip(plain, spec["vars"])]
    if ch.flag("numbers in decreasing order", free=True):
        spec["cons"] = spec["cons"][::-1]
    qp = dom.build(spec)
    mdl = qp.to_docplex()
    check(normal(spec_of_model(mdl)) == normal(spec), "docplex model differs from the program")
    back = QuadraticProgram()
    back.from_docplex(mdl)
    dom.consistent(back)
    check(normal(dom.spec_of(back)) == normal(spec), "program read back differs")
    ch.step(2)
    ch.state(dom.canon(spec))
    return dom.canon(spec)


def run_anon(ch):
    """many elements without names next to elements that carry generated-looking names"""
    n = 12
    at = ch.choose("named variable", list(range(n)), free=True)
    num = ch.choose("its number", [0, 1, 2, 10, 11, 12], free=True)
    num2 = ch.choose("number of the named constraint", [0, 1, 10, 11], free=True)
    quad = ch.flag("quadratic", free=True)
    mdl = Model("anon")
    xs = [mdl.binary_var(name="x%d" % num if i == at else None) for i in range(n)]
    mdl.minimize(mdl.sum((i + 1) * x for i, x in enumerate(xs)))
    for k in range(n):
        left = xs[k] * xs[(k + 1) % n] + k * xs[k] if quad else (k + 1) * xs[k] + xs[(k + 1) % n]
        name = ("q%d" if quad else "c%d") % num2 if k == at else None
        mdl.add_constraint(left <= k, ctname=name)
    qp = QuadraticProgram()
    qp.from_docplex(mdl)
    dom.consistent(qp)
    got = dom.spec_of(qp)
    check(len(got["vars"]) == n and got["vars"][at][0] == "x%d" % num, "variables", got["vars"])
    check(got["lin"] == {i: float(i + 1) for i in range(n)}, "objective", got["lin"])
    check(len(got["cons"]) == n, "number of constraints", len(got["cons"]))
    for k, c in enumerate(got["cons"]):
        nxt = (k + 1) % n
        want = dom.con({k: k} if k else {}, {(min(k, nxt), max(k, nxt)): 1}, "<=", k) if quad else \
            dom.con({k: k + 1, nxt: 1}, {}, "<=", k)
        check((c["lin"], c["quad"], c["sense"], c["rhs"]) ==
              (want["lin"], want["quad"], "<=", k), "constraint", k, c, want)
        if k == at:
            check(c["name"] == ("q%d" if quad else "c%d") % num2, "constraint name", c["name"])
    ch.state(dom.canon(got))
    return dom.canon(got)


def run_scale(ch):
    """coefficients of any magnitude; bounds of any magnitude, also fractional"""
    spec = dom.magnify(ch, ch.choose("base", BASES[:2], free=True), [2.0 ** -20, 2.0 ** -36, 2.0 ** 20, 2.0 ** 40], dom.MORE)
    alt = ch.choose("bounds", [None, ("i", 0.5, 2.5), ("i", -1.25, 2.0 ** 40), ("c", 2.0 ** -20, 1),
                               ("c", -1.5, 2.0 ** -20), ("i", -(2.0 ** 40), -0.5), ("i", 3, 3),
                               ("c", 2.5, 2.5), ("i", 0, 1), ("c", 0, 1), ("c", -dom.INF, 0)],
                    free=True)
    if alt is not None:
        spec["vars"][2] = (spec["vars"][2][0],) + alt
    qp = dom.build(spec)
    mdl = qp.to_docplex()
    check(normal(spec_of_model(mdl)) == normal(spec), "docplex model differs from the program",
          normal(spec_of_model(mdl)), normal(spec))
    back = QuadraticProgram()
    back.from_docplex(mdl)
    dom.consistent(back)
    check(normal(dom.spec_of(back)) == normal(spec), "program read back differs")
    ch.step(2)
    ch.state(dom.canon(spec))
    return dom.canon(spec)


def run_sides(ch):
    """constraints with terms and constants on both sides, for every combination of kinds"""
    mdl = Model("m")
    a, b = mdl.binary_var("a"), mdl.integer_var(-2, 4, "b")
    makers = [
        (lambda k: k * a - b + 2, lambda k: (2, {0: k, 1: -1}, {})),
        (lambda k: a + b + k, lambda k: (k, {0: 1, 1: 1}, {})),
        (lambda k: k * a, lambda k: (0, {0: k}, {})),
        (lambda k: b, lambda k: (0, {1: 1}, {})),
        (lambda k: k, lambda k: (k, {}, {})),
        (lambda k: k * a * b + 3, lambda k: (3, {}, {(0, 1): k})),
        (lambda k: b * b - k * a, lambda k: (0, {0: -k}, {(1, 1): 1})),
        (lambda k: (b - k) ** 2, lambda k: (k * k, {1: -2 * k}, {(1, 1): 1})),
        (lambda k: a * b + b * b - 1, lambda k: (-1, {}, {(0, 1): 1, (1, 1): 1})),
        (lambda k: mdl.sum([a, b, k]), lambda k: (k, {0: 1, 1: 1}, {})),
        (lambda k: mdl.scal_prod([a, b], [k, 2]), lambda k: (0, {0: k, 1: 2}, {})),
        (lambda k: mdl.linear_expr(constant=k), lambda k: (k, {}, {})),
    ]
    left = ch.choose("left", list(range(len(makers))), free=True)
    right = ch.choose("right", list(range(len(makers))), free=True)
    kl = ch.choose("number on the left", [2, -1, 0.5], free=True)
    kr = ch.choose("number on the right", [1, -3, 2], free=True)
    op = ch.choose("sense", ["<=", ">=", "=="], free=True)
    lhs, rhs = makers[left][0](kl), makers[right][0](kr)
    l_c, l_l, l_q = makers[left][1](kl)
    r_c, r_l, r_q = makers[right][1](kr)
    lin, quad = dict(l_l), dict(l_q)
    for key, v in r_l.items():
        lin[key] = lin.get(key, 0) - v
    for key, v in r_q.items():
        quad[key] = quad.get(key, 0) - v
    if not isinstance(lhs, (int, float)) or not isinstance(rhs, (int, float)):
        cst = lhs <= rhs if op == "<=" else (lhs >= rhs if op == ">=" else lhs == rhs)
    else:
        raise Skip()
    if isinstance(cst, bool):
        raise Skip()
    mdl.add_constraint(cst, "con")
    mdl.minimize(a)
    qp = QuadraticProgram()
    qp.from_docplex(mdl)
    dom.consistent(qp)
    lin = {k: v for k, v in lin.items() if v}
    quad = {k: v for k, v in quad.items() if v}
    got = dom.spec_of(qp)["cons"]
    ch.step()
    ch.state((left, right, kl, kr, op))
    if not lin and not quad and not got:
        return "trivial"
    check(len(got) == 1, "number of constraints", got)
    have = (got[0]["sense"], got[0]["lin"], got[0]["quad"], got[0]["rhs"])
    want = (op, {k: float(v) for k, v in lin.items()}, {k: float(v) for k, v in quad.items()},
            float(r_c - l_c))
    flip = ({"<=": ">=", ">=": "<=", "==": "=="}[op], {k: -v for k, v in want[1].items()},
            {k: -v for k, v in want[2].items()}, -want[3])
    check(have in (want, flip), "constraint", have, "expected", want)
    check(got[0]["name"] == "con", "name", got[0]["name"])
    return want


def run_reject(ch):
    """models with elements that a quadratic program cannot express are rejected"""
    case = ch.choose("case", ["!=", "indicator", "if-then", "semi-continuous", "semi-integer",
                              "abs", "max", "range", "sos1", "sos2", "lazy", "two objectives",
                              "piecewise", "or", "not", "equivalence", "logical objective",
                              "abs objective"], free=True)
    extra = ch.flag("with other constraints", free=True)
    mdl = Model("m")
    a, b = mdl.binary_var("a"), mdl.integer_var(0, 4, "b")
    mdl.minimize(a + b)
    if extra:
        mdl.add_constraint(a + b <= 3)
        mdl.add_constraint(a * b <= 3)
    if case == "!=":
        mdl.add_constraint(b != 2)
    elif case == "indicator":
        mdl.add_indicator(a, b <= 2)
    elif case == "if-then":
        mdl.add(mdl.if_then(a == 1, b <= 2))
    elif case == "semi-continuous":
        mdl.semicontinuous_var(lb=1, ub=3, name="s")
    elif case == "semi-integer":
        mdl.semiinteger_var(lb=1, ub=3, name="s")
    elif case == "abs":
        mdl.add_constraint(mdl.abs(b - 2) <= 1)
    elif case == "max":
        mdl.add_constraint(mdl.max(a, b) <= 1)
    elif case == "range":
        mdl.add_range(1, a + b, 3)
    elif case == "sos1":
        mdl.add_sos1([a, b])
    elif case == "sos2":
        mdl.add_sos2([a, b, mdl.continuous_var(0, 4, "c")])
    elif case == "lazy":
        mdl.add_lazy_constraint(a + b <= 2)
    elif case == "two objectives":
        mdl.minimize_static_lex([a, b])
    elif case == "piecewise":
        mdl.minimize(mdl.piecewise(0, [(0, 0), (1, 2)], 1)(b))
    elif case == "or":
        mdl.add(mdl.logical_or(a == 1, b == 0))
    elif case == "not":
        mdl.add_constraint(mdl.logical_not(a) == 1)
    elif case == "equivalence":
        mdl.add_equivalence(a, b <= 2)
    elif case == "logical objective":
        mdl.minimize(a + (b <= 2))
    else:
        mdl.minimize(mdl.abs(b - 2))
    if extra:
        mdl.add_constraint(a + 2 * b >= 0)
    qp = QuadraticProgram()
    try:
        qp.from_docplex(mdl)
    except Exception:  # pylint: disable=broad-except
        ch.state((case, extra))
        return case
    check(False, "an unsupported model was accepted:", case)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("program to docplex and back", run_round, 3 if deep else 2),
        Tree("docplex models", run_model, 2 if deep else 1),
        Tree("many elements", run_many, 0),
        Tree("many elements without names", run_anon, 0),
        Tree("magnitudes and bounds", run_scale, 0),
        Tree("sides of a constraint", run_sides, 0),
        Tree("unsupported models", run_reject, 0),
    ]
