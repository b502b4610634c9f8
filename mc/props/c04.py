"""C04: substituting variables gives the program restricted to the substitution."""

import itertools

from qiskit_optimization import QiskitOptimizationError

from .. import dom
from ..core import Tree, check

ASSUMPTIONS = [
    "dyadic coefficients and weights, so the exact comparisons of the implementation are exact",
    "feasible means bounds and constraints (integrality of a replaced variable is not part of it)",
]

INF = dom.INF

BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 3), ("y", "c", -1, 2)], "min", 1, {0: 1, 1: -2},
             {(0, 1): 1, (1, 1): 2, (1, 2): -1},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-1, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1}, sense="<=", rhs=4, name="q0")]),
    dom.make("p1", [("u", "b"), ("v", "b"), ("w", "b")], "max", -2, {1: 1}, {(0, 2): 1, (0, 0): 3},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="c"),
              dict(quad={(0, 0): 1, (1, 2): -1}, sense=">=", rhs=0, name="c"),
              dict(lin={}, sense="<=", rhs=1, name="empty"),
              dict(quad={(0, 1): 1, (2, 2): 2}, lin={0: -1}, sense="==", rhs=1, name="_c")]),
    dom.make("p2", [("x", "c", 0, INF), ("y", "c", -INF, INF), ("z", "i", 1, 5)], "max", 0,
             {0: 2, 1: 1, 2: -1}, {(0, 1): -1, (2, 2): 0.5},
             [dict(lin={0: 1, 1: -1}, sense="==", rhs=0, name="eq"),
              dict(quad={(0, 1): 1, (0, 2): 1}, sense=">=", rhs=1, name="q1"),
              dict(lin={2: 2}, sense="<=", rhs=4, name="q0")]),
]

WIDE = dom.make("p3", [("x10", "b"), ("x2", "i", -1, 2), ("x1", "b"), ("t", "c", -2, 2)], "min", 0.5,
                {0: 1, 1: 1, 2: -1, 3: 2}, {(0, 1): 1, (1, 2): -2, (2, 3): 1, (3, 3): 1, (0, 3): 4},
                [dict(lin={0: 1, 1: 2, 2: -1, 3: 1}, sense="<=", rhs=2, name="a"),
                 dict(lin={0: 1, 2: 1}, sense="==", rhs=1, name="b"),
                 dict(lin={3: 1}, quad={(0, 2): 1, (1, 3): -1, (1, 1): 1}, sense=">=", rhs=0, name="b"),
                 dict(lin={1: 1}, quad={(0, 1): 2}, sense="<=", rhs=1, name="a")])


def sub_grid(var, k):
    _, typ, low, upp = var
    if typ == "b":
        return [0, 1]
    cap = min(max(low, -3), 3), max(min(upp, 3), -3)
    return sorted({cap[0], cap[1], cap[0] - 1, 1, cap[1] + 0.5} if k < 2 else {0, 1})


def compare(ch, spec, qp, subs, sub_qp, pts=None):
    """sub_qp must be spec under subs: {i: ('c', value) | (j, weight)}"""
    sub = dom.spec_of(sub_qp, float)
    n = len(spec["vars"])
    keep = [i for i in range(n) if i not in subs]
    check([v[0] for v in sub["vars"]] == [spec["vars"][i][0] for i in keep],
          "remaining variables", [v[0] for v in sub["vars"]])
    check([v[1] for v in sub["vars"]] == [spec["vars"][i][1] for i in keep], "types", sub["vars"])
    check(sub["sense"] == spec["sense"], "objective sense")
    check(sub["name"] == spec["name"], "name")
    dom.consistent(sub_qp)
    valid = sub_qp.status == sub_qp.Status.VALID
    names = {v[0]: i for i, v in enumerate(spec["vars"])}
    any_feas = 0
    tol = 1e-11 + 1e-14 * max([abs(spec["const"])] + [
        abs(v) for key in ("lin", "quad") for v in spec[key].values()])
    if pts is None:
        pts = itertools.product(*[sub_grid(spec["vars"][i], p) for p, i in enumerate(keep)])
    for y in pts:
        full = [None] * n
        for i, val in zip(keep, y):
            full[i] = val
        for i, (j, w) in subs.items():
            full[i] = w if j == "c" else w * full[j]
        want, got = dom.obj(spec, full), dom.obj(sub, y)
        check(abs(want - got) <= tol + 1e-12 * abs(want), "objective at", y, "is", got, "expected",
              want)
        feas = dom.feas(spec, full)
        got = valid and dom.feas(sub, y)
        check(feas == got, "feasibility at", y, "is", got, "expected", feas, "status",
              sub_qp.status)
        any_feas += feas
        ch.step()
    # bounds of the remaining variables are tightened, never widened
    for v, i in zip(sub["vars"], keep):
        check(v[2] >= spec["vars"][i][2] and v[3] <= spec["vars"][i][3], "bounds widened", v)
    ch.state((dom.canon(sub), valid))
    del names
    return any_feas, valid


def pick(ch, spec, options, free=True):
    """a substitution for every variable; invalid ones are picked too"""
    n = len(spec["vars"])
    subs = {}
    for i in range(n):
        opts = ["keep"] + [o for o in options(i) if o != "keep"]
        what = ch.choose("x%d" % i, opts, free=free)
        if what != "keep":
            subs[i] = what
    return subs


def call(qp, spec, subs, by_name, order):
    consts, varis = {}, {}
    key = (lambda i: spec["vars"][i][0]) if by_name else (lambda i: i)
    items = list(subs.items())
    if order:
        items.reverse()
    for i, (j, w) in items:
        if j == "c":
            consts[key(i)] = w
        else:
            varis[key(i)] = (key(j), w)
    return qp.substitute_variables(consts or None, varis or None)


def is_valid(subs):
    """the documented domain: no chains, nonzero weights, no variable by itself"""
    for i, (j, w) in subs.items():
        if j != "c" and (w == 0 or j in subs or i == j):
            return False
    return True


def run_wide(ch):
    """four variables, up to two replacements"""
    spec = WIDE
    n = len(spec["vars"])
    subs = pick(ch, spec, lambda i: [("c", 1), ("c", -0.5)]
                + [(j, w) for j in range(n) if j != i for w in (1, -1, 2)], free=False)
    qp = dom.build(spec)
    before = dom.snap(qp)
    try:
        out = call(qp, spec, subs, True, False)
    except QiskitOptimizationError:
        check(not is_valid(subs), "valid substitution rejected", subs)
        check(dom.snap(qp) == before, "rejected substitution changed the program")
        return "rejected"
    check(is_valid(subs), "invalid substitution accepted", subs)
    check(dom.snap(qp) == before, "substitution changed its input")
    return compare(ch, spec, qp, subs, out)


def run_subs(ch):
    """every combination of replacements of three variables, on fixed programs"""
    spec = ch.choose("base", BASES, free=True)
    n = len(spec["vars"])

    def options(i):
        out = [("c", 1), ("c", 0), ("c", -1), ("c", 2.5)]
        for j in range(n):
            out += [(j, 1), (j, -1), (j, 2), (j, -0.5)] if i != j else []
        return out

    subs = pick(ch, spec, options)
    qp = dom.build(spec)
    before = dom.snap(qp)
    by_name = ch.flag("by name")
    order = ch.flag("reversed order")
    try:
        out = call(qp, spec, subs, by_name, order)
    except QiskitOptimizationError:
        check(not is_valid(subs), "valid substitution rejected", subs)
        check(dom.snap(qp) == before, "rejected substitution changed the program")
        return "rejected"
    check(is_valid(subs), "invalid substitution accepted", subs)
    check(dom.snap(qp) == before, "substitution changed its input")
    return compare(ch, spec, qp, subs, out)


FIXED = [
    {0: ("c", 1)},
    {1: ("c", 0)},
    {2: (0, 2)},
    {0: (1, -1)},
    {1: (0, 1), 2: (0, -1)},
    {0: ("c", 0), 1: (2, 1)},
    {0: ("c", 1), 1: ("c", 1), 2: ("c", -1)},
    {1: (2, -2), 0: (2, 0.5)},
]


def run_prog(ch):
    """all programs within the deviation bound of the bases, a fixed set of replacements"""
    base = ch.choose("base", BASES + [WIDE], free=True)
    subs = ch.choose("substitution", FIXED if DEEP else [FIXED[i] for i in (0, 4, 7)], free=True)
    spec = dom.vary(
        ch, base,
        var_alts=[("b", 0, 1), ("i", -2, 1), ("c", -INF, 1)],
        coefs=[0, -2], rhss=[0, 2.5], consts=[0],
    )
    qp = dom.build(spec, ch.choose("format", ["name", "csr"]))
    before = dom.snap(qp)
    out = call(qp, spec, subs, False, False)
    check(dom.snap(qp) == before, "substitution changed its input")
    return compare(ch, spec, qp, subs, out)


def run_chain(ch):
    """successive substitutions compose"""
    spec = ch.choose("base", BASES, free=True)
    n = len(spec["vars"])
    qp = dom.build(spec)
    cur, cur_spec, total = qp, spec, {}
    infeasible = False
    for k in range(3):
        m = len(cur_spec["vars"])
        if m == 0:
            break
        opts = ["stop"]
        for i in range(m):
            opts += [(i, ("c", 0)), (i, ("c", 1)), (i, ("c", 3))]
            for j in range(m):
                if i != j:
                    opts += [(i, (j, 1)), (i, (j, -1)), (i, (j, 2))]
        what = ch.choose("step %d" % k, opts, free=True)
        if what == "stop":
            break
        i, how = what
        nxt = call(cur, cur_spec, {i: how}, True, False)
        dom.consistent(nxt)
        # extend the composed substitution over the original variables
        orig = {v[0]: p for p, v in enumerate(spec["vars"])}
        oi = orig[cur_spec["vars"][i][0]]
        new = ("c", how[1]) if how[0] == "c" else (orig[cur_spec["vars"][how[0]][0]], how[1])
        for p, (j, w) in list(total.items()):
            if j == oi:
                total[p] = ("c", w * new[1]) if new[0] == "c" else (new[0], w * new[1])
        total[oi] = new
        cur, cur_spec = nxt, dom.spec_of(nxt)
        infeasible = infeasible or cur.status != cur.Status.VALID
    del n, infeasible
    return compare(ch, spec, qp, total, cur)


def run_many(ch):
    """a dozen variables: every single replacement, and pairs of replacements"""
    n = 12
    spec = dom.wide(n, ch.choose("types", ["bic", "b"], free=True), 3, 2)
    i = ch.choose("replaced", list(range(n)), free=True)
    opts = [("c", 1), ("c", 0)] + [(j, w) for j in range(n) if j != i for w in (1, -1)]
    subs = {i: ch.choose("by", opts, free=True)}
    k = ch.choose("also replaced", [None] + [(i + d) % n for d in (1, 4, 9, 11)])
    if k is not None and k != subs[i][0]:
        j = next(j for j in (n - 1, n - 2, n - 3) if j not in (i, k))
        subs[k] = ch.choose("also by", [("c", 0), (j, -1), ("c", 1)])
    qp = dom.build(spec)
    before = dom.snap(qp)
    out = call(qp, spec, subs, ch.flag("by name"), False)
    check(dom.snap(qp) == before, "substitution changed its input")
    rest = dict(spec, vars=[spec["vars"][p] for p in range(n) if p not in subs])
    return compare(ch, spec, qp, subs, out, list(dom.near(rest, [1] * len(rest["vars"]))))


def run_bad(ch):
    """calls outside the documented domain are rejected and change nothing"""
    spec = ch.choose("base", BASES, free=True)
    v = [x[0] for x in spec["vars"]]
    bad = [
        ({v[0]: 1, 0: 1}, None),
        ({v[0]: 1}, {0: (v[1], 1)}),
        (None, {v[0]: (v[1], 0)}),
        (None, {v[0]: (v[0], 2)}),
        (None, {v[0]: (v[1], 1), v[1]: (v[2], 1)}),
        (None, {v[1]: (v[2], 1), v[0]: (v[1], 1)}),
        (None, {v[0]: (v[1], 1), v[1]: (v[0], 1)}),
        ({v[1]: 1}, {v[0]: (v[1], 1)}),
        ({"nope": 1}, None),
        ({99: 1}, None),
        (None, {v[0]: ("nope", 1)}),
        (None, {"nope": (v[0], 1)}),
        (None, {v[0]: (v[1], 1), 0: (v[2], 1)}),
    ]
    consts, varis = ch.choose("call", bad, free=True)
    qp = dom.build(spec)
    before = dom.snap(qp)
    try:
        qp.substitute_variables(consts, varis)
    except (QiskitOptimizationError, KeyError, IndexError) as ex:
        check(dom.snap(qp) == before, "rejected substitution changed the program")
        ch.state((dom.canon(spec), repr((consts, varis))))
        return type(ex).__name__
    check(False, "invalid substitution accepted", consts, varis)


def run_names(ch):
    """constraints of all kinds under all combinations of clashing names"""
    lin = [n for n in ("q", "_q", "__q", "c0") if ch.flag("linear " + n, free=True)]
    quad = [n for n in ("q", "_q", "c0") if ch.flag("quadratic " + n, free=True)]
    subs = ch.choose("substitution", [{1: ("c", 1)}, {1: ("c", -1)}, {1: (0, 1)}, {1: ("c", 0)},
                                      {0: ("c", 0), 1: ("c", 1)}], free=True)
    cons = [dom.con({0: 1, 2: k + 1}, {}, "<=", k - 1, n) for k, n in enumerate(lin)]
    cons += [dom.con({2: 1}, {(0, 1): k + 1}, ">=", k - 2, n) for k, n in enumerate(quad)]
    if ch.flag("interleaved"):
        cons = cons[::-1]
    spec = dom.make("n", [("x", "i", -2, 2), ("y", "i", -1, 2), ("z", "b")], "min", 0, {0: 1}, {},
                    cons)
    qp = dom.build(spec)
    before = dom.snap(qp)
    out = call(qp, spec, subs, True, False)
    check(dom.snap(qp) == before, "substitution changed its input")
    got = [c.name for c in out.linear_constraints]
    left = [n for n in lin if n in got]
    if 0 not in subs:
        check(left == lin, "names of the linear constraints", got, "had", lin)
    return compare(ch, spec, qp, subs, out)


def run_bounds(ch):
    """bounds of the replacing variable, for all bounds of both variables"""
    opts = [(-INF, INF), (0, INF), (-INF, 1), (-2, 3), (1, 1), (-1, 0.5), (4, INF), (-INF, -4)]
    b_x = ch.choose("bounds of the replaced variable", opts, free=True)
    b_y = ch.choose("bounds of the other variable", opts, free=True)
    weight = ch.choose("weight", [1, -1, 2, -2, 0.5, -0.5, 2.0 ** -16, -(2.0 ** 20)], free=True)
    first = ch.flag("order of the variables", free=True)
    varis = [("x", "c") + b_x, ("y", "c") + b_y]
    spec = dom.make("b", varis[::-1] if first else varis, "max", 0, {0: 1, 1: 1}, {})
    i = 1 if first else 0
    qp = dom.build(spec)
    out = call(qp, spec, {i: (1 - i, weight)}, True, False)
    low, upp = sorted((v / weight if abs(v) < INF else v * (1 if weight > 0 else -1)) for v in b_x)
    low, upp = max(low, b_y[0]), min(upp, b_y[1])
    valid = out.status == out.Status.VALID
    check(valid == (low <= upp), "status", out.status, "range", (low, upp))
    if valid:
        got = out.get_variable(0)
        got = (max(got.lowerbound, -INF), min(got.upperbound, INF))
        check(got == (max(low, -INF), min(upp, INF)), "bounds", got, "expected", (low, upp))
    return compare(ch, spec, qp, {i: (1 - i, weight)}, out)


def run_scale(ch):
    """coefficients, values and weights of any magnitude"""
    spec = dom.magnify(ch, ch.choose("base", BASES + [WIDE], free=True), parts=dom.MORE)
    what = ch.choose("by", [1, 2.0 ** -16, 2.0 ** 16, -(2.0 ** 10)], free=True)
    pick = ch.choose("substitution", FIXED, free=True)
    subs = {i: (j, w * what) for i, (j, w) in pick.items()}
    qp = dom.build(spec)
    out = call(qp, spec, subs, True, False)
    keep = [i for i in range(len(spec["vars"])) if i not in subs]
    grids = [sorted(set(sub_grid(spec["vars"][i], p)) | {2.0 ** -16, -(2.0 ** -10)})
             for p, i in enumerate(keep)]
    return compare(ch, spec, qp, subs, out, list(itertools.product(*grids)))


DEEP = False


def scenarios(tier):
    global DEEP  # pylint: disable=global-statement
    deep = DEEP = tier == "thorough"
    return [
        Tree("all substitutions", run_subs, 2 if deep else 1),
        Tree("four variables", run_wide, 4 if deep else 3),
        Tree("program shapes", run_prog, 3 if deep else 2),
        Tree("successive substitutions", run_chain, 0),
        Tree("clashing names", run_names, 1),
        Tree("a dozen variables", run_many, 2 if deep else 1),
        Tree("bounds", run_bounds, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("invalid substitutions", run_bad, 0),
    ]
