"""C01: every history of model-building calls leaves a consistent program; rejected calls change
nothing."""

import copy

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.problems.constraint import ConstraintSense
from qiskit_optimization.problems.variable import VarType

from .. import dom
from ..core import Graph, Skip, Tree, Violation, check

ASSUMPTIONS = [
    "operation alphabet and history depth as listed in the scenarios",
    "two histories with the same observable program (all public accessors) have the same futures",
]


class Reject(Exception):
    """the model says that the call must be rejected"""


class Model:
    """the boring reference: lists of tuples"""

    def __init__(self):
        self.spec = dom.make("", [])

    def index(self, key):
        names = [v[0] for v in self.spec["vars"]]
        if isinstance(key, str):
            if key not in names:
                raise Reject()
            return names.index(key)
        if not -len(names) <= key < len(names):
            raise Reject()
        return key % len(names)

    def lin(self, lin):
        out = {}
        for key, val in lin:
            out[self.index(key)] = val
        return {k: v for k, v in out.items() if v}

    def quad(self, quad):
        out = {}
        for key1, key2, val in quad:
            i, j = self.index(key1), self.index(key2)
            out[min(i, j), max(i, j)] = out.get((min(i, j), max(i, j)), 0) + val
        return {k: v for k, v in out.items() if v}

    def cons(self, kind):
        return [c for c in self.spec["cons"] if c["kind"] == kind]


KINDS = {"b": "binary", "i": "integer", "c": "continuous"}


def _dict(lin):
    return {k: v for k, v in lin}


def _qdict(quad):
    return {(a, b): v for a, b, v in quad}


def apply(qp, mdl, op, verify):
    """applies one operation to the implementation and to the model, and compares"""
    before = dom.snap(qp) if verify else None
    objs_before = (list(qp.variables), list(qp.linear_constraints), list(qp.quadratic_constraints))
    old = copy.deepcopy(mdl.spec)
    result = error = None
    try:
        result = _impl(qp, op)
    except Exception as ex:  # pylint: disable=broad-except
        error = ex
    rejected = False
    try:
        _model(qp, mdl, op, result, error)
    except Reject:
        rejected = True
        mdl.spec = old
    if not verify:
        return
    if rejected:
        check(error is not None, "call must be rejected but was accepted:", op)
        after = dom.snap(qp)
        check(after == before, "rejected call changed the program:", op, before, after)
        check(
            objs_before
            == (list(qp.variables), list(qp.linear_constraints), list(qp.quadratic_constraints)),
            "rejected call changed the elements",
            op,
        )
    else:
        check(error is None, "valid call was rejected:", op, repr(error))
        got, want = dom.canon(dom.spec_of(qp)), dom.canon(mdl.spec)
        check(got == want, "program differs from the history", op, "got", got, "expected", want)
    dom.consistent(qp)
    check(qp.status == qp.Status.VALID, "status")
    # removing or adding elements must not disturb the identity of the other elements
    if op[0] not in ("clear",):
        for was, now in zip(
            objs_before, (qp.variables, qp.linear_constraints, qp.quadratic_constraints)
        ):
            kept = [e for e in was if any(e is f for f in now)]
            check(len(kept) >= len(was) - 1, "elements were replaced", op)


def _impl(qp, op):
    what = op[0]
    if what == "var":
        _, typ, low, upp, name = op
        if typ == "b":
            return qp.binary_var(name=name) if name is not None else qp.binary_var()
        return getattr(qp, KINDS[typ] + "_var")(lowerbound=low, upperbound=upp, name=name)
    if what in ("list", "dict"):
        _, typ, keys, name, fmt, low, upp = op
        func = getattr(qp, "%s_var_%s" % (KINDS[typ], what))
        if typ == "b":
            return func(keys, name=name, key_format=fmt)
        return func(keys, lowerbound=low, upperbound=upp, name=name, key_format=fmt)
    if what == "lcon":
        _, lin, sense, rhs, name = op
        return qp.linear_constraint(_dict(lin), sense, rhs, name)
    if what == "lconl":
        _, lin, sense, rhs, name = op
        return qp.linear_constraint(list(lin), sense, rhs, name)
    if what == "qcon":
        _, lin, quad, sense, rhs, name = op
        return qp.quadratic_constraint(_dict(lin), _qdict(quad), sense, rhs, name)
    if what == "rml":
        return qp.remove_linear_constraint(op[1])
    if what == "rmq":
        return qp.remove_quadratic_constraint(op[1])
    if what in ("min", "max"):
        _, const, lin, quad = op
        return (qp.minimize if what == "min" else qp.maximize)(const, _dict(lin), _qdict(quad))
    if what == "lb":
        qp.get_variable(op[1]).lowerbound = op[2]
        return None
    if what == "ub":
        qp.get_variable(op[1]).upperbound = op[2]
        return None
    if what == "type":
        qp.get_variable(op[1]).vartype = dom.TYPES[op[2]]
        return None
    if what == "rhs":
        con = (qp.get_linear_constraint if op[1] == "l" else qp.get_quadratic_constraint)(op[2])
        con.rhs = op[3]
        return None
    if what == "sense":
        con = (qp.get_linear_constraint if op[1] == "l" else qp.get_quadratic_constraint)(op[2])
        con.sense = dom.SENSES[op[3]]
        return None
    if what == "setlin":
        con = (qp.get_linear_constraint if op[1] == "l" else qp.get_quadratic_constraint)(op[2])
        con.linear = _dict(op[3])
        return None
    if what == "setquad":
        qp.get_quadratic_constraint(op[1]).quadratic = _qdict(op[2])
        return None
    if what == "coef":
        con = (qp.get_linear_constraint if op[1] == "l" else qp.get_quadratic_constraint)(op[2])
        con.linear[op[3]] = op[4]
        return None
    if what == "qcoef":
        qp.get_quadratic_constraint(op[1]).quadratic[op[2], op[3]] = op[4]
        return None
    if what == "olin":
        qp.objective.linear[op[1]] = op[2]
        return None
    if what == "oquad":
        qp.objective.quadratic[op[1], op[2]] = op[3]
        return None
    if what == "osetlin":
        qp.objective.linear = _dict(op[1])
        return None
    if what == "osetquad":
        qp.objective.quadratic = _qdict(op[1])
        return None
    if what == "oconst":
        qp.objective.constant = op[1]
        return None
    if what == "osense":
        qp.objective.sense = (
            qp.objective.Sense.MINIMIZE if op[1] == "min" else qp.objective.Sense.MAXIMIZE
        )
        return None
    if what == "name":
        qp.name = op[1]
        return None
    if what == "clear":
        return qp.clear()
    if what == "getv":
        return qp.get_variable(op[1])
    if what == "getl":
        return qp.get_linear_constraint(op[1])
    if what == "getq":
        return qp.get_quadratic_constraint(op[1])
    raise RuntimeError(op)


SENSE = {"<=": "<=", "L": "<=", "le": "<=", "<": "<=", ">=": ">=", "G": ">=", "GE": ">=", ">": ">=",
         "==": "==", "=": "==", "E": "==", "eq": "=="}


def _auto(name, prefix, used):
    check(name not in used, "automatic name is taken", name)
    check(name.startswith(prefix), "automatic name", name, "prefix", prefix)


def _model(qp, mdl, op, result, error):
    spec = mdl.spec
    what = op[0]
    names = [v[0] for v in spec["vars"]]
    if what == "var":
        _, typ, low, upp, name = op
        if low > upp or name in names:
            raise Reject()
        if name is None:
            if error is not None:
                raise Violation("valid call rejected: %r %r" % (op, error))
            name = result.name
            _auto(name, "x", names)
        spec["vars"].append((name, typ, low, upp))
        if error is None:
            check(result is qp.variables[-1], "returned variable is not the added one")
        return
    if what in ("list", "dict"):
        _, typ, keys, name, fmt, low, upp = op
        prefix = "x" if name is None else name
        if low > upp or (isinstance(keys, int) and keys < 1) or fmt.count("{}") > 1 or "{{}}" in fmt:
            raise Reject()
        if isinstance(keys, int):
            if "{}" not in fmt and (keys > 1 or prefix + fmt in names):
                raise Reject()
            if error is not None:
                raise Violation("valid call rejected: %r %r" % (op, error))
            added = [v.name for v in (result if what == "list" else result.values())]
            check(len(added) == keys, "number of added variables", added, keys)
            head, _, tail = fmt.partition("{}")
            for new in added:
                check(new.startswith(prefix + head) and new.endswith(tail), "name format", new, op)
        else:
            added = [prefix + fmt.format(k) for k in keys]
        if len(set(added)) != len(added) or set(added) & set(names):
            if isinstance(keys, int):
                raise Violation("automatic names collide: %s" % added)
            raise Reject()
        for new in added:
            spec["vars"].append((new, typ, low, upp))
        if error is None:
            if what == "dict":
                check(list(result.keys()) == added, "keys of the returned dictionary", result)
                vals = list(result.values())
            else:
                vals = list(result)
            check([v.name for v in vals] == added, "returned variables", vals)
            tail = qp.variables[-len(added) :]
            check(all(a is b for a, b in zip(vals, tail)), "returned variables are not the added")
        return
    if what in ("lcon", "lconl", "qcon"):
        if what == "qcon":
            _, lin, quad, sense, rhs, name = op
        else:
            (_, lin, sense, rhs, name), quad = op, []
        if what == "lconl":
            if len(lin) != len(names):
                raise Skip()
            lin = list(enumerate(lin))
        kind = "q" if what == "qcon" else "l"
        used = [c["name"] for c in mdl.cons(kind)]
        if sense not in SENSE or name in used:
            raise Reject()
        lin, quad = mdl.lin(lin), mdl.quad(quad)
        if name is None:
            if error is not None:
                raise Violation("valid call rejected: %r %r" % (op, error))
            name = result.name
            _auto(name, "c" if kind == "l" else "q", used)
        spec["cons"].append(dom.con(lin, quad, SENSE[sense], rhs, name, kind))
        if error is None:
            lst = qp.linear_constraints if kind == "l" else qp.quadratic_constraints
            check(result is lst[-1], "returned constraint is not the added one")
        return
    if what in ("rml", "rmq"):
        kind = what[2]
        cons = mdl.cons(kind)
        tgt = [c for k, c in enumerate(cons) if op[1] in (k, k - len(cons), c["name"])]
        if not tgt:
            raise Reject()
        spec["cons"] = [c for c in spec["cons"] if c is not tgt[0]]
        return
    if what in ("min", "max"):
        _, const, lin, quad = op
        lin, quad = mdl.lin(lin), mdl.quad(quad)
        spec.update(sense=what, const=const, lin=lin, quad=quad)
        return
    if what in ("lb", "ub", "type"):
        i = mdl.index(op[1])
        name, typ, low, upp = spec["vars"][i]
        if what == "lb":
            low = op[2]
        elif what == "ub":
            upp = op[2]
        else:
            typ = op[2]
        if low > upp:
            raise Reject()
        spec["vars"][i] = (name, typ, low, upp)
        return
    if what in ("rhs", "sense", "setlin", "coef"):
        cons = mdl.cons(op[1])
        tgt = [c for k, c in enumerate(cons) if op[2] in (k, c["name"])]
        if not tgt:
            raise Reject()
        if what == "rhs":
            tgt[0]["rhs"] = op[3]
        elif what == "sense":
            tgt[0]["sense"] = op[3]
        elif what == "setlin":
            tgt[0]["lin"] = mdl.lin(op[3])
        else:
            tgt[0]["lin"][mdl.index(op[3])] = op[4]
        return
    if what in ("setquad", "qcoef"):
        cons = mdl.cons("q")
        tgt = [c for k, c in enumerate(cons) if op[1] in (k, c["name"])]
        if not tgt:
            raise Reject()
        if what == "setquad":
            tgt[0]["quad"] = mdl.quad(op[2])
        else:
            i, j = mdl.index(op[2]), mdl.index(op[3])
            tgt[0]["quad"][min(i, j), max(i, j)] = op[4]
        return
    if what == "olin":
        spec["lin"][mdl.index(op[1])] = op[2]
    elif what == "oquad":
        i, j = mdl.index(op[1]), mdl.index(op[2])
        spec["quad"][min(i, j), max(i, j)] = op[3]
    elif what == "osetlin":
        spec["lin"] = mdl.lin(op[1])
    elif what == "osetquad":
        spec["quad"] = mdl.quad(op[1])
    elif what == "oconst":
        spec["const"] = op[1]
    elif what == "osense":
        spec["sense"] = op[1]
    elif what == "name":
        spec["name"] = op[1]
    elif what == "clear":
        mdl.spec = dom.make("", [])
    elif what == "getv":
        i = mdl.index(op[1])
        if error is None:
            check(result is qp.variables[i], "wrong variable", op)
    elif what in ("getl", "getq"):
        cons = mdl.cons(what[3])
        tgt = [k for k, c in enumerate(cons) if op[1] in (k, k - len(cons), c["name"])]
        if not tgt:
            raise Reject()
        if error is None:
            lst = qp.linear_constraints if what == "getl" else qp.quadratic_constraints
            check(result is lst[tgt[0]], "wrong constraint", op)
    else:
        raise RuntimeError(op)


class Machine:
    """state graph of one program under an operation alphabet, from a given initial history"""

    def __init__(self, initial, alphabet):
        self.initial = initial
        self.alphabet = alphabet

    def ops(self, _hist):
        return self.alphabet

    def replay(self, hist):
        qp = QuadraticProgram()
        mdl = Model()
        for op in self.initial:
            apply(qp, mdl, op, False)
        if not hist:
            dom.consistent(qp)
            check(dom.canon(dom.spec_of(qp)) == dom.canon(mdl.spec), "initial state")
        for k, op in enumerate(hist):
            apply(qp, mdl, op, k == len(hist) - 1)
        # finer than the observable program: histories are only merged if they also agree on the
        # kinds of calls that could leave hidden traces
        kinds = {op[0] for op in hist}
        return (dom.snap(qp), hist[-1][0] if hist else "", sorted(kinds & {"clear", "rml", "rmq"}))


NAMING = [
    ["var", "b", 0, 1, None],
    ["var", "b", 0, 1, "x1"],
    ["var", "b", 0, 1, "x0"],
    ["var", "i", -2, 3, None],
    ["var", "i", 3, -2, "z"],
    ["var", "c", -1.5, 2.5, "y"],
    ["var", "c", 2, 1, None],
    ["list", "b", 2, None, "{}", 0, 1],
    ["list", "i", 3, "x", "{}", 1, 4],
    ["list", "i", 2, "x", "{}", 4, 1],
    ["list", "c", ["a", "x1", 2], "x", "_{}", 0, 1],
    ["list", "b", ["0", "2"], "x", "{}", 0, 1],
    ["list", "b", ["k", "k"], "x", "{}", 0, 1],
    ["dict", "b", 2, "x", "{}", 0, 1],
    ["dict", "i", [1, 5], "x", "{}", -1, 1],
    ["dict", "c", 1, "y", "", -2, 0.5],
    ["dict", "c", 2, "y", "", -2, 0.5],
    ["list", "b", 0, "x", "{}", 0, 1],
    ["list", "b", 2, "x", "{}{}", 0, 1],
    ["dict", "i", 2, "x", "{{}}", 0, 1],
    ["list", "i", 2, "w", "_{}_", 0, 2],
    ["lb", "x0", -1],
    ["ub", "x1", -5],
    ["ub", 0, 7],
    ["type", "x1", "i"],
    ["getv", "x2"],
    ["getv", 1],
    ["getv", -1],
    ["name", "prog"],
    ["lcon", [["x1", 2]], "<=", 1, None],
    ["clear"],
]

BASE_VARS = [
    ["var", "b", 0, 1, "a"],
    ["var", "i", -2, 3, "b"],
    ["var", "c", -1.5, 2.5, "c"],
]

CONSTR = [
    ["lcon", [["a", 1], ["c", -2]], "<=", 1.5, None],
    ["lcon", [["b", 3]], "==", -1, "c1"],
    ["lcon", [[2, 0.5], [0, 1]], "G", 0, "c0"],
    ["lcon", [], "<=", 2, "q0"],
    ["lconl", [1, 0, 2], "eq", 2, "lst"],
    ["lconl", [1, -1, 2, 4], ">=", 2, None],
    ["lcon", [["nope", 1]], "<=", 1, "c0"],
    ["lcon", [["a", 1]], "!=", 1, None],
    ["lcon", [[7, 1]], "<=", 1, None],
    ["qcon", [["a", 1]], [["a", "b", 2], ["c", "c", -1]], ">", 1, None],
    ["qcon", [], [["b", "a", 2], ["a", "b", 1]], "E", 1, "q1"],
    ["qcon", [["c", 4]], [[2, 1, 0.5]], "<", -3, "q0"],
    ["qcon", [["a", 1]], [["a", "zz", 2]], "<=", 1, "q1"],
    ["qcon", [["a", 1]], [["a", "a", 2]], "~", 1, None],
    ["rml", 0],
    ["rml", "c1"],
    ["rml", "q0"],
    ["rml", 5],
    ["rml", -1],
    ["rml", -2],
    ["rmq", -1],
    ["rmq", 0],
    ["rmq", "q1"],
    ["rmq", "c0"],
    ["rmq", 1],
    ["rhs", "l", "c1", 9],
    ["rhs", "q", 0, -4.5],
    ["sense", "l", 0, ">="],
    ["sense", "q", "q1", "<="],
    ["coef", "l", 0, "c", 7],
    ["qcoef", "q1", "c", "a", 6],
    ["setlin", "l", "c0", [["b", 8]]],
    ["setquad", 0, [["b", "b", 5]]],
    ["getl", "c1"],
    ["getq", "q0"],
    ["getl", 1],
    ["getl", -1],
    ["var", "b", 0, 1, None],
    ["clear"],
]

OBJECTIVE = [
    ["min", 1.5, [["a", 2]], [["a", "b", 1], ["c", "c", -2]]],
    ["max", -1, [[1, 3], ["c", 0.5]], []],
    ["max", 0, [["nope", 3]], []],
    ["min", 0, [], [["a", "nope", 1]]],
    ["min", 0, [], [["b", "a", 1], ["a", "b", 2]]],
    ["olin", "b", 2.5],
    ["olin", 0, 0],
    ["olin", "nope", 1],
    ["oquad", "c", "a", 1.5],
    ["oquad", 1, 1, -2],
    ["oquad", "a", "nope", -2],
    ["osetlin", [["c", 1], ["a", -1]]],
    ["osetquad", [["c", "b", 4]]],
    ["osetquad", [["c", "q", 4]]],
    ["oconst", 3],
    ["osense", "max"],
    ["var", "i", 0, 2, None],
    ["var", "b", 0, 1, "d"],
    ["var", "b", 0, 1, "a"],
    ["olin", "d", 5],
    ["oquad", "d", "b", -3],
    ["lcon", [["d", 1], ["a", 1]], "<=", 1, None],
    ["coef", "l", 0, "b", 2],
    ["clear"],
]

MANY = [["var", "b", 0, 1, "x%d" % k] for k in (0, 1, 2, 3, 11, 12)] + [
    ["lcon", [["x%d" % k, 1]], "<=", k, "c%d" % k] for k in (0, 1, 2, 10)
] + [["qcon", [], [["x%d" % k, "x12", 1]], "<=", k, "q%d" % k] for k in (1, 2, 11)]

MIX = [
    ["var", "b", 0, 1, None],
    ["list", "b", 4, None, "{}", 0, 1],
    ["dict", "i", 3, "x", "{}", 0, 1],
    ["var", "b", 0, 1, "x6"],
    ["lcon", [["x11", 1]], "<=", 1, None],
    ["lcon", [["x12", 1], ["x6", 2]], "==", 1, "c5"],
    ["qcon", [["x0", 1]], [["x12", "x6", 1]], ">=", 1, None],
    ["qcon", [["x0", 1]], [["x0", "x0", 1]], ">=", 1, "q3"],
    ["rml", 0],
    ["rml", "c2"],
    ["rml", "c10"],
    ["rml", -3],
    ["rmq", -2],
    ["rmq", "q1"],
    ["rmq", 2],
    ["min", 0, [["x6", 1]], [["x12", "x6", 2]]],
]


TAKEN = ["0", "1", "2", "3", "4", "5", "6", "03", "", "x", "-1", "2.0", "10", "11"]


def run_auto(ch):
    """automatic names next to every set of names that are already taken"""
    kind = ch.choose("kind", ["var", "lcon", "qcon"], free=True)
    deep = ch.choose("more names", [False, True], free=True)
    pool = TAKEN[7:] + TAKEN[2:4] if deep else TAKEN[:7]
    prefix = {"var": "x", "lcon": "c", "qcon": "q"}[kind]
    qp, mdl = QuadraticProgram(), Model()
    for op in BASE_VARS:
        apply(qp, mdl, op, False)

    def add(name):
        if kind == "var":
            return ["var", "b", 0, 1, name]
        if kind == "lcon":
            return ["lcon", [["a", 1]], "<=", 1, name]
        return ["qcon", [["a", 1]], [["a", "b", 1]], "<=", 1, name]

    for k in pool:
        if ch.flag("taken " + k, free=True):
            apply(qp, mdl, add(prefix + k), True)
            if kind != "var" and ch.flag("removed again " + k):
                apply(qp, mdl, [{"l": "rml", "q": "rmq"}[kind[0]], -1], True)
    for k in range(4):
        if kind == "var" and k == 2:
            apply(qp, mdl, ["list", "i", 3, None, "{}", 0, 1], True)
        elif kind == "var" and k == 3:
            apply(qp, mdl, ["dict", "i", 2, "x", "{}", 0, 1], True)
        else:
            apply(qp, mdl, add(None), True)
        ch.step()
    ch.state(dom.canon(mdl.spec))
    return dom.canon(mdl.spec)


AFTER = [
    ["var", "b", 0, 1, None], ["var", "i", 0, 3, "a"], ["var", "i", 0, 3, "n"],
    ["lcon", [["n", 1]], "<=", 1, None], ["lcon", [["c", 1]], ">=", 1, "l0"],
    ["qcon", [], [["c", "c", 1]], "<=", 1, None], ["rml", 0], ["rmq", 0], ["rml", "q0"],
    ["max", 1, [["c", 1]], [["c", "n", 1]]], ["clear"], ["name", "z"], ["lb", "b", -1],
]


def run_derived(ch):
    """histories over a program that came out of a substitution, feasible or not"""
    qp, mdl = QuadraticProgram("src"), Model()
    for op in BASE_VARS + [CONSTR[0], CONSTR[1], CONSTR[9]]:
        apply(qp, mdl, op, False)
    before = dom.snap(qp)
    val = ch.choose("value", [1, 7, 0], free=True)
    src, qp = qp, qp.substitute_variables({"a": val})
    status = qp.Status.VALID if val in (0, 1) else qp.Status.INFEASIBLE
    check(qp.status == status, "status", qp.status)
    mdl.spec = dom.spec_of(qp)
    for k in range(3):
        op = ch.choose("op %d" % k, AFTER, free=True)
        try:
            before_objs = qp.status
            if op[0] == "clear":
                status = qp.Status.VALID
            error = result = None
            old = copy.deepcopy(mdl.spec)
            snap = dom.snap(qp)
            try:
                result = _impl(qp, op)
            except Exception as ex:  # pylint: disable=broad-except
                error = ex
            try:
                _model(qp, mdl, op, result, error)
                check(error is None, "valid call was rejected", op, repr(error))
                check(dom.canon(dom.spec_of(qp)) == dom.canon(mdl.spec), "differs", op)
            except Reject:
                mdl.spec = old
                check(error is not None, "call must be rejected", op)
                check(dom.snap(qp) == snap, "rejected call changed the program", op)
            dom.consistent(qp)
            check(qp.status == status, "status after", op, qp.status, "was", before_objs)
        except Skip:
            continue
        ch.step()
    check(dom.snap(src) == before, "the original changed")
    ch.state((dom.canon(mdl.spec), str(status)))
    return dom.canon(mdl.spec)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("automatic names", run_auto, 2 if deep else 1),
        Tree("programs from a substitution", run_derived, 0),
        Graph("naming", Machine([], NAMING), 5 if deep else 3),
        Graph("constraints", Machine(BASE_VARS, CONSTR), 5 if deep else 4),
        Graph("objective", Machine(BASE_VARS, OBJECTIVE), 6 if deep else 4),
        Graph("from a large program", Machine(MANY, MIX), 6 if deep else 4),
    ]
