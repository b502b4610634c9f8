"""C26: programs made from a program share nothing with it."""

import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram
from qiskit_optimization.converters import (
    InequalityToEquality, IntegerToBinary, LinearEqualityToPenalty, QuadraticProgramToQubo,
)
from qiskit_optimization.problems.variable import VarType

from .. import dom
from ..core import Skip, Tree, check
from .c06 import normal, spec_of_model

ASSUMPTIONS = [
    "histories of at most three modifications after the derivation, over one alphabet of edits",
    "the program a converter returned may be edited before interpretation, but not in its variables",
]

BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -1, 2), ("c", "b")], "min", 1, {0: 1, 1: -2, 2: 1},
             {(0, 1): 1, (1, 1): 2},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense="==", rhs=0, name="l1")]),
    dom.make("p1", [("x", "b"), ("w", "c", -1, 2), ("z", "i", 1, 3)], "max", -2, {0: 4, 2: 3},
             {(0, 2): 1, (0, 1): -3},
             [dict(lin={0: 1, 1: 1}, sense=">=", rhs=-1, name="c0"),
              dict(lin={2: 1}, quad={(0, 2): 1, (1, 1): 1}, sense="<=", rhs=5, name="q0"),
              dict(quad={(0, 0): 1, (0, 1): 2}, sense="==", rhs=0, name="q1")]),
    dom.make("p2", [("u", "b"), ("v", "b"), ("w", "b")], "max", 0, {0: 1, 1: 5, 2: -1},
             {(1, 2): 1, (0, 0): -2}, []),
    dom.make("p3", [("u", "b"), ("v", "b")], "min", 0, {}, {},
             [dict(lin={0: 2, 1: 1}, sense="==", rhs=1, name="e")]),
]
WIDE = [dom.wide(12, "bi", 11, 2), dom.wide(11, "b", 12), dom.wide(12, "bic", 3, 1, sense="max"),
        dom.wide(12, "b")]
OTHER = dom.make("other", [("o", "i", 0, 5), ("a", "b")], "max", 3, {0: 1}, {(0, 1): 1},
                 [dict(lin={0: 1}, sense="<=", rhs=2, name="l0")])


def first(lst):
    """the first element of a list"""
    if not lst:
        raise Skip()
    return lst[0]


def last(lst):
    """the last element of a list"""
    if not lst:
        raise Skip()
    return lst[-1]


def put(obj, name, val):
    """sets an attribute"""
    setattr(obj, name, val)


def flip(obj):
    """other sense"""
    obj.sense = obj.sense.LE if obj.sense == obj.sense.GE else obj.sense.GE


def mix(mat, val):
    """edits an array that an expression handed out or was given"""
    mat[0, 0] = val


EDITS = {
    "add binary": lambda p: p.binary_var("new"),
    "add unnamed": lambda p: p.integer_var(-1, 4),
    "add list": lambda p: p.continuous_var_list(2, 0, 1, "t"),
    "widen": lambda p: put(last(p.variables), "upperbound", 9),
    "narrow": lambda p: put(first(p.variables), "lowerbound", 1),
    "type": lambda p: put(last(p.variables), "vartype", VarType.CONTINUOUS),
    "minimize": lambda p: p.minimize(7, {0: -1} if p.variables else None),
    "maximize": lambda p: p.maximize(-7, None, {(0, 0): 3} if p.variables else None),
    "constant": lambda p: put(p.objective, "constant", 99),
    "sense": lambda p: put(p.objective, "sense", p.objective.sense.MINIMIZE
                           if p.objective.sense == p.objective.sense.MAXIMIZE
                           else p.objective.sense.MAXIMIZE),
    "linear item": lambda p: p.variables and p.objective.linear.__setitem__(0, 42),
    "quadratic item": lambda p: p.variables and p.objective.quadratic.__setitem__((0, 0), 42),
    "linear whole": lambda p: put(p.objective, "linear", [5] * p.get_num_vars()),
    "quadratic whole": lambda p: put(p.objective, "quadratic",
                                     np.ones((p.get_num_vars(), p.get_num_vars()))),
    "quadratic array": lambda p: p.variables and mix(p.objective.quadratic.coefficients, 17),
    "linear array": lambda p: p.variables and mix(p.objective.linear.coefficients, 17),
    "new linear": lambda p: p.linear_constraint([1] * p.get_num_vars(), ">=", 1, "fresh"),
    "new quadratic": lambda p: p.quadratic_constraint(None, {(0, 0): 1} if p.variables else None,
                                                      "<=", 1, "fresh"),
    "new unnamed": lambda p: p.linear_constraint([1] * p.get_num_vars(), "<=", 1),
    "drop linear": lambda p: p.remove_linear_constraint(first(p.linear_constraints).name),
    "drop quadratic": lambda p: p.remove_quadratic_constraint(first(p.quadratic_constraints).name),
    "rhs": lambda p: put(first(p.linear_constraints), "rhs", 77),
    "quadratic rhs": lambda p: put(last(p.quadratic_constraints), "rhs", 77),
    "constraint sense": lambda p: flip(first(p.linear_constraints)),
    "quadratic sense": lambda p: flip(first(p.quadratic_constraints)),
    "constraint item": lambda p: first(p.linear_constraints).linear.__setitem__(0, 33),
    "quadratic part": lambda p: last(p.quadratic_constraints).quadratic.__setitem__((0, 0), 33),
    "linear part": lambda p: last(p.quadratic_constraints).linear.__setitem__(0, 33),
    "constraint whole": lambda p: put(last(p.linear_constraints), "linear", [3] * p.get_num_vars()),
    "quadratic con whole": lambda p: put(first(p.quadratic_constraints), "quadratic",
                                         np.eye(p.get_num_vars())),
    "name": lambda p: put(p, "name", "renamed"),
    "clear": lambda p: p.clear(),
    "load": lambda p: p.from_docplex(dom.build(OTHER).to_docplex()),
    "rejected": lambda p: p.binary_var(first(p.variables).name),
}


def edit(qp, name):
    """applies one edit; returns the kind of rejection"""
    try:
        EDITS[name](qp)
    except QiskitOptimizationError:
        return "rejected"
    return "done"


def lp_round(qp):
    """through a file"""
    folder = tempfile.mkdtemp(prefix="mc_c26_")
    try:
        path = os.path.join(folder, "p.lp")
        qp.write_to_lp_file(path)
        out = QuadraticProgram()
        out.read_from_lp_file(path)
        return out
    finally:
        shutil.rmtree(folder)


def docplex_round(qp):
    """through a model"""
    out = QuadraticProgram()
    out.from_docplex(qp.to_docplex())
    return out


def ising_round(qp):
    """through an operator"""
    out = QuadraticProgram()
    out.from_ising(*qp.to_ising())
    return out


COPIES = {
    "a deepcopy": copy.deepcopy,
    "a pickle": lambda p: pickle.loads(pickle.dumps(p)),
    "deepcopy of a copy": lambda p: copy.deepcopy(copy.deepcopy(p)),
}
DERIVED = {
    "substitute nothing": lambda p: p.substitute_variables(),
    "substitute constant": lambda p: p.substitute_variables(constants={0: 1}),
    "substitute variable": lambda p: p.substitute_variables(variables={0: (1, 1)}),
    "docplex": docplex_round,
    "file": lp_round,
    "operator": ising_round,
}
CONVERTERS = {
    "slack": lambda: InequalityToEquality(),
    "slack continuous": lambda: InequalityToEquality("continuous"),
    "binary": lambda: IntegerToBinary(),
    "penalty": lambda: LinearEqualityToPenalty(),
    "penalty given": lambda: LinearEqualityToPenalty(10),
    "qubo": lambda: QuadraticProgramToQubo(),
}


def view(qp):
    """everything observable, without rounding"""
    dom.consistent(qp)
    return dom.snap(qp), repr(dom.spec_of(qp, float))


def run_copy(ch, depth, bases=None):
    """a copy equals its source, is edited like it, and neither notices edits of the other"""
    spec = ch.choose("base", bases or BASES, free=True)
    how = ch.choose("copy", sorted(COPIES)[:None if depth > 2 else 2][::-1], free=True)
    src = dom.build(spec)
    pre = ch.choose("edited before", [None] + (sorted(EDITS) if depth > 2 else []))
    twin = dom.build(spec)
    if pre:
        edit(src, pre)
        edit(twin, pre)
    dup = COPIES[how](src)
    check(type(dup) is type(src), "type of the copy", type(dup))
    check(view(dup) == view(src), "the copy differs", view(dup), view(src))
    side = ch.choose("edited", ["copy", "source"], free=True)
    mine, other = (dup, src) if side == "copy" else (src, dup)
    still = view(other)
    for k in range(depth):
        name = ch.choose("edit %d" % k, ([None] if k else []) + sorted(EDITS), free=k == 0)
        if name is None:
            break
        check(edit(mine, name) == edit(twin, name), "edit", name, "is answered differently")
        ch.step()
        check(view(other) == still, "the", "source" if side == "copy" else "copy",
              "changed with the other:", view(other), still)
        check(view(mine) == view(twin), "edit", name, "of the", side, "gives", view(mine),
              "expected", view(twin))
    ch.state((how, side, still[0], view(mine)[0]))
    return how, side


def run_derived(ch, depth, bases=None):
    """edits of a program or of what was made from it do not reach the other"""
    spec = ch.choose("base", bases or BASES, free=True)
    how = ch.choose("made by", sorted(DERIVED), free=True)
    src = dom.build(spec)
    if how == "operator" and (spec["cons"] or any(v[1] != "b" for v in spec["vars"])):
        raise Skip()
    side = ch.choose("edited", ["source", "derived"], free=True)
    dup = DERIVED[how](src)
    check(dup is not src, "the program itself is returned")
    mine, other = (dup, src) if side == "derived" else (src, dup)
    still = view(other)
    for k in range(depth):
        name = ch.choose("edit %d" % k, ([None] if k else []) + sorted(EDITS), free=k == 0)
        if name is None:
            break
        edit(mine, name)
        ch.step()
        check(view(other) == still, how, name, "changed the other program", view(other), still)
        dom.consistent(mine)
    # made again from an untouched source it is the same
    if side == "derived":
        check(view(DERIVED[how](src)) == view(DERIVED[how](dom.build(spec))), how,
              "gives something else the second time")
    ch.state((how, side, still[0], view(mine)[0]))
    return how, side


def run_convert(ch, depth, bases=None):
    """edits after a conversion reach neither side, and interpretation still is of the old source"""
    spec = ch.choose("base", bases or BASES, free=True)
    how = ch.choose("converter", sorted(CONVERTERS), free=True)
    src = dom.build(spec)
    conv, fresh = CONVERTERS[how](), CONVERTERS[how]()
    try:
        dst = conv.convert(src)
        twin = fresh.convert(dom.build(spec))
    except QiskitOptimizationError:
        raise Skip()
    check(dst is not src, "the program itself is returned")
    side = ch.choose("edited", ["source", "converted"], free=True)
    mine, other = (dst, src) if side == "converted" else (src, dst)
    still = view(other)
    names = sorted(EDITS)
    if side == "converted":
        names = [n for n in names if n not in ("add binary", "add unnamed", "add list", "type",
                                               "clear", "load", "widen", "narrow")]
    pts = [p for _, p in zip(range(40), dom.near(dom.spec_of(twin)))]
    want = [list(fresh.interpret(list(p))) for p in pts]
    for k in range(depth):
        name = ch.choose("edit %d" % k, ([None] if k else []) + names, free=k == 0)
        if name is None:
            break
        edit(mine, name)
        ch.step()
        check(view(other) == still, how, name, "changed the other program", view(other), still)
        dom.consistent(mine)
        got = [list(conv.interpret(list(p))) for p in pts]
        check(got == want, "after", name, "of the", side, "points are interpreted as", got,
              "expected", want)
    if side == "converted":
        check(view(conv.convert(src)) == view(twin), how, "gives something else the second time")
    ch.state((how, side, still[0], view(mine)[0]))
    return how, side


MODEL_EDITS = {
    "bound": lambda m: put(list(m.iter_variables())[-1], "ub", 3),
    "add variable": lambda m: m.binary_var(),
    "constraint": lambda m: m.add_constraint(list(m.iter_variables())[0] <= 0.5),
    "objective": lambda m: m.minimize(5 * list(m.iter_variables())[0]),
    "name": lambda m: put(m, "name", "another"),
    "rhs": lambda m: put(first([c for c in m.iter_constraints() if c.name in ("l0", "c0", "e")]),
                         "rhs", 55),
    "remove": lambda m: m.remove_constraint(first(list(m.iter_constraints()))),
}


def run_model(ch, depth):
    """a docplex model and the program it came from or went to"""
    spec = ch.choose("base", BASES, free=True)
    direction = ch.choose("direction", ["to docplex", "from docplex"], free=True)
    side = ch.choose("edited", ["program", "model"], free=True)
    src = dom.build(spec)
    mdl = src.to_docplex()
    if direction == "from docplex":
        src = QuadraticProgram()
        src.from_docplex(mdl)
    view_m = lambda: repr(normal(spec_of_model(mdl)))
    still = view_m() if side == "program" else view(src)
    names = sorted(EDITS if side == "program" else MODEL_EDITS)
    for k in range(depth):
        name = ch.choose("edit %d" % k, ([None] if k else []) + names, free=k == 0)
        if name is None:
            break
        if side == "program":
            edit(src, name)
            check(view_m() == still, name, "changed the model", view_m(), still)
        else:
            MODEL_EDITS[name](mdl)
            check(view(src) == still, name, "of the model changed the program", view(src), still)
        ch.step()
    ch.state((direction, side, still))
    return direction, side


def scenarios(tier):
    deep = tier == "thorough"
    bound, depth = (2, 3) if deep else (1, 2)
    return [
        Tree("copies", lambda ch: run_copy(ch, depth), bound),
        Tree("derived programs", lambda ch: run_derived(ch, depth - 1), bound),
        Tree("converted programs", lambda ch: run_convert(ch, depth - 1), bound),
        Tree("copies, a dozen variables", lambda ch: run_copy(ch, 1, WIDE), 0),
        Tree("derived, a dozen variables", lambda ch: run_derived(ch, 1, WIDE), 0),
        Tree("converted, a dozen variables", lambda ch: run_convert(ch, 1, WIDE), 0),
        Tree("docplex models", lambda ch: run_model(ch, depth), bound),
    ]
