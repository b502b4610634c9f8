"""C09: the binary encoding of integers covers exactly the original program."""

import itertools
import math

import numpy as np

from qiskit_optimization.converters import IntegerToBinary

from .. import conv as shared, dom
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "integer variables have finite bounds; binary variables have the bounds 0 and 1",
    "variable names do not contain '@' (documented)",
]


def compare(ch, spec, dst_qp, conv, near=False):
    """every 0/1 assignment decodes to a point with the same objective and the same constraints,
    and every admissible integer point is decoded from some assignment"""
    dst = dom.spec_of(dst_qp)
    dom.consistent(dst_qp)
    check(all(v[1] != "i" for v in dst["vars"]), "an integer variable is left")
    check(dst["sense"] == spec["sense"], "sense")
    check(len(dst["cons"]) == len(spec["cons"]), "number of constraints")
    by_name = {(c["kind"], c["name"]): c for c in dst["cons"]}
    hit = set()
    n = len(spec["vars"])
    grids = [dom.grid(v) for v in dst["vars"]]
    for k, z in enumerate(dom.near(dst) if near else itertools.product(*grids)):
        x = conv.interpret(list(z) if k % 2 else np.array(z))
        check(len(x) == n, "length of the interpreted point")
        key = []
        for val, var in zip(x, spec["vars"]):
            if var[1] == "i":
                check(abs(val - round(val)) < 1e-9, "decoded value is not an integer", val)
                val = round(float(val))
            check(var[2] - 1e-9 <= val <= var[3] + 1e-9, "decoded value out of bounds", val, var)
            key.append(float(val))
        hit.add(tuple(key))
        check(abs(dom.obj(dst, z) - dom.obj(spec, key)) < 1e-7, "objective at", z, "is",
              dom.obj(dst, z), "expected", dom.obj(spec, key), key)
        for c in spec["cons"]:
            d = by_name.get((c["kind"], c["name"]))
            check(d is not None and d["sense"] == c["sense"], "constraint lost or changed", c)
            gap1 = dom.ev(c["lin"], c["quad"], key) - c["rhs"]
            gap2 = dom.ev(d["lin"], d["quad"], z) - d["rhs"]
            check(abs(gap1 - gap2) < 1e-7, "constraint", c["name"], "at", z, gap2, "expected", gap1)
        ch.step()
    if near:
        for i, v in enumerate(spec["vars"]):
            vals = {x[i] for x in hit}
            check(v[1] == "c" or vals == {float(g) for g in dom.grid(v)}, "values of", v, vals)
    for x in dom.points(spec) if not near else ():
        check(tuple(float(v) for v in x) in hit, "no assignment decodes to", x)
    # the variables that are not integer survive
    names = {v[0]: v for v in dst["vars"]}
    for v in spec["vars"]:
        if v[1] != "i":
            check(names.get(v[0]) is not None and names[v[0]][1] == v[1], "variable changed", v)
            check(names[v[0]][2:] == (dom.num(v[2]), dom.num(v[3])), "bounds changed", v)
    ch.state(dom.canon(dst))
    return len(hit), len(dst["vars"])


def run_ranges(ch):
    """one integer variable: all ranges up to 70 values"""
    span = ch.choose("range", list(range(0, 71)), free=True)
    low = ch.choose("lower bound", [0, -3, -80, 5], free=True)
    spec = dom.make("r", [("b", "b"), ("n", "i", low, low + span)], "max", 0.5, {0: 1, 1: -2},
                    {(0, 1): 3, (1, 1): -1}, [dict(lin={0: 1, 1: 2}, sense="<=", rhs=7, name="c")])
    qp = dom.build(spec)
    conv = IntegerToBinary()
    return compare(ch, spec, conv.convert(qp), conv)


def run_large(ch):
    """wide ranges around powers of two"""
    power = ch.choose("power", [7, 8, 9, 10, 11], free=True)
    delta = ch.choose("delta", [-1, 0, 1, 17], free=True)
    low = ch.choose("lower bound", [0, -1000], free=True)
    spec = dom.make("r", [("n", "i", low, low + 2**power + delta)], "min", 0, {0: 1}, {})
    qp = dom.build(spec)
    conv = IntegerToBinary()
    dst_qp = conv.convert(qp)
    dst = dom.spec_of(dst_qp)
    vals = sorted(set(dom.evals(dst, dom.cube(len(dst["vars"])))))
    check(vals == [float(v) for v in range(low, low + 2**power + delta + 1)], "encoded values",
          vals[:3], vals[-3:], len(vals))
    ch.state(dom.canon(dst))
    return len(vals)


def run_huge(ch):
    """ranges too large to enumerate: the weights of the new variables are read off unit vectors;
    they cover a range without gaps iff each is at most one more than the sum of the smaller ones"""
    power = ch.choose("power", list(range(12, 31)), free=True)
    delta = ch.choose("delta", [-1, 0, 1, -(2 ** (power // 2)) - 3], free=True)
    low = ch.choose("lower bound", [0, -7, 2 ** 20, -(2 ** 31)], free=True)
    span = 2 ** power + delta
    spec = dom.make("r", [("b", "b"), ("n", "i", low, low + span), ("m", "i", -1, 1)], "min", 2,
                    {1: 1, 0: -4}, {(1, 2): 1},
                    [dict(lin={1: -1, 2: 1}, sense=">=", rhs=-3, name="c")])
    conv = IntegerToBinary()
    dst_qp = conv.convert(dom.build(spec))
    dst = dom.spec_of(dst_qp)
    size = len(dst["vars"])
    check(all(v[1:] == ("b", 0.0, 1.0) for v in dst["vars"]), "not binary", dst["vars"])
    zero = conv.interpret([0] * size)
    check(list(zero) == [0, low, -1], "all zeros are", list(zero))
    weights = []
    for i in range(size):
        z = [0] * size
        z[i] = 1
        x = [float(v) for v in conv.interpret(z)]
        weights.append(x[1] - low)
        check(abs(dom.obj(dst, z) - dom.obj(spec, x)) < 1e-6, "objective at", x)
        gap = dom.ev(dst["cons"][0]["lin"], {}, z) - dst["cons"][0]["rhs"]
        check(gap == dom.ev(spec["cons"][0]["lin"], {}, x) + 3, "constraint at", x)
        ch.step()
    weights = sorted(w for w in weights if w)
    total = 0
    for w in weights:
        check(w == int(w) and 0 < w <= total + 1, "gap in the range: weight", w, "after", total)
        total += w
    check(total == span, "largest value", low + total, "expected", low + span)
    ones = [float(v) for v in conv.interpret([1] * size)]
    check(ones == [1, low + span, 1], "all ones are", ones)
    check(abs(dom.obj(dst, [1] * size) - dom.obj(spec, ones)) < 1e-6, "objective at", ones)
    ch.state(dom.canon(dst))
    return size


def run_scale(ch):
    """coefficients of any magnitude"""
    spec = dom.magnify(ch, ch.choose("base", BASES, free=True), parts=dom.MORE)
    qp = dom.build(spec)
    conv = IntegerToBinary()
    return compare(ch, spec, conv.convert(qp), conv)


def run_fraction(ch):
    """fractional bounds, as left behind by a substitution"""
    low = ch.choose("lower bound", [-2.5, -1, 0.5, 0, 1.25], free=True)
    upp = ch.choose("upper bound", [3.5, 2, 1.75, 1.5, 6.25], free=True)
    if math.ceil(low) > math.floor(upp):
        raise Skip()
    spec = dom.make("r", [("n", "i", low, upp), ("c", "c", -1, 1)], "max", 0, {0: 1, 1: 1},
                    {(0, 1): 2}, [dict(quad={(0, 0): 2}, sense=">=", rhs=1, name="q")])
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = IntegerToBinary()
    dst = conv.convert(qp)
    check(dom.snap(qp) == before, "conversion changed its input")
    return compare(ch, spec, dst, conv)


BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 2), ("j", "i", 1, 3)], "min", 1, {0: 1, 1: -2},
             {(0, 1): 1, (1, 1): 2, (1, 2): -1},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-3, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1, (1, 2): -1}, sense="<=", rhs=4,
                   name="l0")]),
    dom.make("p1", [("x", "i", -3, -1), ("w", "c", -1, 1), ("y", "i", 0, 2)], "max", 0,
             {0: 1, 1: -1, 2: 2}, {(0, 2): 1, (0, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense=">=", rhs=-2, name="g"),
              dict(quad={(0, 1): 1, (0, 0): -1, (2, 2): 3}, sense="==", rhs=-9, name="h")]),
    dom.make("p2", [("u", "b"), ("v", "b"), ("w", "c", -1, 1)], "max", -2, {1: 1, 2: 3},
             {(0, 2): 1, (0, 0): 3},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="<=", rhs=2, name="c")]),
]


def run_prog(ch):
    """all programs within the deviation bound, also with a used converter"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(
        ch, base, var_alts=[("b", 0, 1), ("i", -2, 1), ("i", 3, 3), ("i", 0, 5), ("c", -1, 2)],
        coefs=[0, 1, -2.5], rhss=[0, -1, 2.5], consts=[0, 2.5],
    )
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = IntegerToBinary()
    used = ch.choose("converter used before", [None, 0, 1, 2, "itself"])
    first = None
    if used is not None:
        first = conv.convert(dom.build(BASES[used]) if used != "itself" else qp)
        first_snap = dom.snap(first)
    dst = conv.convert(qp)
    check(dom.snap(qp) == before, "conversion changed its input")
    if first is not None:
        check(dom.snap(first) == first_snap, "conversion changed an earlier result")
    return compare(ch, spec, dst, conv)


def run_many(ch):
    """a dozen variables"""
    n = ch.choose("variables", [12, 11], free=True)
    types = ch.choose("types", ["i", "ib", "bic", "cib"], free=True)
    spec = dom.wide(n, types, 6, 4, sense=ch.choose("sense", ["min", "max"], free=True))
    pos = ch.choose("variable with other bounds", [None] + list(range(n)), free=True)
    if pos is not None and spec["vars"][pos][1] == "i":
        spec["vars"][pos] = (spec["vars"][pos][0], "i") + ch.choose(
            "bounds", [(-1, 2), (4, 4), (0, 1)], free=True)
    qp = dom.build(spec)
    conv = IntegerToBinary()
    return compare(ch, spec, conv.convert(qp), conv, near=True)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("ranges", run_ranges, 0),
        Tree("large ranges", run_large, 0),
        Tree("ranges too large to enumerate", run_huge, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("fractional bounds", run_fraction, 0),
        Tree("a dozen variables", run_many, 0),
        Tree("variable names", shared.names(BASES, IntegerToBinary, compare), 0),
        Tree("two programs in turn", shared.reuse(BASES, IntegerToBinary, compare), 0),
        Tree("programs", run_prog, 3 if deep else 2),
    ]
