"""Plain-Python reference model of a quadratic program, and the finite program domain of the checks.

A spec is a dict
  vars : list of (name, type, lb, ub), type one of 'b' 'i' 'c'
  sense: 'min' | 'max';  const: float;  lin: {i: v};  quad: {(i, j): v} with i <= j
  cons : list of dict(kind 'l'|'q', name, lin, quad, sense '<=' '>=' '==', rhs)
All coefficients are small dyadic numbers, so sums of products are exact in binary floating point.
"""

import copy
import itertools

import numpy as np
from scipy.sparse import csr_matrix, dok_matrix

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.problems.constraint import ConstraintSense
from qiskit_optimization.problems.variable import VarType

from .core import check

INF = 1e20
TYPES = {"b": VarType.BINARY, "i": VarType.INTEGER, "c": VarType.CONTINUOUS}
RTYPES = {v: k for k, v in TYPES.items()}
SENSES = {"<=": ConstraintSense.LE, ">=": ConstraintSense.GE, "==": ConstraintSense.EQ}
RSENSES = {v: k for k, v in SENSES.items()}


# ---------------------------------------------------------------- reference semantics


def ev(lin, quad, x, const=0.0):
    """const + lin.x + x.Q.x"""
    val = const
    for i, v in lin.items():
        val += v * x[i]
    for (i, j), v in quad.items():
        val += v * x[i] * x[j]
    return val


def obj(spec, x):
    """the objective of a spec"""
    return ev(spec["lin"], spec["quad"], x, spec["const"])


def sat(con, x):
    """does x satisfy a constraint"""
    lhs = ev(con["lin"], con["quad"], x)
    if con["sense"] == "<=":
        return lhs <= con["rhs"]
    if con["sense"] == ">=":
        return lhs >= con["rhs"]
    return lhs == con["rhs"]


def feas(spec, x):
    """is x feasible for a spec (bounds and constraints)"""
    return all(v[2] <= xi <= v[3] for v, xi in zip(spec["vars"], x)) and all(
        sat(c, x) for c in spec["cons"]
    )


def grid(var, cont=(0, 0.5, 1)):
    """the values of a variable: all admissible integers, or a grid for continuous ones"""
    _, typ, low, upp = var
    if typ == "c":
        low_, upp_ = max(low, -4), min(upp, 4)
        return sorted({low_ + f * (upp_ - low_) for f in cont})
    k = int(np.ceil(low))
    out = []
    while k <= upp and len(out) < 64:
        out.append(k)
        k += 1
    return out


def points(spec, cont=(0, 0.5, 1)):
    """all points of the box of a spec"""
    return itertools.product(*[grid(v, cont) for v in spec["vars"]])


def solve(spec):
    """brute force: (best value, list of optimal points), (None, []) if infeasible"""
    best, arg = None, []
    sign = 1 if spec["sense"] == "min" else -1
    for x in points(spec):
        if not feas(spec, x):
            continue
        val = obj(spec, x)
        if best is None or sign * val < sign * best - 1e-9:
            best, arg = val, [x]
        elif abs(val - best) <= 1e-9:
            arg.append(x)
    return best, arg


# ---------------------------------------------------------------- spec <-> implementation


def make(name, variables, sense="min", const=0.0, lin=None, quad=None, cons=()):
    """a spec; variables as list of (name, type[, lb, ub])"""
    out = []
    for v in variables:
        if len(v) == 2:
            v = (v[0], v[1], 0, 1 if v[1] == "b" else INF)
        out.append(tuple(v))
    return dict(
        name=name,
        vars=out,
        sense=sense,
        const=const,
        lin=dict(lin or {}),
        quad=dict(quad or {}),
        cons=[con(**c) if isinstance(c, dict) else c for c in cons],
    )


def con(lin=None, quad=None, sense="<=", rhs=0.0, name=None, kind=None):
    """a constraint of a spec"""
    if kind is None:
        kind = "q" if quad else "l"
    return dict(
        kind=kind, lin=dict(lin or {}), quad=dict(quad or {}), sense=sense, rhs=rhs, name=name
    )


def enc_lin(spec, lin, fmt):
    """encodes linear coefficients in one of the accepted input formats"""
    n = len(spec["vars"])
    if fmt == "idx":
        return dict(lin)
    if fmt == "name" or fmt == "rev":
        items = [(spec["vars"][i][0], v) for i, v in lin.items()]
        if fmt == "rev":
            items.reverse()
        return dict(items)
    arr = [0.0] * n
    for i, v in lin.items():
        arr[i] = v
    if fmt == "list":
        return arr
    if fmt == "int":
        return [int(v) for v in arr] if all(v == int(v) for v in arr) else arr
    if fmt == "array":
        return np.array(arr)
    if fmt == "inta":
        return np.array(arr, dtype=int) if all(v == int(v) for v in arr) else np.array(arr)
    if fmt == "dok":
        return dok_matrix(np.array([arr]))
    return csr_matrix(np.array([arr]))


def enc_quad(spec, quad, fmt):
    """encodes quadratic coefficients; 'rev' uses the lower triangle, 'list' and 'csr' split"""
    n = len(spec["vars"])
    if fmt == "idx":
        return dict(quad)
    if fmt == "name":
        return {(spec["vars"][i][0], spec["vars"][j][0]): v for (i, j), v in quad.items()}
    if fmt == "rev":
        return {(spec["vars"][j][0], i): v for (i, j), v in quad.items()}
    mat = np.zeros((n, n))
    for (i, j), v in quad.items():
        if fmt in ("list", "csr") and i != j:
            mat[i, j] += v / 2
            mat[j, i] += v / 2
        elif fmt == "dok":
            mat[j, i] += v
        else:
            mat[i, j] += v
    if fmt in ("int", "inta") and (mat == mat.astype(int)).all():
        mat = mat.astype(int)
        return mat.tolist() if fmt == "int" else csr_matrix(mat)
    if fmt in ("list", "int"):
        return mat.tolist()
    if fmt in ("array", "inta"):
        return mat
    if fmt == "dok":
        return dok_matrix(mat)
    return csr_matrix(mat)


FORMATS = ["name", "idx", "rev", "list", "int", "array", "dok", "csr", "inta"]


def add_var(qp, var):
    """adds one variable of a spec"""
    name, typ, low, upp = var
    if typ == "b":
        return qp.binary_var(name=name)
    if typ == "i":
        return qp.integer_var(lowerbound=low, upperbound=upp, name=name)
    return qp.continuous_var(lowerbound=low, upperbound=upp, name=name)


def build(spec, fmt="name"):
    """constructs the program of a spec through the public API"""
    qp = QuadraticProgram(spec["name"])
    for var in spec["vars"]:
        add_var(qp, var)
    func = qp.minimize if spec["sense"] == "min" else qp.maximize
    func(
        constant=spec["const"],
        linear=enc_lin(spec, spec["lin"], fmt),
        quadratic=enc_quad(spec, spec["quad"], fmt),
    )
    for c in spec["cons"]:
        if c["kind"] == "l":
            qp.linear_constraint(
                linear=enc_lin(spec, c["lin"], fmt), sense=c["sense"], rhs=c["rhs"], name=c["name"]
            )
        else:
            qp.quadratic_constraint(
                linear=enc_lin(spec, c["lin"], fmt),
                quadratic=enc_quad(spec, c["quad"], fmt),
                sense=c["sense"],
                rhs=c["rhs"],
                name=c["name"],
            )
    return qp


def num(v):
    """canonical number"""
    v = float(v)
    if abs(v) < 1e-13:
        return 0.0
    if v - v != 0:
        return v  # infinite
    if v * 2 ** 24 == int(v * 2 ** 24):
        return v
    return float("%.12g" % v)


def scaled(spec, factor, part="all"):
    """a spec whose coefficients are multiplied by a power of two, all or only some of them"""
    out = copy.deepcopy(spec)
    if part in ("all", "objective"):
        out["const"] *= factor
        out["lin"] = {k: v * factor for k, v in out["lin"].items()}
        out["quad"] = {k: v * factor for k, v in out["quad"].items()}
    if part in ("all", "constraints"):
        for c in out["cons"]:
            c["lin"] = {k: v * factor for k, v in c["lin"].items()}
            c["quad"] = {k: v * factor for k, v in c["quad"].items()}
            c["rhs"] *= factor
    if part in ("constant", "linear", "quadratic"):
        if part == "constant":
            out["const"] = factor
        elif part == "linear" and out["lin"]:
            out["lin"][min(out["lin"])] *= factor
        elif part == "quadratic" and out["quad"]:
            out["quad"][min(out["quad"])] *= factor
    if part == "right hand sides":
        for c in out["cons"]:
            c["rhs"] *= factor
    if part == "one coefficient":
        for c in out["cons"]:
            for terms in (c["lin"], c["quad"]):
                if terms:
                    terms[max(terms)] *= factor
    if part == "one constraint" and out["cons"]:
        c = out["cons"][-1]
        c["lin"] = {k: v * factor for k, v in c["lin"].items()}
        c["quad"] = {k: v * factor for k, v in c["quad"].items()}
        c["rhs"] *= factor
    return out


def magnify(ch, spec, scales=None, parts=None):
    """all magnitudes of all parts of a spec"""
    factor = ch.choose("magnitude", scales or SCALES, free=True)
    return scaled(spec, factor, ch.choose("of", parts or PARTS, free=True))


NAMINGS = {
    "shrinking": lambda k, n: "v" * (n - k),
    "backwards": lambda k, n: chr(ord("z") - k),
    "numbers": lambda k, n: "x%d" % (n - 1 - k),
    "digits": lambda k, n: str((k + 1) % n),
    "case": lambda k, n: "aA"[k % 2] * (k // 2 + 1),
    "prefixes": lambda k, n: "k" + "1" * k,
    "odd": lambda k, n: ["a b", "\u03c0", "x^2", "0", "c0", "e1", "-", "inf"][k % 8] + "'" * (k // 8),
    "constraints": lambda k, n: "c%d" % k,
}


def renamed(spec, naming):
    """a spec with other variable names"""
    out = copy.deepcopy(spec)
    n = len(out["vars"])
    out["vars"] = [(NAMINGS[naming](k, n),) + tuple(v[1:]) for k, v in enumerate(out["vars"])]
    return out


def shifted(spec, by):
    """a spec with the same names whose integer variables have other bounds"""
    out = copy.deepcopy(spec)
    out["vars"] = [v if v[1] == "b" else (v[0], v[1], v[2] + by, v[3] + by + (by > 0))
                   for v in out["vars"]]
    return out


def reordered(spec):
    """the same program with its variables and constraints in reverse order"""
    out = copy.deepcopy(spec)
    m = len(out["vars"]) - 1
    out["vars"].reverse()
    out["cons"].reverse()
    for part in [out] + out["cons"]:
        part["lin"] = {m - i: v for i, v in part["lin"].items()}
        part["quad"] = {(m - j, m - i): v for (i, j), v in part["quad"].items()}
    return out


def namesakes(bases):
    """programs that share variable names but nothing else, next to each other"""
    out = []
    for b in bases:
        out += [b, shifted(b, 1), shifted(b, -2), reordered(b)]
    return out


SCALES = [2.0 ** -16, 2.0 ** 20, 2.0 ** 30]
PARTS = ["all", "objective", "constraints", "constant", "linear", "quadratic", "one constraint"]
MORE = PARTS + ["right hand sides", "one coefficient"]


def lin_of(expr, conv=None):
    """canonical linear coefficients, by index"""
    conv = conv or num
    return {int(k): conv(v) for k, v in sorted(expr.to_dict().items()) if conv(v) != 0}


def quad_of(expr, conv=None):
    """canonical quadratic coefficients, upper triangle, by index"""
    conv = conv or num
    out = {}
    for (i, j), v in expr.to_dict().items():
        key = (int(min(i, j)), int(max(i, j)))
        out[key] = out.get(key, 0.0) + conv(v)
    return {k: conv(v) for k, v in sorted(out.items()) if conv(v) != 0}


def spec_of(qp, conv=None):
    """reads a program back into a spec through the public API; conv=float keeps every digit"""
    conv = conv or num
    spec = dict(
        name=qp.name,
        vars=[
            (v.name, RTYPES[v.vartype], conv(v.lowerbound), conv(v.upperbound))
            for v in qp.variables
        ],
        sense="min" if qp.objective.sense == qp.objective.sense.MINIMIZE else "max",
        const=conv(qp.objective.constant),
        lin=lin_of(qp.objective.linear, conv),
        quad=quad_of(qp.objective.quadratic, conv),
        cons=[],
    )
    for c in qp.linear_constraints:
        spec["cons"].append(
            con(lin_of(c.linear, conv), {}, RSENSES[c.sense], conv(c.rhs), c.name, "l")
        )
    for c in qp.quadratic_constraints:
        spec["cons"].append(
            con(lin_of(c.linear, conv), quad_of(c.quadratic, conv), RSENSES[c.sense], conv(c.rhs),
                c.name, "q")
        )
    return spec


def canon(spec):
    """a canonical, hashable form of a spec"""
    clean = lambda d: tuple(sorted((k, num(v)) for k, v in d.items() if num(v) != 0))
    return (
        spec["name"],
        tuple((v[0], v[1], num(v[2]), num(v[3])) for v in spec["vars"]),
        spec["sense"],
        num(spec["const"]),
        clean(spec["lin"]),
        clean(spec["quad"]),
        tuple(
            (c["kind"], c["name"], clean(c["lin"]), clean(c["quad"]), c["sense"], num(c["rhs"]))
            for c in sorted(spec["cons"], key=lambda c: c["kind"])
        ),
    )


def snap(qp):
    """everything observable about a program"""
    return (
        canon(spec_of(qp)),
        str(qp.status),
        tuple(sorted(qp.variables_index.items())),
        tuple(sorted(qp.linear_constraints_index.items())),
        tuple(sorted(qp.quadratic_constraints_index.items())),
        qp.get_num_vars(),
        qp.get_num_binary_vars(),
        qp.get_num_integer_vars(),
        qp.get_num_continuous_vars(),
        qp.get_num_linear_constraints(),
        qp.get_num_quadratic_constraints(),
    )


def consistent(qp):
    """internal consistency of the observable maps of a program"""
    for what, lst, idx, get in (
        ("variable", qp.variables, qp.variables_index, qp.get_variable),
        ("linear constraint", qp.linear_constraints, qp.linear_constraints_index,
         qp.get_linear_constraint),
        ("quadratic constraint", qp.quadratic_constraints, qp.quadratic_constraints_index,
         qp.get_quadratic_constraint),
    ):
        names = [e.name for e in lst]
        check(len(set(names)) == len(names), what, "names not unique", names)
        check(dict(idx) == {n: k for k, n in enumerate(names)}, what, "index map", idx, names)
        for k, elem in enumerate(lst):
            check(get(k) is elem and get(elem.name) is elem, what, "lookup", k, elem.name)
            check(elem.quadratic_program is qp, what, elem.name, "belongs to another program")
    cnt = {t: sum(v.vartype == t for v in qp.variables) for t in VarType}
    check(qp.get_num_vars() == len(qp.variables), "number of variables")
    check(qp.get_num_binary_vars() == cnt[VarType.BINARY], "number of binary variables")
    check(qp.get_num_integer_vars() == cnt[VarType.INTEGER], "number of integer variables")
    check(qp.get_num_continuous_vars() == cnt[VarType.CONTINUOUS], "number of continuous variables")
    for t in VarType:
        check(qp.get_num_vars(t) == cnt[t], "number of variables of type", t)
    check(qp.get_num_linear_constraints() == len(qp.linear_constraints), "number of constraints")
    check(qp.get_num_quadratic_constraints() == len(qp.quadratic_constraints),
          "number of quadratic constraints")
    check(qp.objective.quadratic_program is qp, "objective belongs to another program")


# ---------------------------------------------------------------- domain


VAR_ALTS = [("b", 0, 1), ("i", 0, 3), ("i", -2, 1), ("i", 2, 2), ("c", -1, 2)]
COEFS = [1, 0, -2, 0.5, 3]
CONSTS = [0, 2.5, -1]
RHS = [1, 0, -1, 2.5, 3]


def others(cur, alts):
    """cur first, then the other alternatives"""
    return [cur] + [a for a in alts if a != cur]


def vary(ch, spec, var_alts=(), coefs=COEFS, consts=CONSTS, rhss=RHS, quad=True, cons=True,
         senses=("<=", ">=", "=="), obj_sense=True, drop=True, extra=(), con_quad=True,
         self_quad=True):
    """every element of a spec becomes a choice point whose default is the spec itself"""
    spec = copy.deepcopy(spec)
    n = len(spec["vars"])
    for k, v in enumerate(spec["vars"]):
        if var_alts:
            typ = ch.choose("var %s" % v[0], others(tuple(v[1:]), var_alts))
            spec["vars"][k] = (v[0],) + tuple(typ)
    if obj_sense:
        spec["sense"] = ch.choose("sense", others(spec["sense"], ["min", "max"]))
    if consts:
        spec["const"] = ch.choose("const", others(spec["const"], consts))
    if coefs:
        for i in range(n):
            spec["lin"][i] = ch.choose("lin %d" % i, others(spec["lin"].get(i, 0), coefs))
        if quad:
            for i in range(n):
                for j in range(i, n):
                    if i == j and not self_quad:
                        continue
                    spec["quad"][i, j] = ch.choose(
                        "quad %d,%d" % (i, j), others(spec["quad"].get((i, j), 0), coefs)
                    )
    if cons:
        out = []
        for k, c in enumerate(spec["cons"]):
            tag = c["name"] or "con%d" % k
            if drop and ch.flag("drop " + tag):
                continue
            c["sense"] = ch.choose(tag + " sense", others(c["sense"], senses))
            c["rhs"] = ch.choose(tag + " rhs", others(c["rhs"], rhss))
            if coefs:
                for i in range(n):
                    c["lin"][i] = ch.choose(
                        "%s lin %d" % (tag, i), others(c["lin"].get(i, 0), coefs)
                    )
                if c["kind"] == "q" and con_quad:
                    for i in range(n):
                        for j in range(i, n):
                            c["quad"][i, j] = ch.choose(
                                "%s quad %d,%d" % (tag, i, j),
                                others(c["quad"].get((i, j), 0), coefs),
                            )
            out.append(c)
        if extra:
            more = ch.choose("extra constraint", [None] + list(extra))
            if more is not None:
                out.append(copy.deepcopy(more))
        spec["cons"] = out
    for key in ("lin", "quad"):
        spec[key] = {k: v for k, v in spec[key].items() if v != 0}
    for c in spec["cons"]:
        for key in ("lin", "quad"):
            c[key] = {k: v for k, v in c[key].items() if v != 0}
    return spec


def evals(spec, mat):
    """objective values of all rows of a matrix of points"""
    mat = np.asarray(mat, dtype=float)
    n = mat.shape[1]
    lin = np.zeros(n)
    quad = np.zeros((n, n))
    for i, v in spec["lin"].items():
        lin[i] += v
    for (i, j), v in spec["quad"].items():
        quad[i, j] += v
    return spec["const"] + mat @ lin + np.einsum("ki,ij,kj->k", mat, quad, mat)


def cube(n):
    """all 0/1 vectors of length n, as a matrix"""
    k = np.arange(2**n)
    return ((k[:, None] >> np.arange(n)[None, :]) & 1).astype(float)


# ---------------------------------------------------------------- programs with many elements


def wide(n, types="b", n_cons=0, quad_cons=0, sense="min", frac=True, names="x%d"):
    """a program with n variables whose types repeat the given pattern, and many constraints;
    every coefficient differs from its neighbours so that exchanged indices are visible"""
    varis = []
    for i in range(n):
        typ = types[i % len(types)]
        low = -(i % 3) if typ != "b" else 0
        varis.append((names % i, typ, low, low + 1 + (i % 2) if typ != "b" else 1))
    half = 0.5 if frac else 1
    lin = {i: half * ((5 * i) % 7 - 3) for i in range(n)}
    quad = {(i, j): half * ((3 * i + 5 * j) % 9 - 4) for i in range(n) for j in range(i, n)
            if (i * j + i + j) % 3 != 1}
    cons = []
    for k in range(n_cons):
        cons.append(con({i: (i + 2 * k) % 5 - 2 for i in range(n) if (i + k) % 4 != 2}, {},
                        ("<=", ">=", "==")[k % 3], (k % 4) - 1, "c%d" % k))
    for k in range(quad_cons):
        cons.append(con({i: (i + k) % 3 - 1 for i in range(k % 2, n, 2)},
                        {(i, j): (i + j + k) % 5 - 2 for i in range(n) for j in range(i, n)
                         if (i + 2 * j + k) % 4 == 0},
                        (">=", "<=", "==")[k % 3], (k % 3) - 1, "q%d" % k))
    out = make("wide", varis, sense, 0.5, lin, quad, cons)
    for part in [out] + out["cons"]:
        for key in ("lin", "quad"):
            part[key] = {k: v for k, v in part[key].items() if v != 0}
    return out


def near(spec, base=None):
    """all points that differ from a base point in at most two variables; together they determine
    every linear and quadratic coefficient"""
    grids = [grid(v) for v in spec["vars"]]
    base = [g[0] for g in grids] if base is None else list(base)
    n = len(base)
    yield tuple(base)
    for i in range(n):
        for a in grids[i]:
            if a == base[i]:
                continue
            x = list(base)
            x[i] = a
            yield tuple(x)
            for j in range(i):
                alts = [b for b in grids[j] if b != base[j]]
                for b in alts[-1:]:
                    y = list(x)
                    y[j] = b
                    yield tuple(y)


def spread(n):
    """0/1 vectors of length n: at most two ones, at most two zeros, and all alternating blocks"""
    out = set()
    for ones in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in (0, 1, 2)):
        x = tuple(1 if i in ones else 0 for i in range(n))
        out.add(x)
        out.add(tuple(1 - v for v in x))
    for size in range(1, n):
        for off in range(2 * size):
            out.add(tuple(((i + off) // size) % 2 for i in range(n)))
    return sorted(out)


def answer(x, qp, fval=0.0):
    """the result of an optimizer that saw another point more often than the one it reports"""
    # pylint: disable=import-outside-toplevel
    from qiskit_optimization.algorithms import OptimizationResult, OptimizationResultStatus
    from qiskit_optimization.algorithms.optimization_algorithm import SolutionSample

    good = OptimizationResultStatus.SUCCESS
    samples = [SolutionSample(np.array(list(x)), fval, 0.25, good),
               SolutionSample(np.array([1 - v for v in x]), fval + 1, 0.75, good)]
    return OptimizationResult(x=list(x), fval=fval, variables=qp.variables, status=good, samples=samples)
