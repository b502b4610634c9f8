"""C02: an expression is the polynomial its coefficients say, in every view, at every time."""

import copy
import itertools

import numpy as np

from qiskit_optimization import QuadraticProgram
from qiskit_optimization.problems.linear_expression import LinearExpression
from qiskit_optimization.problems.quadratic_expression import QuadraticExpression

from .. import dom
from ..core import Tree, check

ASSUMPTIONS = [
    "dyadic coefficients (exact floating point); sizes, formats and update histories as enumerated",
]

LOOSE = False
NAMES = ["b", "a", "x1", "x10", "x2", "c", "z", "y", "w", "v", "u", "t"]


def close(a, b):
    """coefficients and points are dyadic, so that there is no rounding, but for the decimal ones"""
    a, b = float(a), float(b)
    return a == b or (LOOSE and abs(a - b) <= 1e-13 * max(abs(a), abs(b), 0.01))


def x_forms(n, names, x):
    """the ways a caller can pass a point"""
    yield list(x)
    yield np.array(x)
    yield np.array(x, dtype=float)
    yield {names[i]: x[i] for i in range(n)}
    yield {i: x[i] for i in range(n) if x[i] != 0}
    yield {names[i] if i % 2 else i: x[i] for i in reversed(range(n))}


def xs(n):
    """evaluation points: enough to identify every coefficient of a quadratic polynomial"""
    out = [[1] * n]
    for i in range(n):
        out.append([-1.5 if k == i else 0 for k in range(n)])
    for i, j in itertools.combinations(range(min(n, 3)), 2):
        out.append([2 if k == i else (-3 if k == j else 0) for k in range(n)])
    out.append([k - 1.25 for k in range(n)])
    return out


def snapshot(arg):
    if hasattr(arg, "toarray"):
        return arg.toarray().tolist()
    if isinstance(arg, np.ndarray):
        return arg.tolist()
    return copy.deepcopy(arg)


def check_lin(expr, ref, n, names, where):
    """all views of a linear expression"""
    arr = expr.to_array()
    check(len(arr) == n, where, "length of the array", len(arr), n)
    check(expr.coefficients.shape == (1, n), where, "shape", expr.coefficients.shape)
    for i in range(n):
        want = ref.get(i, 0)
        check(close(arr[i], want), where, "array view", i, arr[i], want)
        check(close(expr[i], want), where, "item by index", i, expr[i], want)
        check(close(expr[names[i]], want), where, "item by name", i, expr[names[i]], want)
        check(close(expr.coefficients[0, i], want), where, "coefficients", i)
    clean = {i: float(v) for i, v in ref.items() if v}
    got = {k: float(v) for k, v in expr.to_dict().items() if v}
    check(got == clean, where, "dictionary view", got, clean)
    got = {k: float(v) for k, v in expr.to_dict(use_name=True).items() if v}
    check(got == {names[i]: v for i, v in clean.items()}, where, "dictionary by name", got, clean)


def check_quad(expr, ref, n, names, where, turn=0):
    """all views of a quadratic expression; ref is upper triangular; views are read in one of two
    orders, so that what is read last before a change is read first after it"""
    views = {}
    for symm in (turn % 2 == 1, turn % 2 == 0):
        views[symm] = expr.to_array(symmetric=symm) if symm or turn % 4 > 1 else expr.to_array()
    arr, sym = views[False], views[True]
    check(arr.shape == (n, n) and sym.shape == (n, n), where, "shape", arr.shape, sym.shape)
    check(expr.coefficients.shape == (n, n), where, "shape", expr.coefficients.shape)
    for i in range(n):
        for j in range(n):
            want = ref.get((min(i, j), max(i, j)), 0)
            check(close(arr[i, j], want if i <= j else 0), where, "array view", i, j, arr[i, j])
            check(close(sym[i, j], want if i == j else want / 2), where, "symmetric view", i, j,
                  sym[i, j], want)
            for key in ((i, j), (names[i], names[j]), (names[i], j), (i, names[j])):
                check(close(expr[key], want), where, "item", key, expr[key], want)
    clean = {k: float(v) for k, v in ref.items() if v}
    csym = {}
    for (i, j), v in clean.items():
        if i == j:
            csym[i, j] = v
        else:
            csym[i, j] = csym[j, i] = v / 2
    for symm, want in ((False, clean), (True, csym))[::1 if turn % 2 == 0 else -1]:
        got = {k: float(v) for k, v in expr.to_dict(symmetric=symm).items() if v}
        check(got == want, where, "dictionary view", symm, got, want)
        got = {k: float(v) for k, v in expr.to_dict(symmetric=symm, use_name=True).items() if v}
        check(got == {(names[i], names[j]): v for (i, j), v in want.items()}, where,
              "dictionary by name", symm, got, want)


def grad(lin, quad, x, n):
    out = [lin.get(i, 0) for i in range(n)]
    for (i, j), v in quad.items():
        out[i] += v * x[j]
        out[j] += v * x[i]
    return out


class Holder:
    """one expression-bearing object and its reference"""

    def __init__(self, qp, kind, names):
        self.qp, self.kind, self.names = qp, kind, names
        self.const, self.lin, self.quad = 0.0, {}, {}
        self.obj = None
        self.turn = 0

    @property
    def has_lin(self):
        return self.kind != "quad"

    @property
    def has_quad(self):
        return self.kind in ("quad", "objective", "qcon")

    def spec(self):
        return dict(vars=[(m, "c", 0, 0) for m in self.names])

    def create(self, lin, quad, const, fmt):
        qp = self.qp
        spec = self.spec()
        lin_arg, quad_arg = dom.enc_lin(spec, lin, fmt), dom.enc_quad(spec, quad, fmt)
        self.args = [lin_arg, quad_arg]
        self.args_snap = [snapshot(a) for a in self.args]
        if self.kind == "lin":
            self.obj = LinearExpression(qp, lin_arg)
        elif self.kind == "quad":
            self.obj = QuadraticExpression(qp, quad_arg)
        elif self.kind == "objective":
            qp.minimize(const, lin_arg, quad_arg)
            self.const = const
        elif self.kind == "lcon":
            self.obj = qp.linear_constraint(lin_arg, "<=", 1, "con")
        else:
            self.obj = qp.quadratic_constraint(lin_arg, quad_arg, ">=", 1, "con")
        if self.has_lin:
            self.lin = dict(lin)
        if self.has_quad:
            self.quad = dict(quad)

    def target(self):
        return self.qp.objective if self.kind == "objective" else self.obj

    def lin_expr(self):
        return self.obj if self.kind == "lin" else self.target().linear

    def quad_expr(self):
        return self.obj if self.kind == "quad" else self.target().quadratic

    def replace(self, lin, quad, fmt):
        spec = self.spec()
        lin_arg, quad_arg = dom.enc_lin(spec, lin, fmt), dom.enc_quad(spec, quad, fmt)
        if self.kind == "lin":
            self.obj.coefficients = lin_arg
        elif self.kind == "quad":
            self.obj.coefficients = quad_arg
        else:
            self.target().linear = lin_arg
            if self.has_quad:
                self.target().quadratic = quad_arg
        if self.has_lin:
            self.lin = dict(lin)
        if self.has_quad:
            self.quad = dict(quad)

    def verify(self, ch, where, full):
        n = len(self.names)
        if self.has_lin:
            check_lin(self.lin_expr(), self.lin, n, self.names, where)
        if self.has_quad:
            check_quad(self.quad_expr(), self.quad, n, self.names, where, self.turn)
        self.turn += 1
        tgt = self.target()
        every = xs(n)
        # one asymmetric point in every input form; the others, which together determine all
        # coefficients, rotate through the forms
        for k, x in enumerate(every if full else every[-1:]):
            want = dom.ev(self.lin, self.quad, x, self.const)
            wgrad = grad(self.lin, self.quad, x, n)
            forms = list(x_forms(n, self.names, x))
            if not full or k != len(every) - 1:
                forms = [forms[(k + n) % len(forms)]]
            for form in forms:
                was = snapshot(form)
                got = tgt.evaluate(form)
                check(close(got, want), where, "value at", form, "is", got, "expected", want)
                check(np.ndim(got) == 0, where, "value is not a number", got)
                if hasattr(tgt, "evaluate_gradient"):
                    ggot = np.asarray(tgt.evaluate_gradient(form)).reshape(-1)
                    check(len(ggot) == n and all(close(a, b) for a, b in zip(ggot, wgrad)),
                          where, "gradient at", form, "is", list(ggot), "expected", wgrad)
                check(snapshot(form) == was, where, "evaluation changed its argument", was)
                ch.step()
        if self.kind == "objective":
            check(close(self.qp.objective.constant, self.const), where, "constant")
        ch.state((self.kind, n, sorted(self.lin.items()), sorted(self.quad.items()), self.const))


def run_hist(ch):
    """build an expression in any format, update it in any order, add variables in between"""
    kind = ch.choose("holder", ["objective", "lin", "quad", "lcon", "qcon"], free=True)
    fmt = ch.choose("format", dom.FORMATS, free=True)
    n = ch.choose("variables", [2, 3] if DEEP else [2])
    qp = QuadraticProgram()
    names = NAMES[:n]
    for k, m in enumerate(names):
        dom.add_var(qp, (m, "bic"[k % 3], 0, 1))
    names = list(names)
    hold = Holder(qp, kind, names)
    lin, quad = {}, {}
    if hold.has_lin:
        for i in range(n):
            v = ch.choose("lin %d" % i, [i + 1, 0, -2, 0.5])
            if v:
                lin[i] = v
    if hold.has_quad:
        for i in range(n):
            for j in range(i, n):
                v = ch.choose("quad %d,%d" % (i, j), [i + 2 * j + 1, 0, -3, 0.5])
                if v:
                    quad[i, j] = v
    hold.create(lin, quad, ch.choose("constant", [1.5, 0, -2]), fmt)
    hold.verify(ch, "new:", False)
    nops = 3
    for k in range(nops):
        ops = ["stop", "add variable", "set lin", "set quad", "replace", "mutate the argument"]
        op = ch.choose("op %d" % k, ops, free=(k == 0 or (k == 1 and (DEEP or fmt in ("name", "array")))))
        if op == "stop":
            break
        m = len(names)
        if op == "add variable":
            names.append(NAMES[m])
            dom.add_var(qp, (NAMES[m], "c", -1, 1))
        elif op == "set lin":
            if not hold.has_lin:
                continue
            i = ch.choose("index", list(range(m))[::-1])
            v = ch.choose("value", [2.5 + k, 0, -1])
            hold.lin_expr()[ch.choose("key", [names[i], i])] = v
            hold.lin[i] = v
        elif op == "set quad":
            if not hold.has_quad:
                continue
            i = ch.choose("row", list(range(m))[::-1])
            j = ch.choose("col", list(range(m)))
            v = ch.choose("value", [2.5 + k, 0, -1])
            key = ch.choose("key", [(names[i], names[j]), (i, j), (names[i], j)])
            hold.quad_expr()[key] = v
            hold.quad[min(i, j), max(i, j)] = v
        elif op == "replace":
            fmt2 = ch.choose("new format", dom.FORMATS)
            hold.replace({m - 1: 1.5}, {(0, m - 1): -0.5} if m > 1 else {(0, 0): 4}, fmt2)
        else:
            # the caller reuses its own array after the call
            for arg in hold.args:
                if isinstance(arg, np.ndarray):
                    arg += 1
                elif isinstance(arg, list) and arg and not isinstance(arg[0], list):
                    arg[0] = 99
                elif isinstance(arg, list) and arg:
                    arg[0][0] = 99
                elif isinstance(arg, dict) and not hasattr(arg, "toarray"):
                    arg.clear()
                elif hasattr(arg, "toarray"):
                    arg[0, 0] = 99
            hold.args_snap = [snapshot(a) for a in hold.args]
        hold.verify(ch, "after %s:" % op, False)
    hold.verify(ch, "at the end:", True)
    check([snapshot(a) for a in hold.args] == hold.args_snap, "the caller's coefficients changed")
    dom.consistent(qp)
    return (kind, sorted(hold.lin.items()), sorted(hold.quad.items()))


def run_wide(ch):
    """programs with many variables (two-digit indices), sparse coefficients"""
    n = ch.choose("variables", [12, 11], free=True)
    kind = ch.choose("holder", ["objective", "lin", "quad", "lcon", "qcon"], free=True)
    fmt = ch.choose("format", dom.FORMATS, free=True)
    i = ch.choose("i", [10, 0, 1, 2], free=True)
    j = ch.choose("j", [2, 0, 10, 9], free=True)
    qp = QuadraticProgram()
    names = list(NAMES[:n])
    for m in names:
        dom.add_var(qp, (m, "b", 0, 1))
    hold = Holder(qp, kind, names)
    lin = {i: 2.0, j: -1.5}
    quad = {(min(i, j), max(i, j)): 3, (j, j): -1.0, (0, n - 1): 0.5}
    hold.create(lin, quad, 1.0, fmt)
    hold.verify(ch, "wide:", True)
    return (kind, n, i, j)


def run_two(ch):
    """several expressions of one program do not disturb each other"""
    qp = QuadraticProgram()
    names = list(NAMES[:2])
    for m in names:
        dom.add_var(qp, (m, "b", 0, 1))
    holds = []
    shared = ch.choose("shared argument format", dom.FORMATS, free=True)
    spec = dict(vars=[(m, "b", 0, 1) for m in names])
    lin_arg = dom.enc_lin(spec, {0: 1, 1: -2}, shared)
    quad_arg = dom.enc_quad(spec, {(0, 1): 3, (1, 1): 1}, shared)
    qp.minimize(1, lin_arg, quad_arg)
    lcon = qp.linear_constraint(lin_arg, "<=", 1, "l")
    qcon = qp.quadratic_constraint(lin_arg, quad_arg, "<=", 1, "q")
    for kind, o in (("objective", None), ("lcon", lcon), ("qcon", qcon)):
        hold = Holder(qp, kind, names)
        hold.obj = o
        hold.lin = {0: 1, 1: -2}
        hold.quad = {(0, 1): 3, (1, 1): 1} if hold.has_quad else {}
        hold.const = 1 if kind == "objective" else 0
        holds.append(hold)
    for k in range(3):
        opts = ["none 0", "lin 0", "lin 1", "lin 2", "quad 0", "quad 2", "grow 0"]
        what, tgt = ch.choose("step %d" % k, opts, free=True).split()
        if what == "none":
            break
        tgt = int(tgt)
        hold = holds[tgt]
        if what == "lin":
            hold.lin_expr()[0] = 5 + k
            hold.lin[0] = 5 + k
        elif what == "quad" and hold.has_quad:
            hold.quad_expr()[1, 0] = 7 + k
            hold.quad[0, 1] = 7 + k
        elif what == "grow":
            m = NAMES[len(names)]
            names.append(m)
            dom.add_var(qp, (m, "b", 0, 1))
    for hold in holds:
        hold.verify(ch, hold.kind, True)
    return [(sorted(h.lin.items()), sorted(h.quad.items())) for h in holds]


def run_scale(ch):
    """coefficients of any magnitude, at construction and set later"""
    kind = ch.choose("holder", ["objective", "lin", "quad", "lcon", "qcon"], free=True)
    fmt = ch.choose("format", dom.FORMATS, free=True)
    factor = ch.choose("magnitude", [2.0 ** -40, 2.0 ** -16, 2 ** 30, 2.0 ** 31, 2.0 ** 45, 1],
                       free=True)
    late = ch.choose("set later to", [None, 2.0 ** -40, 2.0 ** 40, 0], free=True)
    if late and max(late, factor) / min(late, factor) > 2.0 ** 41:
        late = factor
    qp = QuadraticProgram()
    names = list(NAMES[:3])
    for m in names:
        dom.add_var(qp, (m, "c", -5, 5))
    hold = Holder(qp, kind, names)
    hold.create({0: 3 * factor, 2: -factor}, {(0, 1): factor, (0, 2): -4 * factor, (2, 2): -factor},
                factor, fmt)
    if late is not None and hold.has_lin:
        hold.lin_expr()[1] = late
        hold.lin[1] = late
        hold.lin_expr()["b"] = late
        hold.lin[0] = late
    if late is not None and hold.has_quad:
        for i, j in ((1, 0), (1, 1), (1, 2)):
            hold.quad_expr()[i, j] = late
            hold.quad[min(i, j), max(i, j)] = late
    hold.verify(ch, "magnitudes:", True)
    return (kind, fmt, factor, late)


def run_decimal(ch):
    """decimal fractions and tiny or large decimal numbers on one to seven variables"""
    global LOOSE  # pylint: disable=global-statement
    kind = ch.choose("holder", ["objective", "lin", "quad", "lcon", "qcon"], free=True)
    fmt = ch.choose("format", dom.FORMATS, free=True)
    n = ch.choose("variables", [4, 1, 2, 3, 5, 6, 7], free=True)
    unit = ch.choose("unit", [0.1, 1 / 3, 1e-5, 7e-10, 123456.7, 3e11], free=True)
    qp = QuadraticProgram()
    names = list(NAMES[:n])
    for m in names:
        dom.add_var(qp, (m, "b", 0, 1))
    hold = Holder(qp, kind, names)
    lin = {i: unit * (i + 1) for i in range(0, n, 2)}
    quad = {(i, j): unit * (i - 2 * j - 1) for i in range(n) for j in range(i, n) if (i + j) % 3 != 2}
    LOOSE = True
    try:
        hold.create(lin, quad, unit, fmt)
        hold.verify(ch, "decimal:", True)
        if hold.has_quad and n > 1:
            hold.quad_expr()[n - 1, 0] = 0.7 * unit
            hold.quad[0, n - 1] = 0.7 * unit
            hold.verify(ch, "decimal, set:", True)
    finally:
        LOOSE = False
    return (kind, fmt, n, unit)


DEEP = False


def scenarios(tier):
    global DEEP  # pylint: disable=global-statement
    deep = DEEP = tier == "thorough"
    return [
        Tree("expression histories", run_hist, 3 if deep else 1),
        Tree("many variables", run_wide, 0),
        Tree("shared arguments", run_two, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("decimal fractions", run_decimal, 0),
    ]
