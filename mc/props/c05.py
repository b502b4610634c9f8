"""C05: Ising Hamiltonians and binary programs describe the same function."""

import itertools

import numpy as np
from qiskit.opflow import I, PauliOp, PauliSumOp, SummedOp, X, Y, Z
from qiskit.quantum_info import Pauli, SparsePauliOp

from qiskit_optimization import QiskitOptimizationError, QuadraticProgram

from .. import dom
from ..core import Tree, check

ASSUMPTIONS = ["1 to 5 and 8, 11 and 12 qubits / variables", "operators are sums of I, Z and ZZ terms"]


def diag(op, n):
    """the diagonal of an operator; also checks that it is diagonal"""
    mat = np.asarray(op.to_matrix())
    check(mat.shape == (2**n, 2**n), "operator size", mat.shape, n)
    check(np.allclose(mat, np.diag(np.diag(mat))), "operator is not diagonal")
    check(np.allclose(np.diag(mat).imag, 0), "operator is not real")
    return np.diag(mat).real


def bits(n):
    """(index, x): variable i is qubit i, the i-th least significant bit"""
    for k in range(2**n):
        yield k, [(k >> i) & 1 for i in range(n)]


def check_ham(ch, spec, qp):
    n = len(spec["vars"])
    op, offset = qp.to_ising()
    check(op.num_qubits == n, "number of qubits", op.num_qubits, n)
    check(np.isreal(offset), "offset", offset)
    d = diag(op, n)
    sign = 1 if spec["sense"] == "min" else -1
    for k, x in bits(n):
        want = sign * dom.obj(spec, x)
        check(abs(d[k] + float(np.real(offset)) - want) < 1e-7, "energy of", x, "is",
              d[k] + offset, "expected", want)
        ch.step()
    ch.state(dom.canon(spec))
    return op, offset


def check_prog(ch, spec, op_diag, offset, linear):
    n = len(spec["vars"])
    check(2**n == len(op_diag), "number of variables", n)
    check(all(v[1:] == ("b", 0.0, 1.0) for v in spec["vars"]), "not binary", spec["vars"])
    check(not spec["cons"], "constraints", spec["cons"])
    check(spec["sense"] == "min", "sense")
    if linear:
        check(all(i != j for i, j in spec["quad"]), "squares with linear=True", spec["quad"])
    for k, x in bits(n):
        want = op_diag[k] + offset
        check(abs(dom.obj(spec, x) - want) < 1e-7, "objective at", x, "is", dom.obj(spec, x),
              "expected", want)
        ch.step()
    ch.state((dom.canon(spec), linear))


def run_to(ch):
    """every objective of up to three binary variables over a coefficient alphabet, both senses"""
    n = ch.choose("variables", [3, 2, 1, 4, 5], free=True)
    lin = {i: (i + 1) * (-1) ** i for i in range(n)}
    quad = {(i, j): 0.5 * (i + 1) - j for i in range(n) for j in range(i, n) if (i + j) % 3 != 1}
    spec = dom.make("h", [("b%d" % i, "b") for i in range(n)], "min", 0.5, lin, quad)
    if ch.flag("sparse base", free=True):
        spec["lin"], spec["quad"], spec["const"] = {}, {}, 0
    spec = dom.vary(ch, spec, coefs=[1, 0, -2.5], consts=[0, -1], cons=False)
    qp = dom.build(spec, ch.choose("format", ["name", "csr", "list"]))
    before = dom.snap(qp)
    op, offset = check_ham(ch, spec, qp)
    check(dom.snap(qp) == before, "to_ising changed the program")
    # back again, over a program with previous contents
    back = QuadraticProgram("old")
    back.integer_var(0, 5, "old")
    back.linear_constraint({"old": 1}, "<=", 1)
    back.maximize(1, {"old": 1})
    linear = ch.flag("linear", free=True)
    try:
        back.from_ising(op, offset, linear=linear)
    except QiskitOptimizationError:
        check(False, "the operator of a program was rejected")
    check_prog(ch, dom.spec_of(back), diag(op, n), offset, linear)
    dom.consistent(back)
    again, off2 = back.to_ising()
    check(np.allclose(diag(again, n) + off2, diag(op, n) + offset), "round trip")
    return (n, spec["sense"], len(spec["quad"]), len(spec["lin"]))


def pauli(n, zs):
    label = ["I"] * n
    for q in zs:
        label[n - 1 - q] = "Z"
    return "".join(label)


def run_from(ch):
    """operators in every representation, with identities, duplicates and outer coefficients"""
    n = ch.choose("qubits", [2, 3, 1], free=True)
    alphabet = [()] + [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2))
    terms = []
    for k in range(3):
        opts = ["stop"] + alphabet if k else alphabet
        t = ch.choose("term %d" % k, opts, free=True)
        if t == "stop":
            break
        w = ch.choose("weight %d" % k, [1.5, -2, 0.25])
        terms.append((pauli(n, t), w))
    form = ch.choose("form", ["pauli sum", "summed pauli", "sparse", "single", "nested"], free=True)
    outer = ch.choose("outer coefficient", [1, -2, 0.5])
    if form == "single":
        if len(terms) > 1:
            terms = terms[:1]
        op = PauliOp(Pauli(terms[0][0]), terms[0][1])
        if outer != 1:
            op = outer * op
    elif form == "summed pauli":
        op = SummedOp([PauliOp(Pauli(p), w) for p, w in terms], coeff=outer)
    elif form == "nested":
        op = SummedOp(
            [SummedOp([PauliOp(Pauli(p), w)], coeff=2.0) for p, w in terms], coeff=outer
        )
        terms = [(p, 2 * w) for p, w in terms]
    elif form == "sparse":
        op = PauliSumOp(SparsePauliOp.from_list(terms), coeff=outer)
    else:
        op = PauliSumOp.from_list(terms) * outer
    d = np.zeros(2**n)
    for k, x in bits(n):
        for p, w in terms:
            val = w * outer
            for q in range(n):
                if p[n - 1 - q] == "Z" and x[q]:
                    val = -val
            d[k] += val
    offset = ch.choose("offset", [0, 1.25])
    linear = ch.flag("linear")
    qp = QuadraticProgram("old")
    if ch.flag("previous contents"):
        qp.binary_var("x_1")
        qp.maximize(3, {"x_1": 1})
        qp.linear_constraint({"x_1": 1}, "==", 1)
    qp.from_ising(op, offset, linear=linear)
    spec = dom.spec_of(qp)
    check_prog(ch, spec, d, offset, linear)
    dom.consistent(qp)
    check_ham(ch, spec, qp)
    return (form, n, sorted(terms))


def sparse_diag(op, n):
    """the diagonal of an operator on many qubits"""
    mat = op.to_spmatrix()
    check(mat.shape == (2**n, 2**n), "operator size", mat.shape, n)
    d = mat.diagonal()
    mat = mat.tocoo()
    check(np.allclose(mat.data[mat.row != mat.col], 0), "operator is not diagonal")
    check(np.allclose(d.imag, 0), "operator is not real")
    return d.real


def run_many(ch):
    """a dozen qubits"""
    n = ch.choose("variables", [8, 11, 12], free=True)
    spec = dom.wide(n, "b", sense=ch.choose("sense", ["min", "max"], free=True))
    part = ch.choose("part", ["all", "linear", "quadratic"] + [(i, j) for i in range(n)
                                                                for j in (i, n - 1) if i <= j],
                     free=True)
    if part == "linear":
        spec["quad"] = {}
    elif part == "quadratic":
        spec["lin"] = {}
    elif part != "all":
        spec["lin"], spec["quad"] = {part[0]: 1}, {part: -2}
    qp = dom.build(spec)
    op, offset = qp.to_ising()
    check(op.num_qubits == n, "number of qubits", op.num_qubits)
    zs = dom.cube(n)
    sign = 1 if spec["sense"] == "min" else -1
    want = sign * dom.evals(spec, zs)
    got = sparse_diag(op, n) + float(np.real(offset))
    bad = np.flatnonzero(np.abs(got - want) > 1e-7)
    check(not len(bad), "energy of", zs[bad[:1]], "is", got[bad[:1]], "expected", want[bad[:1]])
    back = QuadraticProgram()
    linear = ch.flag("linear", free=True)
    back.from_ising(op, offset, linear=linear)
    dom.consistent(back)
    dst = dom.spec_of(back)
    check(len(dst["vars"]) == n, "number of variables")
    if linear:
        check(all(i != j for i, j in dst["quad"]), "squares with linear=True")
    check(np.allclose(dom.evals(dst, zs), want), "the program of the operator differs")
    ch.step(2 * 2**n)
    ch.state((n, part, spec["sense"], linear))
    return part


def run_scale(ch):
    """coefficients of any magnitude"""
    n = ch.choose("variables", [3, 2, 1], free=True)
    lin = {i: (i + 1) * (-1) ** i for i in range(n)}
    quad = {(i, j): 0.5 * (i + 1) - j for i in range(n) for j in range(i, n)}
    spec = dom.make("h", [("b%d" % i, "b") for i in range(n)],
                    ch.choose("sense", ["min", "max"], free=True), 0.5, lin,
                    {k: v for k, v in quad.items() if v})
    kind = ch.choose("part", ["all", "constant"] + list(lin) + list(spec["quad"]), free=True)
    factor = ch.choose("magnitude", [2.0 ** -20, 2.0 ** 20, 2.0 ** 30], free=True)
    if kind == "all":
        spec = dom.scaled(spec, factor, "all")
    elif kind == "constant":
        spec["const"] = factor
    else:
        spec["lin" if isinstance(kind, int) else "quad"][kind] = factor
    if kind != "all" and ch.flag("nothing else", free=True):
        for key in ("lin", "quad"):
            spec[key] = {k: v for k, v in spec[key].items() if k == kind}
    op, offset = dom.build(spec).to_ising()
    d = diag(op, n) + float(np.real(offset))
    sign = 1 if spec["sense"] == "min" else -1
    for k, x in bits(n):
        want = sign * dom.obj(spec, x)
        check(abs(d[k] - want) <= 1e-9, "energy of", x, "is", d[k], "expected", want)
        ch.step()
    linear = ch.flag("linear", free=True)
    back = QuadraticProgram()
    back.from_ising(op, offset, linear=linear)
    for _, x in bits(n):
        got, want = back.objective.evaluate(x), sign * dom.obj(spec, x)
        check(abs(got - want) <= 1e-9, "objective read back at", x, "is", got, "expected", want)
        ch.step()
    ch.state((dom.canon(spec), linear))
    return kind, factor


def run_reject(ch):
    """what has no Ising form / no program is rejected, and a rejected program is not changed"""
    case = ch.choose("case", ["integer", "continuous", "linear", "quadratic", "X", "Y", "ZZZ", "XZ"],
                     free=True)
    pos = ch.choose("position", [0, 1, 2], free=True)
    if case in ("integer", "continuous", "linear", "quadratic"):
        spec = dom.make("r", [("a", "b"), ("b", "b"), ("c", "b")], "min", 0, {0: 1}, {(0, 1): 1})
        if case in ("integer", "continuous"):
            spec["vars"][pos] = (spec["vars"][pos][0], case[0], 0, 1)
        elif case == "linear":
            spec["cons"].append(dom.con({pos: 1}, {}, "<=", 1, "c"))
        else:
            spec["cons"].append(dom.con({}, {(pos, 2): 1}, "<=", 1, "c"))
        qp = dom.build(spec)
        before = dom.snap(qp)
        try:
            qp.to_ising()
        except QiskitOptimizationError:
            check(dom.snap(qp) == before, "rejected call changed the program")
            ch.state((case, pos))
            return case
        check(False, "a program without an Ising form was converted:", case, pos)
    single = {"X": X, "Y": Y, "XZ": X, "ZZZ": Z}[case]
    if case == "ZZZ":
        op = (Z ^ Z ^ Z) if pos == 0 else (0.5 * (I ^ Z ^ I)) + (Z ^ Z ^ Z)
        if pos == 2:
            op = (Z ^ Z ^ Z ^ I) + (I ^ I ^ I ^ Z)
    else:
        parts = [I, I, I]
        parts[pos] = single
        if case == "XZ":
            parts[(pos + 1) % 3] = Z
        op = (parts[0] ^ parts[1] ^ parts[2]) + (Z ^ I ^ Z)
    qp = QuadraticProgram()
    try:
        qp.from_ising(op)
    except QiskitOptimizationError:
        ch.state((case, pos))
        return case
    check(False, "an operator that is no binary quadratic function was accepted:", case, pos)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("program to operator and back", run_to, 3 if deep else 2),
        Tree("operator to program", run_from, 2 if deep else 1),
        Tree("a dozen qubits", run_many, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("rejected", run_reject, 0),
    ]
