"""C16: Grover adaptive search returns the best outcome it measured, for every measurement history."""

import math

import numpy as np
from qiskit import QuantumCircuit
from qiskit.quantum_info import Statevector
from qiskit.utils import algorithm_globals

from qiskit_optimization.algorithms import GroverOptimizer
from qiskit_optimization.converters import QuadraticProgramToQubo

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "integer coefficients; all values and their differences fit the value qubits (a documented "
    "requirement of the encoding)",
    "circuits are simulated exactly; measurement outcomes and rotation counts are the choices",
    "outcomes whose probability is below 1e-9 do not occur",
]


class Coin(np.random.Generator):
    """a random generator whose draws are choices of the explorer"""

    def __new__(cls, *_a, **_k):
        return np.random.Generator.__new__(cls, np.random.PCG64(1))

    def __init__(self, ch):
        super().__init__(np.random.PCG64(1))
        self.ch = ch
        self.draws = 0
        self.rotations = 0

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is not None:
            return np.array([self.uniform(low, high) for _ in range(int(np.prod(size)))]).reshape(size)
        self.draws += 1
        vals = [float(low)]
        v = math.floor(low) + 0.5
        while v < high:
            vals.append(v)
            v += 1.0
        val = self.ch.choose("rotation draw", vals, free=self.ch.all_free)
        self.rotations += math.ceil(val)
        return val

    def random(self, size=None, dtype=np.float64, out=None):
        """a fraction; its part in the number of rotations is not known here"""
        if size is not None:
            return np.array([self.random() for _ in range(int(np.prod(size)))]).reshape(size)
        self.draws += 1
        self.rotations += 1
        return self.ch.choose("fraction", [0.0, 0.5, 1 - 2.0 ** -20], free=self.ch.all_free)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        """an integer"""
        if size is not None:
            return np.array([self.integers(low, high, None, dtype, endpoint)
                             for _ in range(int(np.prod(size)))]).reshape(size)
        low, high = (0, low) if high is None else (low, high)
        self.draws += 1
        vals = list(range(int(low), int(high) + (1 if endpoint else 0)))
        val = self.ch.choose("integer", vals, free=self.ch.all_free)
        self.rotations += val
        return val

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.ndim(a) == 0 else len(a)
        p_ = np.full(n, 1 / n) if p is None else np.asarray(p)
        check(abs(p_.sum() - 1) < 1e-8, "probabilities sum to", p_.sum())
        opts = [i for i in range(n) if p_[i] > 1e-9]
        self.draws += 1
        i = self.ch.choose("outcome", opts, free=self.ch.all_free)
        val = i if np.ndim(a) == 0 else a[i]
        return val if size is None else np.array([val])


class Result:
    """what a backend returns"""

    def __init__(self, state=None, counts=None):
        self.state = state
        self.counts = counts

    def get_statevector(self, _circuit=None, decimals=None):
        return self.state.copy()

    def get_counts(self, _circuit=None):
        return dict(self.counts)


class RunConfig:
    """settings of the instance"""

    shots = 64


class Instance:
    """a quantum instance that simulates exactly and monitors every circuit"""

    def __init__(self, ch, ref, n_value, statevector):
        self.ch = ch
        self.ref = ref  # the QUBO as a minimization: key -> value
        self.n_key = int(math.log2(len(ref)))
        self.n_value = n_value
        self.is_statevector = statevector
        self.run_config = RunConfig()
        self.circuits = 0
        self.last_probs = None
        self.outcomes = []  # measured keys, None if unknown
        self.thresholds = []
        self.exact_log = []
        self.probs_log = []

    def execute(self, circuits, had_transpiled=False):
        circ = circuits[0] if isinstance(circuits, list) else circuits
        self.circuits += 1
        check(self.circuits < 300, "the search does not stop")
        bare = QuantumCircuit(*circ.qregs)
        for inst, qargs, _c in circ.data:
            if inst.name not in ("measure", "barrier"):
                bare.append(inst, qargs)
        state = np.asarray(Statevector.from_instruction(bare).data)
        probs = np.abs(state) ** 2
        check(abs(probs.sum() - 1) < 1e-8, "not normalized")
        key = {}
        for idx in np.nonzero(probs > 1e-9)[0]:
            k = int(idx) & (2**self.n_key - 1)
            key.setdefault(k, []).append((int(idx), float(probs[idx])))
        self.exact_log.append({k: sum(p for _, p in v) for k, v in key.items()})
        self.thresholds.append(self.threshold_of(key))
        self.probs_log.append(self.exact_log[-1])
        self.outcomes.append(None)
        self.ch.step()
        if self.is_statevector:
            if len(key) == 1:
                self.outcomes[-1] = list(key)[0]
            return Result(state=state)
        n = len(circ.qubits)
        opts = [format(i, "0%db" % n) for v in key.values() for i, _ in v]
        if self.ch.all_free or not self.ch.flag("two outcomes"):
            counts = {self.ch.choose("counted outcome", sorted(opts), free=self.ch.all_free): 64}
        else:
            counts = {o: 64 // 2 for o in (sorted(opts)[0], sorted(opts)[-1])}
            if len(counts) == 1:
                counts = {o: 64 for o in counts}
        tot = {}
        for o, c in counts.items():
            k = int(o, 2) & (2**self.n_key - 1)
            tot[k] = tot.get(k, 0) + c / 64
        self.probs_log[-1] = tot
        if len(tot) == 1:
            self.outcomes[-1] = list(tot)[0]
        return Result(counts=counts)

    def threshold_of(self, key):
        """the value register of every key holds its value relative to a common threshold"""
        size = 2**self.n_value
        offs = set()
        for k, items in key.items():
            check(len(items) == 1, "key", k, "is entangled with", len(items), "values")
            idx = items[0][0]
            val = 0
            for b in range(self.n_value):
                val = 2 * val + ((idx >> (self.n_key + b)) & 1)
            offs.add(int(self.ref[k] - val) % size)
        check(len(offs) == 1, "the value register does not hold the objective", offs)
        off = offs.pop()
        cands = {int(v) for v in list(self.ref.values()) + [0] if int(v) % size == off}
        check(len(cands) == 1, "the threshold", off, "is no value that can be measured")
        return cands.pop()


def expect(ref, threshold, power):
    """exact distribution of the keys after `power` rotations"""
    good = [k for k, v in ref.items() if v < threshold]
    n = len(ref)
    theta = math.asin(math.sqrt(len(good) / n))
    p_good = math.sin((2 * power + 1) * theta) ** 2
    return {k: (p_good / len(good) if k in good else (1 - p_good) / (n - len(good)))
            for k in ref}


BASES = [
    dom.make("g0", [("a", "b"), ("b", "b")], "min", 0, {0: -1, 1: 1}, {(0, 1): -1}, []),
    dom.make("g1", [("a", "b"), ("b", "b")], "max", 1, {0: 1, 1: -2}, {(0, 1): 2}, []),
    dom.make("g2", [("a", "b"), ("b", "b")], "min", 2, {0: 1}, {(0, 1): -1}, []),
    dom.make("g3", [("k", "i", -1, 2)], "max", 0, {0: 1}, {}, []),
    dom.make("g4", [("a", "b")], "min", -1, {0: -2}, {}, []),
    dom.make("g5", [("a", "b"), ("b", "b")], "min", 0, {0: 2, 1: 1}, {}, []),
    dom.make("g6", [("a", "b"), ("b", "b"), ("c", "b")], "min", 1, {0: -1, 1: 1, 2: -1}, {(0, 2): 2}, []),
    dom.make("g7", [("a", "b"), ("b", "b"), ("c", "b")], "max", -1, {0: 1, 2: 1}, {(0, 1): -2, (1, 2): 1},
             []),
]
LARGER = [
    dom.make("v0", [("a", "b"), ("b", "b")], "min", 0, {0: -6, 1: -1}, {}, []),
    dom.make("v1", [("a", "b"), ("b", "b")], "max", -1, {0: 5, 1: 9}, {}, []),
    dom.make("v2", [("a", "b"), ("b", "b"), ("c", "b")], "min", -4, {0: -2, 1: -4, 2: -1},
             {(0, 1): -3, (1, 2): 3}, []),
    dom.make("v3", [("k", "i", -3, 4)], "max", 2, {0: 1}, {}, []),
]
WIDE = [
    dom.make("x0", [("v%d" % i, "b") for i in range(5)], "min", 1,
             {0: -1, 1: 2, 2: -3, 3: 1, 4: -2}, {(0, 4): 3, (1, 3): -4}, []),
    dom.make("x1", [("k", "i", -2, 3), ("a", "b"), ("b", "b")], "max", -2, {0: 2, 1: -3, 2: 1},
             {(0, 2): -1}, []),
]
ONE = dom.make("one", [("a", "b")], "max", 2, {0: -1}, {}, [])


def search(ch, spec, iters, statevector, converters, most=3):
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = QuadraticProgramToQubo()
    qubo = dom.spec_of(conv.convert(qp))
    n = len(qubo["vars"])
    sign = 1 if qubo["sense"] == "min" else -1
    bits = lambda k: [(k >> i) & 1 for i in range(n)]
    ref = {k: sign * dom.obj(qubo, bits(k)) for k in range(2**n)}
    if any(v != int(v) for v in ref.values()) or n > most:
        raise Skip()
    span = max(max(ref.values()), 0) - min(min(ref.values()), 0)
    n_value = 2
    while 2 ** (n_value - 1) <= span:
        n_value += 1
    if n_value > 5 + most // 4:
        raise Skip()
    qi = Instance(ch, ref, n_value, statevector)
    coin = Coin(ch)
    old = algorithm_globals._random  # pylint: disable=protected-access
    algorithm_globals._random = coin
    try:
        kwargs = {"converters": []} if converters == "none" else {}
        if converters == "given":
            kwargs = {"converters": QuadraticProgramToQubo()}
        gro = GroverOptimizer(n_value, num_iterations=iters, quantum_instance=qi, **kwargs)
        res = gro.solve(qp)
    finally:
        algorithm_globals._random = old
    qi.rotations = coin.rotations
    check(dom.snap(qp) == before, "the program was modified")
    return qp, qubo, ref, qi, res, n, n_value, sign


def run(ch, iters_opts, all_free, bases, coefs=(0, 1, -2), consts=(0, 1, -3),
        backends=("statevector", "counts"), most=3):
    """all measurement histories"""
    ch.all_free = all_free
    spec = ch.choose("program", bases, free=True)
    statevector = ch.choose("backend", list(backends), free=True) == "statevector"
    iters = ch.choose("iterations", iters_opts, free=True)
    if not all_free:
        spec = dom.vary(ch, spec, coefs=list(coefs), consts=list(consts), cons=False)
    pure = not spec["cons"] and all(v[1] == "b" for v in spec["vars"])
    converters = "default"
    if not all_free:
        converters = ch.choose("converters", ["default", "given"] + (["none"] if pure else []))
    qp, qubo, ref, qi, res, n, n_value, sign = search(ch, spec, iters, statevector, converters, most)
    bits = lambda k: [(k >> i) & 1 for i in range(n)]
    x = opt.check_result(res, spec)
    check(qi.circuits >= 2, "only", qi.circuits, "circuits")
    thrs = qi.thresholds + [int(res.threshold)]
    check(thrs[0] == 0, "first threshold", thrs)
    check(all(a >= b for a, b in zip(thrs[1:], thrs[2:])), "thresholds increase", thrs)
    check(thrs[-1] == thrs[-2], "the last circuit was not run at the returned threshold", thrs)
    for c, k in enumerate(qi.outcomes):
        if k is not None:
            check(thrs[c + 1] == (ref[k] if c == 0 else min(thrs[c], ref[k])), "threshold after "
                  "measuring", bits(k), "with value", ref[k], "is", thrs[c + 1], "before", thrs[c])
    # no worse than anything that was measured, and itself attained
    conv = QuadraticProgramToQubo()
    conv.convert(qp)
    z_fval = sign * float(res.intermediate_fval)
    check(z_fval <= thrs[-1] + 1e-9, "returned value", z_fval, "but measured", thrs)
    cands = [k for k in ref if abs(ref[k] - z_fval) < 1e-9]
    pts = {tuple(round(float(v), 9) for v in conv.interpret(np.array(bits(k)))) for k in cands}
    check(tuple(round(v, 9) for v in x) in pts, "point", x, "does not have the reported value",
          res.intermediate_fval)
    check(z_fval == thrs[-1] or (z_fval == 0 and qubo["const"] == 0), "the point was not measured")
    if z_fval == thrs[-1] and None not in qi.outcomes and qubo["const"] != 0:
        pts = {tuple(round(float(v), 9) for v in conv.interpret(np.array(bits(k))))
               for k in cands if k in qi.outcomes}
        check(tuple(round(v, 9) for v in x) in pts, "the point", x, "was not measured", pts)
    check(res.n_input_qubits == n and res.n_output_qubits == n_value, "register sizes")
    check(len(res.operation_counts) == qi.circuits, "operation counts")
    # samples: the distribution of the last circuit that improved
    last = max([0] + [c for c in range(qi.circuits) if thrs[c + 1] != thrs[c]])
    # the search goes on until the given number of circuits in a row brought no improvement
    idle = qi.circuits - 1 - last
    check(1 <= idle <= iters, idle, "circuits after the last improvement, at most", iters)
    if idle < iters:
        known = {k for k in qi.outcomes if k is not None}
        check(None in qi.outcomes or len(known) == 2**n or qi.rotations >= 70, "gave up after", idle,
              "circuits without improvement instead of", iters, "having measured", sorted(known))
    dist = {k: p for k, p in qi.probs_log[last].items() if p >= 1e-6}
    raw = {tuple(int(v) for v in s.x): s.probability for s in res.raw_samples}
    check(set(raw) == {tuple(bits(k)) for k in dist}, "raw samples", raw, dist)
    for k, p in dist.items():
        check(abs(raw[tuple(bits(k))] - p) < 1e-6, "probability of", bits(k))
    for s in res.raw_samples:
        check(opt.close(float(s.fval), dom.obj(qubo, [int(v) for v in s.x])), "value of raw sample")
    merged = {}
    for k, p in dist.items():
        key = tuple(round(float(v), 9) for v in conv.interpret(np.array(bits(k))))
        merged[key] = merged.get(key, 0) + p
    got = opt.check_samples(res, spec)
    check(set(got) == set(merged) and all(abs(got[k] - merged[k]) < 1e-6 for k in got), "samples",
          got, merged)
    # the circuits amplify exactly the improvements
    for c, dist in enumerate(qi.exact_log):
        better = sum(v < thrs[c] for v in ref.values())
        laws = [expect(ref, thrs[c], r) for r in range(40)] if 0 < better < len(ref) else [
            {q: 1 / len(ref) for q in ref}]
        check(any(all(abs(dist.get(q, 0) - law[q]) < 1e-6 for q in law) for law in laws),
              "circuit", c, "prepares", dist, "which is no amplification below", thrs[c])
    ch.state((dom.canon(qubo), tuple(thrs), tuple(qi.outcomes)))
    return tuple(x), float(res.threshold)


def scenarios(tier):
    deep = tier == "thorough"
    if deep:
        return [
            Tree("all histories", lambda ch: run(ch, [1, 2, 3], True, BASES[:6]), 0),
            Tree("programs and histories", lambda ch: run(ch, [1, 3], False, BASES), 3),
            Tree("larger values", lambda ch: run(ch, [2, 3], False, LARGER, [0, 5], [0, -8]), 3),
            Tree("giving up", lambda ch: run(ch, [3, 4, 5], True, [BASES[4], ONE],
                                             backends=["counts"]), 0),
            Tree("five qubits", lambda ch: run(ch, [1, 2], False, WIDE, [0, 2], [0], most=5), 2),
            Tree("giving up, larger", lambda ch: run(ch, [5, 7], False, BASES[:3], [0, -2], [0],
                                                     backends=["counts"]), 3),
        ]
    return [
        Tree("all histories", lambda ch: run(ch, [1], True, BASES[:4] + BASES[5:6]), 0),
        Tree("two iterations", lambda ch: run(ch, [2], True, [BASES[0], BASES[4]],
                                               backends=["statevector"]), 0),
        Tree("larger values", lambda ch: run(ch, [2], False, LARGER, [], []), 2),
        Tree("programs", lambda ch: run(ch, [1], False, BASES), 1),
        Tree("giving up", lambda ch: run(ch, [3], True, [BASES[4], ONE], backends=["counts"]), 0),
        Tree("giving up, larger", lambda ch: run(ch, [5, 7], False, BASES[:3], [0], [0],
                                                 backends=["counts"]), 1),
        Tree("five qubits", lambda ch: run(ch, [1], False, WIDE, [], [], most=5), 1),
        Tree("programs and histories",
             lambda ch: run(ch, [3], False, [BASES[5], BASES[1], BASES[7]], [0, -2], [0, -3]), 2),
    ]
