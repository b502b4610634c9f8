"""C17: operator splitting solves the right subproblems and keeps the best iterate."""

import itertools
import sys
import time
import types

import numpy as np

from qiskit_optimization import QiskitOptimizationError
from qiskit_optimization.algorithms import (
    ADMMOptimizer, ADMMParameters, OptimizationAlgorithm, OptimizationResult,
    OptimizationResultStatus,
)
from qiskit_optimization.converters import IntegerToBinary

from .. import dom, opt
from ..core import Skip, Tree, check

ASSUMPTIONS = [
    "at least one iteration; decisions closer than 1e-9 to their threshold are not distinguished",
    "the encoding of integer variables is decided by C09 and reused",
    "after a warm start the first dual residual is not compared",
]
CLOCKS = ("time", "perf_counter", "monotonic", "process_time")


class Sub(OptimizationAlgorithm):
    """a sub-solver that hands every problem to the monitor"""

    def __init__(self, monitor, kind):
        self.monitor = monitor
        self.kind = kind

    def get_compatibility_msg(self, problem):
        return ""

    def solve(self, problem):
        x = self.monitor.called(self.kind, problem)
        return OptimizationResult(
            x=np.array(x, dtype=float), fval=problem.objective.evaluate(x),
            variables=problem.variables, status=OptimizationResultStatus.SUCCESS)


def by_name(spec):
    """objective without constant, constraints and variables of a spec, keyed by name"""
    name = [v[0] for v in spec["vars"]]
    sign = 1 if spec["sense"] == "min" else -1
    poly = lambda o, s: (
        {name[i]: s * v for i, v in o["lin"].items()},
        {frozenset((name[i], name[j])): s * v for (i, j), v in o["quad"].items()})
    cons = [poly(c, 1) + (c["sense"], c["rhs"]) for c in spec["cons"]]
    return {v[0]: tuple(v[1:]) for v in spec["vars"]}, poly(spec, sign), cons


def same(got, want, size=1.0):
    """equality of two coefficient dictionaries up to rounding of values of a size"""
    return all(abs(got.get(k, 0) - want.get(k, 0)) <= 1e-12 * size + 1e-9 * abs(want.get(k, 0))
               for k in set(got) | set(want))


class Monitor:
    """the reference: a step by step model of the method, driven by the answers"""

    def __init__(self, ch, spec, par, free):
        self.ch = ch
        self.free = free
        self.par = par
        self.spec = spec  # the program over binary and continuous variables
        self.sign = 1 if spec["sense"] == "min" else -1
        self.names = [v[0] for v in spec["vars"]]
        self.bins = [i for i, v in enumerate(spec["vars"]) if v[1] == "b"]
        self.cont = [i for i, v in enumerate(spec["vars"]) if v[1] == "c"]
        self.eqs = [c for c in spec["cons"] if c["kind"] == "l" and c["sense"] == "=="
                    and set(c["lin"]) <= set(self.bins)]
        used = set(spec["lin"]) | {i for ij in spec["quad"] for i in ij}
        for c in self.eqs:
            used |= set(c["lin"])
        self.one = [i for i in self.bins if i in used]
        self.x0 = {i: 0.0 for i in self.bins}
        self.z = dict(self.x0)
        self.y = dict(self.x0)
        self.lam = dict(self.x0)
        self.z_old = dict(self.x0)
        self.u = {i: 0.0 for i in self.cont}
        self.rho = par["rho_initial"]
        self.log = []
        self.todo = []
        self.done = False
        self.clock = 1000.0
        if par["warm_start"]:
            self.todo = ["warm"]
        else:
            self.start()

    def start(self):
        self.todo = (["step 1"] if self.one else []) + ["step 2"]
        if self.par["three_block"] and self.bins:
            self.todo.append("step 3")

    def called(self, kind, problem):
        check(self.todo, "a sub-solver is called after the end")
        step = self.todo.pop(0)
        check(kind == ("qubo" if step == "step 1" else "cont"), step, "is solved by", kind)
        spec = dom.spec_of(problem, float)
        dom.consistent(problem)
        got = by_name(spec)
        self.ch.state((step, dom.canon(spec)))
        names = [v[0] for v in spec["vars"]]
        if step == "step 1":
            ans = self.step_1(got)
        elif step == "step 2":
            ans = self.step_2(got)
        elif step == "step 3":
            ans = self.step_3(got)
        else:
            ans = self.warm(got)
        if not self.todo:
            if step != "warm":
                self.finish()
            if not self.done:
                self.start()
        return [ans[n] for n in names]

    def compare(self, step, got, variables, lin, quad, cons):
        check(got[0] == variables, step, "variables", got[0], "expected", variables)
        name = self.names
        lin = {name[i]: v for i, v in lin.items()}
        quad = {frozenset((name[i], name[j])): v for (i, j), v in quad.items()}
        lin_g, quad_g = dict(got[1][0]), dict(got[1][1])
        if step == "step 1":  # the square of a binary variable is the variable
            for lin_, quad_ in ((lin, quad), (lin_g, quad_g)):
                for k in list(quad_):
                    if len(k) == 1:
                        i = list(k)[0]
                        lin_[i] = lin_.get(i, 0) + quad_.pop(k)
        size = max([1.0] + [abs(v) for v in list(lin.values()) + list(quad.values())])
        size = max([size, self.rho] + [abs(v) for v in self.lam.values()])
        check(same(lin_g, lin, size) and same(quad_g, quad, size), step, "objective", lin_g, quad_g,
              "expected", lin, quad)
        want = []
        for c in cons:
            want.append(({name[i]: v for i, v in c["lin"].items()},
                         {frozenset((name[i], name[j])): v for (i, j), v in c["quad"].items()},
                         c["sense"], c["rhs"]))
        rest = list(got[2])
        for w in want:
            hit = [k for k, g in enumerate(rest) if g[2:] == w[2:] and same(g[0], w[0])
                   and same(g[1], w[1])]
            check(hit, step, "lacks the constraint", w, "has", got[2])
            rest.pop(hit[0])
        check(not rest, step, "has more constraints", rest)

    def warm(self, got):
        lin = {i: self.sign * v for i, v in self.spec["lin"].items()}
        quad = {ij: self.sign * v for ij, v in self.spec["quad"].items()}
        variables = {v[0]: ("c",) + tuple(v[2:]) for v in self.spec["vars"]}
        self.compare("warm start", got, variables, lin, quad, self.spec["cons"])
        ans = {}
        for i, v in enumerate(self.spec["vars"]):
            ans[v[0]] = self.ch.choose("warm " + v[0], [0.5, 0.25, 1.0] if v[1] == "b" else
                                       [1.0, v[2]], free=self.free)
        for i in self.bins:
            self.x0[i] = self.z[i] = ans[self.names[i]]
        for i in self.cont:
            self.u[i] = ans[self.names[i]]
        return ans

    def step_1(self, got):
        par = self.par
        lin = {i: self.sign * self.spec["lin"].get(i, 0) + self.lam[i] - self.rho
               * (self.y[i] + self.z[i]) for i in self.one}
        quad = {}
        for (i, j), v in self.spec["quad"].items():
            if i in self.bins and j in self.bins:
                quad[i, j] = self.sign * v
        for i in self.one:
            quad[i, i] = quad.get((i, i), 0) + self.rho / 2
        for c in self.eqs:  # factor_c / 2 (a x - b)^2
            idx = sorted(c["lin"])
            for i in idx:
                lin[i] = lin.get(i, 0) - par["factor_c"] * c["rhs"] * c["lin"][i]
            for i, j in itertools.combinations_with_replacement(idx, 2):
                v = par["factor_c"] * c["lin"][i] * c["lin"][j]
                quad[i, j] = quad.get((i, j), 0) + (v / 2 if i == j else v)
        variables = {self.names[i]: ("b", 0.0, 1.0) for i in self.one}
        self.compare("step 1", got, variables, lin, quad, [])
        n = len(self.one)
        if n > 5:
            bits = [tuple(float(k * i // (k + 1) % 2) for i in range(n)) for k in (0, 1, 2, 5)]
            bits += [tuple(float(i == k) for i in range(n)) for k in range(n)] + [(1.0,) * n]
        else:
            bits = list(itertools.product([0.0, 1.0], repeat=n))
        vals = self.ch.choose("x0", bits[::-1] if len(self.log) % 2 else bits, free=self.free)
        self.x0 = {i: 0.0 for i in self.bins}
        self.x0.update(zip(self.one, vals))
        return {self.names[i]: v for i, v in zip(self.one, vals)}

    def step_2(self, got):
        lin = {i: self.sign * v for i, v in self.spec["lin"].items() if i in self.cont}
        quad = {ij: self.sign * v for ij, v in self.spec["quad"].items() if ij[0] in self.cont}
        for i in self.bins:
            lin[i] = -self.lam[i] - self.rho * (self.x0[i] - self.y[i])
            quad[i, i] = self.rho / 2
        variables = {v[0]: ("c", 0.0, 1.0) if v[1] == "b" else tuple(v[1:])
                     for v in self.spec["vars"]}
        cons = [c for c in self.spec["cons"] if not any(c is e for e in self.eqs)]
        self.compare("step 2", got, variables, lin, quad, cons)
        ans = {}
        how = self.ch.choose("z", ["as x0", "half", "apart", "zero"], free=self.free)
        for i in self.bins:
            self.z[i] = {"as x0": self.x0[i], "half": 0.5, "zero": 0.0,
                         "apart": 1 - 0.75 * self.x0[i]}[how]
            ans[self.names[i]] = self.z[i]
        for i in self.cont:
            low, upp = self.spec["vars"][i][2:4]
            self.u[i] = self.ch.choose("u" + self.names[i],
                                       [min(1.0, upp), low, min(low + 1.5, upp)], free=self.free)
            ans[self.names[i]] = self.u[i]
        return ans

    def step_3(self, got):
        par = self.par
        lin = {i: -self.lam[i] - self.rho * (self.x0[i] - self.z[i]) for i in self.bins}
        quad = {(i, i): (par["beta"] + self.rho) / 2 for i in self.bins}
        free = {n: v for n, v in got[0].items()}
        check(all(v[0] == "c" and v[1] <= -dom.INF and v[2] >= dom.INF for v in free.values())
              and set(free) == {self.names[i] for i in self.bins}, "step 3 variables", free)
        self.compare("step 3", got, free, lin, quad, [])
        how = self.ch.choose("y", ["zero", "gap", "-1/4"], free=self.free)
        for i in self.bins:
            self.y[i] = {"zero": 0.0, "gap": self.x0[i] - self.z[i], "-1/4": -0.25}[how]
        return {self.names[i]: self.y[i] for i in self.bins}

    def finish(self):
        """end of an iteration"""
        par = self.par
        gap = {i: self.x0[i] - self.z[i] - self.y[i] for i in self.bins}
        for i in self.bins:
            self.lam[i] += self.rho * gap[i]
        x = self.point()
        cost = self.sign * dom.obj(self.spec, x)
        viol = 0.0
        for c in self.spec["cons"]:
            d = dom.ev(c["lin"], c["quad"], x) - c["rhs"]
            viol += abs(d) if c["sense"] == "==" else max(d if c["sense"] == "<=" else -d, 0)
        prim = sum(v * v for v in gap.values()) ** 0.5
        dual = self.rho * sum((self.z[i] - self.z_old[i]) ** 2 for i in self.bins) ** 0.5
        self.log.append(dict(
            x=x, cost=cost, viol=viol, prim=prim, dual=dual,
            merit=cost + par["mu_merit"] * viol, lam=sum(v * v for v in self.lam.values()) ** 0.5,
            x0=dict(self.x0), z=dict(self.z), y=dict(self.y), u=dict(self.u)))
        self.z_old = dict(self.z)
        if par["vary_rho"] == 0:
            if self.rho < 1e10:
                self.rho *= 1.1
        else:
            for a, b in ((prim, dual), (dual, prim)):
                if abs(a - par["mu_res"] * b) < 1e-9 and a > 0:
                    raise Skip()
            if prim > par["mu_res"] * dual:
                self.rho *= par["tau_incr"]
            elif dual > par["mu_res"] * prim:
                self.rho /= par["tau_decr"]
        if abs(prim - par["tol"]) < 1e-9:
            raise Skip()
        late = par["max_time"] < 1e9 and self.ch.flag("slow", free=self.free)
        if late:
            self.clock += 1000.0
        self.done = len(self.log) >= par["maxiter"] or prim <= par["tol"] or late
        self.ch.step()

    def point(self):
        x = [0.0] * len(self.names)
        for i in self.bins:
            x[i] = self.x0[i]
        for i in self.cont:
            x[i] = self.u[i]
        return x


def run_method(qp, monitor, par, later=False):
    """solve with a clock that only the monitor moves"""
    kwargs = {k: v for k, v in par.items() if k != "max_time" or v < 1e9}
    subs = Sub(monitor, "qubo"), Sub(monitor, "cont")
    if later:
        method = ADMMOptimizer(*subs)
        method.parameters = ADMMParameters(**kwargs)
    else:
        method = ADMMOptimizer(*subs, ADMMParameters(**kwargs))
    if par["max_time"] > 1e9:
        return method.solve(qp)
    funcs = {getattr(time, c) for c in CLOCKS}
    # the clocks themselves and every name under which the package imported one
    spots = [(time, c) for c in CLOCKS]
    for name, mod in list(sys.modules.items()):
        if name.startswith("qiskit_optimization") and mod is not None:
            spots += [(mod, k) for k, v in list(vars(mod).items())
                      if isinstance(v, types.BuiltinFunctionType) and v in funcs]
    old = [(mod, k, getattr(mod, k)) for mod, k in spots]
    try:
        for mod, k in spots:
            setattr(mod, k, lambda: monitor.clock)
        return method.solve(qp)
    finally:
        for mod, k, func in old:
            setattr(mod, k, func)


B, C, I = ("b", 0, 1), ("c", 0, 3), ("i", -1, 1)
BASES = [
    dom.make("m0", [("a", "b"), ("u", "c", 0, 3), ("b", "b")], "min", 1, {0: -2, 1: 1, 2: 1},
             {(0, 2): 3, (1, 1): 0.5},
             [dict(lin={0: 1, 2: 1}, sense="==", rhs=1, name="e"),
              dict(lin={0: 1, 1: 1}, sense="<=", rhs=2, name="l")]),
    dom.make("m1", [("u", "c", -1, 2), ("a", "b")], "max", -1, {0: 1, 1: 2}, {(0, 0): -1},
             [dict(lin={0: 1, 1: -1}, sense=">=", rhs=0, name="g")]),
    dom.make("m2", [("a", "b"), ("b", "b"), ("c", "b")], "max", 0, {1: 1}, {(0, 1): -1},
             [dict(lin={1: 1, 2: 2}, sense="==", rhs=2, name="e"),
              dict(lin={0: 1, 2: 1}, sense="<=", rhs=1, name="l"),
              dict(quad={(0, 1): 1}, sense="==", rhs=0, name="q")]),
    dom.make("m3", [("u", "c", 0, 2), ("k", "i", -1, 1)], "min", 0, {0: -1, 1: 1}, {(1, 1): 2},
             [dict(lin={0: 1, 1: 1}, sense="==", rhs=1, name="e"),
              dict(lin={1: 2}, sense="==", rhs=2, name="i")]),
    dom.make("m4", [("u", "c", 0, 2), ("v", "c", -1, 1)], "max", 2, {0: -1}, {(0, 1): 1},
             [dict(lin={0: 1, 1: 1}, sense="<=", rhs=1, name="l"),
              dict(quad={(0, 0): 1}, sense="<=", rhs=1, name="q")]),
    dom.make("m5", [("a", "b"), ("b", "b"), ("u", "c", 0, 1)], "min", 0, {2: 1}, {},
             [dict(lin={0: 1, 2: 1}, sense=">=", rhs=1, name="l")]),
    dom.make("m6", [("a", "b"), ("u", "c", 0, 1), ("b", "b"), ("c", "b"), ("d", "b")], "max", 0,
             {3: 1, 1: -1}, {(3, 4): -2},
             [dict(lin={0: 1, 2: -1}, sense="==", rhs=0, name="e"),
              dict(lin={2: 1, 3: 2}, sense="==", rhs=2, name="f")]),
]
PAR = dict(rho_initial=8.0, factor_c=4.0, beta=2.0, maxiter=3, tol=1e-4, max_time=1e99,
           three_block=True, vary_rho=0, tau_incr=2.0, tau_decr=4.0, mu_res=2.0, mu_merit=16.0,
           warm_start=False)


def one(ch, spec, par, free, later=False):
    """runs the method once and compares everything it reports"""
    qp = dom.build(spec)
    before = dom.snap(qp)
    conv = IntegerToBinary()
    flat = dom.spec_of(conv.convert(qp))
    for i, j in spec["quad"]:
        if {spec["vars"][i][1], spec["vars"][j][1]} in ({"b", "c"}, {"i", "c"}):
            raise Skip()
    mon = Monitor(ch, flat, par, free)
    res = run_method(qp, mon, par, later)
    check(mon.done, "the method stopped after", len(mon.log), "iterations, residual",
          [e["prim"] for e in mon.log])
    check(dom.snap(qp) == before, "the program was modified")
    best = min(e["merit"] for e in mon.log)
    pts = [e["x"] for e in mon.log if abs(e["merit"] - best) < 1e-7]
    pts = [[round(float(v), 9) for v in conv.interpret(np.array(p))] for p in pts]
    x = opt.check_result(res, spec)
    check([round(v, 9) for v in x] in pts, "point", x, "is not the iterate of least merit", pts)
    state = res.state
    rows = [("cost_iterates", "cost"), ("residuals", "prim"), ("cons_r", "viol"),
            ("merits", "merit"), ("lambdas", "lam"), ("dual_residuals", "dual")]
    for attr, key in rows:
        got, want = [float(v) for v in getattr(state, attr)], [e[key] for e in mon.log]
        if key == "dual" and par["warm_start"]:
            got, want = got[1:], want[1:]
        check(len(got) == len(want) and all(opt.close(a, b, 1e-7) for a, b in zip(got, want)),
              attr, got, "expected", want)
    for attr, key, idx in (("x0_saved", "x0", mon.bins), ("z_saved", "z", mon.bins),
                           ("y_saved", "y", mon.bins), ("u_saved", "u", mon.cont)):
        got = [[float(v) for v in row] for row in getattr(state, attr)]
        want = [[e[key][i] for i in idx] for e in mon.log]
        check(len(got) == len(want) and all(np.allclose(a, b) for a, b in zip(got, want)), attr,
              got, "expected", want)
    check(opt.close(state.rho, mon.rho, 1e-7), "rho", state.rho, "expected", mon.rho)
    return len(mon.log), tuple(x)


def run_all(ch, iters, bases, blocks=(True, False)):
    """every sequence of answers"""
    spec = ch.choose("program", bases, free=True)
    par = dict(PAR, maxiter=iters, three_block=ch.choose("blocks", list(blocks), free=True),
               vary_rho=ch.choose("rho rule", [0, 1], free=True))
    return one(ch, spec, par, True)


def run_prog(ch):
    """programs, parameters and answers within the deviation bound"""
    base = ch.choose("base", BASES, free=True)
    spec = dom.vary(ch, base, var_alts=[B, C, I], coefs=[1, 0, -2], consts=[0, 3], rhss=[0, -1, 2])
    par = dict(PAR)
    for key, alts in (("rho_initial", [1.0, 2e10]), ("factor_c", [1.0, 0.0]), ("beta", [0.5]),
                      ("maxiter", [1, 2, 4]), ("tol", [0.6, 1.3]), ("max_time", [10.0]),
                      ("three_block", [False]), ("vary_rho", [1]), ("mu_merit", [0.0, 0.25]),
                      ("warm_start", [True])):
        par[key] = ch.choose(key, [par[key]] + alts)
    later = ch.flag("parameters set later")
    out = one(ch, spec, par, False, later)
    return out


def run_params(ch, deep):
    """parameters and answers, on two programs"""
    spec = ch.choose("base", BASES[:4] if deep else BASES[:3], free=True)
    par = dict(PAR, vary_rho=ch.choose("rho rule", [1, 0], free=True),
               three_block=ch.choose("blocks", [True, False]),
               warm_start=ch.choose("warm start", [False, True]))
    for key, alts in (("rho_initial", [1.0]), ("factor_c", [1.0]), ("beta", [0.5]),
                      ("maxiter", [4, 1]), ("tol", [0.6, 1.3]), ("max_time", [10.0]),
                      ("tau_incr", [3.0]), ("tau_decr", [8.0]), ("mu_res", [1.0, 10.0]),
                      ("mu_merit", [0.0, 0.25])):
        par[key] = ch.choose(key, [par[key]] + alts)
    return one(ch, spec, par, False)


WIDE = dom.make(
    "wide", [("v%d" % i, "b") if i % 3 else ("v%d" % i, "c", -1 if i % 2 else 0, 2)
             for i in range(13)], "max", 2, {i: (i % 5) - 2 for i in range(13)},
    {(1, 2): 1, (1, 10): -2, (4, 11): 3, (2, 2): 1, (0, 0): -1, (3, 12): -0.5, (9, 9): -2},
    [dict(lin={1: 1, 11: 2, 10: -1}, sense="==", rhs=1, name="e"),
     dict(lin={2: 1, 12: 1, 0: -1}, sense="<=", rhs=2, name="l"),
     dict(lin={7: 1, 8: 1}, sense="==", rhs=1, name="f"),
     dict(lin={4: 1, 5: 1, 9: 1}, sense=">=", rhs=1, name="g"),
     dict(lin={10: 1, 3: 1}, sense="==", rhs=1, name="h"),
     dict(lin={12: 1}, quad={(0, 12): 1}, sense="<=", rhs=3, name="q")])


def run_wide(ch):
    """thirteen variables, among which the binary and continuous ones alternate"""
    spec = ch.choose("program", [WIDE, dom.reordered(WIDE)], free=True)
    par = dict(PAR, vary_rho=ch.choose("rho rule", [0, 1], free=True),
               three_block=ch.choose("blocks", [True, False], free=True),
               warm_start=ch.flag("warm start"))
    return one(ch, spec, par, False)


def run_sizes(ch):
    """programs whose coefficients, or some of them, are large or tiny"""
    spec = ch.choose("base", [BASES[0], BASES[1], BASES[2], BASES[4]], free=True)
    spec = dom.magnify(ch, spec, [2.0**20, 2.0**-20, 2.0**-10], dom.MORE)
    par = dict(PAR, maxiter=2, vary_rho=ch.choose("rho rule", [0, 1], free=True),
               mu_merit=ch.choose("mu_merit", [16.0, 0.25]))
    return one(ch, spec, par, False)


def run_reuse(ch):
    """one optimizer object solves several programs, as new ones would"""
    first = ch.choose("first", BASES, free=True)
    second = ch.choose("second", BASES, free=True)
    par = dict(PAR, maxiter=2, warm_start=ch.choose("warm", [False, True], free=True))
    outs = []
    subs = Sub(None, "qubo"), Sub(None, "cont")
    shared = ADMMOptimizer(*subs, ADMMParameters(
        **{k: v for k, v in par.items() if k != "max_time"}))
    kept = None
    for k, spec in enumerate([first, second]):
        qp = dom.build(spec)
        mon = Monitor(ch, dom.spec_of(IntegerToBinary().convert(qp)), par, False)
        for sub in subs:
            sub.monitor = mon
        res = shared.solve(qp)
        check(mon.done, "stopped early")
        opt.check_result(res, spec)
        if kept is None:
            kept = (res, list(res.x), list(res.state.merits))
        outs.append(tuple(res.x))
    check(list(kept[0].x) == kept[1] and list(kept[0].state.merits) == kept[2],
          "an earlier result changed")
    return tuple(outs)


def run_reject(ch):
    """products of discrete and continuous variables cannot be split"""
    types = [ch.choose("type %d" % i, ["b", "c", "i"], free=True) for i in range(3)]
    pair = ch.choose("product", [(0, 1), (0, 2), (1, 2), (1, 1)], free=True)
    sense = ch.choose("sense", ["min", "max"], free=True)
    bounds = {"b": B, "c": C, "i": I}
    spec = dom.make("r", [("v%d" % i,) + bounds[t] for i, t in enumerate(types)], sense, 0,
                    {0: 1}, {pair: 1}, [])
    qp = dom.build(spec)
    before = dom.snap(qp)
    kinds = {types[i] == "c" for i in pair}
    method = ADMMOptimizer(Sub(None, "q"), Sub(None, "c"), ADMMParameters(maxiter=1))
    bad = len(kinds) == 2
    check(bool(method.get_compatibility_msg(qp)) == bad, "compatibility message of", types, pair)
    check(method.is_compatible(qp) == (not bad), "is_compatible")
    if bad:
        try:
            method.solve(qp)
        except QiskitOptimizationError:
            check(dom.snap(qp) == before, "rejected program was modified")
            ch.state((tuple(types), pair))
            return "rejected"
        check(False, "accepted a product of discrete and continuous variables")
    return "fine"


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("every answer, one iteration",
             lambda ch: run_all(ch, 1, BASES if deep else BASES[:6]), 0),
        Tree("every answer, two iterations",
             (lambda ch: run_all(ch, 2, BASES)) if deep else
             (lambda ch: run_all(ch, 2, BASES[1:2], [True])), 0),
        Tree("parameters and answers", lambda ch: run_params(ch, deep), 3 if deep else 2),
        Tree("programs", run_prog, 3 if deep else 1),
        Tree("thirteen variables", run_wide, 2 if deep else 1),
        Tree("magnitudes", run_sizes, 2 if deep else 1),
        Tree("one object, two programs", run_reuse, 1 if deep else 0),
        Tree("rejected", run_reject, 0),
    ]
