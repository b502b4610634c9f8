"""Stateless, deviation-bounded choice explorer and explicit-state search, run on the real code.

A *scenario* is a Python function ``run(ch)`` that drives the real implementation.  Every source of
nondeterminism (which operation comes next, which argument, what a sub-solver / measurement / random
generator answers) goes through ``ch.choose``.  The explorer replays a choice prefix, takes the
default (index 0) at every later point, and then queues every alternative of every later point:
all choice sequences with at most ``bound`` deviations from the defaults are executed (points marked
``free`` cost nothing, so they are enumerated completely).  Queues are served in the order of the
number of deviations, so the first counterexample has the fewest.

An explicit-state scenario (class with ``ops``/``replay``) is searched breadth first with
deduplication on a canonical form of the state.
"""

import hashlib
import heapq
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from multiprocessing import connection

HANG_SECONDS = 120
MEMORY_LIMIT = 3 << 30


class Violation(Exception):
    """The property does not hold on this execution."""


class Skip(Exception):
    """This choice sequence leaves the domain of the property (execution is not counted)."""


class Hang(BaseException):
    """An execution did not terminate in time."""


def h64(obj):
    """stable 64 bit hash of a canonical, repr-able state"""
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Ch:
    """The choice context of one execution."""

    def __init__(self, prefix=()):
        self.prefix = tuple(prefix)
        self.points = []  # (label, number of options, chosen index, free)
        self.steps = 0
        self.states = []
        self.log = []

    def choose(self, label, options, free=False):
        """picks an option; the explorer tries all of them"""
        options = list(options)
        if not options:
            raise RuntimeError("no options at " + label)
        k = len(self.points)
        idx = 0
        if k < len(self.prefix):
            idx = self.prefix[k]
            if idx >= len(options):
                raise RuntimeError(
                    "replay divergence at point %d (%s): %d of %d"
                    % (k, label, idx, len(options))
                )
        self.points.append((label, len(options), idx, bool(free)))
        if idx:
            self.log.append("%s = %r" % (label, options[idx]))
        elif free:
            self.log.append("%s := %r" % (label, options[0]))
        return options[idx]

    def flag(self, label, free=False):
        """a Boolean choice with default False"""
        return self.choose(label, [False, True], free)

    def step(self, n=1):
        """counts implementation steps (calls whose effect is checked)"""
        self.steps += n

    def state(self, canon):
        """records a canonical state of the implementation that was reached and checked"""
        self.steps += 1
        self.states.append(h64(canon))


def check(cond, *msg):
    """raises a violation unless cond holds"""
    if not cond:
        raise Violation(" ".join(str(m) for m in msg))


class Tree:
    """A choice-tree scenario"""

    def __init__(self, name, func, bound, doc=""):
        self.name = name
        self.func = func
        self.bound = bound
        self.doc = doc or (func.__doc__ or "").strip()


class Graph:
    """An explicit-state scenario.  ``machine`` has

    ops(hist) -> list of JSON-able operations enabled after hist
    replay(hist) -> canonical state; raises Violation if any step or state breaks the property
    """

    def __init__(self, name, machine, depth, doc=""):
        self.name = name
        self.machine = machine
        self.depth = depth
        self.doc = doc or (machine.__doc__ or "").strip()


def _alarm(_sig, _frm):
    raise Hang()


def guarded(func):
    """runs func with a hang watchdog; returns (kind, message, traceback) or (None, None, result)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, HANG_SECONDS)
    try:
        return None, None, func()
    except Skip:
        return "skip", None, None
    except Violation as ex:
        return "violation", str(ex), traceback.format_exc()
    except Hang:
        return "violation", "no answer within %d s" % HANG_SECONDS, ""
    except (KeyboardInterrupt, SystemExit):
        raise
    except RuntimeError as ex:
        if "replay divergence" in str(ex):
            return "divergence", str(ex), traceback.format_exc()
        return (
            "violation",
            "unexpected exception %s: %s" % (type(ex).__name__, str(ex)[:300]),
            traceback.format_exc(),
        )
    except Exception as ex:  # pylint: disable=broad-except
        return (
            "violation",
            "unexpected exception %s: %s" % (type(ex).__name__, str(ex)[:300]),
            traceback.format_exc(),
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_one(scn, prefix):
    """one execution of a tree scenario"""
    ch = Ch(prefix)
    kind, msg, res = guarded(lambda: scn.func(ch))
    if kind is None and len(ch.points) < len(prefix):
        kind, msg = "divergence", "prefix not consumed"
    return ch, kind, msg, res


SCN = []  # scenarios, inherited by forked workers


def _work_tree(args):
    """executes a batch of prefixes; follows free alternatives as long as the slice lasts"""
    sid, bound, batch, slice_s = args
    scn = SCN[sid]
    end = time.time() + slice_s
    out = dict(
        sid=sid, execs=0, skips=0, steps=0, points=0, states=set(), outcomes=set(), todo=[],
        viol=None, err=None, sample=None, nstates=0,
    )
    stack = list(batch)
    n_done = 0
    while stack:
        if n_done and time.time() > end:
            break
        cost, prefix = stack.pop()
        n_done += 1
        ch, kind, msg, res = run_one(scn, prefix)
        if kind == "divergence":
            out["err"] = (prefix, msg, res)
            break
        if kind == "violation":
            out["viol"] = (cost, [p[2] for p in ch.points], msg, res, ch.log)
            out["execs"] += 1
            break
        out["states"].update(ch.states)
        if kind == "skip":
            out["skips"] += 1
        else:
            out["execs"] += 1
            out["outcomes"].add(h64(res))
        out["steps"] += ch.steps
        if out["sample"] is None and kind is None and cost:
            out["sample"] = dict(scenario=scn.name, choices=ch.log[-12:], outcome=repr(res)[:200])
        idxs = [p[2] for p in ch.points]
        for i in range(len(prefix), len(ch.points)):
            _, n, _, free = ch.points[i]
            c = cost if free else cost + 1
            if c > bound:
                continue
            head = tuple(idxs[:i])
            for alt in range(n - 1, 0, -1):
                item = (c, head + (alt,))
                if c == cost:
                    stack.append(item)
                else:
                    out["todo"].append(item)
    out["todo"].extend(stack)
    return out


def _work_graph(args):
    sid, hists = args
    scn = SCN[sid]
    out = dict(sid=sid, trans=0, succ=[], viol=None, sample=None)
    for hist in hists:
        kind, msg, ops = guarded(lambda: scn.machine.ops(hist))
        if kind is not None:
            out["viol"] = (hist, msg, ops)
            return out
        for op in ops:
            nxt = hist + [op]
            kind, msg, res = guarded(lambda: scn.machine.replay(nxt))
            if kind == "skip":
                continue
            if kind is not None:
                out["viol"] = (nxt, msg, res)
                return out
            out["trans"] += 1
            out["succ"].append((h64(res), nxt))
    return out


class Job:
    """a unit of work; answered by the worker that got it"""

    def __init__(self, func, args):
        self.func = func
        self.args = args
        self.tries = 0
        self.answer = None


class Workers:
    """forked worker processes, one pipe each; a job whose worker dies is tried once more"""

    def __init__(self, size, pin):
        self.ctx = mp.get_context("fork")
        self.cpus = sorted(os.sched_getaffinity(0)) if pin else None
        self.waiting = []
        self.slots = [None] * size  # (process, connection, job or None)
        for k in range(size):
            self._start(k)

    def _start(self, k):
        here, there = self.ctx.Pipe()
        proc = self.ctx.Process(target=self._loop, args=(there, here, k), daemon=True)
        proc.start()
        there.close()
        self.slots[k] = (proc, here, None)

    def _loop(self, conn, other, k):
        for slot in self.slots:  # inherited ends of the pipes of the other workers
            if slot is not None:
                slot[1].close()
        other.close()
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        try:
            resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, MEMORY_LIMIT))
            if self.cpus:
                # solvers with their own thread pools use one thread
                os.sched_setaffinity(0, {self.cpus[k % len(self.cpus)]})
        except (OSError, ValueError):
            pass
        while True:
            try:
                func, args = conn.recv()
            except EOFError:
                os._exit(0)  # pylint: disable=protected-access
            try:
                ans = (True, func(args))
            except BaseException:  # pylint: disable=broad-except
                ans = (False, traceback.format_exc())
            conn.send(ans)

    def submit(self, func, args):
        """queues a job"""
        job = Job(func, args)
        self.waiting.append(job)
        self.pump(0)
        return job

    def pump(self, timeout):
        """hands out waiting jobs and collects answers"""
        for k, (proc, conn, job) in enumerate(self.slots):
            if job is None and self.waiting:
                job = self.waiting.pop(0)
                self.slots[k] = (proc, conn, job)
                try:
                    conn.send((job.func, job.args))
                except OSError:
                    pass  # found dead below
        busy = {conn: k for k, (_p, conn, job) in enumerate(self.slots) if job is not None}
        for conn in connection.wait(list(busy), timeout):
            k = busy[conn]
            proc, _, job = self.slots[k]
            try:
                okay, ans = conn.recv()
            except (EOFError, OSError):
                proc.join()
                conn.close()
                self._start(k)
                job.tries += 1
                if job.tries > 1:
                    raise RuntimeError("a worker process died (exit code %s)" % proc.exitcode)
                self.waiting.insert(0, job)
                continue
            if not okay:
                raise RuntimeError("worker failed: " + ans)
            job.answer = ans
            self.slots[k] = (proc, conn, None)

    def close(self):
        """ends all workers at once"""
        for proc, conn, _ in self.slots:
            proc.kill()
            conn.close()
        for proc, _, _ in self.slots:
            proc.join()

    def __enter__(self):
        return self

    def __exit__(self, *_exc):
        self.close()


def explore(scenarios, deadline, procs=None, pin=False):
    """explores all scenarios; returns (coverage list, violation or None)"""
    global SCN  # pylint: disable=global-statement
    SCN = scenarios
    procs = procs or int(os.environ.get("MC_PROCS", "0")) or os.cpu_count() or 2
    cov = []
    for scn in scenarios:
        cov.append(
            dict(
                scenario=scn.name,
                kind="choice tree" if isinstance(scn, Tree) else "state graph",
                executions=0, skipped_out_of_domain=0, steps=0, states=0, outcomes=0,
                transitions=0, completed_bound=-1, bound=getattr(scn, "bound", None),
                depth=getattr(scn, "depth", None), exhausted=False,
            )
        )
    state_sets = [set() for _ in scenarios]
    outcome_sets = [set() for _ in scenarios]
    samples = []
    violation = None
    with Workers(procs, pin) as pool:
        # -- choice trees, all together, served by the number of deviations
        heap = []
        tick = 0
        for sid, scn in enumerate(scenarios):
            if isinstance(scn, Tree):
                heapq.heappush(heap, (0, tick, sid, [(0, ())]))
                tick += 1
        running = []
        timed_out = False
        queued = [0] * len(scenarios)
        min_left = {}
        while (heap or running) and violation is None:
            if time.time() > deadline:
                timed_out = True
                break
            while heap and len(running) < procs * 2:
                cost, _, sid, batch = heapq.heappop(heap)
                running.append(
                    (cost, sid, pool.submit(
                        _work_tree, (sid, scenarios[sid].bound, batch, 1.0)))
                )
            pool.pump(0.5)
            nxt = []
            for item in running:
                cost, sid, fut = item
                if fut.answer is None:
                    nxt.append(item)
                    continue
                out = fut.answer
                c = cov[sid]
                c["executions"] += out["execs"]
                c["skipped_out_of_domain"] += out["skips"]
                c["steps"] += out["steps"]
                state_sets[sid] |= out["states"]
                outcome_sets[sid] |= out["outcomes"]
                if out["sample"] and len(samples) < 60:
                    samples.append(out["sample"])
                if out["err"]:
                    raise RuntimeError("harness divergence in %s: %r" % (scenarios[sid].name, out["err"]))
                if out["viol"] and (violation is None or out["viol"][0] < violation["cost"]):
                    cost_v, choices, msg, tb, log = out["viol"]
                    violation = dict(
                        scenario=scenarios[sid].name, cost=cost_v, choices=choices, message=msg,
                        traceback=tb, log=log,
                    )
                by_cost = {}
                for it in out["todo"]:
                    by_cost.setdefault(it[0], []).append(it)
                for cc, items in by_cost.items():
                    size = max(1, min(200, len(items) // (procs * 2) + 1))
                    for k in range(0, len(items), size):
                        heapq.heappush(heap, (cc, tick, sid, items[k : k + size]))
                        tick += 1
            running = nxt
        if violation is None:
            left = {}
            for cost, _, sid, _b in heap:
                left[sid] = min(left.get(sid, 99), cost)
            for cost, sid, _f in running:
                left[sid] = min(left.get(sid, 99), cost)
            for sid, scn in enumerate(scenarios):
                if isinstance(scn, Tree):
                    cov[sid]["exhausted"] = sid not in left
                    cov[sid]["completed_bound"] = left[sid] - 1 if sid in left else scn.bound
        # -- state graphs
        for sid, scn in enumerate(scenarios):
            if not isinstance(scn, Graph) or violation is not None:
                continue
            kind, msg, res = guarded(lambda: scn.machine.replay([]))
            if kind is not None:
                violation = dict(
                    scenario=scn.name, cost=0, choices=[], message=msg, traceback=res, log=[]
                )
                break
            seen = {h64(res)}
            frontier = [[]]
            level = 0
            while frontier and level < scn.depth and violation is None:
                if time.time() > deadline:
                    timed_out = True
                    break
                size = max(1, min(40, len(frontier) // (procs * 4) + 1))
                jobs = [
                    pool.submit(_work_graph, (sid, frontier[k : k + size]))
                    for k in range(0, len(frontier), size)
                ]
                new = []
                for job in jobs:
                    while job.answer is None and time.time() <= deadline:
                        pool.pump(0.5)
                    if job.answer is None:
                        timed_out = True
                        break
                    out = job.answer
                    cov[sid]["transitions"] += out["trans"]
                    if out["viol"]:
                        hist, msg, tb = out["viol"]
                        if violation is None or len(hist) < violation["cost"]:
                            violation = dict(
                                scenario=scn.name, cost=len(hist), choices=hist, message=msg,
                                traceback=tb, log=[repr(o) for o in hist],
                            )
                    for key, hist in out["succ"]:
                        if key not in seen:
                            seen.add(key)
                            new.append(hist)
                if timed_out:
                    break
                if level == min(2, scn.depth - 1) and new:
                    samples.append(dict(scenario=scn.name, history=new[len(new) // 2]))
                frontier = new
                level += 1
                cov[sid]["completed_bound"] = level
            cov[sid]["states"] = len(seen)
            cov[sid]["executions"] = cov[sid]["transitions"]
            cov[sid]["exhausted"] = (not frontier) or level >= scn.depth
            cov[sid]["outcomes"] = len(seen)
    for sid, scn in enumerate(scenarios):
        if isinstance(scn, Tree):
            cov[sid]["states"] = len(state_sets[sid])
            cov[sid]["transitions"] = cov[sid]["steps"]
            cov[sid]["outcomes"] = len(outcome_sets[sid])
    return cov, samples, violation, timed_out


def replay(scn, choices):
    """re-executes a recorded violation; returns (kind, message, detail)"""
    if isinstance(scn, Tree):
        _ch, kind, msg, res = run_one(scn, choices)
        return kind, msg, res
    kind, msg, res = guarded(lambda: scn.machine.replay(choices))
    return kind, msg, res
