"""C07: a program written to an LP file is the program that is read back."""

import os
import shutil
import tempfile

from qiskit_optimization import QuadraticProgram

from .. import dom
from ..core import Tree, check
from .c06 import normal

ASSUMPTIONS = [
    "programs have a non-empty name (docplex writes its own default name otherwise)",
    "names of variables and constraints are valid LP identifiers, names of programs have no "
    "backslash, no outer blanks and ASCII characters only; linear and quadratic constraint names are distinct",
    "an unused continuous variable with default bounds has no place in the LP format; the order of "
    "variables is not part of the format",
    "CPLEX's LP reader is trusted",
]

INF = dom.INF


def drop_unused(spec):
    """removes what the LP format cannot carry"""
    used = set(k for k, v in spec["lin"].items() if v)
    for k, v in spec["quad"].items():
        if v:
            used.update(k)
    for c in spec["cons"]:
        used.update(k for k, v in c["lin"].items() if v)
        for k, v in c["quad"].items():
            if v:
                used.update(k)
    keep = [
        i for i, v in enumerate(spec["vars"])
        if i in used or not (v[1] == "c" and v[2] == 0 and v[3] >= INF)
    ]
    new = {i: p for p, i in enumerate(keep)}
    ren1 = lambda d: {new[k]: v for k, v in d.items() if v}
    ren2 = lambda d: {(new[k[0]], new[k[1]]): v for k, v in d.items() if v}
    out = dict(spec, vars=[spec["vars"][i] for i in keep], lin=ren1(spec["lin"]),
               quad=ren2(spec["quad"]))
    out["cons"] = [dict(c, lin=ren1(c["lin"]), quad=ren2(c["quad"])) for c in spec["cons"]]
    return out


BASES = [
    dom.make("p0", [("a", "b"), ("k", "i", -2, 3), ("y", "c", -1, 2)], "min", 1, {0: 1, 1: -2},
             {(0, 1): 1, (1, 1): 2, (1, 2): -1},
             [dict(lin={0: 1, 1: 2}, sense="<=", rhs=3, name="l0"),
              dict(lin={1: 1, 2: -1}, sense=">=", rhs=-1, name="l1"),
              dict(lin={2: 1}, quad={(0, 1): 2, (1, 1): 1}, sense="<=", rhs=4, name="q0")]),
    dom.make("my prog", [("u", "b"), ("v", "b"), ("w", "c", -INF, INF)], "max", -2, {1: 1},
             {(0, 2): 1, (0, 0): 3},
             [dict(lin={0: 1, 1: 1, 2: 1}, sense="==", rhs=2, name="c"),
              dict(quad={(0, 0): 1, (1, 2): -1}, sense=">=", rhs=0, name="c0"),
              dict(quad={(0, 1): 1, (2, 2): 2}, lin={0: -1}, sense="<=", rhs=1, name="q0")]),
    dom.make("wide", [("x%d" % i, "b" if i % 2 else "i", 0, 1 if i % 2 else 9) for i in range(12)],
             "min", 0, {i: i - 3 for i in range(12)}, {(1, 10): 1, (2, 11): -1, (0, 0): 2},
             [dict(lin={i: 1 for i in range(12)}, sense="<=", rhs=7, name="sum"),
              dict(lin={10: 1, 2: -1}, sense="==", rhs=0, name="r10")]),
]


def check_back(ch, spec, back, what):
    dom.consistent(back)
    got = dom.spec_of(back)
    check(normal(drop_unused(got), True) == normal(drop_unused(spec), True), what,
          "program read back differs: got", normal(drop_unused(got), True), "expected",
          normal(drop_unused(spec), True))
    names = [v[0] for v in got["vars"]]
    check(set(names) <= {v[0] for v in spec["vars"]}, what, "invented variables", names)
    ch.state(dom.canon(got))
    ch.step()
    return dom.canon(got)


def scratch():
    return tempfile.mkdtemp(prefix="mc_lp_")


def run_file(ch):
    """write and read all programs within the deviation bound, wide alphabets"""
    return _file(ch, dict(
        var_alts=[("b", 0, 1), ("i", -2, 1), ("i", 0, INF), ("c", -INF, 1), ("c", 0.5, 2),
                  ("c", 0, INF), ("i", -INF, 2), ("i", 0, 1), ("c", 0, 1), ("i", 1, 1), ("i", 0, 0)],
        coefs=[1, 0, -2.5, 1000.125], rhss=[0, -1, 2.5], consts=[0, 2.5]))


def run_file2(ch):
    """write and read all programs within the deviation bound, narrow alphabets"""
    return _file(ch, dict(
        var_alts=[("b", 0, 1), ("i", 0, 1), ("c", 0, INF)], coefs=[0, -2.5], rhss=[0, 2.5],
        consts=[0]))


def _file(ch, alphabets):
    base = ch.choose("base", BASES[:2], free=True)
    spec = dom.vary(
        ch, base, **alphabets,
        extra=[dom.con({0: 3}, {}, "==", 0, "f2"), dom.con({0: 1, 2: 0.125}, {}, ">=", 100, "f1")],
    )
    spec["name"] = ch.choose("name", others_name(base["name"]))
    qp = dom.build(spec, ch.choose("format", ["name", "csr"]))
    before = dom.snap(qp)
    tmp = scratch()
    try:
        how = ch.choose("path", ["file.lp", "file", "string"])
        if how == "string":
            path = os.path.join(tmp, "s.lp")
            with open(path, "w") as file:
                file.write(qp.export_as_lp_string())
        else:
            qp.write_to_lp_file(os.path.join(tmp, how))
            path = os.path.join(tmp, "file.lp")
            check(os.path.exists(path), "no file written for", how, os.listdir(tmp))
        back = QuadraticProgram("old")
        if ch.flag("read over previous contents"):
            back.binary_var("a")
            back.binary_var("zz")
            back.linear_constraint({"zz": 1}, "<=", 1, "c")
            back.maximize(1, {"zz": 2})
        back.read_from_lp_file(path)
        out = check_back(ch, spec, back, how)
        check(back.name == spec["name"], "name", repr(back.name), repr(spec["name"]))
        check(dom.snap(qp) == before, "writing changed the program")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def others_name(cur):
    return [cur] + [n for n in ("p1", "two words") if n != cur]


def alike(a, b):
    """equal up to twelve digits and twelve decimals, which is what the writer of the format keeps"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(p, q) for p, q in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 2e-12 + 1e-11 * max(abs(a), abs(b))
    return a == b


def run_scale(ch):
    """numbers of any magnitude and with many digits"""
    spec = ch.choose("base", BASES, free=True)
    if ch.flag("powers of two", free=True):
        spec = dom.magnify(ch, spec, [2.0 ** -16, 2.0 ** 20, 2.0 ** 30], dom.MORE)
    else:
        value = ch.choose("number", [1e-6, 123456.75, 1e9, 0.1, 1 / 3, -1e-4, 12345678.5, 1e-12,
                                     -98765.4321], free=True)
        where = ch.choose("place", ["constant", "linear", "quadratic", "rhs", "constraint", "bound",
                                    "quadratic constraint"], free=True)
        spec = dom.scaled(spec, 1)
        if where == "constant":
            spec["const"] = value
        elif where == "linear":
            spec["lin"][1] = value
        elif where == "quadratic":
            spec["quad"][0, 0] = value
        elif where == "rhs":
            spec["cons"][0]["rhs"] = value
        elif where == "constraint":
            spec["cons"][0]["lin"][0] = value
        elif where == "quadratic constraint":
            con = spec["cons"][-1]
            if con["kind"] == "l":
                return "none"
            con["quad"][0, 1] = value
        else:
            name, typ, low, upp = spec["vars"][2]
            if typ == "b":
                return "none"
            spec["vars"][2] = (name, typ, min(low, value), max(value, low))
    tmp = scratch()
    try:
        path = os.path.join(tmp, "m.lp")
        dom.build(spec).write_to_lp_file(path)
        back = QuadraticProgram()
        back.read_from_lp_file(path)
        dom.consistent(back)
        got, want = normal(drop_unused(dom.spec_of(back)), True), normal(drop_unused(spec), True)
        check(alike(got, want), "program read back differs: got", got, "expected", want)
        ch.state(dom.canon(spec))
        return dom.canon(spec)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_hist(ch):
    """histories of writes, reads and edits over one file"""
    tmp = scratch()
    try:
        path = os.path.join(tmp, "h.lp")
        specs = [drop_unused(b) for b in BASES]
        progs = [dom.build(b) for b in specs]
        cur = QuadraticProgram("reader")
        content = None
        loaded = None
        for k in range(4):
            opts = ["stop", "write 0", "write 1", "write 2", "read", "write back", "edit"]
            what = ch.choose("op %d" % k, opts, free=True)
            if what == "stop":
                break
            if what.startswith("write ") and what[-1].isdigit():
                idx = int(what[-1])
                progs[idx].write_to_lp_file(path)
                content = dom.spec_of(progs[idx])
            elif what == "read":
                if content is None:
                    try:
                        cur.read_from_lp_file(path)
                    except FileNotFoundError:
                        continue
                    except Exception:  # pylint: disable=broad-except
                        continue
                    check(False, "a missing file was read")
                cur.read_from_lp_file(path)
                loaded = content
                check_back(ch, loaded, cur, "read")
            elif what == "write back":
                if loaded is None:
                    continue
                cur.write_to_lp_file(path)
                content = dom.spec_of(cur)
            else:
                progs[0].objective.linear[0] = 5.5 + k
                progs[0].get_linear_constraint(0).rhs = 7 + k
        return (repr(content), repr(loaded))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


NAMES = ["p", "a:b", ":", "Problem name: z", "a  b", "a\tb", "x=1", "a.lp", "my/dir", "End",
         "Minimize", "max cut (2)", "Subject To", "1", "q-1", "#1", "docplex_model1", "Max-cut",
         "name, with; signs!", "x" * 120]


def run_name(ch):
    """names of programs, over a reader with any previous name, through one or two files"""
    name = ch.choose("name", NAMES, free=True)
    old = ch.choose("name before", ["old", "", name], free=True)
    spec = dict(drop_unused(BASES[0]), name=name)
    qp = dom.build(spec)
    tmp = scratch()
    try:
        path = os.path.join(tmp, "n.lp")
        qp.write_to_lp_file(path)
        back = QuadraticProgram(old)
        back.read_from_lp_file(path)
        check(back.name == name, "name", repr(back.name), "expected", repr(name))
        check_back(ch, spec, back, "read")
        back.write_to_lp_file(os.path.join(tmp, "again"))
        back.read_from_lp_file(os.path.join(tmp, "again.lp"))
        check(back.name == name, "name after the second file", repr(back.name), repr(name))
        return check_back(ch, spec, back, "read twice")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_text(ch):
    """files written by hand: each section in each form, in the usual order"""
    sense = ch.choose("sense", ["Minimize", "Maximize", "MIN", "max"], free=True)
    obj = ch.choose("objective", [
        ("x + 2 y", 0, {0: 1, 1: 2}, {}), ("", 0, {}, {}), ("x + 2 y + 3", 3, {0: 1, 1: 2}, {}),
        ("- 1.5 x + [ x^2 + 4 x*y - z^2 ]/2", 0, {0: -1.5}, {(0, 0): .5, (0, 1): 2, (2, 2): -.5}),
        ("[ 2 y*z ]/2 - 7", -7, {}, {(1, 2): 1})])
    first = ch.choose("first constraint", [
        ("x + y", {0: 1, 1: 1}, {}), ("- 3 z + 0.5 x", {2: -3, 0: .5}, {}),
        ("x + [ x^2 - 2 y*z ]", {0: 1}, {(0, 0): 1, (1, 2): -2})])
    rel = ch.choose("relation", [("<=", "<="), ("<", "<="), ("=<", "<="), (">=", ">="), (">", ">="),
                                 ("=", "==")])
    rhs = ch.choose("right side", ["3", "-3", "0.25", "1e2", "0"])
    bounds = [ch.choose("bounds of " + v, [
        (None, 0, INF), ("-2 <= %s <= 5", -2, 5), ("%s free", -INF, INF), ("%s = 2", 2, 2),
        ("%s <= 4", 0, 4), ("%s >= 1", 1, INF), ("-inf <= %s <= 3", -INF, 3)]) for v in "xyz"]
    kinds = [ch.choose("type of " + v, "cib") for v in "xyz"]
    named = ch.choose("name line", [None, "\\Problem name: foo bar", "\\a comment"])
    if "[" in first[0] and rel[0] == "=":
        return "not in the format"
    text = [named] if named else []
    text += [sense, " obj: " + obj[0], "Subject To", " c1: %s %s %s" % (first[0], rel[0], rhs),
             " c2: x + y + z <= 50"]
    if any(b[0] for b in bounds):
        text += ["Bounds"] + [" " + b[0] % v for b, v in zip(bounds, "xyz") if b[0]]
    for key, section in (("i", "Generals"), ("b", "Binaries")):
        if key in kinds:
            text += [section, " " + " ".join(v for v, k in zip("xyz", kinds) if k == key)]
    text.append("End")
    varis = []
    for v, k, b in zip("xyz", kinds, bounds):
        varis.append((v, "b") if k == "b" else (v, k, b[1], b[2]))
    name = "foo bar" if named and "foo" in named else "h"
    spec = dom.make(name, varis, sense[:3].lower(), obj[1], obj[2], obj[3],
                    [dict(lin={0: 1, 1: 1, 2: 1}, sense="<=", rhs=50, name="c2"),
                     dict(lin=first[1], quad=first[2], sense=rel[1], rhs=float(rhs), name="c1")])
    tmp = scratch()
    try:
        path = os.path.join(tmp, "h.lp")
        with open(path, "w") as file:
            file.write("\n".join(text) + "\n")
        back = QuadraticProgram("old")
        back.read_from_lp_file(path)
        got, want = normal(drop_unused(dom.spec_of(back)), True), normal(drop_unused(spec), True)
        check(got == want, "file", text, "is read as", got, "expected", want)
        dom.consistent(back)
        ch.state(tuple(text))
        return tuple(text)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_bad(ch):
    """files that say something a program cannot express, or nothing, are rejected"""
    body = "Minimize\n obj: x + 2 y\nSubject To\n c1: x + y <= 3\n"
    case, text = ch.choose("file", [
        ("no such file", None),
        ("garbage", "garbage\n"),
        ("special ordered sets", body + "SOS\n s1: S1:: x:1 y:2\nEnd\n"),
        ("indicator", body + " c2: x = 1 -> y <= 3\nBinaries\n x\nEnd\n"),
        ("several objectives", body.replace("Minimize", "Minimize multi-objectives").replace(
            " obj: x + 2 y", " o1: Priority=1\n x\n o2: Priority=2\n y") + "End\n"),
        ("semi-continuous", body + "Bounds\n 1 <= x <= 3\nSemi-Continuous\n x\nEnd\n"),
    ], free=True)
    tmp = scratch()
    try:
        path = os.path.join(tmp, "b.lp")
        if text is not None:
            with open(path, "w") as file:
                file.write(text)
        try:
            QuadraticProgram("old").read_from_lp_file(path)
        except Exception as ex:  # pylint: disable=broad-except
            if text is None:
                check(isinstance(ex, FileNotFoundError), "missing file:", repr(ex))
            ch.state(case)
            return case
        check(False, "a file was accepted:", case)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def scenarios(tier):
    deep = tier == "thorough"
    return [
        Tree("write and read", run_file, 2 if deep else 1),
        Tree("write and read, pairs", run_file2, 3 if deep else 2),
        Tree("names", run_name, 0),
        Tree("magnitudes", run_scale, 0),
        Tree("files written by hand", run_text, 3 if deep else 2),
        Tree("files that are rejected", run_bad, 0),
        Tree("file histories", run_hist, 0),
    ]
