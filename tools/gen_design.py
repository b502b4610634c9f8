"""Writes DESIGN.md from tools/DESIGN.template.md, the metadata of the properties, the scenarios of
the checks, the last evidence files and tools/caught.json (run from /verif)."""

import importlib
import json
import os
import sys
import warnings

warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.argv = ["gen_design"]
import gen_meta  # noqa: E402  pylint: disable=wrong-import-position

ORACLE = {
    "C01": "a list-and-dictionary model of a program that executes the same calls; after every call, "
           "accepted or rejected, all accessors are compared with it",
    "C02": "a dictionary polynomial; all views, values and gradients are compared with it after "
           "every update",
    "C03": "direct evaluation of bounds and constraints of the spec at every enumerated point",
    "C04": "the spec evaluated at the substituted point: objective and feasibility must agree on a "
           "grid that determines both",
    "C05": "the diagonal of the operator's matrix against the objective at every assignment",
    "C06": "an independent reader of docplex models (iterating its terms) and canonical comparison",
    "C07": "the spec written by the harness, the file read by CPLEX, and canonical comparison",
    "C08": "for every point of the box: feasible iff slack values exist that complete it, solved "
           "constraint by constraint; equal objective; interpretation gives the point back",
    "C09": "every assignment of the binary program decoded by the package against the spec's "
           "objective, constraint gaps and box",
    "C10": "objective plus weighted squared violations at every point; infeasible points compared with "
           "the brute-force optimum",
    "C11": "brute force over all assignments of the QUBO and all points of the spec",
    "C12": "a scripted eigensolver answers an enumerated state; samples, probabilities, result and "
           "correlations are computed from that state and the spec",
    "C13": "spec evaluated at the returned point; status, accessors and unchanged inputs, for every "
           "optimizer of the package",
    "C14": "a scripted local solver answers enumerated points; the best answer is known",
    "C15": "scripted answers of the eigensolver per round; eliminated variables, replacements and the "
           "final point are recomputed from these answers; exact runs are compared with brute force",
    "C16": "a scripted quantum instance answers the outcome of every measurement; thresholds, rotation "
           "schedule, stopping and the final answer follow the recorded sequence; circuits are compared "
           "with matrices of the documented operators",
    "C17": "scripted sub-solvers receive the sub-problems; these, the updates, residuals, penalty "
           "changes and stopping are recomputed by a reference implementation of the iteration",
    "C18": "scripted pre-solver and QAOA; circuits are simulated and compared with product states and "
           "mixers written down directly; aggregation recomputed",
    "C19": "the semidefinite solver and the hyperplanes are scripted, every sign pattern enumerated; "
           "cut weights recomputed from the graph",
    "C20": "the combinatorial definition of each problem on the graph, for every assignment",
    "C21": "the combinatorial definition of each problem, for every assignment",
    "C22": "enumeration of all tours / routings and all assignments (or of all placements for more "
           "nodes) against the definition",
    "C23": "the instance that the file text was generated from; repeated calls with the same seed",
    "C24": "brute force over the grid of an integer program and closed-form optima",
    "C25": "the drawn matplotlib artists, read back as nodes, edges and colours",
    "C26": "an untouched twin built from the same description and edited by the same calls",
    "C27": "enumeration of all answers of the instance itself, without any program",
}


def table():
    out = ["## Properties", "",
           "Numbers are those of a quick run on the unchanged tree; `bound` is the number of deviations "
           "from the default choices (free choices are enumerated completely), `depth` the length of "
           "histories; a second number is that of the thorough tier.", ""]
    total = [0, 0]
    for p in gen_meta.PROPS:
        pid = p["id"]
        mod = importlib.import_module("mc.props." + pid.lower())
        deep = {s.name: s for s in mod.scenarios("thorough")}
        quick = mod.scenarios("quick")
        evidence = {}
        path = os.path.join(HERE, "evidence", pid + ".json")
        if os.path.exists(path):
            evidence = json.load(open(path))
        out += ["### %s %s" % (pid, p["title"]), "", p["statement"], "",
                "*Decided by* " + p["technique"] + ", " + p["text"] + ".", "",
                "*Oracle:* " + ORACLE[pid] + ".", "",
                "*Beyond the tests:* " + p["why"], "", "*Scenarios:*", ""]
        for s in quick + [s for n, s in deep.items() if n not in {q.name for q in quick}]:
            get = lambda o: getattr(o, "bound", None) if hasattr(o, "bound") else o.depth
            word = "bound" if hasattr(s, "bound") else "depth"
            num = str(get(s)) if s in quick else "thorough only, %d" % get(s)
            if s in quick and s.name in deep and get(deep[s.name]) != get(s):
                num += " / %d" % get(deep[s.name])
            doc = " ".join((s.doc or "").split())
            out.append("* %s: %s (%s %s)" % (s.name, doc or "as above, other sizes", word, num))
        if evidence:
            c = evidence["coverage"]
            total[0] += c["traces_validated_against_impl"]
            total[1] += c["transitions"]
            out += ["", "*Explored:* %d executions, %d distinct states, %d checked steps; %s; %.0f s."
                    % (c["traces_validated_against_impl"], c["states"], c["transitions"],
                       "exhausted" if c["exhaustive"] else "not exhausted", evidence["wall_s"])]
        out += ["", "*Assumptions:* " + "; ".join(mod.ASSUMPTIONS) + ".", ""]
    out += ["All quick checks together: %d executions, %d checked steps." % tuple(total)]
    return "\n".join(out)


def seeded():
    path = os.path.join(HERE, "tools", "caught.json")
    caught = json.load(open(path)) if os.path.exists(path) else {}
    out = ["| planted change | property | what it breaks | check |", "|---|---|---|---|"]
    folder = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(folder)):
        meta = json.load(open(os.path.join(folder, name, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            name, meta["property"], " ".join(meta["what_it_breaks"].replace("|", "/").split()),
            caught.get(name, "?")))
    return "\n".join(out)


def main():
    text = open(os.path.join(HERE, "tools", "DESIGN.template.md")).read()
    text = text.replace("PROPS_TABLE", table()).replace("SEEDED_TABLE", seeded())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as file:
        file.write(text)


if __name__ == "__main__":
    main()
