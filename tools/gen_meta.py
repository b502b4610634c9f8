"""Writes properties.jsonl and MANIFEST.json from one source (run from /verif)."""

import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = "qiskit_optimization/"
P = Q + "problems/"
A = Q + "algorithms/"
K = Q + "converters/"
X = Q + "applications/"
TREE = "stateless model checking: deviation-bounded exhaustive choice exploration of the real code"
GRAPH = "explicit-state model checking: breadth-first search of the real code's states vs a model"

PROPS = []


def prop(pid, title, statement, over, text, why, files, mech, technique=TREE, observe=None):
    PROPS.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
        mech=mech, technique=technique, observe=observe or [],
    ))


prop(
    "C01", "Every history of model-building calls leaves a consistent program",
    "After any sequence of calls that add variables (single, list or dictionary), add or remove "
    "constraints, set the objective, rename or clear a program, all views of it agree: positions, "
    "names, numbers per type, and look-ups by index and by name describe the same variables, "
    "constraints and objective. Names stay unique and automatically chosen "
    "names never collide. A call that is rejected (duplicate name, unknown variable, bad bounds, "
    "bad type, bad sense) changes nothing, so that the program behaves afterwards as if the call "
    "had not been made.",
    ["histories", "inputs"],
    "for every sequence of public model-building calls, valid and invalid, up to the depth, from "
    "empty and non-empty programs",
    "Tests try one call order at a time and mostly valid calls; interactions between removal, "
    "renaming, automatic names and rejected calls need histories.",
    [P + "quadratic_program.py", P + "variable.py", P + "constraint.py",
     P + "linear_constraint.py", P + "quadratic_constraint.py"],
    [("index maps kept in step with the lists", P + "quadratic_program.py"),
     ("bounds and type setters validate", P + "variable.py")],
    technique=GRAPH, observe=["public accessors of QuadraticProgram"],
)
prop(
    "C02", "An expression is the polynomial its coefficients say, in every view",
    "A linear or quadratic expression built from a list, array, sparse matrix or dictionary keyed "
    "by index or name denotes one polynomial: coefficients read back as array, dictionary (by "
    "index or name) or sparse matrix, and value and gradient at every point all agree with it. Reassigning coefficients, setting single ones, and adding "
    "variables to the program later keep this true, and neither reading a view nor building from a "
    "caller's data lets a change of one leak into the other.",
    ["inputs", "histories"],
    "for every expression over the size, format and coefficient alphabet and every history of "
    "updates and of variables added later",
    "Tests evaluate a few fixed expressions in each format; they never interleave updates with "
    "later variables or compare all views after each step.",
    [P + "linear_expression.py", P + "quadratic_expression.py", P + "quadratic_objective.py",
     P + "quadratic_program_element.py"],
    [("coefficients normalized to a triangular sparse matrix", P + "quadratic_expression.py"),
     ("coefficients stored in a sparse row", P + "linear_expression.py")],
)
prop(
    "C03", "Evaluation and feasibility information are exact for every point",
    "For every program and every point the objective and constraints evaluate to their polynomial "
    "values, and the feasibility report lists exactly the variables outside their bounds and "
    "exactly the violated constraints; the point is called feasible if and only if both lists are "
    "empty. A point of the wrong length is rejected.",
    ["inputs"],
    "for every program within two deviations of the base programs and every point of a grid "
    "around bounds and right-hand sides",
    "Tests check a handful of points; boundaries of each sense and each mix of linear and "
    "quadratic constraints need enumeration.",
    [P + "quadratic_program.py", P + "constraint.py"],
    [("feasibility report", P + "quadratic_program.py")],
)
prop(
    "C04", "Substitution yields exactly the program restricted to the substitution",
    "Replacing variables by constants or by multiples of other variables gives a program over the "
    "remaining variables whose objective, constraints and effective bounds equal those of the "
    "original at every corresponding point, and which keeps names, types, sense and the original "
    "untouched. The reported status is infeasible exactly when a replaced variable or a remaining "
    "constant constraint cannot be satisfied. Chained, repeated or contradictory replacements are "
    "rejected or resolved independently of their order.",
    ["inputs", "programs", "histories"],
    "for every set of substitutions by constants and variables over the weight alphabet, in every "
    "order, on every program within the deviation bound",
    "Tests cover fixed substitutions; orders, negative weights, shared targets and constraints "
    "that become constant combine in ways only enumeration covers.",
    [P + "quadratic_program.py"],
    [("substitution of bounds, objective and constraints", P + "quadratic_program.py")],
)
prop(
    "C05", "Ising Hamiltonians and binary programs describe the same function",
    "For an unconstrained binary program the operator is diagonal and its diagonal plus the offset "
    "is the (sign-adjusted for maximization) objective of every assignment, qubit i being variable "
    "i. Reading any sum of identity, one-Z and two-Z terms back gives a minimization program over "
    "binary variables with the same values, replacing all earlier contents, in every operator "
    "representation. Programs with other variables or constraints, and operators with other terms, "
    "are rejected.",
    ["inputs", "programs"],
    "for every program of 1 to 5 binary variables and every operator of up to 3 terms in every "
    "representation within the deviation bound, on all 2^n assignments",
    "Tests convert two programs; duplicates, identities, single terms, outer coefficients and "
    "constants are not sampled.",
    [P + "quadratic_program.py"],
    [("program to operator and back", P + "quadratic_program.py")],
)
prop(
    "C06", "Exchanging programs with docplex loses and invents nothing",
    "A program exported to a docplex model and read back has the same variables, bounds, types, "
    "objective and constraints; a docplex model using the supported features (expressions on "
    "either side, equal, less and greater constraints, unnamed elements) is read as a program with "
    "the same feasible set and objective. Unsupported features (such as indicators, piecewise terms "
    "or other variable types) are rejected with an error, never silently dropped, and the model "
    "given is not modified.",
    ["programs", "inputs"],
    "for every program within the deviation bound and every docplex model assembled from the "
    "supported and unsupported pieces",
    "Tests translate a few models; placement of terms, senses, unnamed elements and name collisions "
    "combine.",
    [P + "quadratic_program.py"],
    [("from_docplex / to_docplex", P + "quadratic_program.py")],
)
prop(
    "C07", "A program written to an LP file is the program that is read back",
    "Writing any program to an LP file and reading the file into any other program gives a program "
    "with the same named variables, types, bounds, objective, constraints and name, independent of "
    "what the reading program held before. Writing does not change the program and a later write "
    "replaces an earlier one; files that cannot be read are rejected.",
    ["programs", "histories"],
    "for every program within the deviation bound and every history of writes, edits and reads",
    "Tests read one file and write one program.",
    [P + "quadratic_program.py"],
    [("read_from_lp_file / write_to_lp_file", P + "quadratic_program.py")],
)
prop(
    "C08", "Slack variables turn inequalities into equalities without changing the problem",
    "Converting inequalities to equalities keeps variables, objective and equations; every "
    "feasible assignment of the original extends to a feasible assignment of the converted "
    "program and every feasible assignment of the converted one restricts to a feasible original "
    "one with the same objective value, in automatic, integer and continuous mode. Results are "
    "interpreted by dropping exactly the slack variables; constraints that no assignment can "
    "satisfy and slack that would need an unsupported type are rejected with the documented error.",
    ["programs", "configurations", "inputs"],
    "for every constraint over a coefficient alphabet, every program within the deviation bound, "
    "every mode, and all integer assignments",
    "Tests convert a few fixed constraints; signs, fractional coefficients, quadratic constraints, "
    "names and modes combine.",
    [K + "inequality_to_equality.py"],
    [("slack type and bounds from the bounds of the expression", K + "inequality_to_equality.py")],
)
prop(
    "C09", "The binary encoding of integers covers exactly the original program",
    "Encoding integer variables by binary ones maps the binary assignments onto exactly the "
    "integers between the bounds, for every variable and every range; objective and all "
    "constraints have the same value at corresponding points, and interpreting a binary point "
    "gives the point it encodes, in the original order of variables. Programs with unbounded "
    "integer or continuous variables are handled or rejected as documented, and the converter can "
    "be reused.",
    ["programs", "inputs", "histories"],
    "for all ranges of a block of bounds, selected large and fractional ranges, and every program "
    "within the deviation bound, on all assignments",
    "Tests encode a few ranges; off-by-one coefficients show only at particular widths.",
    [K + "integer_to_binary.py"],
    [("bounded-coefficient encoding", K + "integer_to_binary.py")],
)
prop(
    "C10", "Penalty terms replace linear equations exactly",
    "Converting linear equations to penalties removes exactly the equations and adds the given "
    "factor times the squared violation to a minimized objective, or subtracts it from a maximized "
    "one, so that feasible points keep their value. The automatic factor is large enough that "
    "every optimum of the converted program is a feasible optimum of the original when one exists. "
    "Inequalities and quadratic constraints are rejected, and an explicitly set factor is used "
    "unchanged.",
    ["programs", "inputs", "configurations"],
    "for every program within the deviation bound, both senses, explicit and automatic factors, "
    "on all assignments",
    "Tests compare one penalty expansion; the sufficiency of the automatic factor quantifies over "
    "all assignments and objectives.",
    [K + "linear_equality_to_penalty.py"],
    [("automatic penalty from the bounds of the objective", K + "linear_equality_to_penalty.py")],
)
prop(
    "C11", "The QUBO of a program has the same optima",
    "Converting any program with bounded binary and integer variables and linear constraints gives "
    "an unconstrained binary program whose best assignments are interpreted as best feasible "
    "points of the original, with the same objective value, whenever a feasible point exists. "
    "Converting does not change the original program, gives the same result when repeated, and "
    "rejects programs it cannot convert with a message.",
    ["programs", "inputs", "histories"],
    "for every program within the deviation bound with at most 14 binary variables after "
    "conversion, on all assignments of both programs",
    "Tests check optima of one or two programs; the chain of three converters is only right if "
    "scaling, signs and slack agree for all programs.",
    [K + "quadratic_program_to_qubo.py", K + "inequality_to_equality.py",
     K + "integer_to_binary.py", K + "linear_equality_to_penalty.py"],
    [("composition of the converters", K + "quadratic_program_to_qubo.py")],
)
prop(
    "C12", "Whatever state the eigensolver answers, the result is its best outcome",
    "For every eigenstate (vector, counts or quasi-probabilities, state function) that the "
    "minimum eigensolver may return, the result contains every outcome of the state with its "
    "probability, interpreted in the variables of the original problem, with objective value and "
    "feasibility, merged when equal, and sorted; the returned point is the best of these, feasible "
    "ones first. A solver that is exact yields an optimum of the problem; problems that become "
    "constant are still answered.",
    ["inputs", "programs", "configurations"],
    "for every non-empty set of outcomes with every weight pattern of the alphabet, every form of "
    "eigenstate, every program within the deviation bound",
    "Tests run two solvers on a few programs, and thereby only a few eigenstates.",
    [A + "minimum_eigen_optimizer.py", A + "optimization_algorithm.py"],
    [("samples from eigenstates", A + "optimization_algorithm.py"),
     ("choice of the best sample", A + "minimum_eigen_optimizer.py")],
)
prop(
    "C13", "Solving never modifies the problem and every result obeys the same laws",
    "Every optimizer leaves the given problem unchanged, returns a point of the problem's size "
    "whose reported objective value and status are those of that point, and gives index, name and "
    "dictionary access to it. An optimizer object that solved other problems before, or the same "
    "one, answers as a new one does, and results returned earlier do not change. A problem the "
    "optimizer cannot handle has a non-empty compatibility message and is rejected with the "
    "documented error, also unchanged.",
    ["histories", "programs", "configurations"],
    "for every sequence of up to three problems solved by one optimizer object, for every "
    "optimizer and every problem within the deviation bound",
    "Tests create a new optimizer for every solve and do not compare the problem before and after.",
    [A + f for f in ("optimization_algorithm.py", "minimum_eigen_optimizer.py",
                     "grover_optimizer.py", "recursive_minimum_eigen_optimizer.py",
                     "admm_optimizer.py", "cplex_optimizer.py", "slsqp_optimizer.py",
                     "cobyla_optimizer.py", "warm_start_qaoa_optimizer.py",
                     "goemans_williamson_optimizer.py")],
    [("common conversion, interpretation and result class", A + "optimization_algorithm.py")],
)
prop(
    "C14", "The multi start method returns the best of its trials",
    "Whatever points the local solver returns, the result of a multi start optimization is the "
    "trial with the best objective value in the sense of the problem (largest for maximization), "
    "with that trial's details. The configured number of trials is run, the first from the origin and "
    "all others from points within the variable bounds, infinite sides being replaced by the "
    "configured clip value.",
    ["fault_sequences", "inputs", "programs"],
    "for every sequence of local answers over the alphabet with up to 4 (5) trials, both senses, "
    "and every combination of bounds",
    "Tests run real solvers that find the same optimum in each trial.",
    [A + "multistart_optimizer.py", A + "slsqp_optimizer.py", A + "cobyla_optimizer.py"],
    [("selection of the best trial", A + "multistart_optimizer.py")],
)
prop(
    "C15", "Recursive elimination keeps the problem exact for every sequence of answers",
    "Whatever correlations the inner optimizer reports, each round fixes one variable to another "
    "(or a constant) along the strongest correlation, the next problem is exactly the previous one "
    "restricted to that relation, and the returned point satisfies all recorded relations and the "
    "optimum of the last problem. If every answer is consistent with an optimum, the result is an "
    "optimum. History, statuses and minimum sizes are as requested.",
    ["histories", "programs", "configurations"],
    "for every sequence of strongest pairs and signs on up to 5 variables, every program within "
    "the deviation bound, every history option",
    "Tests follow the one sequence of correlations that the exact solver produces.",
    [A + "recursive_minimum_eigen_optimizer.py"],
    [("replacement along the strongest correlation", A + "recursive_minimum_eigen_optimizer.py")],
)
prop(
    "C16", "Grover adaptive search returns the best outcome it measured",
    "For every sequence of rotation counts and measurement outcomes the search amplifies exactly "
    "the assignments better than the current threshold, moves the threshold only to better "
    "measured values, gives up only after the requested number of circuits without improvement "
    "(or having measured every assignment), and returns the best measured assignment interpreted in the original "
    "problem with its objective value. Samples are the distribution of the last improving circuit, "
    "for minimization and maximization, with statevectors and with counts.",
    ["histories", "programs", "configurations"],
    "for all measurement and rotation histories of small programs, and all programs and histories "
    "within the deviation bound",
    "Tests follow one seeded history per program.",
    [A + "grover_optimizer.py"],
    [("threshold updates and stopping rules", A + "grover_optimizer.py")],
)
prop(
    "C17", "Operator splitting solves the right subproblems and keeps the best iterate",
    "Whatever feasible answers its sub-solvers give, the alternating method hands them exactly the "
    "augmented-Lagrangian subproblems of the current iterate (binary, continuous and, with three "
    "blocks, auxiliary), updates multipliers and penalty by the stated rules, stops at the stated "
    "tolerance or iteration limit, and returns the recorded iterate of least merit, in the original "
    "variable order with its own objective value. Problems it cannot treat are rejected.",
    ["histories", "programs", "configurations", "fault_sequences"],
    "for every sequence of sub-solver answers over the alphabet up to the iteration limit, every "
    "program shape and parameter setting within the deviation bound",
    "Tests run exact sub-solvers and look at the last point only.",
    [A + "admm_optimizer.py"],
    [("subproblem construction, multiplier updates, best iterate", A + "admm_optimizer.py")],
)
prop(
    "C18", "Warm starts use exactly the relaxed points and combine all runs",
    "For every set of relaxed solutions returned by the pre-solver, the warm-started run is "
    "prepared with an initial state in which each qubit is measured as one with the (regularized) "
    "relaxed value and with the mixer that has this state as its ground state, and all runs are "
    "aggregated so that each outcome carries its averaged probability. The result obeys the laws "
    "of the underlying optimizer in the variables of the original problem.",
    ["inputs", "configurations", "programs"],
    "for every list of relaxed points over the alphabet, every regularization value, number of "
    "solutions and aggregator, every answer of the inner solver within the bound",
    "Tests run one problem with one relaxed solution.",
    [A + "warm_start_qaoa_optimizer.py", A + "minimum_eigen_optimizer.py"],
    [("initial state and mixer from relaxed values", A + "warm_start_qaoa_optimizer.py"),
     ("averaging of samples", A + "warm_start_qaoa_optimizer.py")],
)
prop(
    "C19", "Randomized rounding reports real cuts with their true weights",
    "For every maximum-cut program and every outcome of the semidefinite relaxation and of the "
    "random hyperplanes, each reported sample is an assignment whose value is the weight of the "
    "cut it describes, equal cuts are merged, exactly the requested number of cuts (or all "
    "distinct ones) is reported sorted by value, and the best is returned. If the relaxation "
    "fails, a failure result without a point is returned.",
    ["inputs", "histories", "fault_sequences"],
    "for every sign pattern of the hyperplanes on every graph of the alphabet, and every requested "
    "number of cuts",
    "Tests run one seeded graph.",
    [A + "goemans_williamson_optimizer.py"],
    [("hyperplane rounding and cut values", A + "goemans_williamson_optimizer.py")],
)
prop(
    "C20", "Graph applications: the program is the graph problem",
    "For every graph, the program of maximum cut, vertex cover, stable set, clique and graph "
    "partition has exactly the intended feasible assignments and the "
    "intended objective value at each, and results are interpreted as the right node or edge sets. "
    "The graph given is not modified, and building the program twice gives the same program.",
    ["inputs", "programs", "configurations"],
    "for every graph on up to 5 (6) nodes with the weight alphabet and every assignment",
    "Tests build one program per application from one graph.",
    [X + f for f in ("max_cut.py", "vertex_cover.py", "stable_set.py", "clique.py",
                     "graph_partition.py", "graph_optimization_application.py")],
    [("program construction per application", X)],
)
prop(
    "C21", "Cover, packing, knapsack and partition programs are the stated problems",
    "For every family of subsets, list of items or list of numbers, the program of exact cover, "
    "set packing, knapsack and number partitioning has exactly the intended feasible assignments "
    "and objective values, and interpreting any assignment gives the chosen subsets, items or the "
    "two groups of numbers. The data given are not modified, and changed parameters take effect.",
    ["inputs", "histories"],
    "for every family of up to 4 subsets of a three element set, every weight pattern and every "
    "short number list, on all assignments",
    "Tests build one instance per application.",
    [X + f for f in ("exact_cover.py", "set_packing.py", "knapsack.py", "number_partition.py")],
    [("program construction per application", X)],
)
prop(
    "C22", "Routing programs: feasible points are exactly the tours, with their lengths",
    "For every complete weighted graph, the feasible assignments of the travelling salesman "
    "program are exactly the closed tours, and those of the vehicle routing program exactly the "
    "sets of routes of the requested number of vehicles through the depot; the objective is the "
    "total length. Interpretation returns the tour or routes, and changed depots or vehicle "
    "numbers take effect.",
    ["inputs", "configurations", "histories"],
    "for every weight pattern and node order on up to 4 nodes, every depot and vehicle number, on "
    "all assignments; up to 7 nodes on all placements or successor assignments",
    "Tests check a single instance and compare the coefficients with a recorded list.",
    [X + "tsp.py", X + "vehicle_routing.py"],
    [("program construction and interpretation", X)],
)
prop(
    "C23", "Instance files, random instances and measured strings are read as what they say",
    "Reading a graph or TSPLIB file gives exactly the graph and distances of the file, random "
    "instances have the requested size, range and depend only on the seed, and the most likely "
    "outcome of a state is returned with qubit 0 first. Unsupported files are rejected.",
    ["inputs"],
    "for every file over the grammar up to the size, every listed seed and size, and every "
    "probability vector of the alphabet in every representation",
    "Tests read one file each and use one seed.",
    [X + "max_cut.py", X + "tsp.py", X + "vehicle_routing.py", X + "optimization_application.py",
     X + "graph_optimization_application.py"],
    [("file parsers and generators", X)],
)
prop(
    "C24", "The classical optimizers return optimal points of what they can solve",
    "For every bounded program it accepts, the CPLEX optimizer returns a feasible point of optimal "
    "value or reports infeasibility, and the local continuous optimizers return a point of the "
    "program with its own value, status and, for convex programs, optimal value. Bounds, senses, "
    "quadratic terms and every kind of constraint are taken into account; programs outside their "
    "domain are rejected.",
    ["programs", "inputs", "configurations"],
    "for every program within the deviation bound, against enumeration of all assignments or a "
    "grid",
    "Tests solve a few programs; ignoring one kind of constraint or bound goes unnoticed.",
    [A + "cplex_optimizer.py", A + "slsqp_optimizer.py", A + "cobyla_optimizer.py",
     A + "multistart_optimizer.py"],
    [("hand-over of objective, bounds and constraints", A)],
)
prop(
    "C25", "A drawn result shows exactly the chosen nodes and routes",
    "Drawing a graph application's result colours exactly the nodes (or groups) the result "
    "chooses, and drawing a tour or routes draws exactly the edges of the tour or routes in "
    "addition to the graph, for every node order and with or without given positions. Drawing "
    "changes neither the graph nor the result.",
    ["inputs", "configurations"],
    "for every assignment and node order on up to 4 nodes and every tour and route set",
    "Tests do not draw.",
    [X + f for f in ("max_cut.py", "vertex_cover.py", "stable_set.py", "clique.py",
                     "graph_partition.py", "tsp.py", "vehicle_routing.py",
                     "graph_optimization_application.py")],
    [("colour lists and edge lists passed to networkx", X)],
)

prop(
    "C26", "Programs made from a program share nothing with it",
    "A copy of a program (deep or pickled) equals it, owns its elements, and answers every further "
    "call as the program itself would. A program obtained by copying, substitution, conversion or "
    "exchange with docplex, files or operators is independent of its source: editing either by any "
    "call, or through any of its elements and coefficients, leaves the other unchanged. A converter "
    "interprets points in the variables of the program as it was when it was converted.",
    ["histories", "inputs"],
    "for every way of deriving a program and every history of edits of either side up to the depth",
    "Sharing shows only when something is derived, then edited, and then the other side is "
    "inspected; tests derive and compare once.",
    [P + "quadratic_program.py", P + "quadratic_program_element.py", P + "linear_expression.py",
     P + "quadratic_expression.py", K + "inequality_to_equality.py", K + "integer_to_binary.py",
     K + "linear_equality_to_penalty.py", K + "quadratic_program_to_qubo.py"],
    [("deep copies of the source", K), ("substitution builds a new program",
                                        P + "quadratic_program.py")],
    observe=["public accessors of both programs", "interpret"],
)

prop(
    "C27", "Every exact way of solving an instance gives a best answer of the instance",
    "For every instance of an application, generating its program, solving it exactly (as a binary "
    "program by an eigensolver, classically, as a docplex model, or through a file or an operator) "
    "and interpreting what comes back gives a valid answer whose value is the best that the "
    "instance allows, and that value is the one reported. If the instance has no valid answer, no "
    "way claims to have found one.",
    ["inputs", "configurations"],
    "for every small graph, family of subsets, list of items or numbers, and weighting, and every "
    "exact way from instance to answer",
    "Each stage is tested on one instance; stages that disagree about order, sign, offset or sense "
    "show up only in combination and only on some instances.",
    [X + f for f in ("max_cut.py", "graph_partition.py", "stable_set.py", "vertex_cover.py",
                     "clique.py", "exact_cover.py", "set_packing.py", "knapsack.py",
                     "number_partition.py", "tsp.py", "vehicle_routing.py",
                     "optimization_application.py")]
    + [K + "quadratic_program_to_qubo.py", A + "minimum_eigen_optimizer.py",
       A + "cplex_optimizer.py", P + "quadratic_program.py"],
    [("generation of programs and interpretation of points", X), ("the way through the Ising "
     "operator", P + "quadratic_program.py"), ("eigenstate to samples",
                                               A + "minimum_eigen_optimizer.py")],
    observe=["interpreted answers", "reported objective values and status"],
)


def assumptions(pid):
    path = os.path.join(HERE, "mc", "props", pid.lower() + ".py")
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "ASSUMPTIONS":
            return ast.literal_eval(node.value)
    return []


def main():
    checks, rest = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as file:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            for f in p["files"]:
                if not os.path.exists("/repo/" + f):
                    print("no file", f, p["id"], file=sys.stderr)
            files = [f for f in p["files"] if os.path.exists("/repo/" + f)]
            anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in p["mech"]])
            if p["observe"]:
                anchors["observe_at"] = p["observe"]
            file.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=anchors)) + "\n")
            if os.path.exists(os.path.join(HERE, "mc", "props", p["id"].lower() + ".py")):
                checks.append(dict(
                    property=p["id"], quick_cmd="./check %s" % p["id"],
                    thorough_cmd="./check %s --tier thorough" % p["id"],
                    technique=p["technique"], level="model_checking",
                    level_note="Exhaustive within the stated bounds, on the real code, against an "
                    "independent reference model; bounds and counts in the evidence file. "
                    "Assumes: " + "; ".join(assumptions(p["id"])) + "."))
            else:
                rest.append(dict(property=p["id"], reason="check not built yet"))
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
        json.dump(dict(
            version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=rest,
            notes="No hooks in /repo: every choice enters through public constructor arguments, "
            "arguments of calls, and the package's random generator. The code is imported from "
            "/repo's working tree (pure Python, nothing to rebuild)."), file, indent=1)
        file.write("\n")


if __name__ == "__main__":
    main()
