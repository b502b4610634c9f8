"""Entry point of every check:  python -m mc.run <property> [--replay FILE] [--only SCENARIO]"""

import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    """entries 'known: property=<id> scenario=<name> choices=<json> <text>' of the findings file"""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                if line.startswith("known: property=%s " % prop):
                    out.append(line[len("known: ") :].strip())
    return out


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t_0 = time.time()
    cap = float(os.environ.get("MC_CAP", "600" if tier == "quick" else "5400"))

    from mc import core, env

    env.prepare()
    mod = importlib.import_module("mc.props." + prop.lower())
    scenarios = mod.scenarios(tier)
    if "--only" in args:
        names = args[args.index("--only") + 1].split(",")
        scenarios = [s for s in scenarios if s.name in names]
    if "--replay" in args:
        with open(args[args.index("--replay") + 1]) as file:
            rec = json.load(file)
        scn = [s for s in mod.scenarios(rec.get("tier", tier)) if s.name == rec["scenario"]][0]
        kind, msg, detail = core.replay(scn, rec["choices"])
        print(rec["scenario"], "->", kind, msg)
        if detail and kind:
            print(detail)
        return 1 if kind == "violation" else 0

    # own the nondeterminism: the default execution of every scenario must repeat exactly
    det = 0
    for scn in scenarios:
        if isinstance(scn, core.Tree):
            one = core.run_one(scn, ())
            two = core.run_one(scn, ())
            if one[1] is None and two[1] is None:
                if repr(one[3]) != repr(two[3]) or one[0].points != two[0].points:
                    print("HARNESS-NONDETERMINISM", scn.name, one[3], two[3])
                    if os.environ.get("MC_STRICT"):
                        return 2
                else:
                    det += 1

    cov, samples, violation, timed_out = core.explore(
        scenarios, t_0 + cap, pin=getattr(mod, "PIN", False)
    )

    states = sum(c["states"] for c in cov)
    transitions = sum(c["transitions"] for c in cov)
    execs = sum(c["executions"] for c in cov)
    for c in cov:
        print(
            "  %-34s executions=%-7d states=%-7d transitions=%-8d outcomes=%-6d bound=%s%s"
            % (
                c["scenario"], c["executions"], c["states"], c["transitions"], c["outcomes"],
                c["completed_bound"], "" if c["exhausted"] else " (NOT exhausted)",
            )
        )
    rc = 0
    n_viol = 0
    if violation is not None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        path = os.path.join(HERE, "evidence", "replay_%s.json" % prop)
        violation["tier"] = tier
        violation["property"] = prop
        violation["replay_cmd"] = "./check %s --replay %s" % (prop, path)
        with open(path, "w") as file:
            json.dump(violation, file, indent=1, default=repr)
        print("scenario", violation["scenario"], ":", violation["message"])
        for line in violation["log"][-25:]:
            print("    ", line)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        rc = 1
        n_viol = 1
    for line in known_findings(prop):
        print("KNOWN-FINDING: " + line)
    wall = time.time() - t_0
    step = max(1, len(samples) // 6)
    evidence = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=states,
            transitions=transitions,
            traces_validated_against_impl=execs,
            samples=samples[::step][:6] or [dict(note="default executions only")],
            exhaustive=bool(all(c["exhausted"] for c in cov) and violation is None),
            distinct_outcomes=sum(c["outcomes"] for c in cov),
            deterministic_scenarios=det,
            time_cap_hit=bool(timed_out),
            scenarios=cov,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=n_viol,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as file:
        json.dump(evidence, file, indent=1, default=repr)
    print(
        "%s %s: executions=%d states=%d transitions=%d exhaustive=%s wall=%.1fs"
        % (prop, tier, execs, states, transitions, evidence["coverage"]["exhaustive"], wall)
    )
    return rc


if __name__ == "__main__":
    sys.exit(main())
