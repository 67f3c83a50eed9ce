"""C01: every planning a solve returns can actually be driven."""
from .. import common, configs, instances, oracle

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 60000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run builds a seeded random instance and algorithm configuration in a world that decides hashes (so the "
        "iteration order of every set of models), entropy, the global random generator and clocks, solves it, and "
        "checks each intermediate and final planning stop by stop against the raw instance. Non-trivial: at least one "
        "trip was served. Distinct: by scenario.")
STATE_MEASURE = "distinct plannings (sequences of visits per vehicle) returned by a solve"
REAL = ["all of jinete.models, jinete.algorithms (heuristics, metaheuristics), jinete.utils"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["the class of instances is the one of sim/instances.py", "search samples, it does not enumerate"]
EXPECTED_PROBES = ["iteration-order:few", "sampled-pairs"]


def generate(rng, tier):
    if rng.random() < 0.2:
        instance, config = common.fitted(rng, rng.randint(3, 6), rng.choice((2, 2, 3)), kind="local")
        config["strategy"] = rng.choice(configs.LOCAL + configs.LOCAL[:1])
    else:
        instance, config = common.solvable(rng, tier)
    if rng.random() < 0.05:
        for trip in instance["trips"]:
            trip["cap"] = rng.choice((trip["cap"], 0))
    return {"instance": instance, "config": config, "world": common.world_params(rng), "observe": rng.random() < 0.5,
            **common.before(rng, instance)}


def execute(scenario, out):
    instance = scenario["instance"]
    with common.world(scenario["world"]) as w:
        common.do_before(scenario, out)
        fleet, job = instances.build(instance)

        def judge(config, initial, result):
            routes = common.log_result(out, config["alg"], result)
            oracle.check_routes(instance, routes, out)
            if oracle.served(routes):
                out.nontrivial = True
            if any(len(r["stops"]) >= 17 for r in routes):
                out.probes["sampled-pairs"] += 1

        results = []

        def record(config, initial, result):
            if scenario["observe"]:
                judge(config, initial, result)
            results.append((config, initial, result))

        configs.solve_chain(scenario["config"], fleet, job, record)
        if not scenario["observe"]:
            for config, initial, result in results:
                judge(config, initial, result)
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    yield from common.shrinks(scenario)
    if scenario["observe"]:
        yield dict(scenario, observe=False)
