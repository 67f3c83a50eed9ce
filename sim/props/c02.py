"""C02: no trip is lost, duplicated, split or invented."""
from .. import common, configs, instances, oracle

LEVEL = "exploration"
RUNS = {"quick": 4000, "thorough": 60000}
REPEATS = {"quick": 50, "thorough": 600}
RULE = ("A run solves a seeded random instance with a random chain of algorithms (insertion, warm-started insertion, "
        "local searches, sequences, iterations, GRASP) in a world that decides every iteration order, and checks trip "
        "conservation in each planning of the chain and between consecutive ones; the objects in the plannings must be "
        "the very trips and vehicles of the instance. Non-trivial: some trip was served by the last planning. "
        "Distinct: by scenario.")
STATE_MEASURE = "distinct plannings (sequences of visits per vehicle) returned by a solve"
REAL = ["all of jinete.models, jinete.algorithms (heuristics, metaheuristics), jinete.utils"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["the class of instances is the one of sim/instances.py", "search samples, it does not enumerate",
               "the exact algorithm's all-or-nothing promise is decided by C14's simulated solver"]
EXPECTED_PROBES = ["warm-start", "local-search", "partial-coverage"]


def generate(rng, tier):
    instance, config = common.solvable(rng, tier, heavy=0.04)
    if rng.random() < 0.15:
        instance, config = common.competing(rng)
    if rng.random() < 0.5 and config["alg"] not in ("warm", "local", "sequential"):
        kind = rng.choice(("warm", "local", "sequential"))
        if kind == "warm":
            config = {"alg": "warm", "initial": config, "then": configs.insertion(rng)}
        elif kind == "local":
            config = configs.local(rng, config)
        else:
            config = {"alg": "sequential", "initial": config, "seed": rng.randrange(1 << 31), "stages": None}
    if rng.random() < 0.05:
        for trip in instance["trips"]:
            trip["cap"] = rng.choice((trip["cap"], 0))
    return {"instance": instance, "config": config, "world": common.world_params(rng), "observe": rng.random() < 0.5,
            **common.before(rng, instance)}


def identities(fleet, job, planning, out):
    for route in planning.routes:
        if not any(route.vehicle is vehicle for vehicle in fleet.vehicles):
            out.add("alien-vehicle", f"the route of vehicle {route.vehicle.identifier} uses a copy of it")
        for stop in route.stops:
            for planned_trip in stop.planned_trips:
                if not any(planned_trip.trip is trip for trip in job.trips):
                    out.add("alien-trip", f"trip {planned_trip.trip.identifier} is not the one of the job")
                if planned_trip.vehicle is not route.vehicle:
                    out.add("alien-vehicle", f"trip {planned_trip.trip.identifier} says it is on another vehicle")


def execute(scenario, out):
    instance = scenario["instance"]
    with common.world(scenario["world"]) as w:
        common.do_before(scenario, out)
        fleet, job = instances.build(instance)
        seen, chain = {}, []

        def record(config, initial, result):
            if scenario["observe"] or initial is None:
                seen[id(result)] = oracle.served(oracle.extract(result.planning))
            chain.append((config, initial, result))

        configs.solve_chain(scenario["config"], fleet, job, record)
        for config, initial, result in chain:
            routes = common.log_result(out, config["alg"], result)
            oracle.check_conservation(instance, routes, out)
            identities(fleet, job, result.planning, out)
            served = oracle.served(routes)
            if id(result) in seen and seen[id(result)] != served:
                out.add("lost", f"{config['alg']}: trips {sorted(seen[id(result)] ^ served)} changed afterwards")
            if initial is not None:
                out.probes["warm-start" if config["alg"] == "warm" else
                           "local-search" if config["alg"] == "local" else "sequence"] += 1
                before = oracle.served(oracle.extract(initial.planning))
                if before - served:
                    out.add("lost", f"{config['alg']} lost trips {sorted(before - served)}")
            if len(served) < len(instance["trips"]):
                out.probes["partial-coverage"] += 1
        if served:
            out.nontrivial = True
        if len({t.identifier for t in job.trips}) != len(instance["trips"]) or \
                len(fleet.vehicles) != len(instance["vehicles"]):
            out.add("lost", "the job or the fleet changed")
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    yield from common.shrinks(scenario)
    if scenario["observe"]:
        yield dict(scenario, observe=False)
