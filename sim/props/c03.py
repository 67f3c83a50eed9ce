"""C03: what a result reports is what its routes really do."""
import copy

from .. import common, configs, instances, kernel, oracle, plans

LEVEL = "exploration"
RUNS = {"quick": 4500, "thorough": 80000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run obtains a result (by a solve, or hand-built from a random, often infeasible sequence of visits, empty "
        "ones included), puts it through a random history of reads, copies, candidate generations, improvements, "
        "service-time changes and flushes, and then compares every value reported by the result, its routes, stops and "
        "trips with the one recomputed from the raw instance. Non-trivial: some trip was planned. Distinct: by scenario.")
STATE_MEASURE = "distinct plannings judged, with their feasibility"
REAL = ["all of jinete.models and jinete.algorithms (heuristics, metaheuristics)"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["the class of instances is the one of sim/instances.py",
               "feasibility flags are not judged when the worst violation lies between 2e-4 and 5e-3 (the library "
               "tolerates 1e-3)",
               "service windows are the tightened ones the library documents (Trip.origin_earliest and so on)"]
EXPECTED_PROBES = ["infeasible", "feasible", "no-routes", "no-trips"]

READS = {
    "result": ("feasible", "coverage_rate", "completed_trips", "optimization_value", "direction"),
    "planning": ("feasible", "loaded_routes", "trips", "vehicles"),
    "route": ("feasible", "duration", "waiting_time", "distance", "transit_time", "loaded_trips_count", "identifier",
              "last_departure_time", "loaded", "feasible_stops", "feasible_planned_trips"),
    "stop": ("feasible", "arrival_time", "departure_time", "capacity", "waiting_time", "earliest", "latest",
             "identifier", "starting_time"),
    "trip": ("feasible", "duration", "waiting_time", "transit_time", "load_time", "distance"),
}
OPS = ("read", "read", "read", "objective", "deepcopy", "clone", "candidates", "flush", "start", "improve", "repr",
       "stopflush")


def generate(rng, tier):
    mode = rng.choice(("solve", "plan", "plan", "plan"))
    scenario = {"mode": mode, "world": common.world_params(rng)}
    if mode == "solve":
        scenario["instance"], scenario["config"] = common.solvable(rng, tier, heavy=0.01)
    else:
        instance = instances.generate(rng, trips=rng.randint(1, 5), vehicles=rng.randint(1, 3))
        merge = 0.3
        if rng.random() < 0.25:
            common.crowd(rng, instance)
            merge = rng.choice((0.5, 1.0))
        scenario["instance"] = instance
        scenario["plan"] = plans.generate(rng, instance, rng.random() < 0.4, rng.choice((0.0, 0.0, 0.3)), merge=merge,
                                          fill=rng.choice((1.0, 1.0, 0.5)))
        if rng.random() < 0.04:
            scenario["plan"] = {}
        if rng.random() < 0.04:
            instance["trips"] = []
            scenario["plan"] = {v: [] for v in scenario["plan"]}
    scenario["history"] = [[rng.choice(OPS), rng.getrandbits(32)] for _ in range(rng.randint(0, 6))]
    if "plan" in scenario and plans.shared(scenario["plan"]):  # Taking a trip out of a shared stop takes the stop.
        scenario["history"] = [h for h in scenario["history"] if h[0] != "improve"]
    scenario.update(common.before(rng, scenario["instance"]))
    return scenario


def perform(op, seed, result, out):
    """One operation of the history; a service-time change is the only one that changes the plan."""
    import jinete as jit

    rng = kernel.stream("op", seed)
    planning = result.planning
    routes = sorted(planning.routes, key=lambda r: r.vehicle.identifier)
    route = rng.choice(routes) if routes else None
    if op == "read":
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(sorted(READS))
            target = {"result": result, "planning": planning, "route": route}.get(kind)
            if kind == "stop" and route is not None:
                target = rng.choice(route.stops)
            if kind == "trip" and route is not None:
                target = next(iter(sorted(route.planned_trips, key=lambda p: p.trip_identifier)), None)
            if target is not None:
                value = getattr(target, rng.choice(READS[kind]))
                if hasattr(value, "__next__"):
                    list(value)
    elif op == "objective":
        value = rng.choice([result, planning] + routes)
        result.objective.optimization_function(value)
    elif op == "deepcopy":
        return copy.deepcopy(result) if rng.random() < 0.5 else copy.deepcopy(result) and result
    elif op == "clone" and route is not None:
        route.clone(rng.randint(0, len(route.stops))).feasible
    elif op == "candidates" and route is not None:
        # Only where the route is coherent: insertion refuses to extend routes that arrive before they leave.
        trip = rng.choice(sorted(result.job.trips, key=lambda t: t.identifier)) if result.job.trips else None
        if trip is not None and trip not in set(planning.trips):
            jit.IntensiveInsertionStrategy().compute(route, trip)
    elif op == "flush" and route is not None:
        route.flush()
    elif op == "stopflush" and route is not None:
        route.flush()
        rng.choice(route.stops).flush_all_previous()
        route.flush()
    elif op == "start" and route is not None and len(route.stops) > 2:
        stop = route.stops[rng.randint(1, len(route.stops) - 2)]
        stop.starting_time = round(rng.uniform(0, 150), 2)
        route.flush()
    elif op == "improve":
        strategy = getattr(jit, rng.choice(configs.LOCAL))
        strategy(result).improve()
    elif op == "repr":
        repr(result), repr(route), str(planning)
    return result


def execute(scenario, out):
    instance = scenario["instance"]
    with common.world(scenario["world"]) as w:
        common.do_before(scenario, out)
        fleet, job = instances.build(instance)
        if scenario["mode"] == "solve":
            result = configs.solve_chain(scenario["config"], fleet, job, lambda *args: None)
        else:
            result = plans.result(fleet, job, plans.build(instance, fleet, job, scenario["plan"]), 1.0)
        versions = [result]
        for op, seed in scenario["history"]:
            versions.append(perform(op, seed, versions[-1], out))
            out.faults[f"op:{op}"] += 1
        for version in {id(v): v for v in versions}.values():
            routes = oracle.extract(version.planning)
            oracle.check_reports(instance, version, out)
            margin = oracle.slack(instance, routes)
            out.probes["feasible" if margin > -2e-4 else "infeasible"] += 1
            if not routes:
                out.probes["no-routes"] += 1
            if not instance["trips"]:
                out.probes["no-trips"] += 1
            if oracle.served(routes):
                out.nontrivial = True
            out.state([oracle.visits(version.planning), margin > -2e-4])
            out.log(oracle.digest(routes), round(margin, 6) if abs(margin) < 1e12 else margin)
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    for i in range(len(scenario["history"])):
        smaller = copy.deepcopy(scenario)
        del smaller["history"][i]
        yield smaller
    if scenario["mode"] == "solve":
        yield from common.shrinks(scenario)
    else:
        yield from common.before_shrinks(scenario)
        yield from plans.shrinks(scenario)
        yield from common.world_shrinks(scenario)
