"""C05: solves terminate, and no vehicle idles while it could help."""
from .. import common, configs, instances, oracle, sched
from ..instances import inf

LEVEL = "exploration"
RUNS = {"quick": 1500, "thorough": 40000}
REPEATS = {"quick": 40, "thorough": 400}
RULE = ("A run solves a seeded random instance with a random configuration, each stage of which has a budget of library "
        "steps (executed lines) that depends only on the size of the instance and the configuration. When the fleet is "
        "interchangeable and the stage ends with an insertion, an idle vehicle together with an unserved trip it could "
        "serve alone with slack is a violation. Non-trivial: a stage ended with an idle vehicle and a trip left, or "
        "every vehicle was opened, or a warm start served another trip. Distinct: by scenario.")
STATE_MEASURE = "distinct plannings (sequences of visits per vehicle) at the end of a stage"
REAL = ["all of jinete.models, jinete.algorithms (heuristics, metaheuristics), jinete.utils"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["step budgets are at least 7 times the most that was measured over 1600 runs for any size",
               "solo service is judged with a margin of 0.05 so that tolerances do not matter"]
EXPECTED_PROBES = ["idle-and-left", "all-opened", "warm-start-helped", "vehicle-without-route"]
MARGIN = 0.05


def generate(rng, tier):
    if rng.random() < 0.12:
        instance, config = emptied(rng)
    elif rng.random() < 0.6:
        # Interchangeable vehicles and few or short trips, so that idle vehicles are likely.
        limit = 6 if tier == "quick" else 9
        instance = instances.generate(rng, rng.choice(("cordeau", "tight", "tight", "grid", "loose", "hashcode")),
                                      trips=rng.randint(1, limit), vehicles=rng.randint(1, 5))
        if rng.random() < 0.5 and instance["profile"] != "hashcode":
            opens, closes, longest = rng.choice((0, 25.0, 75.0)), rng.choice((None, None, 600.0)), \
                rng.choice((None, 60.0, 90.0, 120.0))
            for vehicle in instance["vehicles"]:
                vehicle.update(oe=opens, dl=closes, tmo=longest)
        config = configs.generate(rng, 2)
        if config["alg"] == "grasp":
            config.update(episodes=1, first_episodes=1)
            del instance["trips"][4:]
        if rng.random() < 0.4:
            config = {"alg": "warm", "initial": config, "then": configs.insertion(rng)}
        config = configs.with_start(rng, instance, config)
        if rng.random() < 0.2 and config["alg"] == "insertion":
            beyond(rng, instance)
    else:
        instance, config = common.solvable(rng, "quick")
    return {"instance": instance, "config": config, "world": common.world_params(rng),
            **common.before(rng, instance)}


def beyond(rng, instance):
    """Fill the default neighbourhood of the ranking with trips that nobody can reach in time."""
    far = [1000.0, 1000.0]
    for i in range(rng.randint(22, 30)):
        instance["trips"].append(dict(instance["trips"][0], id=str(100 + i), o=far, d=far, oe=0, ol=5.0, de=0,
                                      dl=instance["trips"][0]["dl"] or 1440.0))


def emptied(rng):
    """A vehicle that serves a late trip only, which moves to another one, while an early trip is left."""
    m = rng.choice((2, 2, 3))
    instance = instances.generate(rng, "cordeau", m + rng.choice((1, 2)), m, "DialARideObjective")
    for vehicle in instance["vehicles"]:
        vehicle.update(cap=1, tmo=None, dl=None, d=None)
    here = [rng.randint(-5, 5), rng.randint(-5, 5)]
    plan = {v["id"]: [] for v in instance["vehicles"]}
    for i, trip in enumerate(instance["trips"]):
        trip.update(oe=0, ol=20.0, de=0, dl=1000.0, cap=1, tmo=None, od=0, dd=0)
        if i < m - 1:
            # Served early by a vehicle of its own.
            plan[instance["vehicles"][i]["id"]] = [[[trip["id"]], [], None], [[], [trip["id"]], None]]
        elif i == m - 1:
            # Late, and close to where another vehicle ends.
            trip.update(o=list(instance["trips"][0]["d"]), d=here, oe=200.0, ol=300.0)
    start = {"alg": "plan", "instance": instance, "plan": plan}
    for _ in range(rng.choice((1, 1, 2))):
        first = dict(configs.insertion(rng), randomized_size=rng.choice((2, 3, 4, 8)))
        start = configs.local(rng, {"alg": "warm", "initial": start, "then": first}, configs.LOCAL[0])
    return instance, {"alg": "warm", "initial": start, "then": configs.insertion(rng)}


def _pairs(n, config):
    pairs = (n + 1) * (2 * n + 1)
    return pairs if config.get("strategy") == "IntensiveInsertionStrategy" else min(pairs, 128)


def shape(config, n, m):
    """How the work of one stage may grow with the size of the instance."""
    def insertion(c):
        return (n + 1) ** 2 * (m + 1) * _pairs(n, c) * (2 * n + 2)

    def local(threshold=1):
        return (n + threshold + 1) * (m + 1) ** 2 * (n + 1) * 128 * (2 * n + 2)

    kind = config["alg"]
    if kind == "insertion":
        return insertion(config)
    if kind == "warm":
        return insertion(config["then"])
    if kind == "local":
        return local(config["threshold"])
    if kind == "iterative":
        return config["episodes"] * insertion(config["inner"])
    if kind == "sequential":
        return (len(config["stages"] or (1, 2))) * (insertion({}) + local())
    if kind == "grasp":
        return 3 * (config["first_episodes"] * insertion({}) + 3 * (insertion({}) + local()))
    return n + m + 1


BASE, UNIT = 60_000, 100


def ends_with_insertion(config):
    if config["alg"] == "sequential":
        return config["stages"] is None or config["stages"][-1][0] == "insertion"
    return config["alg"] in ("insertion", "warm", "iterative")


def solo(instance, vehicle, trip):
    """Whether an empty vehicle can serve the trip on its own, with a margin for every constraint."""
    metric = instance["metric"]
    final = vehicle["d"] if vehicle["d"] is not None else vehicle["o"]
    if trip["cap"] > vehicle["cap"]:
        return False
    first, last, earliest, latest = oracle.effective_windows(instance, trip)
    out_leg = oracle.distance(metric, vehicle["o"], trip["o"])
    ride_leg = oracle.distance(metric, trip["o"], trip["d"])
    back_leg = oracle.distance(metric, trip["d"], final)
    pickup = max(vehicle["oe"] + out_leg, first, 0.0)
    delivery = max(pickup + trip["od"] + ride_leg, earliest)
    end = delivery + trip["dd"] + back_leg
    return (pickup <= last - MARGIN and delivery <= latest - MARGIN
            and delivery - (pickup + trip["od"]) <= inf(trip["tmo"]) - MARGIN
            and end - (pickup - out_leg) <= inf(vehicle["tmo"]) - MARGIN
            and end <= inf(vehicle["dl"]) - MARGIN)


def execute(scenario, out):
    instance, config = scenario["instance"], scenario["config"]
    n, m = len(instance["trips"]), len(instance["vehicles"])
    uniform = instances.uniform_fleet(instance)
    with common.world(scenario["world"]) as w:
        common.do_before(scenario, out)
        fleet, job = instances.build(instance)
        results = []

        def stage(c):
            initial = stage(c["initial"]) if "initial" in c else None
            budget = BASE + UNIT * shape(c, n, m)
            steps = sched.Steps(budget=budget)
            try:
                with steps:
                    result = configs.solve_stage(c, fleet, job, initial)
            except sched.StepBudgetExceeded:
                out.add("hang", f"{c['alg']} was still running after {budget} steps for {n} trips and {m} vehicles")
                raise _Stop()
            out.log(c["alg"], "steps", steps.count)
            if scenario.get("measure"):
                print(c["alg"], n, m, steps.count, round(steps.count / shape(c, n, m), 4))
            results.append((c, initial, result))
            return result

        try:
            stage(config)
        except _Stop:
            return
        for c, initial, result in results:
            routes = common.log_result(out, c["alg"], result)
            if not ends_with_insertion(c):
                continue
            served = oracle.served(routes)
            used = {r["v"] for r in routes if any(s["p"] for s in r["stops"])}
            idle = [v for v in instance["vehicles"] if v["id"] not in used]
            left = [t for t in instance["trips"] if t["id"] not in served]
            if not idle:
                out.probes["all-opened"] += 1
                out.nontrivial = True
            if initial is not None:
                before = oracle.extract(initial.planning)
                if served - oracle.served(before):
                    out.probes["warm-start-helped"] += 1
                    out.nontrivial = True
                if len(before) < m:
                    out.probes["vehicle-without-route"] += 1
            if idle and left and uniform:
                out.probes["idle-and-left"] += 1
                out.nontrivial = True
                for trip in left:
                    if solo(instance, idle[0], trip):
                        out.add("idle", f"{c['alg']}: vehicle {idle[0]['id']} is idle but could serve trip {trip['id']}")
        common.note_world(out, w, scenario["world"])


class _Stop(Exception):
    pass


def shrinks(scenario):
    yield from common.shrinks(scenario)
