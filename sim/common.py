"""Helpers shared by the properties."""
import contextlib
import copy
import os
import shutil

from . import configs, instances, kernel, oracle, plans

LAYOUT_WEIGHTS = ("random",) * 4 + ("asc", "desc", "few", "addr")


def world_params(rng):
    return {"seed": rng.getrandbits(48), "layout": rng.choice(LAYOUT_WEIGHTS), "epoch": rng.choice((0.0, 1.7e9)),
            "tick": rng.choice((1e-6, 1e-3, 0.0))}


def world(params, **kwargs):
    return kernel.World(**{**params, **kwargs})


def world_shrinks(scenario):
    for key, value in (("layout", "asc"), ("seed", 0), ("epoch", 0.0), ("tick", 1e-6)):
        if scenario["world"][key] != value:
            smaller = copy.deepcopy(scenario)
            smaller["world"][key] = value
            yield smaller


def instance_shrinks(scenario):
    for instance in instances.shrinks(scenario["instance"]):
        smaller = copy.deepcopy(scenario)
        smaller["instance"] = instance
        if "config" in smaller:
            smaller["config"] = configs.restrict(smaller["config"], instance)
        yield smaller


def shrinks(scenario):
    """Default shrinking of a scenario with an instance, a configuration and a world."""
    yield from before_shrinks(scenario)
    if "config" in scenario:
        yield from configs.alternatives(scenario)
    yield from instance_shrinks(scenario)
    yield from world_shrinks(scenario)


def before(rng, instance):
    """What else the process has done: solves of related instances, and whether it skips assertions."""
    extra = {}
    if rng.random() < 0.25:
        related = instances.variant(rng, instance)
        del related["trips"][4:]
        config = configs.generate(rng, 1)
        if config["alg"] == "grasp":
            config = configs.insertion(rng)
        extra["before"] = [related, config]
    if rng.random() < 0.1:
        extra["without_assertions"] = True
    return extra


def do_before(scenario, out):
    if "before" in scenario:
        related, config = scenario["before"]
        configs.solve_chain(config, *instances.build(related), lambda c, i, r: r.optimization_value)
        out.probes["earlier-solve"] += 1


def before_shrinks(scenario):
    for key in ("before", "without_assertions"):
        if key in scenario:
            smaller = copy.deepcopy(scenario)
            del smaller[key]
            yield smaller


def relax(rng, instance, wide=None):
    """Make room, so that many different visiting sequences are feasible."""
    for vehicle in instance["vehicles"]:
        vehicle.update(cap=6, tmo=None)
    wide = rng.random() < 0.5 if wide is None else wide
    for trip in instance["trips"]:
        trip["tmo"] = None
        if wide:
            trip.update(oe=0, ol=2000.0, de=0, dl=2000.0)


def crowd(rng, instance):
    """Let trips share places, with services that take different times."""
    places = [rng.choice(instance["trips"])[rng.choice("od")] for _ in range(rng.randint(1, 2))]
    for trip in instance["trips"]:
        for place, duration in (("o", "od"), ("d", "dd")):
            if rng.random() < 0.6:
                trip[place] = list(rng.choice(places))
            if rng.random() < 0.5:
                trip[duration] = rng.choice((0, 1, 3, 7.5))


def solvable(rng, tier, heavy=0.08):
    """An instance and a configuration to solve it, mostly small, sometimes long enough for the sampling paths."""
    if rng.random() < heavy:
        return long_routes(rng)
    if rng.random() < 0.15:
        return fitted(rng)
    limit = 5 if tier == "quick" else 8
    instance = instances.generate(rng, trips=rng.randint(1, limit), vehicles=rng.randint(1, 4))
    config = configs.generate(rng)
    return instance, configs.with_start(rng, instance, config)


def competing(rng):
    """Vehicles that compete for trips all over the day, with candidates for a part of them only."""
    instance = instances.generate(rng, "cordeau", rng.randint(4, 6), 3)
    for vehicle in instance["vehicles"]:
        vehicle["cap"] = rng.choice((1, 1, 2))
    for trip in instance["trips"]:
        start = round(rng.uniform(0, 200), 1)
        trip.update(o=[rng.randint(-9, 9), rng.randint(-9, 9)], d=[rng.randint(-9, 9), rng.randint(-9, 9)], od=0, dd=0,
                    oe=start, ol=start + 60.0, de=0, dl=1000.0, cap=1, tmo=rng.choice((None, 60.0)))
    return instance, dict(configs.insertion(rng), iterator="RankingInsertionIterator", max_size=rng.choice((2, 2, 3)),
                          strategy=rng.choice(("IntensiveInsertionStrategy",) * 3 + configs.STRATEGIES),
                          randomized_size=rng.choice((2, 3, 4)))


def fitted(rng, n=None, m=None, kind=None):
    """A starting solution with interleaved visits, and constraints that it meets with little to spare."""
    for _ in range(20):
        instance = instances.generate(rng, rng.choice(("loose", "grid", "hetero")), n or rng.randint(2, 5),
                                      m or rng.randint(1, 3))
        for vehicle in instance["vehicles"]:
            vehicle.update(cap=30, tmo=None, dl=None)
        for trip in instance["trips"]:
            trip.update(oe=0, ol=5000.0, de=0, dl=5000.0, tmo=None)
            if rng.random() < 0.4:
                trip[rng.choice(("oe", "de"))] = round(rng.uniform(0, 150), 1)
        plan = plans.generate(rng, instance, False, merge=0.0, fill=rng.choice((1.0, 1.0, 0.7)))
        trips = {t["id"]: t for t in instance["trips"]}
        vehicles = {v["id"]: v for v in instance["vehicles"]}

        def spare():
            return rng.choice((0.05, 0.5, 2.0, 10.0))

        load, most = 0, 1
        for route in plans.routes_of(instance, plan):
            pickups = {t: stop for stop in route["stops"] for t in stop["p"]}
            for stop in route["stops"]:
                load += sum(trips[t]["cap"] for t in stop["p"]) - sum(trips[t]["cap"] for t in stop["d"])
                most = max(most, load)
                for name in stop["d"]:
                    trip, start = trips[name], pickups[name]
                    if rng.random() < 0.6:
                        trip["tmo"] = stop["s"] - start["l"] + spare()
                    if rng.random() < 0.25:
                        trip["ol"] = start["s"] + spare()
                    if rng.random() < 0.25:
                        trip["dl"] = stop["s"] + spare()
            if rng.random() < 0.3:
                vehicles[route["v"]]["tmo"] = route["stops"][-1]["l"] - route["stops"][0]["l"] + spare()
            if rng.random() < 0.2:
                vehicles[route["v"]]["dl"] = route["stops"][-1]["l"] + spare()
        for vehicle in instance["vehicles"]:
            vehicle["cap"] = most + rng.choice((0, 0, 1))
        if oracle.slack(instance, plans.routes_of(instance, plan), latest_only=True) >= 0.01 and \
                all(_can_return(instance, v) for v in instance["vehicles"]):
            break
    else:
        plan = {v["id"]: [] for v in instance["vehicles"]}
        for vehicle in instance["vehicles"]:
            vehicle.update(tmo=None, dl=None)
    start = {"alg": "plan", "instance": instance, "plan": plan}
    kind = kind or rng.choice(("warm", "local", "local", "local", "sequential"))
    if kind == "warm":
        return instance, {"alg": "warm", "initial": start, "then": configs.insertion(rng)}
    if kind == "local":
        return instance, configs.local(rng, start)
    return instance, {"alg": "sequential", "initial": start, "seed": rng.randrange(1 << 31), "stages": rng.choice(
        (None, [["local", rng.choice(configs.LOCAL)] for _ in range(2)]))}


def _can_return(instance, vehicle):
    """A vehicle must at least be able to drive straight from one depot to the other."""
    direct = oracle.distance(instance["metric"], vehicle["o"], vehicle["d"] or vehicle["o"])
    return direct <= instances.inf(vehicle["tmo"]) - 1 and vehicle["oe"] + direct <= instances.inf(vehicle["dl"]) - 1


def long_warm(rng):
    """A single insertion into a route of more than 17 stops: the smallest solve that samples."""
    n = rng.choice((9, 10))
    instance = instances.generate(rng, "loose", n, 1)
    relax(rng, instance, wide=True)
    return instance, {"alg": "warm", "initial": configs.planned(rng, instance, (n - 1) / n), "then": dict(
        configs.insertion(rng), strategy="SamplingInsertionStrategy", iterator=rng.choice(configs.ITERATORS[:2]))}


def long_routes(rng):
    """One or two vehicles that serve enough trips for routes of more than 17 stops, whose insertions are sampled."""
    m = rng.choice((1, 1, 2))
    if rng.random() < 0.1:
        # From scratch, which takes long.
        instance = instances.generate(rng, "loose", 9, 1)
        relax(rng, instance)
        return instance, dict(configs.insertion(rng), strategy="SamplingInsertionStrategy")
    n = rng.randint(9, 12)
    instance = instances.generate(rng, rng.choice(("loose", "loose", "loose", "hashcode")), n, m)
    if instance["profile"] == "loose":
        relax(rng, instance, wide=True)
        start = configs.planned(rng, instance, (n - rng.choice((1, 1, 2))) / n)
    else:
        start = configs.planned(rng, instance, 1.0)
    kind = rng.choice(("warm", "warm", "local", "sequential"))
    if kind == "warm":
        return instance, {"alg": "warm", "initial": start, "then": configs.insertion(rng)}
    if kind == "local":
        return instance, configs.local(rng, start)
    return instance, {"alg": "sequential", "initial": start, "seed": rng.randrange(1 << 31),
                      "stages": rng.choice((None, [["insertion"], ["local", rng.choice(configs.LOCAL)]]))}


def note_world(out, w, params):
    out.faults[f"iteration-order:{params['layout']}"] += 1
    out.sim_time += w.now
    out.probes["hashes-decided"] += w.hashes
    out.probes["clock-reads"] += w.clock_reads


def log_result(out, label, result):
    routes = oracle.extract(result.planning)
    out.log(label, oracle.digest(routes), "served", len(oracle.served(routes)), "routes",
            sum(1 for r in routes if len(r["stops"]) > 2))
    out.state(oracle.visits(result.planning))
    return routes


def scratch_path(pid=None):
    return os.path.join("/tmp", f"jinete-sim-{pid or os.getpid()}")


@contextlib.contextmanager
def scratch():
    """A directory of this run's own, removed afterwards (by the runner if the run is killed)."""
    path = scratch_path()
    shutil.rmtree(path, ignore_errors=True)
    os.mkdir(path)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


def touch(fleet, job, *results, objective=True):
    """Decide the hashes of every shared model now, so that a later solve does not shift the ones of others."""
    models = [fleet, job]
    if objective:
        models.append(job.objective)
    for vehicle in sorted(fleet.vehicles, key=lambda v: v.identifier):
        models += [vehicle, vehicle.origin, vehicle.destination]
    for trip in sorted(job.trips, key=lambda t: t.identifier):
        models += [trip, trip.origin, trip.destination]
    for service in [m for m in models if hasattr(m, "position")]:
        models += [service.position, service.position.surface]
    for result in results:
        models += [result, result.planning]
        for route in sorted(result.planning.routes, key=lambda r: r.vehicle.identifier):
            models.append(route)
            for stop in route.stops:
                models += [stop, stop.position]
                models += sorted(stop.pickup_planned_trips, key=lambda pt: pt.trip.identifier)
    for model in models:
        if model is not None:
            hash(model)


def derived_state(job):
    """The values that trips derive from their attributes."""
    return sorted((t.identifier, t.origin_earliest, t.origin_latest, t.destination_earliest, t.destination_latest,
                   t.distance) for t in job.trips)


def raw_state(fleet, job):
    """Every attribute of the instance and the identities of its parts."""
    def service(s):
        return id(s), id(s.position), tuple(s.position.coordinates), s.earliest, s.latest, s.duration

    return {
        "fleet": (id(fleet.vehicles), len(fleet.vehicles)),
        "job": (id(job.trips), len(job.trips), job.objective_cls.__name__),
        "vehicles": sorted((v.identifier, id(v), service(v.origin), service(v.destination), v.capacity, v.timeout)
                           for v in fleet.vehicles),
        "trips": sorted((t.identifier, id(t), service(t.origin), service(t.destination), t.capacity, t.timeout,
                         t.on_time_bonus) for t in job.trips),
    }


def structure(planning):
    """The identities of everything a planning is made of."""
    routes = sorted(planning.routes, key=lambda r: r.vehicle.identifier)
    return (id(planning), id(planning.routes), [
        (id(r), id(r.vehicle), id(r.stops), [
            (id(s), id(s.vehicle), id(s.position), None if s.previous is None else id(s.previous),
             sorted((pt.trip.identifier, id(pt), id(pt.pickup), id(pt.delivery)) for pt in s.pickup_planned_trips),
             sorted((pt.trip.identifier, id(pt), id(pt.pickup), id(pt.delivery)) for pt in s.delivery_planned_trips))
            for s in r.stops]) for r in routes])


def _same(a, b):
    """Equality up to the rounding that depends on the order in which a set is summed."""
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return oracle.close(a, b)
    return a == b


class Guard:
    """Remembers an instance and a solution, and tells whether anything observable of them has changed."""

    def __init__(self, fleet, job, initial=None, read=True, twin=None):
        """``twin`` is an identical job whose values are read instead, to leave the ones of this job for later."""
        self.fleet, self.job, self.initial = fleet, job, initial
        self.raw = raw_state(fleet, job)
        self.derived = derived_state(job if twin is None else twin)
        if initial is not None:
            self.structure = structure(initial.planning)
            # A copy tells the expected values without filling the caches of the original.
            self.routes = oracle.extract((initial if read else copy.deepcopy(initial)).planning)
            self.values = self._values(initial if read else copy.deepcopy(initial))
            self.time = initial.computation_time

    @staticmethod
    def _values(result):
        return [result.feasible, result.coverage_rate, result.optimization_value,
                sorted(t.identifier for t in result.completed_trips)]

    def check(self, out, when, flush=True):
        now = raw_state(self.fleet, self.job)
        for key, value in self.raw.items():
            if now[key] != value:
                out.add("inputs-changed", f"{when}: the {key} of the instance changed")
        if flush and derived_state(self.job) != self.derived:
            out.add("inputs-changed", f"{when}: the values derived from the trips changed")
        if self.initial is None:
            return
        if structure(self.initial.planning) != self.structure:
            out.add("start-changed", f"{when}: the structure of the initial solution changed")
            return
        for label in ("", " once its caches are dropped")[:2 if flush else 1]:
            if label:
                for route in self.initial.planning.routes:
                    route.flush()
            if oracle.extract(self.initial.planning) != self.routes:
                out.add("start-changed", f"{when}: the visits or times of the initial solution changed{label}")
            elif not _same(self._values(self.initial), self.values) or self.initial.computation_time != self.time:
                out.add("start-changed", f"{when}: the values of the initial solution changed{label}")
