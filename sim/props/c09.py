"""C09: a route stays coherent under any sequence of edits and reads."""
import copy

from .. import common, instances, kernel, oracle, plans
from . import c03

LEVEL = "exploration"
RUNS = {"quick": 7000, "thorough": 100000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run applies a random history to a route: appended trips (anywhere, with or without requested service times), "
        "inserted and removed stops, removed trips, changed service times, replaced depots, copies that take the route's "
        "place, rejected edits and reads that fill the caches; the model keeps the sequence of visits and requested "
        "times. At random points and at the end, visits, links, times, loads, distances and feasibility are compared "
        "with the reference schedule. Non-trivial: an edit followed a read and some trip was planned. Distinct: by "
        "scenario.")
STATE_MEASURE = "distinct sequences of visits reached"
REAL = ["jinete.models (routes, stops, planned trips, trips, vehicles, surfaces)"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["service times are adjusted through Stop.starting_time followed by Route.flush, as the library does",
               "feasibility flags are not judged when the worst violation lies between 2e-4 and 5e-3"]
OPS = ("append",) * 5 + ("remove",) * 2 + ("waypoint", "unwaypoint", "start", "start", "delay", "first", "unfirst", "reject-delivery",
                                            "reject-pickup", "reject-remove", "deepcopy", "clone", "flush", "check") + \
    ("read",) * 6
EXPECTED_PROBES = ["op:" + op for op in sorted(set(OPS))] + ["rejected", "feasible", "infeasible"]


def generate(rng, tier):
    instance = instances.generate(rng, trips=rng.randint(1, 6), vehicles=1)
    if rng.random() < 0.3:
        common.relax(rng, instance)
    return {"instance": instance, "world": common.world_params(rng), "start": rng.random() < 0.3,
            "plan": plans.generate(rng, instance, False, 0.1, merge=0.0, fill=0.6),
            "history": [[rng.choice(OPS), rng.getrandbits(32)] for _ in range(rng.randint(2, 14 if tier == "quick" else 30))]}


class History:
    exact = True  # Whether the model knows the requested service times.

    def __init__(self, scenario, out):
        self.instance = scenario["instance"]
        self.out = out
        self.fleet, self.job = instances.build(self.instance)
        [self.raw_vehicle] = self.instance["vehicles"]
        [self.vehicle] = self.fleet.vehicles
        self.trips = {t.identifier: t for t in self.job.trips}
        self.raw = {t["id"]: t for t in self.instance["trips"]}
        stops = scenario["plan"][self.raw_vehicle["id"]] if scenario["start"] else []
        self.route = plans.build_route(self.instance, self.vehicle, self.job, stops)
        self.model = [{"pos": pos, "p": list(p), "d": list(d), "r": None}
                      for pos, p, d in plans.sequence(self.instance, self.raw_vehicle, stops)]
        for i, stop in enumerate(stops):
            self.model[i + 1]["r"] = stop[2]
        self.have_read = self.edited_after_read = False

    def lower(self):
        """The first stop that may be edited."""
        return 0

    def place(self, rng):
        """Where a stop may be inserted: the index of its predecessor, or None."""
        low = max(self.lower() - 1, 0)
        return rng.randint(low, len(self.model) - 2) if low <= len(self.model) - 2 else None

    def removable(self):
        low = self.lower()
        return [t for t in self.planned()
                if all(i >= low for i, s in enumerate(self.model) if t in s["p"] + s["d"])]

    def planned(self):
        return sorted({t for s in self.model for t in s["p"]})

    def apply(self, op, seed):
        rng = kernel.stream("op", seed)
        done = getattr(self, "_" + op.split("-")[0])(rng, op)
        if done is not False:
            self.out.probes["op:" + op] += 1
            if op not in ("read", "check", "flush") and self.have_read:
                self.edited_after_read = True

    def _new(self, trip_id, rng, previous_index):
        """The library's stops for a trip, the pickup after one stop and the delivery at or after it."""
        import jinete as jit

        trip = self.trips[trip_id]
        i = previous_index
        j = rng.randint(i + 1, len(self.model) - 1)
        starts = [round(rng.uniform(0, 150), 2) if rng.random() < 0.15 else None for _ in range(2)]
        pickup = jit.Stop(self.vehicle, trip.origin_position, self.route.stops[i], starting_time=starts[0])
        before = pickup if j == i + 1 else self.route.stops[j - 1]
        delivery = jit.Stop(self.vehicle, trip.destination_position, before, starting_time=starts[1])
        return trip, pickup, delivery, j, starts

    def _append(self, rng, op):
        import jinete as jit

        absent = sorted(set(self.trips) - set(self.planned()))
        i = self.place(rng)
        if not absent or i is None:
            return False
        trip_id = rng.choice(absent)
        trip, pickup, delivery, j, starts = self._new(trip_id, rng, i)
        self.route.append_planned_trip(jit.PlannedTrip(self.vehicle, trip, pickup, delivery))
        raw = self.raw[trip_id]
        self.model.insert(j, {"pos": tuple(map(float, raw["d"])), "p": [], "d": [trip_id], "r": starts[1]})
        self.model.insert(i + 1, {"pos": tuple(map(float, raw["o"])), "p": [trip_id], "d": [], "r": starts[0]})

    def _reject(self, rng, op):
        import jinete as jit

        absent = sorted(set(self.trips) - set(self.planned()))
        i = self.place(rng)
        if not absent or i is None:
            return False
        trip = self.trips[rng.choice(absent)]
        foreign = jit.Stop(self.vehicle, trip.origin_position, None)
        before = list(self.route.stops)
        try:
            if op == "reject-remove":
                self.route.remove_trip(trip)
                if list(self.route.stops) == before:
                    return False  # Ignoring trips that are not planned is fine as well.
                raise _Accepted()
            if op == "reject-pickup":
                pickup = jit.Stop(self.vehicle, trip.origin_position, foreign)
                delivery = jit.Stop(self.vehicle, trip.destination_position, pickup)
            else:
                pickup = jit.Stop(self.vehicle, trip.origin_position, self.route.stops[i])
                delivery = jit.Stop(self.vehicle, trip.destination_position, foreign)
            self.route.append_planned_trip(jit.PlannedTrip(self.vehicle, trip, pickup, delivery))
            raise _Accepted()
        except _Accepted:
            self.out.add("accepted", f"{op}: an edit that does not fit the route was accepted")
        except Exception:
            self.out.probes["rejected"] += 1

    def _remove(self, rng, op):
        planned = self.removable()
        if not planned:
            return False
        trip_id = rng.choice(planned)
        self.route.remove_trip(self.trips[trip_id])
        self.model = [s for s in self.model if trip_id not in s["p"] + s["d"]]

    def _waypoint(self, rng, op):
        import jinete as jit

        raw = self.raw[rng.choice(sorted(self.raw))]
        trip = self.trips[raw["id"]]
        i = self.place(rng)
        if i is None:
            return False
        requested = round(rng.uniform(0, 150), 2) if rng.random() < 0.3 else None
        stop = jit.Stop(self.vehicle, trip.origin_position, self.route.stops[i], starting_time=requested)
        if rng.random() < 0.5:
            self.route.insert_stop(stop)
        else:
            self.route.insert_stop_at(i + 1, stop)
        self.model.insert(i + 1, {"pos": tuple(map(float, raw["o"])), "p": [], "d": [], "r": requested})

    def _unwaypoint(self, rng, op):
        choices = [i for i in range(max(self.lower(), 1), len(self.model) - 1) if not self.model[i]["p"] + self.model[i]["d"]]
        if not choices:
            return False
        i = rng.choice(choices)
        self.route.remove_stop_at(i)
        del self.model[i]

    def _start(self, rng, op):
        if self.lower() >= len(self.model):
            return False
        i = rng.randint(self.lower(), len(self.model) - 1)
        value = round(rng.uniform(0, 200), 2)
        self.route.stops[i].starting_time = value
        self.route.flush()
        self.model[i]["r"] = value

    def _delay(self, rng, op):
        if self.lower() >= len(self.model):
            return False
        i = rng.randint(self.lower(), len(self.model) - 1)
        extra = round(rng.uniform(0, 20), 2)
        start = self.reference()[i]["s"] if self.exact else self.route.stops[i].starting_time
        self.route.stops[i].starting_time += extra
        self.route.flush()
        self.model[i]["r"] = start + extra

    def _first(self, rng, op):
        import jinete as jit

        if self.lower():
            return False
        requested = round(rng.uniform(0, 100), 2) if rng.random() < 0.5 else None
        self.route.insert_stop(jit.Stop(self.vehicle, self.vehicle.origin_position, None, starting_time=requested))
        self.model[0]["r"] = requested

    def _unfirst(self, rng, op):
        import jinete as jit

        if len(self.model) < 3 or self.lower():
            return False
        self.route.remove_stop_at(0)
        self._read(rng, op)
        first = self.model.pop(0)
        self._check(values=False)  # Distances from the depot to another first stop are nobody's.
        requested = round(rng.uniform(0, 100), 2) if rng.random() < 0.5 else None
        self.route.insert_stop_at(0, jit.Stop(self.vehicle, self.vehicle.origin_position, None, starting_time=requested))
        self.model.insert(0, dict(first, r=requested))

    def _deepcopy(self, rng, op):
        self.route = copy.deepcopy(self.route)

    def _clone(self, rng, op):
        self.route = self.route.clone(rng.choice((0, 0, 1, len(self.route.stops))))

    def _flush(self, rng, op):
        self.route.flush()

    def _read(self, rng, op):
        self.have_read = True
        for _ in range(rng.randint(1, 3)):
            kind = rng.choice(("route", "route", "stop", "trip"))
            target = self.route
            if kind == "stop":
                target = rng.choice(self.route.stops)
            if kind == "trip":
                target = next(iter(sorted(self.route.planned_trips, key=lambda p: p.trip_identifier)), None)
            if target is not None:
                value = getattr(target, rng.choice(c03.READS[kind]))
                if hasattr(value, "__next__"):
                    list(value)

    def reference(self):
        return oracle.schedule(self.instance, self.raw_vehicle, [(s["pos"], s["p"], s["d"]) for s in self.model],
                               starts={i: s["r"] for i, s in enumerate(self.model) if s["r"] is not None})

    def _check(self, rng=None, op=None, values=True):
        import jinete as jit

        out, before = self.out, len(self.out.violations)
        stops = list(self.route.stops)
        for i, stop in enumerate(stops):
            if stop.previous is not (stops[i - 1] if i else None):
                out.add("links", f"stop {i} of {len(stops)} is not linked to its predecessor")
        [actual] = oracle.extract_routes([self.route]) if len(out.violations) == before else [None]
        if actual is None:
            return
        expected = self.reference() if self.exact else self.model
        visits = [(s["pos"], s["p"], s["d"]) for s in actual["stops"]]
        wanted = [(tuple(s["pos"]), sorted(s["p"]), sorted(s["d"])) for s in expected]
        if visits != wanted:
            out.add("visits", f"the visits are {visits} instead of {wanted}")
            return
        for i, (a, e) in enumerate(zip(actual["stops"], expected) if self.exact else ()):
            for key, name in (("a", "arrival"), ("s", "service start"), ("l", "departure")):
                if not oracle.close(a[key], e[key]):
                    out.add("times", f"stop {i}: {name} is {a[key]} instead of {e[key]}")
                    return
        if not values:
            return
        result = plans.result(self.fleet, self.job, jit.Planning({self.route}))
        oracle.check_reports(self.instance, result, out)
        margin = oracle.slack(self.instance, [actual])
        out.probes["feasible" if margin > -2e-4 else "infeasible"] += 1
        out.state(visits)
        out.log(oracle.digest(actual))


class _Accepted(Exception):
    pass


def execute(scenario, out):
    with common.world(scenario["world"]) as w:
        history = History(scenario, out)
        for op, seed in scenario["history"]:
            out.log(op)
            history.apply(op, seed)
            if out.violations:
                break
        else:
            history._check()
        if history.edited_after_read and history.planned():
            out.nontrivial = True
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    history = scenario["history"]
    for size in (len(history) // 2, len(history) // 4, 1):
        if size:
            for i in range(0, len(history), size):
                if size < len(history):
                    yield dict(copy.deepcopy(scenario), history=history[:i] + history[i + size:])
    if scenario["start"]:
        yield dict(copy.deepcopy(scenario), start=False)
    yield from plans.shrinks(scenario)
    yield from common.world_shrinks(scenario)
