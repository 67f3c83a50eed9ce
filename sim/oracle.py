"""Independent reference for plannings: everything is recomputed from the raw JSON instance.

The only things read from the library's objects are the sequence of visits (stop positions and which trips are picked
up and delivered at each one) and, to be judged, the values the library reports.
"""
import hashlib
import json
import math
from collections import Counter

from .instances import inf

BOUND = 2e-3   # The library tolerates 1e-3 per constraint.
CLOSE = 1e-6   # For values that must be equal.


def distance(metric, a, b):
    if metric == "EUCLIDEAN":
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    return sum(abs(x - y) for x, y in zip(a, b))


def close(a, b, tolerance=CLOSE):
    if a == b:
        return True
    return abs(a - b) <= tolerance * max(1.0, abs(a), abs(b))


def extract(planning):
    """Canonical description of a planning, independent of the iteration order of its sets."""
    routes = extract_routes(planning.routes)
    routes.sort(key=lambda r: json.dumps(r))
    return routes


def extract_routes(routes_):
    routes = []
    for route in routes_:
        stops = []
        for stop in route.stops:
            stops.append({
                "pos": tuple(float(c) for c in stop.position.coordinates),
                "p": sorted(pt.trip.identifier for pt in stop.pickup_planned_trips),
                "d": sorted(pt.trip.identifier for pt in stop.delivery_planned_trips),
                "a": stop.arrival_time, "s": stop.starting_time, "l": stop.departure_time,
            })
        routes.append({"v": route.vehicle.identifier, "stops": stops})
    return routes


def visits(planning):
    return sorted((r["v"], tuple((s["pos"], tuple(s["p"]), tuple(s["d"])) for s in r["stops"]))
                  for r in extract(planning))


def digest(value):
    return hashlib.sha256(json.dumps(value, sort_keys=True, default=str).encode()).hexdigest()[:16]


class Violations(list):
    def add(self, kind, message):
        self.append((kind, message))


def check_routes(instance, routes, out, bound=BOUND):
    """Constraints of each extracted route; appends (class, message) pairs to ``out``."""
    trips = {t["id"]: t for t in instance["trips"]}
    vehicles = {v["id"]: v for v in instance["vehicles"]}
    metric = instance["metric"]
    for route in routes:
        vehicle = vehicles.get(route["v"])
        if vehicle is None:
            out.add("alien-vehicle", f"vehicle {route['v']} is not in the fleet")
            continue
        name = f"vehicle {route['v']}"
        stops = route["stops"]
        final = vehicle["d"] if vehicle["d"] is not None else vehicle["o"]
        if len(stops) < 2:
            out.add("depot", f"{name}: only {len(stops)} stops")
            continue
        if list(stops[0]["pos"]) != [float(c) for c in vehicle["o"]]:
            out.add("depot", f"{name}: starts at {stops[0]['pos']} instead of {vehicle['o']}")
        if list(stops[-1]["pos"]) != [float(c) for c in final]:
            out.add("depot", f"{name}: ends at {stops[-1]['pos']} instead of {final}")
        if not stops[0]["s"] >= vehicle["oe"] - bound:
            out.add("depot-time", f"{name}: starts at {stops[0]['s']} before {vehicle['oe']}")
        load, aboard, done = 0, {}, set()
        for i, stop in enumerate(stops):
            if not all(math.isfinite(stop[k]) for k in "asl"):
                out.add("timing", f"{name} stop {i}: times are not finite: {stop}")
                continue
            if i:
                previous = stops[i - 1]
                arrival = previous["l"] + distance(metric, previous["pos"], stop["pos"])
                if abs(arrival - stop["a"]) > bound:
                    out.add("timing", f"{name} stop {i}: arrival {stop['a']} but it can be reached at {arrival}")
            if stop["s"] < stop["a"] - bound:
                out.add("timing", f"{name} stop {i}: service starts at {stop['s']}, before arrival {stop['a']}")
            service = 0
            for trip_id in stop["d"]:
                trip = trips.get(trip_id)
                if trip is None:
                    out.add("alien-trip", f"{name}: delivers unknown trip {trip_id}")
                    continue
                if trip_id not in aboard:
                    out.add("order", f"{name} stop {i}: trip {trip_id} delivered but not aboard")
                else:
                    ride = stop["s"] - aboard.pop(trip_id)
                    if ride > inf(trip["tmo"]) + bound:
                        out.add("ride-time", f"{name}: trip {trip_id} rides {ride} > {trip['tmo']}")
                    load -= trip["cap"]
                if not trip["de"] - bound <= stop["s"] <= inf(trip["dl"]) + bound:
                    out.add("window", f"{name}: trip {trip_id} delivered at {stop['s']} outside "
                                      f"[{trip['de']}, {trip['dl']}]")
                if list(stop["pos"]) != [float(c) for c in trip["d"]]:
                    out.add("place", f"{name}: trip {trip_id} delivered at {stop['pos']} instead of {trip['d']}")
                service = max(service, trip["dd"])
                done.add(trip_id)
            for trip_id in stop["p"]:
                trip = trips.get(trip_id)
                if trip is None:
                    out.add("alien-trip", f"{name}: picks up unknown trip {trip_id}")
                    continue
                if trip_id in aboard or trip_id in done:
                    out.add("order", f"{name} stop {i}: trip {trip_id} picked up again or after its delivery")
                if not trip["oe"] - bound <= stop["s"] <= inf(trip["ol"]) + bound:
                    out.add("window", f"{name}: trip {trip_id} picked up at {stop['s']} outside "
                                      f"[{trip['oe']}, {trip['ol']}]")
                if list(stop["pos"]) != [float(c) for c in trip["o"]]:
                    out.add("place", f"{name}: trip {trip_id} picked up at {stop['pos']} instead of {trip['o']}")
                service = max(service, trip["od"])
                aboard[trip_id] = stop["l"]
                load += trip["cap"]
            if load > vehicle["cap"] + bound:
                out.add("capacity", f"{name} stop {i}: load {load} > {vehicle['cap']}")
            if abs(stop["l"] - stop["s"] - service) > bound:
                out.add("timing", f"{name} stop {i}: departs at {stop['l']} from a service of {service} started at "
                                  f"{stop['s']}")
        if aboard:
            out.add("order", f"{name}: trips {sorted(aboard)} are never delivered")
        if stops[-1]["l"] > inf(vehicle["dl"]) + bound:
            out.add("depot-time", f"{name}: ends at {stops[-1]['l']} after {vehicle['dl']}")
        if stops[-1]["l"] - stops[0]["l"] > inf(vehicle["tmo"]) + bound:
            out.add("route-time", f"{name}: lasts {stops[-1]['l'] - stops[0]['l']} > {vehicle['tmo']}")
    return out


def effective_windows(instance, trip):
    """The windows in which the library lets a trip's services start: its raw ones, tightened by the ride times."""
    travel = distance(instance["metric"], trip["o"], trip["d"])
    return (max(trip["de"] - trip["dd"] - inf(trip["tmo"]), trip["oe"]),
            min(inf(trip["dl"]) - trip["dd"] - travel, inf(trip["ol"])),
            max(trip["oe"] + trip["od"] + travel, trip["de"]),
            min(inf(trip["ol"]) + trip["od"] + inf(trip["tmo"]), inf(trip["dl"])))


def slack(instance, routes, latest_only=False):
    """The smallest margin with which the routes meet all their constraints (negative: the worst violation).

    With ``latest_only``, the bounds that a reference schedule meets by construction (earliest times) are left out, as
    well as the load, which is either met exactly or not at all.
    """
    trips = {t["id"]: t for t in instance["trips"]}
    vehicles = {v["id"]: v for v in instance["vehicles"]}
    margins = [math.inf]
    for route in routes:
        vehicle, stops = vehicles[route["v"]], route["stops"]
        final = vehicle["d"] if vehicle["d"] is not None else vehicle["o"]
        if list(stops[0]["pos"]) != [float(c) for c in vehicle["o"]]:
            margins.append(-math.inf)
        if list(stops[-1]["pos"]) != [float(c) for c in final]:
            margins.append(-math.inf)
        if not latest_only:
            margins.append(stops[0]["a"] - vehicle["oe"])
        margins.append(inf(vehicle["dl"]) - stops[-1]["l"])
        margins.append(inf(vehicle["tmo"]) - (stops[-1]["l"] - stops[0]["l"]))
        load, aboard = 0, {}
        for stop in stops:
            for trip in (trips[x] for x in stop["d"]):
                _, _, earliest, latest = effective_windows(instance, trip)
                if not latest_only:
                    margins.append(stop["s"] - earliest)
                margins.append(latest - stop["s"])
                margins.append(inf(trip["tmo"]) - (stop["s"] - aboard.pop(trip["id"])))
                load -= trip["cap"]
            for trip in (trips[x] for x in stop["p"]):
                earliest, latest, _, _ = effective_windows(instance, trip)
                if not latest_only:
                    margins.append(stop["s"] - earliest)
                margins.append(latest - stop["s"])
                aboard[trip["id"]] = stop["l"]
                load += trip["cap"]
            if stop["p"] or stop["d"]:
                room = vehicle["cap"] - load
                if not latest_only or room < 0:
                    margins.append(room)
    return min(margins)


def feasible(instance, routes):
    """Whether the routes are feasible: True, False, or None where the library's tolerance decides."""
    margin = slack(instance, routes)
    if margin >= -2e-4:
        return True
    if margin <= -5e-3:
        return False
    return None


def check_conservation(instance, routes, out):
    known = {t["id"] for t in instance["trips"]}
    fleet = {v["id"] for v in instance["vehicles"]}
    picked, delivered, where = Counter(), Counter(), {}
    for k, route in enumerate(routes):
        for stop in route["stops"]:
            for trip_id in stop["p"]:
                picked[trip_id] += 1
                where.setdefault(trip_id, set()).add(k)
            for trip_id in stop["d"]:
                delivered[trip_id] += 1
                where.setdefault(trip_id, set()).add(k)
    for trip_id in sorted(set(picked) | set(delivered)):
        if trip_id not in known:
            out.add("alien-trip", f"trip {trip_id} is not in the job")
        if picked[trip_id] > 1 or delivered[trip_id] > 1:
            out.add("duplicate", f"trip {trip_id} picked up {picked[trip_id]} and delivered {delivered[trip_id]} times")
        elif picked[trip_id] != delivered[trip_id]:
            out.add("half-served", f"trip {trip_id} picked up {picked[trip_id]} and delivered {delivered[trip_id]} times")
        elif len(where[trip_id]) > 1:
            out.add("split", f"trip {trip_id} is split over several routes")
    for vehicle_id, count in Counter(r["v"] for r in routes).items():
        if vehicle_id not in fleet:
            out.add("alien-vehicle", f"vehicle {vehicle_id} is not in the fleet")
        if count > 1:
            out.add("two-routes", f"vehicle {vehicle_id} has {count} routes")
    return out


def served(routes):
    return {t for r in routes for s in r["stops"] for t in s["p"]}


def trip_objective(instance, name, trip, pickup, delivery, length):
    """What one trip is worth, from the stops where it gets on and off and the way between them."""
    if name == "DialARideObjective":
        return 1, -length
    if trip["cap"] == 0:
        return (0.0,)
    if name == "TaxiSharingObjective":
        return (delivery["s"] - pickup["l"],)
    bonus = trip["bonus"] if pickup["l"] == trip["oe"] else 0.0
    return (distance(instance["metric"], trip["o"], trip["d"]) + bonus,)


def objective(instance, routes, name=None):
    """Objective value recomputed from the visits, their times and the raw instance."""
    name = name or instance["objective"]
    trips = {t["id"]: t for t in instance["trips"]}
    metric = instance["metric"]
    if name == "DialARideObjective":
        count = sum(len(s["p"]) for r in routes for s in r["stops"])
        length = sum(distance(metric, a["pos"], b["pos"]) for r in routes for a, b in zip(r["stops"], r["stops"][1:]))
        return count, -length
    value = 0.0
    for route in routes:
        pickups = {t: s for s in route["stops"] for t in s["p"]}
        deliveries = {t: s for s in route["stops"] for t in s["d"]}
        for trip_id, pickup in pickups.items():
            trip = trips[trip_id]
            value += trip_objective(instance, name, trip, pickup, deliveries[trip_id], None)[0]
    return (value,)


def better_or_equal(a, b, tolerance=1e-6):
    """Lexicographic comparison of objective values (maximization) with a tolerance."""
    for x, y in zip(a, b):
        if abs(x - y) <= tolerance * max(1.0, abs(x), abs(y)):
            continue
        return x > y
    return True


def schedule(instance, vehicle, sequence, first_start=None, starts=None):
    """Earliest schedule of a sequence of stops ``(pos, pickups, deliveries)`` under the library's documented timing.

    A service starts at the latest of the arrival, the earliest bounds of its trips and the requested start.
    """
    trips = {t["id"]: t for t in instance["trips"]}
    metric = instance["metric"]
    result, previous = [], None
    for i, (pos, pickups, deliveries) in enumerate(sequence):
        if previous is None:
            arrival = vehicle["oe"] + distance(metric, vehicle["o"], pos)
        else:
            arrival = previous["l"] + distance(metric, previous["pos"], pos)
        earliest, latest, service = [], [], [0]
        for t in (trips[x] for x in pickups):
            earliest.append(max(t["de"] - t["dd"] - inf(t["tmo"]), t["oe"]))
            service.append(t["od"])
        for t in (trips[x] for x in deliveries):
            earliest.append(max(t["oe"] + t["od"] + distance(metric, t["o"], t["d"]), t["de"]))
            service.append(t["dd"])
        requested = (starts or {}).get(i)
        start = max([arrival] + earliest + ([requested] if requested is not None else []) + ([0.0] if not earliest else []))
        previous = {"pos": pos, "p": sorted(pickups), "d": sorted(deliveries), "a": arrival, "s": start,
                    "l": start + max(service)}
        result.append(previous)
    return result


# -- reported values

def _stop_expectations(instance, vehicle, stops):
    """Everything a route's stops should report, from their positions, visits and service starts."""
    trips = {t["id"]: t for t in instance["trips"]}
    metric = instance["metric"]
    expected, load = [], 0
    for i, stop in enumerate(stops):
        origin = vehicle["o"] if i == 0 else stops[i - 1]["pos"]
        leave = vehicle["oe"] if i == 0 else expected[-1]["departure_time"]
        travel = distance(metric, origin, stop["pos"])
        earliest, latest, service = [], [], [0]
        for t in (trips[x] for x in stop["p"]):
            window = effective_windows(instance, t)
            earliest.append(window[0]), latest.append(window[1]), service.append(t["od"])
            load += t["cap"]
        for t in (trips[x] for x in stop["d"]):
            window = effective_windows(instance, t)
            earliest.append(window[2]), latest.append(window[3]), service.append(t["dd"])
            load -= t["cap"]
        expected.append({
            "arrival_time": leave + travel, "departure_time": stop["s"] + max(service), "capacity": load,
            "waiting_time": stop["s"] - leave - travel, "transit_time": travel, "distance": travel,
            "load_time": max(service), "earliest": max(earliest, default=0.0),
            "latest": min(latest, default=math.inf),
        })
    return expected


def _flag(out, kind, place, reported, margin):
    if margin >= -2e-4 and not reported:
        out.add(kind, f"{place} is reported infeasible but meets every constraint by {margin}")
    if margin <= -5e-3 and reported:
        out.add(kind, f"{place} is reported feasible but violates a constraint by {-margin}")


def check_reports(instance, result, out):
    """Compare every value reported by a result, its routes, stops and trips with the recomputed ones."""
    from jinete import MAX_FLOAT

    trips = {t["id"]: t for t in instance["trips"]}
    vehicles = {v["id"]: v for v in instance["vehicles"]}
    routes = extract(result.planning)

    def same(place, name, reported, expected, tolerance=CLOSE):
        if expected == math.inf and reported >= MAX_FLOAT:
            return
        if isinstance(reported, (int, float)) and close(reported, expected, tolerance):
            return
        out.add("report", f"{place}: {name} is {reported!r} instead of {expected!r}")

    aim = result.job.objective
    for route in result.planning.routes:
        vehicle = vehicles[route.vehicle.identifier]
        place = f"vehicle {vehicle['id']}"
        [stops] = extract_routes([route])
        expected = _stop_expectations(instance, vehicle, stops["stops"])
        index = {}
        for i, (stop, raw, values) in enumerate(zip(route.stops, stops["stops"], expected)):
            index[id(stop)] = i
            for name, value in values.items():
                same(f"{place} stop {i}", name, getattr(stop, name), value)
            if raw["s"] < max(values["arrival_time"], values["earliest"]) - 1e-6:
                out.add("report", f"{place} stop {i}: starts at {raw['s']} before {values}")
            margin = min(raw["s"] - values["earliest"], values["latest"] - raw["s"],
                         vehicle["cap"] - values["capacity"])
            _flag(out, "feasible", f"{place} stop {i}", stop.feasible, margin)
        last, first = expected[-1], expected[0]
        count = sum(len(s["p"]) for s in stops["stops"])
        rides, worths = 0.0, {i: [] for i in range(len(stops["stops"]))}
        for planned_trip in route.planned_trips:
            raw = trips[planned_trip.trip.identifier]
            where = f"{place} trip {raw['id']}"
            if id(planned_trip.pickup) not in index or id(planned_trip.delivery) not in index:
                out.add("report", f"{where}: its pickup or its delivery is not a stop of the route")
                return
            a, b = index[id(planned_trip.pickup)], index[id(planned_trip.delivery)]
            ride = stops["stops"][b]["s"] - expected[a]["departure_time"]
            rides += ride
            for name, value in (
                ("pickup_time", expected[a]["departure_time"]), ("delivery_time", stops["stops"][b]["s"]),
                ("duration", ride), ("capacity", raw["cap"]),
                ("distance", distance(instance["metric"], raw["o"], raw["d"])),
                ("waiting_time", sum(e["waiting_time"] for e in expected[a + 1:b + 1])),
                ("transit_time", sum(e["transit_time"] for e in expected[a + 1:b + 1])),
                ("load_time", expected[a]["load_time"] + expected[b]["load_time"]),
            ):
                same(where, name, getattr(planned_trip, name), value)
            worth = trip_objective(instance, instance["objective"], raw, stops["stops"][a], stops["stops"][b],
                                   sum(e["distance"] for e in expected[a + 1:b + 1]))
            worths[a].append(worth)
            value = aim.optimization_function(planned_trip)
            if len(value) != len(worth) or not all(close(x, y) for x, y in zip(value, worth)):
                out.add("report", f"{where}: the objective value is {value} instead of {worth}")
            margins = [inf(raw["tmo"]) - ride]
            for i in (a, b):
                start = stops["stops"][i]["s"]
                margins += [start - expected[i]["earliest"], expected[i]["latest"] - start,
                            vehicle["cap"] - expected[i]["capacity"]]
            _flag(out, "feasible", where, planned_trip.feasible, min(margins))
        for i, stop in enumerate(route.stops):
            value = aim.optimization_function(stop)
            worth = tuple(map(sum, zip(*worths[i]))) or (0,) * len(value)
            if len(value) != len(worth) or not all(close(x, y) for x, y in zip(value, worth)):
                out.add("report", f"{place} stop {i}: the objective value is {value} instead of {worth}")
        value, worth = aim.optimization_function(route), objective(instance, [stops])
        if len(value) != len(worth) or not all(close(x, y) for x, y in zip(value, worth)):
            out.add("report", f"{place}: the objective value is {value} instead of {worth}")
        for name, value in (
            ("duration", last["departure_time"] - first["departure_time"]),
            ("waiting_time", sum(e["waiting_time"] for e in expected)),
            ("distance", sum(e["distance"] for e in expected)), ("transit_time", rides),
            ("first_departure_time", first["departure_time"]), ("last_departure_time", last["departure_time"]),
            ("loaded_trips_count", count),
        ):
            same(place, name, getattr(route, name), value)
        if bool(route.loaded) != (count > 0):
            out.add("report", f"{place}: loaded is {route.loaded} with {count} trips")
        if sorted(t.identifier for t in route.trips) != sorted(x for s in stops["stops"] for x in s["p"]):
            out.add("report", f"{place}: trips do not match its stops")
        _flag(out, "feasible", place, route.feasible, slack(instance, [stops]))

    done = served(routes)
    _flag(out, "feasible", "the result", result.feasible, slack(instance, routes))
    _flag(out, "feasible", "the planning", result.planning.feasible, slack(instance, routes))
    completed = sorted(t.identifier for t in result.completed_trips)
    if completed != sorted(done):
        out.add("report", f"completed trips are {completed} instead of {sorted(done)}")
    total = len(instance["trips"])
    same("result", "coverage_rate", result.coverage_rate, len(done) / total if total else 1.0)
    value = result.optimization_value
    wanted = objective(instance, routes)
    if len(value) != len(wanted) or not all(close(a, b) for a, b in zip(value, wanted)):
        out.add("report", f"the objective value is {value} instead of {wanted}")
    loaded = sum(1 for r in routes if any(s["p"] for s in r["stops"]))
    if len(result.planning.loaded_routes) != loaded:
        out.add("report", f"{len(result.planning.loaded_routes)} loaded routes instead of {loaded}")
    if sorted(t.identifier for t in result.planning.trips) != sorted(x for r in routes for s in r["stops"]
                                                                       for x in s["p"]):
        out.add("report", "the trips of the planning do not match its stops")
