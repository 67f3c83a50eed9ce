"""Hand-built plannings: random visiting sequences (feasible or not) as JSON, and the library's objects for them.

A plan is ``{vehicle id: [[pickups, deliveries, requested start or None], ...]}``; the first and last stops are the
depots.  A stop with several pickups or deliveries is one shared by trips with the same position.
"""
import copy

from . import instances, oracle


def position(instance, stop):
    trips = {t["id"]: t for t in instance["trips"]}
    return trips[stop[0][0]]["o"] if stop[0] else trips[stop[1][0]]["d"]


def generate(rng, instance, feasible, requests=0.0, merge=0.3, fill=1.0):
    """Insert the trips at random places; when ``feasible``, only where the reference schedule allows it."""
    plan = {v["id"]: [] for v in instance["vehicles"]}
    trips = list(instance["trips"])
    rng.shuffle(trips)
    for trip in trips:
        if rng.random() > fill:
            continue
        for _ in range(6 if feasible else 1):
            vehicle = rng.choice(instance["vehicles"])
            stops = copy.deepcopy(plan[vehicle["id"]])
            i = rng.randint(0, len(stops))
            j = rng.randint(i, len(stops))
            if rng.random() < 0.5:
                i = j = len(stops)
            stops.insert(j, [[], [trip["id"]], None])
            stops.insert(i, [[trip["id"]], [], None])
            if rng.random() < merge:
                stops = _merge(instance, stops)
            if feasible:
                routes = [route_of(instance, vehicle, stops)]
                if not oracle.slack(instance, routes, latest_only=True) >= 0.01:
                    continue
            plan[vehicle["id"]] = stops
            break
    if not feasible:
        for stops in plan.values():
            for stop in stops:
                if rng.random() < requests:
                    stop[2] = round(rng.uniform(0, 200), 2)
    return plan


def _merge(instance, stops):
    merged = []
    for stop in stops:
        last = merged[-1] if merged else None
        if last is not None and position(instance, last) == position(instance, stop) and \
                not set(last[0]) & set(stop[1]) and not set(last[1]) & set(stop[0]):
            merged[-1] = [last[0] + stop[0], last[1] + stop[1], None]
        else:
            merged.append(stop)
    return merged


def shared(plan):
    """Whether some stop serves several trips, or picks one up and delivers another."""
    return any(len(s[0]) + len(s[1]) > 1 for stops in plan.values() for s in stops)


def consistent(instance, plan):
    """Whether the trips of every stop have their services at the same place."""
    trips = {t["id"]: t for t in instance["trips"]}
    return all(len({tuple(trips[t]["o"]) for t in picked} | {tuple(trips[t]["d"]) for t in delivered}) == 1
               for stops in plan.values() for picked, delivered, _ in stops)


def sequence(instance, vehicle, stops):
    final = vehicle["d"] if vehicle["d"] is not None else vehicle["o"]
    return [(tuple(float(c) for c in vehicle["o"]), [], [])] + \
        [(tuple(float(c) for c in position(instance, s)), s[0], s[1]) for s in stops] + \
        [(tuple(float(c) for c in final), [], [])]


def route_of(instance, vehicle, stops):
    """The route the reference schedule yields, in the form of ``oracle.extract``."""
    starts = {i + 1: s[2] for i, s in enumerate(stops) if s[2] is not None}
    return {"v": vehicle["id"], "stops": oracle.schedule(instance, vehicle, sequence(instance, vehicle, stops),
                                                         starts=starts)}


def routes_of(instance, plan):
    vehicles = {v["id"]: v for v in instance["vehicles"]}
    return [route_of(instance, vehicles[v], stops) for v, stops in sorted(plan.items())]


def build_route(instance, vehicle, job, stops):
    """The library's route for the stops of one vehicle, through public constructors only."""
    import jinete as jit

    trips = {t.identifier: t for t in job.trips}
    chain = [jit.Stop(vehicle, vehicle.origin_position, None)]
    pickups = {}
    for picked, delivered, start in stops:
        trip = trips[(picked or delivered)[0]]
        place = trip.origin_position if picked else trip.destination_position
        stop = jit.Stop(vehicle, place, chain[-1], starting_time=start)
        for trip_id in delivered:
            jit.PlannedTrip(vehicle, trips[trip_id], pickups[trip_id], stop)
        for trip_id in picked:
            pickups[trip_id] = stop
        chain.append(stop)
    chain.append(jit.Stop(vehicle, vehicle.destination_position, chain[-1]))
    return jit.Route(vehicle, chain)


def build(instance, fleet, job, plan):
    import jinete as jit

    vehicles = {v.identifier: v for v in fleet.vehicles}
    routes = {build_route(instance, vehicles[v], job, stops) for v, stops in sorted(plan.items())}
    return jit.Planning(routes)


def result(fleet, job, planning, computation_time=0.0):
    import jinete as jit

    return jit.Result(jit.NaiveAlgorithm(fleet=fleet, job=job), planning, computation_time)


def shrinks(scenario, key="plan"):
    """Plans with fewer trips or requests, and without unused vehicles."""
    plan = scenario[key]
    served = sorted({t for stops in plan.values() for s in stops for t in s[0]})
    for trip_id in served:
        smaller = copy.deepcopy(scenario)
        smaller[key] = without(plan, trip_id)
        smaller["instance"]["trips"] = [t for t in smaller["instance"]["trips"] if t["id"] != trip_id]
        yield smaller
    for vehicle_id, stops in sorted(plan.items()):
        if not stops and len(plan) > 1:
            smaller = copy.deepcopy(scenario)
            del smaller[key][vehicle_id]
            smaller["instance"]["vehicles"] = [v for v in smaller["instance"]["vehicles"] if v["id"] != vehicle_id]
            yield smaller
        for i, stop in enumerate(stops):
            if stop[2] is not None:
                smaller = copy.deepcopy(scenario)
                smaller[key][vehicle_id][i][2] = None
                yield smaller
    used = set(served)
    for i, trip in enumerate(scenario["instance"]["trips"]):
        if trip["id"] not in used and len(scenario["instance"]["trips"]) > 1:
            smaller = copy.deepcopy(scenario)
            del smaller["instance"]["trips"][i]
            yield smaller
    for variant in instances.shrinks(scenario["instance"]):
        if len(variant["trips"]) == len(scenario["instance"]["trips"]) and \
                len(variant["vehicles"]) == len(scenario["instance"]["vehicles"]) and \
                consistent(variant, plan):
            smaller = copy.deepcopy(scenario)
            smaller["instance"] = variant
            yield smaller


def without(plan, trip_id):
    result = {}
    for vehicle_id, stops in plan.items():
        kept = []
        for picked, delivered, start in stops:
            picked = [t for t in picked if t != trip_id]
            delivered = [t for t in delivered if t != trip_id]
            if picked or delivered:
                kept.append([picked, delivered, start])
        result[vehicle_id] = kept
    return result
