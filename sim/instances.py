"""Problem instances as plain JSON: seeded generation, construction of the library's objects, files and shrinking.

An instance is ``{"metric", "objective", "vehicles": [...], "trips": [...]}``; ``None`` stands for an infinite bound.
"""
import copy
import math

INF = math.inf
PROFILES = ("cordeau", "hashcode", "hetero", "grid", "tight", "loose")
OBJECTIVES = ("DialARideObjective", "TaxiSharingObjective", "HashCodeObjective")


def inf(value):
    return INF if value is None else value


def _fin(value):
    return None if value is None or math.isinf(value) else value


def generate(rng, profile=None, trips=None, vehicles=None, objective=None):
    profile = profile or rng.choice(PROFILES)
    n = trips if trips is not None else rng.randint(1, 5)
    m = vehicles if vehicles is not None else rng.randint(1, 3)
    if profile == "hashcode":
        return _hashcode(rng, n, m)
    width = rng.choice((3, 10, 10, 30))
    pool = None
    if profile == "grid":
        pool = [[rng.randint(-3, 3), rng.randint(-3, 3)] for _ in range(rng.randint(2, 5))]

    def point():
        if pool is not None:
            return list(rng.choice(pool))
        return [round(rng.uniform(-width, width), 3), round(rng.uniform(-width, width), 3)]

    horizon = rng.choice((100, 240, 480, 1440))
    duration = rng.choice((0, 3, 10))
    capacity = rng.choice((1, 2, 3, 6))
    ride = rng.choice((30.0, 90.0, None)) if profile != "tight" else rng.choice((5.0, 10.0, 30.0))
    depot = point()
    fleet = []
    same_timeout = rng.choice((None, 480.0, horizon / 2, horizon * 1.5))
    for i in range(m):
        vehicle = {"id": str(i), "o": depot, "oe": 0, "d": None, "dl": None, "cap": capacity, "tmo": same_timeout}
        if profile == "hetero":
            vehicle["o"] = point() if rng.random() < 0.5 else depot
            vehicle["oe"] = rng.choice((0, 0, 20.0, 60.0))
            vehicle["dl"] = rng.choice((None, horizon, horizon * 0.75))
            vehicle["d"] = point() if rng.random() < 0.4 else None
            vehicle["cap"] = rng.choice((1, 2, 3))
            vehicle["tmo"] = rng.choice((None, 480.0, horizon / 2, horizon / 4))
        elif profile == "tight":
            vehicle["dl"] = rng.choice((None, horizon))
        if vehicle["d"] is not None:
            # A vehicle must at least be able to drive straight from one depot to the other.
            direct = sum(abs(a - b) for a, b in zip(vehicle["o"], vehicle["d"]))
            if direct > inf(vehicle["tmo"]) - 1 or vehicle["oe"] + direct > inf(vehicle["dl"]) - 1:
                vehicle["d"] = None
        fleet.append(vehicle)
    jobs = []
    for i in range(n):
        origin, destination = point(), point()
        spread = rng.choice((15.0, 60.0)) if profile != "loose" else horizon * 1.0
        if profile == "tight":
            spread = rng.choice((2.0, 5.0, 15.0))
        start = round(rng.uniform(0, horizon * 0.8), 2)
        trip = {"id": str(i), "o": origin, "d": destination, "oe": 0, "ol": horizon * 1.0, "de": 0,
                "dl": horizon * 1.0, "od": duration, "dd": duration, "cap": rng.choice((1, 1, 1, 2)), "tmo": ride,
                "bonus": rng.choice((0.0, 5.0))}
        if profile == "loose" and rng.random() < 0.7:
            pass
        elif rng.random() < 0.5:
            trip["oe"], trip["ol"] = start, start + spread
        else:
            trip["de"], trip["dl"] = start, start + spread
        if profile == "hetero" and rng.random() < 0.4:
            trip["dd"] = rng.choice((0, 3, 10))
        if profile == "hetero" and rng.random() < 0.3:
            trip["cap"] = rng.choice((1, 2, 3))
        jobs.append(trip)
    if rng.random() < 0.35:
        # Services that take different times, at the two ends of a trip too.
        for trip in jobs:
            for key in ("od", "dd"):
                trip[key] = rng.choice((trip[key], 0, 1, 3, 10, 2.5))
    return {"profile": profile, "metric": rng.choice(("EUCLIDEAN", "MANHATTAN")), "vehicles": fleet, "trips": jobs,
            "objective": objective or rng.choice(("DialARideObjective",) * 3 + ("TaxiSharingObjective",))}


def variant(rng, instance):
    """A related instance: the same identifiers and mostly the same places, but something else is different."""
    other = copy.deepcopy(instance)
    for kind in rng.sample(("metric", "windows", "capacities", "places", "durations", "objective", "timeouts", "shift"),
                           rng.choice((1, 1, 2, 3))):
        if kind == "metric":
            other["metric"] = "MANHATTAN" if other["metric"] == "EUCLIDEAN" else "EUCLIDEAN"
        elif kind == "objective" and other["objective"] != "HashCodeObjective":
            other["objective"] = rng.choice(("DialARideObjective", "TaxiSharingObjective"))
        elif kind == "places":
            trips = other["trips"]
            if rng.random() < 0.5:
                for trip in trips:
                    trip["o"], trip["d"] = trip["d"], trip["o"]
            else:
                places = [t["o"] for t in trips]
                rng.shuffle(places)
                for trip, place in zip(trips, places):
                    trip["o"] = list(place)
        for vehicle in other["vehicles"]:
            if kind == "capacities":
                vehicle["cap"] = rng.choice((1, 2, 3, 6))
            elif kind == "timeouts":
                vehicle["tmo"] = None if vehicle["tmo"] is not None else 480.0
        for trip in other["trips"]:
            if kind == "capacities":
                trip["cap"] = rng.choice((1, 1, 2))
            elif kind == "durations":
                trip["od"], trip["dd"] = rng.choice((0, 1, 3, 10)), rng.choice((0, 1, 3, 10))
            elif kind == "timeouts":
                trip["tmo"] = None if trip["tmo"] is not None else 90.0
            elif kind == "windows":
                trip["oe"], trip["de"] = 0, 0
            elif kind == "shift":
                trip["oe"] += 7
                trip["ol"] += 7
                if trip["dl"] is not None:
                    trip["dl"] += 7
    for vehicle in other["vehicles"]:
        if vehicle["d"] is not None:
            vehicle["d"] = None
    return other


def _hashcode(rng, n, m):
    size = rng.choice((3, 6, 10))
    horizon = rng.choice((20, 40, 100))
    fleet = [{"id": str(i), "o": [0, 0], "oe": 0, "d": None, "dl": horizon, "cap": 1.0, "tmo": None, "ol": horizon}
             for i in range(m)]
    bonus = rng.choice((0, 2, 25))
    jobs = []
    for i in range(n):
        origin = [rng.randrange(size), rng.randrange(size)]
        destination = [rng.randrange(size), rng.randrange(size)]
        if origin == destination:
            destination = [origin[0] + 1, origin[1]]
        length = abs(origin[0] - destination[0]) + abs(origin[1] - destination[1])
        start = rng.randint(0, max(0, horizon - length))
        jobs.append({"id": str(i), "o": origin, "d": destination, "oe": start,
                     "ol": start + length + rng.randint(0, 10), "de": 0, "dl": None, "od": 0, "dd": 0, "cap": 1,
                     "tmo": None, "bonus": bonus})
    return {"profile": "hashcode", "metric": "MANHATTAN", "vehicles": fleet, "trips": jobs,
            "objective": "HashCodeObjective"}


def uniform_fleet(instance):
    """Whether all the vehicles are interchangeable."""
    keys = [{k: v for k, v in vehicle.items() if k != "id"} for vehicle in instance["vehicles"]]
    return all(key == keys[0] for key in keys)


# -- construction of the library's objects

def build(instance):
    """Build ``(fleet, job)`` through the public constructors."""
    import jinete as jit

    surface = jit.GeometricSurface(getattr(jit.DistanceMetric, instance["metric"]))

    def service(position, earliest=0, latest=None, duration=0):
        return jit.Service(surface.get_or_create_position(position), earliest, inf(latest), duration)

    vehicles = set()
    shared = {}
    for v in instance["vehicles"]:
        key = repr([v["o"], v["oe"], v["d"], v["dl"], v.get("ol")])
        if key not in shared:
            if v["d"] is None:
                shared[key] = service(v["o"], v["oe"], v["dl"]), None
            else:
                shared[key] = service(v["o"], v["oe"], v.get("ol")), service(v["d"], 0, v["dl"])
        origin, destination = shared[key]
        vehicles.add(jit.Vehicle(v["id"], origin, destination, capacity=v["cap"], timeout=inf(v["tmo"])))
    trips = set()
    for t in instance["trips"]:
        trips.add(jit.Trip(t["id"], service(t["o"], t["oe"], t["ol"], t["od"]),
                           service(t["d"], t["de"], t["dl"], t["dd"]), capacity=t["cap"], on_time_bonus=t["bonus"],
                           timeout=inf(t["tmo"])))
    return jit.Fleet(vehicles), jit.Job(trips, getattr(jit, instance["objective"]))


# -- files

def _number(value):
    return repr(float(value)) if not float(value).is_integer() else str(int(value))


def cordeau_rows(instance):
    """Rows of a Cordeau-Laporte file; needs one shared depot, capacity and timeouts."""
    v, trips = instance["vehicles"][0], instance["trips"]
    n = len(trips)
    ride = trips[0]["tmo"] if trips else 90
    rows = [[len(instance["vehicles"]), 2 * n, inf(v["tmo"]), v["cap"], inf(ride)],
            [0, *v["o"], inf(v["tmo"]), v["cap"], 0, 1440]]
    rows += [[i + 1, *t["o"], t["od"], t["cap"], t["oe"], t["ol"]] for i, t in enumerate(trips)]
    rows += [[n + i + 1, *t["d"], t["dd"], -t["cap"], t["de"], t["dl"]] for i, t in enumerate(trips)]
    return rows


def hashcode_rows(instance):
    horizon = instance["vehicles"][0]["dl"]
    bonus = instance["trips"][0]["bonus"] if instance["trips"] else 0
    rows = [[10, 10, len(instance["vehicles"]), len(instance["trips"]), bonus, horizon]]
    rows += [[*t["o"], *t["d"], t["oe"], t["ol"]] for t in instance["trips"]]
    return rows


def text(rows, separator=" ", final_newline=True):
    return "\n".join(separator.join(_number(v) for v in row) for row in rows) + ("\n" if final_newline else "")


def file_instance(rng, kind, trips=None, vehicles=None):
    """An instance that a file of the given kind can express."""
    if kind == "hashcode":
        return generate(rng, "hashcode", trips, vehicles)
    instance = generate(rng, rng.choice(("cordeau", "grid", "loose")), trips, vehicles, "DialARideObjective")
    instance["metric"] = "EUCLIDEAN"
    ride = rng.choice((30.0, 90.0, 45.5))
    for v in instance["vehicles"]:
        v.update(tmo=v["tmo"] or 480.0, d=None, dl=None, oe=0)
    for i, t in enumerate(instance["trips"]):
        t.update(tmo=ride, bonus=0.0, id=str(i + 1))
    return instance


def file_text(instance, kind, **kwargs):
    return text(cordeau_rows(instance) if kind == "cordeau" else hashcode_rows(instance), **kwargs)


# -- shrinking

def shrinks(instance):
    """Smaller or simpler variants of an instance, most aggressive first."""
    n, m = len(instance["trips"]), len(instance["vehicles"])
    if n > 3:
        for half in (instance["trips"][: n // 2], instance["trips"][n // 2:]):
            yield dict(copy.deepcopy(instance), trips=copy.deepcopy(half))
    for i in range(n):
        if n > 1:
            smaller = copy.deepcopy(instance)
            del smaller["trips"][i]
            yield smaller
    for i in range(m):
        if m > 1:
            smaller = copy.deepcopy(instance)
            del smaller["vehicles"][i]
            yield smaller
    for kind, names in (("trips", ("o", "d")), ("vehicles", ("o",))):
        for i, item in enumerate(instance[kind]):
            for name in names:
                rounded = [int(round(c)) for c in item[name]]
                if rounded != item[name]:
                    simpler = copy.deepcopy(instance)
                    simpler[kind][i][name] = rounded
                    yield simpler
    for i, item in enumerate(instance["trips"]):
        for name in ("oe", "ol", "de", "dl"):
            value = item[name]
            if isinstance(value, float) and not value.is_integer():
                simpler = copy.deepcopy(instance)
                simpler["trips"][i][name] = int(value) if name[1] == "e" else int(value) + 1
                yield simpler
