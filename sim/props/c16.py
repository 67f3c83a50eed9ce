"""C16: stored artifacts say what the result says, every time."""
import ast
import contextlib
import copy
import functools
import io
import itertools
import math
import os
import pathlib
import re
import sys

from .. import common, configs, instances, oracle, plans, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 2200, "thorough": 40000}
REPEATS = {"quick": 40, "thorough": 400}
RULE = ("A run makes one to three results (solved or built by hand, feasible or not, with shared stops, empty routes and "
        "untidy identifiers) and stores them again and again in a seeded order through every storer and formatter, with "
        "interrupts at seeded library lines, failing figures and failing standard output in between, partly in two "
        "threads under a seeded schedule. Every delivered text is parsed and compared with values recomputed from the raw "
        "instance and the visits, every figure's lines, places and labels with the visits, and all the artifacts of the "
        "same result and format with each other. Non-trivial: an artifact was delivered after another one or after a "
        "failed attempt. Distinct: by scenario.")
STATE_MEASURE = "distinct artifacts (texts and pictures)"
REAL = ["jinete.storers with their formatters and plots", "jinete.models", "jinete.algorithms that make the results",
        "matplotlib and networkx up to the canvas"]
STUB = ["entropy, hashes of models, clocks, thread schedule", "the canvas renders at 40 dpi", "plt.show"]
ASSUMPTIONS = ["a figure need not tell services apart that share a place, nor routes that share a line",
               "text is compared up to the decimals that its format prints"]
EXPECTED_PROBES = ["columnar", "hashcode", "file", "prompt", "set", "plot", "show", "after-failure", "same-storer",
                   "threads", "infeasible", "empty-route", "shared-stop", "unserved", "no-routes", "solved", "stored-again"]
NAMES = ("", "T", "trip-", "n.", "0", "patient_", "é")


def generate(rng, tier):
    results = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        instance = instances.generate(rng, trips=rng.randint(1, 6), vehicles=rng.randint(1, 4))
        _rename(rng, instance)
        if rng.random() < 0.25:
            del instance["trips"][4:]
            config = configs.with_start(rng, instance, configs.generate(rng, 1))
            if config["alg"] == "grasp":
                del instance["trips"][2:]
                config = configs.restrict(config, instance)
                config["episodes"] = 1
            results.append({"instance": instance, "config": config})
        else:
            feasible = rng.random() < 0.5
            if feasible and rng.random() < 0.5:
                common.relax(rng, instance)
            if rng.random() < 0.15:
                common.crowd(rng, instance)
            plan = plans.generate(rng, instance, feasible, 0.2, merge=rng.choice((0.0, 0.4, 1.0)),
                                  fill=rng.choice((1.0, 1.0, 0.6)))
            if rng.random() < 0.4:
                plan = {v: stops for v, stops in plan.items() if stops}
            results.append({"instance": instance, "plan": plan, "time": rng.choice((0.0, 0.00004, 1.23456, 86400.5))})
    figures = rng.random() < 0.35
    steps = []
    for _ in range(rng.randint(2, 9)):
        steps.append(_step(rng, len(results), figures))
    return {"results": results, "steps": steps, "world": common.world_params(rng),
            "threads": rng.random() < 0.25,
            "switches": [[rng.choice((rng.randint(1, 60), rng.randint(1, 2000))), 0] for _ in range(rng.randint(1, 20))]}


def _rename(rng, instance):
    prefix = rng.choice(NAMES)
    numbers = list(range(100 if rng.random() < 0.5 else len(instance["trips"])))
    rng.shuffle(numbers)
    for trip, number in zip(instance["trips"], numbers):
        trip["id"] = f"{prefix}{number}"
    prefix = rng.choice(NAMES)
    for vehicle in instance["vehicles"]:
        vehicle["id"] = prefix + vehicle["id"]


def _step(rng, count, figures):
    kind = rng.choice(("format", "format", "file", "prompt", "set", "again") + (("plot",) * 4 if figures else ()))
    fault = rng.choice((None, None, None, "interrupt", "memory", "io"))
    return {"kind": kind, "result": rng.randrange(count), "fault": fault,
            "at": rng.choice((rng.randint(1, 40), rng.randint(1, 800))),
            "formatter": rng.choice(("columnar", "columnar", "hashcode")), "tab": rng.choice(("  ", "  ", "\t", "", " | ")),
            "all": rng.random() < 0.4, "show": rng.random() < 0.3}


ERRORS = {"interrupt": KeyboardInterrupt, "memory": MemoryError}


class Artifacts:
    """Everything delivered so far, by result and format."""

    def __init__(self, out):
        self.out = out
        self.first = {}
        self.failed = False
        self.count = 0

    def text(self, made, step, text, how):
        out = self.out
        if not isinstance(text, str):
            out.add("text", f"{how}: {type(text).__name__} was delivered instead of a text")
            return
        out.probes[step["formatter"]] += 1
        key = (made["index"], step["formatter"],
               step["tab"] if step["formatter"] == "columnar" else step["all"])
        self._same(key, text, how)
        if step["formatter"] == "columnar":
            Columnar(made, step["tab"], out, how).check(text)
        else:
            check_hashcode(made, step["all"], out, how, text)

    def figure(self, made, figure, picture, how):
        self.out.probes["plot"] += 1
        self._same((made["index"], "figure"), figure, how)
        if picture is not None:
            self._same((made["index"], "picture"), picture, how)
        check_figure(made, figure, self.out, how)

    def _same(self, key, artifact, how):
        out = self.out
        if key in self.first:
            out.probes["stored-again"] += 1
            if self.first[key] != artifact:
                out.add("changed", f"{how}: the artifact of the same result differs from the one stored first")
        else:
            self.first[key] = artifact
        if self.failed or self.count:
            out.nontrivial = True
        if self.failed:
            out.probes["after-failure"] += 1
        self.count += 1
        self.failed = False
        out.state(repr(artifact))


# -- texts

class Columnar:
    """Compare a columnar text, row by row, with what the instance and the visits say."""

    def __init__(self, made, tab, out, how):
        self.made, self.tab, self.out, self.how = made, tab, out, how

    def bad(self, message):
        self.out.add("text", f"{self.how}: {message}")

    def row(self, depth):
        row = next(self.rows, None)
        if row is None:
            raise Malformed("the text ends too early")
        if not row.startswith(self.tab * depth):
            raise Malformed(f"row {row!r} is not indented by {depth}")
        return row[len(self.tab) * depth:]

    def field(self, pattern, depth=0):
        row = self.row(depth)
        match = re.fullmatch(pattern, row)
        if match is None:
            raise Malformed(f"row {row!r} does not read {pattern!r}")
        return match.group(1)

    def number(self, label, text, expected, decimals):
        text = text.strip()
        if not re.fullmatch(r"-?(\d+\.\d{%d}|inf)" % decimals if decimals else r"-?(\d+(\.\d+)?|inf)", text):
            raise Malformed(f"{label} is {text!r}")
        self.value(label, float(text), expected, 0.5 * 10 ** -decimals if decimals else 0.0)

    def value(self, label, value, expected, margin):
        from jinete import MAX_FLOAT

        if expected == math.inf:
            if value < MAX_FLOAT:
                self.bad(f"{label} is {value} instead of {expected}")
        elif not abs(value - expected) <= margin + 1e-6 * max(1.0, abs(expected)):
            self.bad(f"{label} is {value} instead of {expected}")

    def place(self, label, text, expected):
        match = re.fullmatch(r"\((.*)\)", text.strip())
        if match is None:
            raise Malformed(f"{label} is {text!r}")
        values = match.group(1).split(",")
        if len(values) != len(expected):
            raise Malformed(f"{label} is {text!r}")
        for value, coordinate in zip(values, expected):
            self.number(label, value, coordinate, 3)

    def check(self, text):
        try:
            self._check(text)
        except Malformed as error:
            self.bad(str(error))

    def _check(self, text):
        made, result = self.made, self.made["result"]
        instance, routes = made["instance"], made["routes"]
        self.rows = iter(text.split("\n"))
        uuid = self.field('Planning UUID: "(.*)"')
        if uuid != str(result.planning.uuid):
            self.bad(f"the planning is {uuid} instead of {result.planning.uuid}")
        count = self.field('Routes count: "(.*)"')
        if count != str(len(routes)):
            self.bad(f"{count} routes instead of {len(routes)}")
        self.field("(Routes: ?)")
        left = {route["v"]: route for route in routes}
        if not routes:
            # An empty list of routes leaves an empty row.
            rest = list(self.rows)
            self.rows = iter(rest[1:] if rest and not rest[0].strip() else rest)
        for _ in routes:
            self.field("(Vehicle: ?)", 1)
            name = self.field('ID: "(.*)"', 2)
            if name not in left:
                raise Malformed(f"the route of vehicle {name} is unknown or described twice")
            self.route(left.pop(name))
        self.number("computation time", self.field('Computation time: "(.*)" seconds'), made["time"], 4)
        total, done = len(instance["trips"]), len(oracle.served(routes))
        self.value("coverage rate", self.float(self.field('Coverage Rate: "(.*)"')), done / total if total else 1.0, 0.0)
        objective = self.field('Objective: "(.*)"')
        if objective != instance["objective"]:
            self.bad(f"the objective is {objective} instead of {instance['objective']}")
        try:
            value = ast.literal_eval(self.field('Optimization Value: "(.*)"'))
        except (ValueError, SyntaxError):
            raise Malformed("the optimization value is no tuple of numbers") from None
        wanted = oracle.objective(instance, routes)
        if not isinstance(value, tuple) or len(value) != len(wanted):
            raise Malformed(f"the optimization value is {value!r} instead of {wanted}")
        for a, b in zip(value, wanted):
            self.value("optimization value", a, b, 0.0)
        feasible = self.field('Feasible: "(True|False)"')
        real = oracle.feasible(instance, routes)
        if real is not None and feasible != str(real):
            self.bad(f"feasible is {feasible} instead of {real}")
        direction = self.field('Direction: "(.*)"')
        if direction != made["direction"]:
            self.bad(f"the direction is {direction}")
        rest = "".join(self.rows)
        if rest.strip():
            self.bad(f"there is more text: {rest[:80]!r}")

    @staticmethod
    def float(text):
        try:
            return float(text)
        except ValueError:
            raise Malformed(f"{text!r} is not a number") from None

    def route(self, route):
        instance = self.made["instance"]
        vehicle = next(v for v in instance["vehicles"] if v["id"] == route["v"])
        trips = {t["id"]: t for t in instance["trips"]}
        name = f"vehicle {vehicle['id']}"
        self.place(f"{name} initial", self.field("Initial:(.*)", 2), vehicle["o"])
        self.place(f"{name} final", self.field("Final:(.*)", 2), vehicle["d"] if vehicle["d"] is not None else vehicle["o"])
        self.number(f"{name} earliest", self.field("Earliest:(.*)", 2), vehicle["oe"], 2)
        latest = vehicle["dl"] if vehicle["d"] is None else vehicle.get("ol")
        self.number(f"{name} latest", self.field("Latest:(.*)", 2), instances.inf(latest), 2)
        self.number(f"{name} capacity", self.field("Capacity:(.*)", 2), vehicle["cap"], 2)
        stops = route["stops"]
        expected = oracle._stop_expectations(instance, vehicle, stops)
        pickups = {t: i for i, s in enumerate(stops) for t in s["p"]}
        deliveries = {t: i for i, s in enumerate(stops) for t in s["d"]}
        count = self.field('Planned Trips: "(.*)"', 1)
        if count != str(len(pickups)):
            raise Malformed(f"{name}: {count} planned trips instead of {len(pickups)}")
        order = []
        for _ in pickups:
            cells = self.cells(("ID", "P", "TW", "WT", "NT", "LT", "TT", "T", "L"))
            trip = trips.get(cells["ID"].strip())
            if trip is None or trip["id"] not in pickups:
                raise Malformed(f"{name}: trip {cells['ID']!r} is not on the route")
            a, b = pickups[trip["id"]], deliveries[trip["id"]]
            order.append((a, trip["id"]))
            where = f"{name} trip {trip['id']}"
            self.pair(f"{where} place", cells["P"], trip["o"], trip["d"], self.place)
            window = oracle.effective_windows(instance, trip)
            self.pair(f"{where} window", cells["TW"], window[0], window[3])
            between = expected[a + 1:b + 1]
            self.number(f"{where} waiting time", cells["WT"], sum(e["waiting_time"] for e in between), 1)
            self.number(f"{where} transit time", cells["NT"], sum(e["transit_time"] for e in between), 1)
            self.number(f"{where} load time", cells["LT"], expected[a]["load_time"] + expected[b]["load_time"], 1)
            leaves, starts = expected[a]["departure_time"], stops[b]["s"]
            self.number(f"{where} ride", cells["TT"], starts - leaves, 1)
            self.pair(f"{where} times", cells["T"], leaves, starts)
            self.number(f"{where} load", cells["L"], trip["cap"], 0)
        if [i for i, _ in order] != sorted(i for i, _ in order) or len(set(order)) != len(order):
            self.bad(f"{name}: the planned trips {[t for _, t in order]} are not in visiting order")
        count = self.field('Stops: "(.*)"', 1)
        if count != str(len(stops)):
            raise Malformed(f"{name}: {count} stops instead of {len(stops)}")
        for i, (stop, values) in enumerate(zip(stops, expected)):
            cells = self.cells(("ID", "P", "TW", "WT", "NT", "LT", "DT", "L"))
            where = f"{name} stop {i}"
            label = cells["ID"].strip()
            services = sorted(label[1:-1].split("|")) if label[1:-1] else []
            if label[:1] + label[-1:] != "[]" or \
                    services != sorted([f"P{t}" for t in stop["p"]] + [f"D{t}" for t in stop["d"]]):
                self.bad(f"{where}: services are {label!r} instead of {stop}")
            self.place(f"{where} place", cells["P"], stop["pos"])
            self.pair(f"{where} window", cells["TW"], values["earliest"], values["latest"])
            for key, attribute in (("WT", "waiting_time"), ("NT", "transit_time"), ("LT", "load_time"),
                                   ("DT", "departure_time")):
                self.number(f"{where} {attribute}", cells[key], values[attribute], 1)
            self.number(f"{where} load", cells["L"], values["capacity"], 0)

    def cells(self, keys):
        row = self.row(2)
        pattern = re.escape(self.tab).join(f"{key}: (?P<{key}>.*?)" for key in keys)
        match = re.fullmatch(pattern, row)
        if match is None:
            raise Malformed(f"row {row!r} does not have the columns {' '.join(keys)}")
        return match.groupdict()

    def pair(self, label, text, first, second, compare=None):
        parts = text.split(" to ")
        if len(parts) != 2:
            raise Malformed(f"{label} is {text!r}")
        for part, value in zip(parts, (first, second)):
            if compare is None:
                self.number(label, part, value, 1)
            else:
                compare(label, part, value)


class Malformed(Exception):
    pass


def check_hashcode(made, everything, out, how, text):
    expected = []
    for route in made["routes"]:
        groups = [stop["p"] for stop in route["stops"] if stop["p"]]
        if groups or everything:
            expected.append(groups)
    rows = text.split("\n") if text else []
    if len(rows) != len(expected):
        out.add("text", f"{how}: {len(rows)} rows instead of {len(expected)}")
        return
    for row in rows:
        words = row.split()
        if not words or words[0] != str(len(words) - 1):
            out.add("text", f"{how}: row {row!r} does not tell its trips")
            return
        match = next((groups for groups in expected if _in_order(words[1:], groups)), None)
        if match is None:
            out.add("text", f"{how}: row {row!r} is the row of no route")
            return
        expected.remove(match)


def _in_order(names, groups):
    for group in groups:
        if sorted(names[:len(group)]) != sorted(group):
            return False
        names = names[len(group):]
    return not names


# -- figures

def read_figure(figure):
    """The lines, places and labels of a figure."""
    lines, places, labels = [], [], []
    for axes in figure.axes:
        for patch in axes.patches:
            if hasattr(patch, "_posA_posB") and patch._posA_posB is not None:
                ends = tuple(tuple(float(c) for c in end) for end in patch._posA_posB)
                lines.append((ends, tuple(round(float(c), 6) for c in patch.get_edgecolor())))
        for collection in axes.collections:
            if type(collection).__name__ == "PathCollection":
                places += [tuple(float(c) for c in point) for point in collection.get_offsets()]
        for text in axes.texts:
            if text.get_text():
                labels.append((tuple(round(float(c), 6) for c in text.get_position()), text.get_text()))
    return {"axes": len(figure.axes), "lines": lines, "places": places, "labels": labels}


def check_figure(made, figure, out, how):
    instance, routes = made["instance"], made["routes"]
    owners = {}
    for k, route in enumerate(routes):
        for a, b in zip(route["stops"], route["stops"][1:]):
            owners.setdefault((a["pos"], b["pos"]), set()).add(k)
    drawn = [ends for ends, _ in figure["lines"]]
    if sorted(drawn) != sorted(owners):
        extra, missing = sorted(set(drawn) - set(owners)), sorted(set(owners) - set(drawn))
        out.add("figure", f"{how}: the lines are not those of the routes: extra {extra}, missing {missing}, "
                          f"{len(drawn)} drawn for {len(owners)}")
        return
    colors = {}
    for ends, color in figure["lines"]:
        if len(owners[ends]) == 1:
            colors.setdefault(min(owners[ends]), set()).add(color)
    if any(len(shades) > 1 for shades in colors.values()) or \
            len({color for shades in colors.values() for color in shades}) != len(colors):
        out.add("figure", f"{how}: the colors do not tell the routes apart: {colors}")
    services = {}
    for trip in instance["trips"]:
        services.setdefault(tuple(float(c) for c in trip["o"]), set()).add(f"+{trip['id']}")
        services.setdefault(tuple(float(c) for c in trip["d"]), set()).add(f"-{trip['id']}")
    places = set(services) | {place for line in owners for place in line}
    if sorted(figure["places"]) != sorted(places):
        out.add("figure", f"{how}: the places are {sorted(figure['places'])} instead of {sorted(places)}")
    labels = {}
    for place, text in figure["labels"]:
        near = [p for p in services if all(abs(a - b) <= 1e-5 for a, b in zip(p, place))]
        if len(near) != 1 or text not in services[near[0]] or near[0] in labels:
            out.add("figure", f"{how}: label {text!r} at {place} does not belong there")
            return
        labels[near[0]] = text
    if set(labels) != set(services):
        out.add("figure", f"{how}: the places {sorted(set(services) - set(labels))} have no label")


@contextlib.contextmanager
def canvas(fail):
    """Records every figure that is saved or shown; ``fail`` tells whether the next one cannot be."""
    import matplotlib.figure
    import matplotlib.pyplot as plt

    seen = []
    saved = matplotlib.figure.Figure.savefig, plt.show

    def savefig(figure, *args, **kwargs):
        seen.append(read_figure(figure))
        if fail:
            raise OSError(28, "No space left on device")
        kwargs["dpi"] = 40
        return saved[0](figure, *args, **kwargs)

    def show(*args, **kwargs):
        seen.append(read_figure(plt.gcf()))
        if fail:
            raise OSError(5, "the display is gone")

    matplotlib.figure.Figure.savefig, plt.show = savefig, show
    try:
        yield seen
    finally:
        matplotlib.figure.Figure.savefig, plt.show = saved


class _Set(set):
    """A set whose iteration order is decided by the scenario."""

    def __new__(cls, items, reverse):
        return super().__new__(cls)

    def __init__(self, items, reverse):
        super().__init__(items)
        self.order = list(items)[::-1 if reverse else 1]

    def __iter__(self):
        return iter([item for item in self.order if item in self])


class BrokenOutput(io.StringIO):
    def __init__(self, room):
        super().__init__()
        self.room = room

    def write(self, text):
        if len(text) > self.room:
            super().write(text[:self.room])
            raise BrokenPipeError(32, "Broken pipe")
        self.room -= len(text)
        return super().write(text)


# -- runs

def execute(scenario, out):
    import jinete as jit

    os.environ["MPLBACKEND"] = "Agg"
    with common.world(scenario["world"]) as w, common.scratch() as scratch:
        made = [_result(i, item, out) for i, item in enumerate(scenario["results"])]
        artifacts = Artifacts(out)
        storers = {}
        for number, step in enumerate(scenario["steps"]):
            if out.violations:
                break
            _store(jit, w, made[step["result"]], step, number, pathlib.Path(scratch), artifacts, storers, out)
        if scenario["threads"] and not out.violations:
            _threads(jit, made, scenario, pathlib.Path(scratch), artifacts, out)
        common.note_world(out, w, scenario["world"])


def _result(index, item, out):
    import jinete as jit

    instance = item["instance"]
    fleet, job = instances.build(instance)
    if "config" in item:
        result = configs.run(item["config"], fleet, job)
        out.probes["solved"] += 1
    else:
        result = plans.result(fleet, job, plans.build(instance, fleet, job, item["plan"]), item["time"])
    # The visits are read from a copy, so that nothing of the result is computed before it is stored.
    routes = oracle.extract(copy.deepcopy(result.planning))
    names = {"DialARideObjective": "Maximization", "HashCodeObjective": "Maximization"}
    direction = names.get(instance["objective"], str(result.direction))
    out.probes["infeasible"] += oracle.feasible(instance, routes) is False
    out.probes["empty-route"] += any(len(r["stops"]) == 2 for r in routes)
    out.probes["shared-stop"] += any(len(s["p"]) + len(s["d"]) > 1 for r in routes for s in r["stops"])
    out.probes["unserved"] += len(oracle.served(routes)) < len(instance["trips"])
    out.probes["no-routes"] += not routes
    assert isinstance(result, jit.Result)
    return {"index": index, "instance": instance, "result": result, "routes": routes, "direction": direction,
            "time": result.computation_time}


def _formatter_cls(jit, step):
    if step["formatter"] == "columnar":
        return functools.partial(jit.ColumnarStorerFormatter, step["tab"])
    return functools.partial(jit.HashCodeStorerFormatter, not step["all"])


def _store(jit, w, made, step, number, scratch, artifacts, storers, out):
    """One attempt, which a fault may break, or else its artifact is judged."""
    how = f"step {number} ({step['kind']}, result {made['index']})"
    result, fault = made["result"], step["fault"]
    formatter_cls = _formatter_cls(jit, step)
    path = scratch / f"artifact-{number}.txt"
    picture = scratch / f"artifact-{number}.png"
    console = BrokenOutput(step["at"]) if fault == "io" else io.StringIO()
    steps = sched.Steps(crash_at=step["at"], error=ERRORS[fault]) if fault in ERRORS else sched.Steps()
    delivered = []
    stdout = sys.stdout
    with canvas(fault == "io") as figures:
        sys.stdout = console
        try:
            with steps:
                if step["kind"] == "format":
                    delivered.append(formatter_cls(result=result).format())
                elif step["kind"] == "file":
                    jit.FileStorer(result=result, formatter_cls=formatter_cls, file_path=path).store()
                elif step["kind"] == "prompt":
                    jit.PromptStorer(result=result, formatter_cls=formatter_cls).store()
                elif step["kind"] == "again":
                    # The same storer object as an earlier step's, if there was one.
                    key = (made["index"], step["formatter"], step["tab"], step["all"])
                    if key in storers:
                        out.probes["same-storer"] += 1
                    else:
                        storers[key] = jit.PromptStorer(result=result, formatter_cls=formatter_cls)
                    storers[key].store()
                    storers[key].store()
                elif step["kind"] == "set":
                    jit.StorerSet(_Set((jit.PromptStorer, functools.partial(jit.FileStorer, path)), step["show"]),
                                  result=result, formatter_cls=formatter_cls).store()
                else:
                    jit.GraphPlotStorer(result=result, file_path=None if step["show"] else picture).store()
        except (KeyboardInterrupt, MemoryError, OSError) as error:
            if steps.fired is None and not (fault == "io" and isinstance(error, OSError)):
                raise
            out.faults[f"{fault}:{step['kind']}"] += 1
            out.log(how, "failed:", type(error).__name__, "at", steps.fired)
            artifacts.failed = True
            return
        finally:
            sys.stdout = stdout
    out.probes[step["kind"] if step["kind"] in ("file", "prompt", "set") else "other"] += 1
    if steps.fired is not None:
        out.probes["swallowed"] += 1
        return
    printed = console.getvalue()
    if step["kind"] in ("prompt", "set", "again"):
        times = 2 if step["kind"] == "again" else 1
        half = len(printed) // times
        for part in (printed[:half], printed[half:])[:times]:
            if not part.endswith("\n"):
                out.add("text", f"{how}: the message does not end its last line")
            delivered.append(part[:-1])
    elif printed:
        out.add("noise", f"{how}: {printed[:80]!r} was printed")
    if step["kind"] in ("file", "set"):
        delivered.append(path.read_text())
    for text in delivered:
        artifacts.text(made, step, text, how)
        out.log(how, oracle.digest(text))
    if step["kind"] == "plot":
        if len(figures) != 1:
            out.add("figure", f"{how}: {len(figures)} figures were delivered")
            return
        out.probes["show"] += step["show"]
        artifacts.figure(made, figures[0], None if step["show"] else picture.read_bytes(), how)
        out.log(how, oracle.digest(figures[0]))


def _threads(jit, made, scenario, scratch, artifacts, out):
    """Two threads format the results at the same time."""
    texts = [s for s in scenario["steps"] if s["kind"] != "plot"][:4]
    if not texts:
        return

    def work(order):
        def run():
            done = []
            for number, step in order:
                result = made[step["result"]]["result"]
                if number % 2:
                    path = scratch / f"thread-{id(order)}-{number}.txt"
                    jit.FileStorer(result=result, formatter_cls=_formatter_cls(jit, step), file_path=path).store()
                    done.append((step, path.read_text()))
                else:
                    done.append((step, _formatter_cls(jit, step)(result=result).format()))
            return done
        return run

    orders = [list(enumerate(texts)), list(enumerate(reversed(texts)))]
    scheduler = sched.Scheduler([work(order) for order in orders], scenario["switches"])
    outcomes = scheduler.run()
    for who, (status, value) in enumerate(outcomes):
        if status != "ok":
            raise value
        for step, text in value:
            artifacts.text(made[step["result"]], step, text, f"thread {who} (result {step['result']})")
    out.probes["threads"] += 1
    out.faults["thread-switch"] += len(scheduler.trace)


def shrinks(scenario):
    if scenario["threads"]:
        yield dict(copy.deepcopy(scenario), threads=False)
    for i in reversed(range(len(scenario["steps"]))):
        if len(scenario["steps"]) > 1:
            smaller = copy.deepcopy(scenario)
            del smaller["steps"][i]
            yield smaller
    for i, step in enumerate(scenario["steps"]):
        for key, value in (("fault", None), ("kind", "format"), ("tab", "  "), ("all", False), ("show", False)):
            if step[key] != value and not (key == "kind" and step["kind"] == "plot"):
                smaller = copy.deepcopy(scenario)
                smaller["steps"][i][key] = value
                yield smaller
    used = {step["result"] for step in scenario["steps"]}
    for i in range(len(scenario["results"])):
        if i not in used and len(scenario["results"]) > 1:
            smaller = copy.deepcopy(scenario)
            del smaller["results"][i]
            for step in smaller["steps"]:
                step["result"] -= step["result"] > i
            yield smaller
    for i, item in enumerate(scenario["results"]):
        if "plan" in item:
            variants = plans.shrinks({"instance": item["instance"], "plan": item["plan"]})
        else:
            variants = itertools.chain(
                ({"instance": item["instance"], "config": c} for c in configs.shrinks(item["config"])),
                ({"instance": v, "config": configs.restrict(item["config"], v)}
                 for v in instances.shrinks(item["instance"])))
        for variant in variants:
            smaller = copy.deepcopy(scenario)
            smaller["results"][i].update(copy.deepcopy(variant))
            yield smaller
    if scenario["threads"] and scenario["switches"]:
        yield dict(copy.deepcopy(scenario), switches=scenario["switches"][:len(scenario["switches"]) // 2])
    yield from common.world_shrinks(scenario)
