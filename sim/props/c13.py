"""C13: each stage of a solve runs once, in order, on the real result."""
import abc
import collections
import contextlib
import copy
import functools
import io
import os
import threading

from .. import common, configs, fs, instances, kernel, oracle, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 3600, "thorough": 100000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run builds solvers (or dispatchers) over loaders, algorithms and storers that report every call, and performs "
        "a history of solves with them, one after the other or in two interleaved threads, while the input is replaced "
        "between solves and errors, interrupts and allocation failures strike before, after or inside any stage, or at "
        "any line. Storer sets of every container type, iteration order and nesting are used through solvers and "
        "directly. Each solve is judged by its own calls and compared with the one of a new solver. Non-trivial: a fault "
        "surfaced, storers were combined or solves were interleaved. Distinct: by scenario.")
STATE_MEASURE = "distinct sequences of calls of the stages with the faults that hit them"
REAL = ["jinete.solvers", "jinete.dispatchers", "jinete.storers (StorerSet, FileStorer, PromptStorer, formatters)",
        "jinete.loaders.FileLoader", "jinete.algorithms (insertion, iterative)"]
STUB = ["loaders, algorithms and storers are the real ones or minimal ones, with calls recorded at their public methods",
        "entropy, clocks, hashes of models and of the storer classes, thread schedule (simulated)"]
ASSUMPTIONS = ["the options given to a solver are not changed by the caller afterwards",
               "a storer set holds each storer class once"]
STAGES = ("loader.init", "loader.job", "loader.fleet", "algorithm.init", "algorithm.optimize", "storer.init",
          "storer.store", "formatter")
RANK = {"dispatcher.init": 0, "dispatcher.run": 0, "loader.init": 1, "loader.job": 1, "loader.fleet": 1,
        "algorithm.init": 2, "algorithm.optimize": 3, "storer.init": 4, "formatter": 4, "storer.store": 4}
ERRORS = {"runtime": RuntimeError, "value": ValueError, "os": OSError, "key": KeyError, "attribute": AttributeError,
          "stop": StopIteration, "type": TypeError, "assertion": AssertionError, "timeout": TimeoutError,
          "interrupt": KeyboardInterrupt, "memory": MemoryError, "exit": SystemExit, "not-implemented": NotImplementedError}
EXPECTED_PROBES = ["solved", "failed", "solved-after-failure", "pair", "set", "nested-set", "direct-set", "dispatcher",
                   "no-storer", "shared-options", "replaced", "line-fault", "file-loader", "file", "prompt"] + \
    ["fault:" + s for s in STAGES]


# -- scenarios

def generate(rng, tier):
    versions = [instances.file_instance(rng, "cordeau", rng.randint(1, 3), rng.randint(1, 2))
                for _ in range(rng.randint(1, 3))]
    solvers = [_solver(rng) for _ in range(rng.choice((1, 1, 2, 3)))]
    if len(solvers) > 1 and rng.random() < 0.5:
        solvers[1]["options_of"] = 0
        solvers[1]["algorithm"] = solvers[0]["algorithm"]
    steps = []
    for _ in range(rng.randint(1, 6)):
        op = rng.choice(("solve",) * 6 + ("replace", "pair", "set"))
        if op == "solve":
            steps.append({"op": op, "solver": rng.randrange(3), **_faults(rng)})
        elif op == "replace":
            steps.append({"op": op, "version": rng.randrange(3)})
        elif op == "set":
            steps.append({"op": op, "storers": _storers(rng), "container": rng.choice(CONTAINERS),
                          "rounds": [_faults(rng, STAGES[-3:]) for _ in range(rng.randint(1, 3))]})
        else:
            steps.append({"op": op, "solvers": [rng.randrange(3), rng.randrange(3)],
                          "faults": [_faults(rng) if rng.random() < 0.3 else {"fault": None, "line": None}
                                     for _ in range(2)],
                          "switches": [[rng.choice((rng.randint(1, 120), rng.randint(1, 1500))), 0]
                                       for _ in range(rng.randint(1, 8))]})
    return {"versions": versions, "solvers": solvers, "steps": steps, "world": common.world_params(rng),
            "names": rng.choice(("own", "own", "same", "none"))}


CONTAINERS = ("set", "frozenset", "list", "tuple", "deque", "keys")


def _faults(rng, stages=STAGES):
    fault, line = None, None
    mode = rng.choice(("none", "stage", "stage", "line"))
    if mode == "stage":
        fault = {"stage": rng.choice(stages), "nth": rng.choice((0, 0, 0, 1, 2)), "when": rng.choice(("before", "after")),
                 "error": rng.choice(sorted(ERRORS))}
    elif mode == "line":
        line = {"at": rng.choice((rng.randint(1, 60), rng.randint(1, 400), rng.randint(1, 3000))),
                "error": rng.choice(("interrupt", "memory", "runtime", "exit"))}
    return {"fault": fault, "line": line}


def _storers(rng):
    names = rng.sample(("a", "b", "c", "d", "file", "prompt"), rng.randint(1, 5))
    if rng.random() < 0.2:
        names.append("nested:" + ",".join(rng.sample(("e", "f", "g"), rng.randint(1, 3))))
    return names


def _solver(rng):
    via = rng.choice(("solver", "solver", "solver", "dispatcher"))
    storer = rng.choice(("single", "set", "set", "none" if via == "dispatcher" else "single"))
    return {"via": via, "loader": rng.choice(("memory", "memory", "file")),
            "loader_options": {k: rng.randrange(100) for k in rng.sample(("x", "y", "z"), rng.randint(0, 2))},
            "algorithm": rng.choice((["insertion", configs.insertion(rng)], ["insertion", configs.insertion(rng)],
                                     ["iterative", rng.randint(1, 2), rng.randrange(1000)], ["plain"], ["plain"])),
            "storer": storer, "storers": _storers(rng) if storer == "set" else rng.sample(("a", "b", "file", "prompt"), 1),
            "container": rng.choice(CONTAINERS), "formatter": rng.random() < 0.5,
            "storer_options": {k: rng.randrange(100) for k in rng.sample(("u", "v"), rng.randint(0, 1))}
            if storer == "single" else {},
            "dispatcher_options": {"tag": rng.randrange(100)} if rng.random() < 0.3 else None, "options_of": None}


# -- stages that report their calls

class Record:
    """The calls of one solve."""

    def __init__(self, label, fault=None):
        self.label = label
        self.events = []          # (stage, "begin" or "end", details)
        self.fault = dict(fault) if fault else None
        self.raised = None
        self.fired_stage = None

    def note(self, stage, moment, **details):
        self.events.append((stage, moment, details))
        fault = self.fault
        if fault and fault["stage"] == stage and fault["when"] == {"begin": "before", "end": "after"}[moment]:
            if fault["nth"] > 0:
                fault["nth"] -= 1
                return
            self.fault = None
            self.fired_stage = stage
            self.raised = ERRORS[fault["error"]](f"injected in {stage}")
            raise self.raised

    def of(self, stage, moment="begin"):
        return [details for s, m, details in self.events if s == stage and m == moment]


class Records:
    def __init__(self):
        self.by_thread = {}
        self.outside = Record("outside of any solve")

    @property
    def current(self):
        return self.by_thread.get(threading.get_ident()) or self.outside

    @contextlib.contextmanager
    def use(self, record):
        key = threading.get_ident()
        previous = self.by_thread.get(key)
        self.by_thread[key] = record
        try:
            yield record
        finally:
            self.by_thread[key] = previous


class OrderedMeta(abc.ABCMeta):
    """Classes whose order in a set is decided by the simulation."""

    order = 0

    def __hash__(cls):
        return cls.order


class Factory:
    """Builds storers like their class, as a partial would, with an order in a set decided by the simulation."""

    def __init__(self, cls):
        self.cls = cls

    def __call__(self, *args, **kwargs):
        return self.cls(*args, **kwargs)

    def __hash__(self):
        return hash(self.cls)

    def __eq__(self, other):
        return isinstance(other, Factory) and self.cls is other.cls


class Plant:
    """The classes of one run."""

    def __init__(self, scenario, out, root):
        import jinete as jit

        self.jit, self.out, self.root = jit, out, root
        self.records = records = Records()
        self.versions, self.version = scenario["versions"], 0
        self.path = os.path.join(root, "instance.txt")
        self.output = os.path.join(root, "output.txt")
        self.write_input()
        self.order = kernel.stream(scenario["world"]["seed"], "storers")
        plant = self

        class MemoryLoader(jit.Loader):
            def __init__(self, **options):
                records.current.note("loader.init", "begin", options=options, loader=self)
                super().__init__()
                self._built = None
                records.current.note("loader.init", "end")

            _data = property(lambda self: None)

            def _get(self, index):
                if self._built is None:
                    self._built = instances.build(plant.versions[plant.version])
                return self._built[index]

            @property
            def job(self):
                records.current.note("loader.job", "begin")
                job = self._get(1)
                records.current.note("loader.job", "end", job=job)
                return job

            @property
            def fleet(self):
                records.current.note("loader.fleet", "begin")
                fleet = self._get(0)
                records.current.note("loader.fleet", "end", fleet=fleet)
                return fleet

            surface = property(lambda self: None)

        class FileLoader(jit.FileLoader):
            def __init__(self, file_path, **options):
                records.current.note("loader.init", "begin", options=options, loader=self, file_path=file_path)
                super().__init__(file_path=file_path)
                records.current.note("loader.init", "end")

            @property
            def job(self):
                records.current.note("loader.job", "begin")
                job = super().job
                records.current.note("loader.job", "end", job=job)
                return job

            @property
            def fleet(self):
                records.current.note("loader.fleet", "begin")
                fleet = super().fleet
                records.current.note("loader.fleet", "end", fleet=fleet)
                return fleet

        class Plain(jit.Algorithm):
            def __init__(self, *args, value=None, **kwargs):
                super().__init__(*args, **kwargs)

            def _optimize(self):
                return jit.Planning()

        def algorithm(base):
            class Algorithm(base):
                def __init__(self, fleet, job, **options):
                    records.current.note("algorithm.init", "begin", options=options, fleet=fleet, job=job)
                    super().__init__(fleet=fleet, job=job, **options)
                    records.current.note("algorithm.init", "end")

                def optimize(self):
                    records.current.note("algorithm.optimize", "begin")
                    result = super().optimize()
                    records.current.note("algorithm.optimize", "end", result=result)
                    return result

            return Algorithm

        class Formatter(jit.ColumnarStorerFormatter):
            def format(self):
                records.current.note("formatter", "begin", result=self.result)
                text = super().format()
                records.current.note("formatter", "end")
                return text

        class Dispatcher(jit.StaticDispatcher):
            def __init__(self, *args, tag=None, **options):
                records.current.note("dispatcher.init", "begin", tag=tag)
                super().__init__(*args, **options)

            def run(self):
                records.current.note("dispatcher.run", "begin")
                return super().run()

        self.loaders = {"memory": MemoryLoader, "file": FileLoader}
        self.algorithms = {"insertion": algorithm(jit.InsertionAlgorithm), "iterative": algorithm(jit.IterativeAlgorithm),
                           "plain": algorithm(Plain)}
        self.formatter, self.dispatcher = Formatter, Dispatcher
        self.storers = {}
        self.names = scenario.get("names", "own")

    def write_input(self):
        with fs.real_open(self.path, "w") as file:
            file.write(instances.file_text(self.versions[self.version], "cordeau"))

    def storer(self, name):
        """A storer class that reports its calls."""
        if name in self.storers:
            return self.storers[name]
        jit, records, plant = self.jit, self.records, self
        if name.startswith("nested:"):
            parts = [self.member(part) for part in name[len("nested:"):].split(",")]
            base = {"storer_cls_set": set(parts)}

            class Nested(jit.StorerSet, metaclass=OrderedMeta):
                order = plant.order.getrandbits(40)

                def __init__(self, *args, **kwargs):
                    super().__init__(*args, **base, **kwargs)

            self.storers[name] = Nested
            return Nested
        base_cls = {"file": jit.FileStorer, "prompt": jit.PromptStorer}.get(name, jit.Storer)

        class Storer(base_cls, metaclass=OrderedMeta):
            order = plant.order.getrandbits(40) if plant.order.random() < 0.7 else 7

            def __init__(self, result, formatter_cls=None, **options):
                records.current.note("storer.init", "begin", name=name, result=result, formatter=formatter_cls,
                                     options=options)
                extra = {}
                if name == "file":
                    from pathlib import Path

                    extra["file_path"] = Path(plant.output)
                super().__init__(result=result, formatter_cls=formatter_cls, **extra)
                records.current.note("storer.init", "end")

            def store(self):
                records.current.note("storer.store", "begin", name=name, result=self.result)
                if base_cls is not jit.Storer:
                    super().store()
                elif self.formatter_cls is plant.formatter:
                    self._formatted
                records.current.note("storer.store", "end", name=name)

        Storer.__name__ = name if self.names == "own" else "Storer"
        self.storers[name] = Storer
        return Storer

    def member(self, name):
        """What stands for a storer class in a set: the class, or something without a name that builds the storer."""
        cls = self.storer(name)
        return cls if self.names != "none" else Factory(cls)

    def container(self, kind, names):
        classes = [self.member(name) for name in names]
        if kind == "keys":
            return {c: None for c in classes}.keys()
        if kind == "deque":
            return collections.deque(classes)
        return {"set": set, "frozenset": frozenset, "list": list, "tuple": tuple}[kind](classes)

    def options(self, spec):
        """The options of a solver as the caller writes them."""
        loader = dict(spec["loader_options"])
        if spec["loader"] == "file":
            loader["file_path"] = self.path
        name = spec["algorithm"][0]
        if name == "insertion":
            algorithm = configs.insertion_kwargs(spec["algorithm"][1])
        elif name == "iterative":
            algorithm = {"episodes": spec["algorithm"][1], "seed": spec["algorithm"][2]}
        else:
            algorithm = {"value": 7}
        storer = dict(spec["storer_options"])
        if spec["storer"] == "set":
            storer["storer_cls_set"] = self.container(spec["container"], spec["storers"])
        if spec["formatter"]:
            storer["formatter_cls"] = self.formatter
        return {"loader": loader, "algorithm": algorithm, "storer": storer}


class Front:
    """A solver (or a dispatcher) together with what is expected of it."""

    def __init__(self, plant, spec, options=None):
        jit = plant.jit
        self.plant, self.spec = plant, spec
        self.given = options or plant.options(spec)
        self.before = _snapshot(self.given)
        loader, algorithm = plant.loaders[spec["loader"]], plant.algorithms[spec["algorithm"][0]]
        if spec["storer"] == "none":
            storer = None
        elif spec["storer"] == "set":
            storer = jit.StorerSet
        else:
            storer = plant.storer(spec["storers"][0])
        if spec["via"] == "solver":
            extra = {}
            if spec["dispatcher_options"] is not None:
                extra = {"dispatcher": plant.dispatcher, "dispatcher_kwargs": dict(spec["dispatcher_options"])}
            solver = jit.Solver(algorithm=algorithm, algorithm_kwargs=self.given["algorithm"], loader=loader,
                                loader_kwargs=self.given["loader"], storer=storer, storer_kwargs=self.given["storer"],
                                **extra)
            self.solve = solver.solve
        else:
            cls = jit.StaticDispatcher if spec["dispatcher_options"] is None else \
                functools.partial(plant.dispatcher, **spec["dispatcher_options"])
            dispatcher = None
            if storer is not None:
                storer = functools.partial(storer, **self.given["storer"])

            loader_cls = functools.partial(loader, **self.given["loader"])
            algorithm_cls = functools.partial(algorithm, **self.given["algorithm"])
            with plant.records.use(Record("construction")):
                dispatcher = cls(loader_cls, algorithm_cls, storer)
            self.solve = dispatcher.run

    def leaves(self):
        if self.spec["storer"] == "none":
            return []
        return leaves(self.spec["storers"])

    def judge(self, record, result, error, version):
        out, label = self.plant.out, record.label
        events = record.events
        out.log(label, type(error).__name__ if error is not None else "ok",
                [f"{s}:{m}" for s, m, _ in events if not s.startswith("loader.j")][:30])
        out.state([type(error).__name__, [f"{s}:{m}:{d.get('name', '')}" for s, m, d in events]])
        if _snapshot(self.given) != self.before:
            out.add("options-changed", f"{label}: the options given by the caller were changed")

        def expect(condition, kind, message):
            if not condition:
                out.add(kind, f"{label}: {message}")

        # What holds for every solve, failed or not.
        inits = record.of("loader.init")
        expect(len(inits) <= 1, "repeated", f"{len(inits)} loaders were created")
        for details in inits:
            wanted = {k: v for k, v in self.given["loader"].items() if k != "file_path"}
            expect(details["options"] == wanted, "options", f"the loader got {details['options']} instead of {wanted}")
        inits = record.of("algorithm.init")
        expect(len(inits) <= 1, "repeated", f"{len(inits)} algorithms were created")
        jobs, fleets = record.of("loader.job", "end"), record.of("loader.fleet", "end")
        for details in inits:
            expect(details["options"] == self.given["algorithm"], "options",
                   f"the algorithm got {sorted(details['options'])} instead of {sorted(self.given['algorithm'])}")
            expect(any(d["job"] is details["job"] for d in jobs) and any(d["fleet"] is details["fleet"] for d in fleets),
                   "wrong-input", "the algorithm did not get the loaded job and fleet")
        expect(len(record.of("algorithm.optimize")) <= 1, "repeated", "the optimization ran more than once")
        produced = [d["result"] for d in record.of("algorithm.optimize", "end")]
        counts = collections.Counter(d["name"] for d in record.of("storer.store"))
        for name, count in sorted(counts.items()):
            expect(count <= 1, "repeated", f"storer {name} stored {count} times")
            expect(name in self.leaves(), "wrong-storer", f"storer {name} is not configured")
        for details in record.of("storer.init"):
            wanted = self.given["storer"].get("formatter_cls")
            expect(details["formatter"] is wanted, "options", f"storer {details['name']} got another formatter")
            expect(details["options"] == {k: v for k, v in self.given["storer"].items()
                                          if k not in ("formatter_cls", "storer_cls_set")},
                   "options", f"storer {details['name']} got the options {details['options']}")
        for stage in ("storer.init", "storer.store", "formatter"):
            for details in record.of(stage):
                expect(produced and details["result"] is produced[0], "wrong-result",
                       f"{stage} worked on something else than the result of the optimization")
        ranks = [RANK[s] for s, _, _ in events if s != "dispatcher.init" and not s.startswith("loader.")]
        expect(ranks == sorted(ranks), "order", f"the stages ran in the order {[s for s, _, _ in events]}")
        if inits:
            first = next(i for i, e in enumerate(events) if e[0] == "algorithm.init")
            expect(any(e[0] == "loader.init" for e in events[:first]), "order", "the algorithm ran before the loader")
        expect(not counts or produced, "order", "something was stored before the optimization ended")

        if record.raised is not None:
            out.nontrivial = True
            if record.fired_stage:
                out.probes["fault:" + record.fired_stage] += 1
                later = [s for s, _, _ in events if RANK[s] > RANK[record.fired_stage]]
                expect(not later, "went-on", f"after the failure of {record.fired_stage}, {later[:3]} ran")
                if RANK[record.fired_stage] < 4:
                    expect(not counts, "went-on", f"something was stored although {record.fired_stage} failed")
            expect(error is not None, "swallowed",
                   f"{type(record.raised).__name__} in {record.fired_stage or 'a line'} did not reach the caller")
            expect(error is None or _reaches(error, record.raised), "swallowed",
                   f"the caller got {type(error).__name__} instead of {type(record.raised).__name__} "
                   f"({record.fired_stage or 'at a line'})")
            out.probes["failed"] += 1
            return
        if error is not None:
            out.add("exception", f"{label}: a solve without faults failed with {type(error).__name__}: {error}")
            return
        # A complete solve.
        out.probes["solved"] += 1
        expect(len(record.of("loader.init")) == 1, "skipped", "no loader was created")
        expect(len(record.of("algorithm.optimize")) == 1, "skipped", "the optimization did not run")
        expect(produced and result is produced[0], "wrong-result",
               "the returned result is not the one of the optimization")
        for name in self.leaves():
            expect(counts[name] == 1, "skipped", f"storer {name} stored {counts[name]} times")
            expect([d["name"] for d in record.of("storer.store", "end")].count(name) == 1, "skipped",
                   f"storer {name} did not finish")
        if self.spec["dispatcher_options"] is not None and self.spec["via"] == "solver":
            tags = [d["tag"] for d in record.of("dispatcher.init")]
            expect(all(tag == self.spec["dispatcher_options"]["tag"] for tag in tags), "options",
                   f"the dispatcher got {tags}")
            expect(len(record.of("dispatcher.run")) == 1, "repeated", "the dispatcher did not run once")
        if result is not None and not out.violations:
            expect(content(result.job) == version_content(self.plant.versions[version]), "stale",
                   "the solved job is not the one of the current input")
            expect(len(result.fleet.vehicles) == len(self.plant.versions[version]["vehicles"]), "stale",
                   "the fleet is not the one of the current input")
            for route in result.planning.routes:
                expect(all(pt.trip in result.job.trips for pt in route.planned_trips), "stale",
                       "the planning serves trips of another job")


def leaves(names):
    found = []
    for name in names:
        found += name[len("nested:"):].split(",") if name.startswith("nested:") else [name]
    return found


def content(job):
    return sorted((tuple(map(float, t.origin.position.coordinates)), tuple(map(float, t.destination.position.coordinates)),
                   float(t.origin.earliest), float(t.destination.earliest)) for t in job.trips)


def version_content(instance):
    return sorted((tuple(map(float, t["o"])), tuple(map(float, t["d"])), float(t["oe"]), float(t["de"]))
                  for t in instance["trips"])


def _snapshot(given):
    return {key: {name: (list(value) if name == "storer_cls_set" else value) for name, value in options.items()}
            for key, options in given.items()}


def _reaches(error, raised):
    """Whether the caller learns about the raised error."""
    if error is raised:
        return True
    if not isinstance(raised, Exception) and isinstance(error, Exception):
        return False
    seen = set()
    while error is not None and id(error) not in seen:
        if error is raised:
            return True
        seen.add(id(error))
        error = error.__cause__ or error.__context__
    return False


# -- execution

def _call(function, record, line, records, steps_ok=True):
    """Call with the record's faults; returns (result, error)."""
    steps = None
    if line is not None and steps_ok:
        def make():
            record.raised = ERRORS[line["error"]]("injected")
            return record.raised

        steps = sched.Steps(crash_at=line["at"], error=make)
    with records.use(record):
        try:
            if steps is None:
                return function(), None
            with steps:
                return function(), None
        except BaseException as error:
            if isinstance(error, sched.StepBudgetExceeded):
                raise
            return None, error


def execute(scenario, out):
    with common.world(scenario["world"]) as w, common.scratch() as root:
        plant = Plant(scenario, out, root)
        seed = scenario["world"]["seed"]
        fronts = []
        for i, spec in enumerate(scenario["solvers"]):
            options = None
            if spec["options_of"] is not None and spec["options_of"] < len(fronts):
                other = scenario["solvers"][spec["options_of"]]
                spec = dict(spec, loader=other["loader"], storer=other["storer"], storers=other["storers"],
                            storer_options=other["storer_options"], formatter=other["formatter"], via=other["via"])
                options = fronts[spec["options_of"]].given
                out.probes["shared-options"] += 1
            fronts.append(Front(plant, spec, options))
            out.probes["dispatcher"] += spec["via"] == "dispatcher"
            out.probes["no-storer"] += spec["storer"] == "none"
            out.probes["file-loader"] += spec["loader"] == "file"
            out.probes["set"] += spec["storer"] == "set"
            for name in spec["storers"]:
                out.probes["nested-set"] += name.startswith("nested")
                if name in ("file", "prompt"):
                    out.probes[name] += 1
        last, failed = None, False
        for number, step in enumerate(scenario["steps"]):
            if out.violations:
                break
            if step["op"] == "replace":
                plant.version = step["version"] % len(plant.versions)
                plant.write_input()
                out.probes["replaced"] += 1
                out.log("input", plant.version)
            elif step["op"] == "solve":
                front = fronts[step["solver"] % len(fronts)]
                result = _solve(w, seed, plant, front, f"solve {number}", step)
                if result is not None:
                    out.probes["solved-after-failure"] += failed
                    last = result
                else:
                    failed = True
            elif step["op"] == "set":
                if last is not None:
                    _set(plant, step, last, number)
            else:
                _pair(plant, fronts, step, number)
        if not out.violations:
            # Faults are over: every front works.
            for i, front in enumerate(fronts):
                _solve(w, seed, plant, front, f"last solve of {i}", {"fault": None, "line": None})
        common.note_world(out, w, scenario["world"])


def _solve(w, seed, plant, front, label, step):
    out = plant.out
    w.reset_layout(seed)
    record = Record(label, step["fault"])
    screen = io.StringIO()
    with contextlib.redirect_stdout(screen):
        result, error = _call(front.solve, record, step["line"], plant.records)
    out.probes["line-fault"] += record.raised is not None and record.fired_stage is None
    if record.raised is not None:
        out.faults[f"{record.fired_stage or 'line'}"] += 1
    out.nontrivial |= len(front.leaves()) > 1
    front.judge(record, result, error, plant.version)
    if error is not None or out.violations:
        return None
    # What the real storers delivered is about this result.
    expected = plant.jit.ColumnarStorerFormatter(result=result).format()
    if "file" in front.leaves():
        with fs.real_open(plant.output) as file:
            if file.read() != expected:
                out.add("wrong-result", f"{label}: the stored file is not about the returned result")
    if "prompt" in front.leaves() and expected not in screen.getvalue():
        out.add("wrong-result", f"{label}: the printed text is not about the returned result")
    # A new solver with the same options does the same.
    w.reset_layout(seed)
    control = Record("control")
    with contextlib.redirect_stdout(io.StringIO()):
        again, error = _call(Front(plant, front.spec).solve, control, None, plant.records)
    if error is not None:
        out.add("exception", f"{label}: a new solver failed with {type(error).__name__}: {error}")
    elif oracle.extract(again.planning) != oracle.extract(result.planning):
        out.add("not-afresh", f"{label}: a new solver with the same options returns another planning")
    return result


def _set(plant, step, result, number):
    """A storer set used directly, again and again."""
    out, jit = plant.out, plant.jit
    names = leaves(step["storers"])
    with plant.records.use(Record("construction")):
        storers = jit.StorerSet(plant.container(step["container"], step["storers"]), result=result,
                                formatter_cls=plant.formatter)
    out.probes["direct-set"] += 1
    out.nontrivial = True
    for i, faults in enumerate([*step["rounds"], {"fault": None, "line": None}]):
        record = Record(f"set {number}, round {i}", faults["fault"])
        with contextlib.redirect_stdout(io.StringIO()):
            _, error = _call(storers.store, record, faults["line"], plant.records)
        counts = collections.Counter(d["name"] for d in record.of("storer.store"))
        out.log(record.label, type(error).__name__, dict(counts))
        out.state([type(error).__name__, [f"{s}:{m}:{d.get('name', '')}" for s, m, d in record.events]])
        for name, count in sorted(counts.items()):
            if count > 1 or name not in names:
                out.add("repeated", f"{record.label}: storer {name} stored {count} times")
        for details in record.of("storer.init"):
            if details["result"] is not result or details["formatter"] is not plant.formatter:
                out.add("options", f"{record.label}: storer {details['name']} got another result or formatter")
        for stage in ("storer.store", "formatter"):
            if any(d["result"] is not result for d in record.of(stage)):
                out.add("wrong-result", f"{record.label}: {stage} worked on another result")
        if record.raised is not None:
            out.faults[f"{record.fired_stage or 'line'}"] += 1
            if record.fired_stage:
                out.probes["fault:" + record.fired_stage] += 1
            if error is None or not _reaches(error, record.raised):
                out.add("swallowed", f"{record.label}: {type(record.raised).__name__} did not reach the caller")
        elif error is not None:
            out.add("exception", f"{record.label}: failed with {type(error).__name__}: {error}")
        else:
            done = collections.Counter(d["name"] for d in record.of("storer.store", "end"))
            for name in names:
                if done[name] != 1:
                    out.add("skipped", f"{record.label}: storer {name} stored {done[name]} times")
        if out.violations:
            return


def _pair(plant, fronts, step, number):
    """Two solves whose lines are interleaved."""
    out = plant.out
    chosen = [fronts[i % len(fronts)] for i in step["solvers"]]
    records = [Record(f"solve {number} in thread {i}", step["faults"][i]["fault"]) for i in range(2)]
    functions = [functools.partial(_call, chosen[i].solve, records[i], None, plant.records) for i in range(2)]
    scheduler = sched.Scheduler(functions, step["switches"])
    with contextlib.redirect_stdout(io.StringIO()):
        outcomes = scheduler.run()
    out.probes["pair"] += 1
    out.nontrivial = True
    out.faults["thread-switch"] += len(scheduler.trace)
    for front, record, (status, value) in zip(chosen, records, outcomes):
        if status != "ok":
            raise value
        if record.raised is not None:
            out.faults[record.fired_stage] += 1
        front.judge(record, value[0], value[1], plant.version)
    mine, other = [[d["loader"] for d in r.of("loader.init")] for r in records]
    if any(a is b for a in mine for b in other):
        out.add("shared", f"solve {number}: two solves shared a loader")
    # Storing is not required to be exclusive, but the file is complete at the end.
    done = [v[1][0] for f, v in zip(chosen, outcomes) if v[1][1] is None and "file" in f.leaves()]
    if len(done) == 2:
        with fs.real_open(plant.output) as file:
            text = file.read()
        if text not in [plant.jit.ColumnarStorerFormatter(result=r).format() for r in done]:
            out.add("wrong-result", f"solve {number}: the stored file is not about any of the two results")


def shrinks(scenario):
    steps = scenario["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield dict(copy.deepcopy(scenario), steps=steps[:i] + steps[i + 1:])
    for i, step in enumerate(steps):
        if step["op"] == "solve":
            for key in ("fault", "line"):
                if step[key]:
                    smaller = copy.deepcopy(scenario)
                    smaller["steps"][i][key] = None
                    yield smaller
        elif step["op"] == "pair":
            for j in range(2):
                if step["faults"][j]["fault"] or step["faults"][j]["line"]:
                    smaller = copy.deepcopy(scenario)
                    smaller["steps"][i]["faults"][j] = {"fault": None, "line": None}
                    yield smaller
            for j in range(len(step["switches"])):
                smaller = copy.deepcopy(scenario)
                del smaller["steps"][i]["switches"][j]
                yield smaller
            smaller = copy.deepcopy(scenario)
            smaller["steps"][i] = {"op": "solve", "solver": step["solvers"][0], "fault": None, "line": None}
            yield smaller
        elif step["op"] == "set":
            for j in range(len(step["rounds"])):
                smaller = copy.deepcopy(scenario)
                del smaller["steps"][i]["rounds"][j]
                yield smaller
            for j in range(len(step["storers"])):
                if len(step["storers"]) > 1:
                    smaller = copy.deepcopy(scenario)
                    del smaller["steps"][i]["storers"][j]
                    yield smaller
    if len(scenario["solvers"]) > 1:
        for i in range(1, len(scenario["solvers"])):
            smaller = copy.deepcopy(scenario)
            del smaller["solvers"][i]
            for solver in smaller["solvers"]:
                if solver["options_of"] is not None and solver["options_of"] >= i:
                    solver["options_of"] = None
            yield smaller
    for i, solver in enumerate(scenario["solvers"]):
        for key, value in (("algorithm", ["plain"]), ("loader", "memory"), ("loader_options", {}), ("formatter", False),
                           ("dispatcher_options", None), ("options_of", None), ("container", "list")):
            if solver[key] != value:
                smaller = copy.deepcopy(scenario)
                smaller["solvers"][i][key] = value
                yield smaller
        for j in range(len(solver["storers"])):
            if len(solver["storers"]) > 1:
                smaller = copy.deepcopy(scenario)
                del smaller["solvers"][i]["storers"][j]
                yield smaller
    if scenario.get("names", "own") != "own":
        yield dict(copy.deepcopy(scenario), names="own")
    if len(scenario["versions"]) > 1:
        for i in range(len(scenario["versions"])):
            yield dict(copy.deepcopy(scenario), versions=scenario["versions"][:i] + scenario["versions"][i + 1:])
    for i, version in enumerate(scenario["versions"]):
        for variant in instances.shrinks(version):
            smaller = copy.deepcopy(scenario)
            smaller["versions"][i] = variant
            yield smaller
    yield from common.world_shrinks(scenario)
