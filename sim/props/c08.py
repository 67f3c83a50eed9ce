"""C08: solves that share inputs do not disturb each other."""
import copy
import os

from .. import common, configs, instances, kernel, oracle, runner, sched

LEVEL = "exploration"
RUNS = {"quick": 700, "thorough": 25000}
REPEATS = {"quick": 60, "thorough": 400}
RULE = ("A run executes two or three solves in threads of which exactly one runs at a time; the scenario decides after "
        "which executed library line the processor goes to which thread. They share the instance and, depending on the "
        "run, the initial solution, a file loader, or a Solver; or only the process and the options, for related "
        "instances. Each result must be the one of the same solve run alone "
        "on identical objects and the shared objects must be unchanged. Non-trivial: the schedule switched between "
        "unfinished solves at least twice and some trip was served. Distinct: by scenario.")
STATE_MEASURE = "distinct executed interleavings (sequences of step and target of each switch)"
REAL = ["all of jinete.models, jinete.algorithms, jinete.loaders, jinete.solvers, jinete.dispatchers, real threads"]
STUB = ["the choice of the running thread (scheduler), locks created by the library, hashes of models, entropy, "
        "process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["threads are switched between executed lines of the library, not inside a line",
               "each thread draws the hashes of the models it creates from a stream of its own"]
EXPECTED_PROBES = ["kind:shared-instance", "kind:shared-initial", "kind:shared-loader", "kind:shared-solver",
                   "kind:shared-process", "switches"]


FILES = (["/models/trips.py"], ["/models/vehicles.py", "/models/services.py"],
         ["/models/positions.py", "/models/surfaces.py", "/models/distances.py"],
         ["/models/trips.py", "/models/vehicles.py", "/models/services.py", "/models/jobs.py", "/models/surfaces.py"],
         ["/loaders/file.py", "/loaders/formatters/hashcode.py", "/loaders/formatters/cordeau_laporte.py"],
         ["/strategies/sampling.py", "/utils/random.py"])


def schedule(rng, threads):
    kind = rng.choice(("few", "many", "burst", "robin", "robin", "files", "files"))
    if kind == "few":
        return {"points": sorted([rng.random(), rng.randrange(2)] for _ in range(rng.randint(1, 4)))}
    if kind == "many":
        return {"points": sorted([rng.random(), rng.randrange(2)] for _ in range(rng.randint(5, 60)))}
    if kind == "files":
        # Where threads can meet: in the methods of what they share.
        return {"files": rng.choice(FILES), "every": rng.choice((1, 1, 1, 2, 3, 5)), "count": rng.choice((300, 2000)),
                "start": rng.choice((0, 0, 0, rng.randint(1, 400))), "chance": rng.choice((1.0, 0.7, 0.4, 0.1)),
                "seed": rng.getrandbits(32)}
    if kind == "burst":
        start = rng.random() ** 2
        return {"points": sorted([start + rng.random() * 0.01, rng.randrange(2)] for _ in range(rng.randint(20, 200)))}
    return {"from": rng.choice((0.0, 0.0, rng.random())), "every": rng.choice((1, 1, 2, 3, 7, 20, 100)),
            "count": rng.choice((100, 600, 2000))}


def generate(rng, tier):
    kind = rng.choice(("shared-instance", "shared-instance", "shared-initial", "shared-loader", "shared-solver",
                       "shared-process"))
    threads = rng.choice((2, 2, 3))
    if kind in ("shared-loader", "shared-solver"):
        file_kind = rng.choice(("cordeau", "hashcode"))
        instance = instances.file_instance(rng, file_kind, rng.randint(1, 5), rng.randint(1, 3))
    else:
        file_kind = None
        instance = instances.generate(rng, trips=rng.randint(1, 4), vehicles=rng.randint(1, 3))
        if rng.random() < 0.4:
            common.relax(rng, instance)
    solves, long = [], None
    if kind == "shared-instance" and rng.random() < 0.08:
        # Routes whose insertions are sampled.
        long, threads = common.long_warm(rng), 2
        instance = long[0]
    for _ in range(threads):
        config = configs.generate(rng, 1)
        while config["alg"] == "grasp":
            config = configs.generate(rng, 1)
        if long:
            config = copy.deepcopy(long[1])
            config["then"]["seed"] = rng.randrange(1 << 31)
        if kind == "shared-initial":
            config = rng.choice((configs.local(rng, {"alg": "shared"}),
                                 {"alg": "warm", "initial": {"alg": "shared"}, "then": configs.insertion(rng)},
                                 {"alg": "sequential", "initial": {"alg": "shared"}, "seed": rng.randrange(1 << 31),
                                  "stages": None}))
        solves.append(config)
    if kind == "shared-process" and rng.random() < 0.5:
        solves = [solves[0]] * threads
    scenario = {"kind": kind, "file": file_kind, "instance": instance, "solves": solves,
                "world": common.world_params(rng), "schedule": schedule(rng, threads), "touch": rng.random() < 0.5,
                "without_assertions": rng.random() < 0.05}
    if kind == "shared-initial":
        scenario["initial"] = configs.planned(rng, instance, rng.choice((1.0, 0.6))) if rng.random() < 0.7 else \
            configs.insertion(rng)
    if kind == "shared-process":
        # Nothing but the options in common: the threads solve related instances.
        scenario["instances"] = [instance] + [instances.variant(rng, instance) for _ in range(threads - 1)]
    if kind == "shared-solver":
        scenario["solves"] = [configs.insertion(rng)] * threads
    if kind == "shared-loader":
        scenario["solves"] = [configs.insertion(rng) for _ in range(threads)]
    return scenario


class Setting:
    """Fresh but identical shared objects, and the functions the threads run on them."""

    def __init__(self, scenario, w, path):
        import jinete as jit

        self.scenario = scenario
        instance, kind = scenario["instance"], scenario["kind"]
        w.reset_layout()
        self.guard = None
        formatter = {"cordeau": jit.CordeauLaporteLoaderFormatter, "hashcode": jit.HashCodeLoaderFormatter,
                     None: None}[scenario["file"]]
        if kind == "shared-solver":
            config = scenario["solves"][0]
            solver = jit.Solver(algorithm=configs.algorithm_cls(config),
                                algorithm_kwargs=configs.constructor_kwargs(config, None),
                                loader_kwargs={"file_path": path, "formatter_cls": formatter}, storer=_Discard())
            self.functions = [lambda: solver.solve()] * len(scenario["solves"])
        elif kind == "shared-loader":
            loader = jit.FileLoader(path, formatter_cls=formatter)
            self.functions = [self._load_and_solve(loader, c) for c in scenario["solves"]]
        elif kind == "shared-process":
            options = {}
            self.functions = [self._solve(c, *instances.build(i), None, options)
                              for c, i in zip(scenario["solves"], scenario["instances"])]
        else:
            fleet, job = instances.build(instance)
            initial = None
            if kind == "shared-initial":
                initial = configs.solve_chain(scenario["initial"], fleet, job, lambda *a: None)
            shared = [initial] if initial is not None else []
            common.touch(fleet, job, *shared, objective=scenario["touch"])
            twin = None if scenario["touch"] else instances.build(instance)[1]
            self.guard = common.Guard(fleet, job, initial, scenario["touch"], twin)
            self.functions = [self._solve(c, fleet, job, initial) for c in scenario["solves"]]
        w.reset_layout(f"{scenario['world']['seed']}/solve")

    @staticmethod
    def _solve(config, fleet, job, initial, options=None):
        def function():
            if config.get("initial") == {"alg": "shared"}:
                return configs.solve_stage(config, fleet, job, initial)
            return configs.solve_chain(config, fleet, job, lambda *a: None, options)

        return function

    @staticmethod
    def _load_and_solve(loader, config):
        def function():
            job = loader.job
            fleet = loader.fleet
            return configs.solve_stage(config, fleet, job, None)

        return function


def _Discard():
    import jinete as jit

    class Discard(jit.Storer):
        def store(self):
            pass

    return Discard


def _summary(instance, result):
    """The planning and the instance it is for."""
    return [oracle.extract(result.planning), sorted(t.identifier for t in result.job.trips),
            sorted(v.identifier for v in result.fleet.vehicles),
            sorted(str((t.identifier, t.origin_position.coordinates, t.destination_position.coordinates, t.capacity))
                   for t in result.job.trips)]


def execute(scenario, out):
    instance, seed = scenario["instance"], scenario["world"]["seed"]
    with common.scratch() as directory, common.world(scenario["world"], layout_seed=seed) as w:
        path = os.path.join(directory, "instance.txt")
        w.by_content = scenario["file"] is not None
        if scenario["file"]:
            with open(path, "w") as file:
                file.write(instances.file_text(instance, scenario["file"]))

        def fresh():
            w.layout_seed = seed
            return Setting(scenario, w, path)

        solo, steps = [], []
        def alone(i):
            setting = fresh()
            # Loading happens inside the functions, whose hashes come from the stream of their thread.
            kernel.set_thread_name(f"thread-{i}")
            counter = sched.Steps()
            try:
                with counter:
                    summary = _summary(instance, setting.functions[i]())
                return summary, counter.count
            finally:
                kernel.set_thread_name("main")

        for i in range(len(scenario["solves"])):
            # In processes of their own: they must not prepare anything for the concurrent ones.
            value = runner.isolated(lambda o: alone(i), out)
            if value is None:
                return
            solo.append(value[0])
            steps.append(value[1])

        setting = fresh()
        total = sum(steps)
        plan = scenario["schedule"]
        extra = {}
        if "files" in plan:
            switches, extra = [], {k: v for k, v in plan.items()}
        elif "points" in plan:
            switches = [(max(1, int(f * total)), t) for f, t in plan["points"]]
        else:
            start = int(plan["from"] * total)
            switches = [(start + plan["every"] * (k + 1), 0) for k in range(plan["count"])]
        scheduler = sched.Scheduler(setting.functions, switches, **extra)
        outcomes = scheduler.run()
        out.probes[f"kind:{scenario['kind']}"] += 1
        effective = len(scheduler.trace) - len(setting.functions)
        out.probes["switches"] += max(0, effective)
        out.faults["thread-switch"] += max(0, effective)
        out.states.add(oracle.digest(scheduler.trace))
        for i, (status, value) in enumerate(outcomes):
            config = scenario["solves"][i]
            if status == "error":
                if isinstance(value, sched.Deadlock):
                    out.add("deadlock", str(value))
                elif not isinstance(value, Exception):
                    raise value
                else:
                    if not runner.innermost_is_library(value):
                        raise value
                    out.add("failed", f"{config['alg']} in thread {i} failed because of the others: "
                                      f"{runner.describe(value)}")
                continue
            summary = _summary(instance, value)
            out.log("thread", i, config["alg"], oracle.digest(summary))
            if summary != solo[i]:
                what = "planning" if summary[1:] == solo[i][1:] else "instance"
                out.add("disturbed", f"{config['alg']} in thread {i} returned another {what} than when run alone")
            if oracle.served(summary[0]) and effective >= 2:
                out.nontrivial = True
        if setting.guard is not None:
            setting.guard.check(out, "after the concurrent solves")
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    if len(scenario["solves"]) > 2:
        for i in range(len(scenario["solves"])):
            smaller = copy.deepcopy(scenario)
            del smaller["solves"][i]
            if "instances" in smaller:
                del smaller["instances"][i]
            yield smaller
    plan = scenario["schedule"]
    if "points" in plan:
        points = plan["points"]
        for half in (points[: len(points) // 2], points[len(points) // 2:]):
            if half and len(half) < len(points):
                yield dict(copy.deepcopy(scenario), schedule={"points": copy.deepcopy(half)})
        if len(points) <= 12:
            for i in range(len(points)):
                if len(points) > 1:
                    yield dict(copy.deepcopy(scenario), schedule={"points": points[:i] + points[i + 1:]})
    elif plan["count"] > 1:
        if plan.get("start"):
            yield dict(copy.deepcopy(scenario), schedule=dict(plan, start=plan["start"] - plan["every"]))
        for count in (1, plan["count"] // 4, plan["count"] // 2, plan["count"] - 1):
            if 0 < count < plan["count"]:
                yield dict(copy.deepcopy(scenario), schedule=dict(plan, count=count))
    if scenario["kind"] in ("shared-instance", "shared-initial"):
        yield from common.instance_shrinks(scenario)
    for i, instance in enumerate(scenario.get("instances", [])):
        for simpler in instances.shrinks(instance):
            smaller = copy.deepcopy(scenario)
            smaller["instances"][i] = simpler
            yield smaller
    yield from common.world_shrinks(scenario)
