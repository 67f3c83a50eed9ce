"""C15: computation times are real elapsed times."""
import copy
import functools
import threading

from .. import common, configs, instances, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 2500, "thorough": 50000}
REPEATS = {"quick": 50, "thorough": 500}
RULE = ("A run optimizes with any algorithm (metaheuristics and their nested optimizations, scripted and waiting ones "
        "included), one solve after the other or two interleaved in threads, with algorithm objects used again and after "
        "failures, while simulated time passes (busy or waiting) at seeded lines of the library and the wall clock is "
        "stepped forwards and backwards at others. The computation time of every result, intermediate ones included, "
        "must lie between the time that passed inside its optimization step and inside the whole call, and stay as it "
        "is. Non-trivial: time passed or the wall clock jumped within an optimization. Distinct: by scenario.")
STATE_MEASURE = "distinct sequences of (algorithm, depth, computation time) of the results"
REAL = ["all of jinete.algorithms except for the linear model", "jinete.models", "jinete.solvers"]
STUB = ["every clock of the time and datetime modules (simulated)", "entropy, hashes of models, thread schedule",
        "scripted algorithms and linear models that only wait"]
ASSUMPTIONS = ["the steady clock never jumps and counts the time in which the process waits; the wall clock may jump, the "
               "processor clocks count only busy time"]
EXPECTED_PROBES = ["nested", "jump-inside", "wait-inside", "busy-inside", "threads", "again", "after-failure", "scripted",
                   "milp", "solver", "results"]


def generate(rng, tier):
    solves = []
    for _ in range(rng.choice((1, 1, 2))):
        instance = instances.generate(rng, trips=rng.randint(1, 4), vehicles=rng.randint(1, 3))
        kind = rng.choice(("config",) * 5 + ("scripted", "scripted", "milp"))
        config = configs.with_start(rng, instance, configs.generate(rng, 2)) if kind == "config" else None
        if config is not None and config["alg"] == "grasp":
            del instance["trips"][2:]
            config["episodes"] = 1
        solves.append({"instance": instance, "kind": kind, "config": config, "times": rng.choice((1, 1, 2)),
                       "waits": [_amount(rng) for _ in range(rng.randint(1, 4))],
                       "fail": rng.choice((None, None, None, rng.randint(1, 500))), "solver": rng.random() < 0.2})
    return {"solves": solves, "world": dict(common.world_params(rng), tick=rng.choice((0.0, 1e-6, 1e-3, 0.5))),
            "threads": len(solves) == 2 and rng.random() < 0.4,
            "switches": [[rng.choice((rng.randint(1, 100), rng.randint(1, 5000))), 0] for _ in range(rng.randint(1, 20))],
            "events": [[rng.choice((rng.randint(1, 30), rng.randint(1, 300), rng.randint(1, 5000), rng.randint(1, 40000))),
                        rng.choice(("busy", "wait", "jump")), _amount(rng)] for _ in range(rng.randint(1, 25))]}


def _amount(rng):
    return rng.choice((1e-3, 0.5, 1.0, 7.25, 100.0, 3600.0, 100000.0)) * rng.choice((1, 1, 1, rng.random()))


class Watch:
    """Records how much time really passes inside every optimization."""

    def __init__(self, w, out, events):
        self.w, self.out = w, out
        self.local = threading.local()
        self.records = []
        self.count = 0
        self.inside = 0
        self.events = sorted(copy.deepcopy(events))
        self.rng_sign = 1

    @property
    def stack(self):
        if not hasattr(self.local, "stack"):
            self.local.stack = []
        return self.local.stack

    def line(self, code, line):
        self.count += 1
        while self.events and self.events[0][0] <= self.count:
            _, kind, amount = self.events.pop(0)
            if kind == "jump":
                # Backwards and forwards in turn.
                self.rng_sign = -self.rng_sign
                self.w.jump_wall(self.rng_sign * amount * 3)
            else:
                self.w.advance(amount, idle=kind == "wait")
            self.out.faults[kind] += 1
            if self.stack:
                self.out.probes[kind + "-inside"] += 1
                self.out.nontrivial = True

    def install(self, base):
        """Wrap the methods of every algorithm class; returns a function that undoes it."""
        saved = []
        classes, todo = [], [base]
        while todo:
            cls = todo.pop()
            classes.append(cls)
            todo.extend(cls.__subclasses__())
        for cls in classes:
            for name, wrap in (("optimize", self.outer), ("_optimize", self.inner)):
                if name in vars(cls):
                    saved.append((cls, name, vars(cls)[name]))
                    setattr(cls, name, wrap(vars(cls)[name]))

        def undo():
            for cls, name, function in saved:
                setattr(cls, name, function)

        return undo

    def outer(self, function):
        @functools.wraps(function)
        def optimize(algorithm, *args, **kwargs):
            nested = any(frame["algorithm"] is algorithm and frame["whole"] for frame in self.stack[-1:])
            frame = {"algorithm": algorithm, "whole": True, "step": None}
            if nested:
                return function(algorithm, *args, **kwargs)
            depth = sum(1 for f in self.stack if f["whole"])
            self.stack.append(frame)
            start = self.w.now
            try:
                result = function(algorithm, *args, **kwargs)
            finally:
                self.stack.pop()
            self.records.append({"result": result, "whole": self.w.now - start, "step": frame["step"],
                                 "depth": depth, "name": type(algorithm).__name__, "seen": result.computation_time})
            return result

        return optimize

    def inner(self, function):
        @functools.wraps(function)
        def _optimize(algorithm, *args, **kwargs):
            frame = self.stack[-1] if self.stack else None
            if frame is None or frame["algorithm"] is not algorithm or not frame["whole"]:
                return function(algorithm, *args, **kwargs)
            self.stack.append({"algorithm": algorithm, "whole": False})
            start = self.w.now
            try:
                return function(algorithm, *args, **kwargs)
            finally:
                frame["step"] = self.w.now - start
                self.stack.pop()

        return _optimize

    def judge(self):
        tick = self.w.tick
        for record in self.records:
            value = record["result"].computation_time
            name = f"{record['name']} (depth {record['depth']})"
            self.out.probes["results"] += 1
            self.out.probes["nested"] += record["depth"] > 0
            if value != record["seen"]:
                self.out.add("changed", f"{name}: the computation time was {record['seen']} and became {value}")
            if not isinstance(value, (int, float)) or isinstance(value, bool):
                self.out.add("negative", f"{name}: the computation time is {value!r}")
                continue
            if value < 0:
                self.out.add("negative", f"{name}: the computation time is {value}")
            margin = 5e-6 + 1e-12 * self.w.now + 2 * tick
            low = record["step"] if record["step"] is not None else 0.0
            if not low - margin <= value <= record["whole"] + margin:
                self.out.add("wrong", f"{name}: the computation time is {value}, but the optimization took "
                                      f"{low} and the whole call {record['whole']} seconds")


def _front(solve, w, rng_waits):
    """The objects of one solve: a function that optimizes."""
    import jinete as jit

    fleet, job = instances.build(solve["instance"])
    waits = list(rng_waits)

    class Model:
        def __init__(self, *args, **kwargs):
            pass

        def solve(self):
            for i, amount in enumerate(waits):
                w.advance(amount, idle=i % 2 == 0)
            return set()

    class Scripted(jit.Algorithm):
        def _optimize(self):
            Model().solve()
            if len(waits) > 2:
                return jit.InsertionAlgorithm(fleet=self.fleet, job=self.job).optimize().planning
            return jit.Planning()

    if solve["kind"] == "scripted":
        cls, kwargs = Scripted, {}
    elif solve["kind"] == "milp":
        cls, kwargs = jit.MilpAlgorithm, {"model_cls": Model}
    else:
        config = solve["config"]
        initial = configs.run(config["initial"], fleet, job) if "initial" in config else None
        cls, kwargs = configs.algorithm_cls(config), configs.constructor_kwargs(config, initial)
    if solve["solver"]:
        class MemoryLoader(jit.Loader):
            fleet = property(lambda self: fleet_)
            job = property(lambda self: job_)
            surface = property(lambda self: None)
            _data = property(lambda self: None)

        class NullStorer(jit.Storer):
            def store(self):
                w.advance(1000.0)

        fleet_, job_ = fleet, job
        return jit.Solver(algorithm=cls, algorithm_kwargs=kwargs, loader=MemoryLoader, storer=NullStorer).solve
    algorithm = cls(fleet=fleet, job=job, **kwargs)
    return lambda: algorithm.optimize()


def execute(scenario, out):
    import jinete as jit

    with common.world(scenario["world"]) as w:
        watch = Watch(w, out, scenario["events"])
        solves = scenario["solves"]
        fronts = [_front(solve, w, solve["waits"]) for solve in solves]
        undo = watch.install(jit.Algorithm)
        try:
            if scenario["threads"] and len(fronts) == 2:
                scheduler = sched.Scheduler(fronts, scenario["switches"])
                with sched._Monitor(watch.line):
                    outcomes = scheduler.run()
                for status, value in outcomes:
                    if status != "ok":
                        raise value
                out.probes["threads"] += 1
                out.faults["thread-switch"] += len(scheduler.trace)
            else:
                for solve, front in zip(solves, fronts):
                    _one(solve, front, watch, out)
        finally:
            undo()
        for solve in solves:
            out.probes["scripted"] += solve["kind"] == "scripted"
            out.probes["milp"] += solve["kind"] == "milp"
            out.probes["solver"] += solve["solver"]
        w.advance(12345.0)
        watch.judge()
        for record in watch.records:
            out.log(record["name"], record["depth"], round(record["result"].computation_time, 9))
        out.state([[r["name"], r["depth"], r["result"].computation_time] for r in watch.records])
        common.note_world(out, w, scenario["world"])


def _one(solve, front, watch, out):
    for i in range(solve["times"] + (solve["fail"] is not None)):
        crash = solve["fail"] if i == 0 else None
        steps = sched.Steps(crash_at=crash, error=KeyboardInterrupt)
        try:
            with sched._Monitor(watch.line), steps:
                front()
        except KeyboardInterrupt:
            out.faults["interrupt"] += 1
            out.log("interrupted at", steps.fired)
        else:
            out.probes["again" if i else "once"] += 1
            out.probes["after-failure"] += i == 1 and solve["fail"] is not None


def shrinks(scenario):
    if scenario["threads"]:
        yield dict(copy.deepcopy(scenario), threads=False)
    for i in range(len(scenario["solves"])):
        if len(scenario["solves"]) > 1:
            yield dict(copy.deepcopy(scenario), solves=[scenario["solves"][i]], threads=False)
    size = len(scenario["events"]) // 2
    while size > 1:
        for i in range(0, len(scenario["events"]), size):
            smaller = copy.deepcopy(scenario)
            del smaller["events"][i:i + size]
            yield smaller
        size //= 2
    for i in range(len(scenario["events"])):
        smaller = copy.deepcopy(scenario)
        del smaller["events"][i]
        yield smaller
    for i, solve in enumerate(scenario["solves"]):
        for key, value in (("fail", None), ("solver", False), ("times", 1)):
            if solve[key] != value:
                smaller = copy.deepcopy(scenario)
                smaller["solves"][i][key] = value
                yield smaller
        if solve["config"] is not None:
            for config in configs.shrinks(solve["config"]):
                smaller = copy.deepcopy(scenario)
                smaller["solves"][i]["config"] = config
                yield smaller
            smaller = copy.deepcopy(scenario)
            smaller["solves"][i].update(kind="scripted", config=None)
            yield smaller
        for variant in instances.shrinks(solve["instance"]):
            smaller = copy.deepcopy(scenario)
            smaller["solves"][i]["instance"] = variant
            if solve["config"] is not None:
                smaller["solves"][i]["config"] = configs.restrict(solve["config"], variant)
            yield smaller
    if scenario["switches"]:
        yield dict(copy.deepcopy(scenario), switches=scenario["switches"][:len(scenario["switches"]) // 2])
    for tick in (0.0, 1e-6):
        if scenario["world"]["tick"] != tick:
            smaller = copy.deepcopy(scenario)
            smaller["world"]["tick"] = tick
            yield smaller
            break
    yield from common.world_shrinks(scenario)
