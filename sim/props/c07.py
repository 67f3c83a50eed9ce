"""C07: an interrupted solve leaves no trace."""
import copy

from .. import common, configs, instances, oracle, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 900, "thorough": 30000}
REPEATS = {"quick": 40, "thorough": 400}
RULE = ("A run solves an instance once to learn the result and the number of executed library lines, then interrupts "
        "the same solve on the same objects at several of those lines (interrupt, allocation failure or error), checks "
        "that job, fleet and initial solution are as before (read or unread, then with dropped caches), solves again "
        "and compares with the first result. Solves run through an algorithm or through a Solver over an in-memory "
        "loader. Non-trivial: an exception surfaced in the middle of a solve that serves trips. Distinct: by scenario.")
STATE_MEASURE = "distinct lines of the library at which an exception surfaced"
REAL = ["all of jinete.models, jinete.algorithms (heuristics, metaheuristics), jinete.solvers, jinete.dispatchers"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)",
        "loader and storer of the Solver runs (in memory)"]
ASSUMPTIONS = ["exceptions surface at statement granularity, inside code of the library"]
EXPECTED_PROBES = ["cold", "with-initial", "without-initial", "solver", "KeyboardInterrupt", "MemoryError",
                   "RuntimeError"]
ERRORS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "RuntimeError": RuntimeError,
          "OSError": OSError}


def generate(rng, tier):
    instance = instances.generate(rng, trips=rng.randint(1, 5), vehicles=rng.randint(1, 3))
    if rng.random() < 0.4:
        common.relax(rng, instance)
    config = configs.with_start(rng, instance, configs.generate(rng, 1))
    if rng.random() < 0.6 and "initial" not in config:
        start = configs.planned(rng, instance, rng.choice((1.0, 0.6))) if rng.random() < 0.6 else configs.insertion(rng)
        config = rng.choice((configs.local(rng, start), {"alg": "warm", "initial": start, "then": configs.insertion(rng)},
                             {"alg": "sequential", "initial": start, "seed": rng.randrange(1 << 31), "stages": None}))
    if config["alg"] == "grasp":
        config["episodes"] = config["first_episodes"] = 1
        del instance["trips"][3:]
    crashes = []
    for _ in range(rng.choice((2, 3, 4)) if tier == "quick" else 6):
        # Everywhere, but also close to the ends.
        where = rng.choice(("any", "any", "any", "first", "last"))
        at = rng.random() if where == "any" else rng.randint(1, 60) * (1 if where == "first" else -1)
        crashes.append([at, rng.choice(("KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError",
                                        "OSError"))])
    return {"instance": instance, "config": config, "world": common.world_params(rng), "crashes": crashes,
            "read": rng.random() < 0.5, "solver": rng.random() < 0.3, "cold": rng.random() < 0.5,
            "without_assertions": rng.random() < 0.1}


class _Options:
    """A guard that also watches the options a solve is given."""

    def __init__(self, guard, given):
        self.guard, self.given = guard, given
        self.before = self._state(given)

    def _state(self, value):
        if isinstance(value, dict):
            return {k: self._state(v) for k, v in value.items()}
        if isinstance(value, (list, tuple)):
            return [self._state(v) for v in value]
        return value if isinstance(value, (str, int, float, type(None))) else id(value)

    def check(self, out, when, flush=True):
        if self._state(self.given) != self.before:
            out.add("options-changed", f"{when}: the options of the algorithm changed")
        self.guard.check(out, when, flush)


def _solver(config, fleet, job, given):
    """The same solve through the library's front door."""
    import jinete as jit

    class MemoryLoader(jit.Loader):
        fleet = property(lambda self: fleet_)
        job = property(lambda self: job_)
        surface = property(lambda self: None)
        _data = property(lambda self: None)

    class NullStorer(jit.Storer):
        def store(self):
            pass

    fleet_, job_ = fleet, job
    return jit.Solver(algorithm=configs.algorithm_cls(config),
                      algorithm_kwargs=given, loader=MemoryLoader, storer=NullStorer)


def execute(scenario, out):
    instance, config = scenario["instance"], scenario["config"]
    seed = scenario["world"]["seed"]
    with common.world(scenario["world"]) as w:
        def prepare(cold):
            twin = instances.build(instance)[1] if cold else None
            w.reset_layout(seed)
            fleet, job = instances.build(instance)
            initial = None
            if "initial" in config:
                initial = configs.solve_chain(config["initial"], fleet, job, lambda *a: None)
            common.touch(fleet, job, *([initial] if initial is not None else []))
            guard = common.Guard(fleet, job, initial, scenario["read"], twin)
            options = {}
            given = configs.constructor_kwargs(config, initial, options)
            solver = _solver(config, fleet, job, given) if scenario["solver"] else None
            guard = _Options(guard, given)

            def solve(steps):
                w.reset_layout(f"{seed}/solve")
                with steps:
                    if solver is not None:
                        return solver.solve()
                    return configs.solve_stage(config, fleet, job, initial, options)

            return guard, solve, initial

        guard, solve, initial = prepare(False)
        out.probes["with-initial" if initial is not None else "without-initial"] += 1
        out.probes["solver"] += scenario["solver"]
        steps = sched.Steps()
        reference = oracle.extract(solve(steps).planning)
        total = steps.count
        if total == 0:
            return
        if scenario["cold"]:
            # The interrupts hit objects that nothing has solved or read yet.
            guard, solve, initial = prepare(True)
            out.probes["cold"] += 1
        else:
            guard.check(out, "after a complete solve", flush=scenario["read"])
        served = len(oracle.served(reference))
        out.log("reference", oracle.digest(reference), "steps", total)

        for at, kind in scenario["crashes"]:
            if isinstance(at, float):
                point = 1 + int(at * total)
            else:
                point = at if at > 0 else total + 1 + at
            point = max(1, min(total, point))
            steps = sched.Steps(crash_at=point, error=ERRORS[kind])
            when = f"{kind} at step {point} of {total}"
            try:
                result = solve(steps)
            except ERRORS[kind]:
                out.faults[f"raise:{kind}"] += 1
                out.probes[kind] += 1
                when = f"{kind} at {steps.fired}"
            except Exception as error:
                if steps.fired is None:
                    raise
                # Another error took its place: the solve failed all the same.
                out.faults[f"raise:{kind}"] += 1
                out.probes["translated-error"] += 1
                when = f"{kind} at {steps.fired} (surfaced as {type(error).__name__})"
            else:
                out.probes["swallowed-error" if steps.fired else "finished-first"] += 1
                when = f"{kind} at {steps.fired} (swallowed)"
                if steps.fired is not None and issubclass(ERRORS[kind], KeyboardInterrupt):
                    out.add("swallowed", f"{kind} at {steps.fired} did not stop the solve")
                if oracle.extract(result.planning) != reference:
                    out.add("wrong-result", f"{kind} at {steps.fired or point}: the solve returned another result")
            out.states.add(str(steps.fired))
            if steps.fired and served:
                out.nontrivial = True
            out.log(when)
            guard.check(out, when)
            steps = sched.Steps()
            again = oracle.extract(solve(steps).planning)
            total = steps.count
            if again != reference:
                out.add("trace-left", f"after {when}, the same solve returns another result")
            if out.violations:
                break
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    for i in range(len(scenario["crashes"])):
        if len(scenario["crashes"]) > 1:
            smaller = copy.deepcopy(scenario)
            smaller["crashes"] = [smaller["crashes"][i]]
            yield smaller
    if scenario["cold"]:
        yield dict(copy.deepcopy(scenario), cold=False)
    if scenario["solver"]:
        yield dict(copy.deepcopy(scenario), solver=False)
    yield from common.shrinks(scenario)
