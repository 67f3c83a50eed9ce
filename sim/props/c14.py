"""C14: the exact algorithm never turns a solver mishap into a wrong plan."""
import copy
import os

from .. import common, configs, instances, kernel, oracle

LEVEL = "fault_enumeration"
RUNS = {"quick": 1200, "thorough": 40000}
REPEATS = {"quick": 40, "thorough": 400}
RULE = ("A run solves one to three instances several times with the exact algorithm, over an external solver whose outcome "
        "the scenario decides each time: exact, any other feasible solution (the real solver under a random objective), "
        "values off by its tolerances, stopped early, only relaxed, any status with the values it had, none, or missing "
        "ones, an error before or after the values are set. Every returned planning is checked against the raw instance "
        "and must serve every trip; healthy outcomes must be accepted, whatever happened before. Non-trivial: an outcome "
        "other than the exact one. Distinct: by scenario.")
STATE_MEASURE = "distinct (outcome, answer, visits) triples"
REAL = ["jinete.algorithms.exacts", "jinete.models", "the linear models PuLP builds", "the CBC solver"]
STUB = ["the outcome of the external solver: injected after (or instead of) a real CBC run", "names of temporary files",
        "entropy, clocks, hashes of models (simulated)"]
ASSUMPTIONS = ["one depot shared by all vehicles with a window of a day, finite ride and route times",
               "the solver's binaries are within 1e-6 of 0 or 1 in the solutions it reports as integer ones",
               "where services that take no time share a place, the exact algorithm may refuse a proper solution",
               "up to three trips and three vehicles per instance"]
STATUSES = {"not-solved": 0, "infeasible": -1, "unbounded": -2, "undefined": -3}
EXPECTED_PROBES = ["exact", "feasible", "noise", "nodes", "relaxed", "zeros", "none", "partial", "error", "returned",
                   "raised", "infeasible-instance", "again-after-failure", "without-assertions"] + \
    ["status:" + s for s in STATUSES]


def generate(rng, tier):
    scenario = {"instances": [_instance(rng, tier) for _ in range(rng.choice((1, 1, 2)))],
                "world": common.world_params(rng), "without_assertions": rng.random() < 0.25, "steps": []}
    for _ in range(rng.randint(1, 3)):
        scenario["steps"].append({"instance": rng.randrange(2), "outcome": _outcome(rng),
                                  "algorithm": rng.choice(("new", "new", "same"))})
    return scenario


def _instance(rng, tier):
    n = rng.choice((1, 1, 2, 2, 3) if tier == "quick" else (1, 2, 2, 3, 3))
    m = rng.choice((1, 1, 2, 2, 3)) if n < 3 else rng.choice((1, 1, 2))
    crowded = rng.random() < 0.25
    if crowded:
        # No vehicle stays at home, so that only a third trip makes two ride together.
        n, m = 3, 2
    instance = instances.generate(rng, rng.choice(("cordeau", "grid", "grid", "tight", "loose", "loose")), n, m,
                                  "DialARideObjective")
    if rng.random() < 0.6:
        common.relax(rng, instance)
    horizon = max(t["dl"] for t in instance["trips"])
    for vehicle in instance["vehicles"]:
        vehicle.update(oe=0, d=None, dl=None, tmo=vehicle["tmo"] or rng.choice((480.0, 1440.0)))
        if rng.random() < 0.3:
            vehicle["cap"] = rng.choice((1, 2, 3))
            vehicle["tmo"] = rng.choice((120.0, 480.0, 1440.0))
    if crowded:
        # Capacities that differ and matter: everything else leaves room for rides in common.
        for vehicle in instance["vehicles"]:
            vehicle.update(cap=rng.choice((1, 2, 2, 3)), tmo=1440.0)
        for trip in instance["trips"]:
            trip.update(tmo=480.0, cap=rng.choice((1, 1, 2)), oe=0, de=0, ol=1400.0, dl=1400.0)
        place = instance["trips"][0]
        for trip in instance["trips"][1:]:
            for end in "od":
                if rng.random() < 0.7:
                    trip[end] = [round(c + rng.uniform(-0.5, 0.5), 2) for c in place[end]]
    for trip in instance["trips"]:
        trip["tmo"] = trip["tmo"] or rng.choice((30.0, 90.0, 480.0))
        for key in ("ol", "dl"):
            trip[key] = min(trip[key], max(horizon, 1400.0))
        if rng.random() < 0.15:
            trip["od"] = trip["dd"] = 0
            if rng.random() < 0.5:
                trip["d"] = list(trip["o"])
    return instance


def _outcome(rng):
    kind = rng.choice(("exact", "feasible", "feasible", "noise", "noise", "nodes", "relaxed", "zeros", "none", "partial",
                       "status", "status", "error"))
    outcome = {"kind": kind, "seed": rng.getrandbits(32)}
    if kind == "noise":
        outcome.update(base=rng.choice(("exact", "feasible")), size=rng.choice((1e-12, 1e-9, 1e-7, 1e-6)))
    elif kind == "nodes":
        outcome["nodes"] = rng.choice((0, 0, 1, 3, 20))
    elif kind == "status":
        outcome.update(status=rng.choice(sorted(STATUSES)), base=rng.choice(("exact", "feasible", "relaxed", "nothing",
                                                                            "zeros", "none")))
    elif kind == "partial":
        outcome["share"] = rng.choice((0.02, 0.1, 0.5, 0.98))
    elif kind == "error":
        outcome.update(error=rng.choice(("solver", "os", "missing", "interrupt", "memory", "value")),
                       when=rng.choice(("before", "after")))
    return outcome


def _simulated_solver(scenario, out, scratch):
    import pulp

    class SimSolver(pulp.LpSolver):
        """The external solver, with the outcome the current step wants."""

        name = "SimSolver"

        def __init__(self):
            super().__init__(msg=False)
            self.outcome = None
            self.healthy = None
            self.error = None
            self.calls = 0

        def available(self):
            return True

        def cbc(self, problem, **kwargs):
            solver = pulp.PULP_CBC_CMD(msg=False, **kwargs)
            solver.tmpDir = scratch
            return solver.actualSolve(problem)

        def base(self, problem, kind, rng):
            if kind == "nothing":
                return
            if kind in ("zeros", "none"):
                for variable in problem.variables():
                    variable.varValue = 0.0 if kind == "zeros" else None
                return
            if kind == "feasible" or kind == "relaxed" and rng.random() < 0.5:
                # An optimum of something else.
                real = problem.objective
                problem.objective = pulp.lpSum(
                    rng.choice((-1, 0, 1, 1, 2)) * rng.random() * v for v in problem.variables() if v.isInteger())
                if problem.objective:
                    try:
                        self.cbc(problem, **({"mip": False} if kind == "relaxed" else {}))
                    finally:
                        problem.objective = real
                    return
                problem.objective = real
            self.cbc(problem, **({"mip": False} if kind == "relaxed" else {}))

        def actualSolve(self, problem, **kwargs):
            self.calls += 1
            outcome = self.outcome
            kind = outcome["kind"]
            rng = kernel.stream("outcome", outcome["seed"])
            self.healthy = False
            if kind in ("exact", "feasible"):
                self.base(problem, kind, rng)
                self.healthy = problem.status == pulp.LpStatusOptimal
            elif kind == "noise":
                self.base(problem, outcome["base"], rng)
                self.healthy = problem.status == pulp.LpStatusOptimal
                for variable in problem.variables():
                    if variable.varValue is not None:
                        size = outcome["size"] if variable.isInteger() else min(outcome["size"], 1e-7)
                        variable.varValue += rng.choice((-1, 1, rng.uniform(-1, 1), 0)) * size
            elif kind == "nodes":
                self.cbc(problem, maxNodes=outcome["nodes"])
            elif kind in ("relaxed", "zeros", "none"):
                # What PuLP makes of a solver that was stopped in time before it had a solution.
                self.base(problem, kind, rng)
                problem.assignStatus(pulp.LpStatusOptimal, pulp.LpSolutionIntegerFeasible)
            elif kind == "partial":
                self.base(problem, "exact", rng)
                for variable in problem.variables():
                    if rng.random() < outcome["share"]:
                        variable.varValue = None
            elif kind == "status":
                self.base(problem, outcome["base"], rng)
                problem.assignStatus(STATUSES[outcome["status"]])
            elif kind == "error":
                if outcome["when"] == "after":
                    self.base(problem, "exact", rng)
                self.error = {"solver": pulp.PulpSolverError, "os": OSError, "missing": FileNotFoundError,
                              "interrupt": KeyboardInterrupt, "memory": MemoryError,
                              "value": ValueError}[outcome["error"]]("injected")
                raise self.error
            return problem.status

    return SimSolver()


def execute(scenario, out):
    import jinete as jit

    with common.world(scenario["world"]) as w, common.scratch() as scratch:
        solver = _simulated_solver(scenario, out, scratch)
        sites = []
        for instance in scenario["instances"]:
            fleet, job = instances.build(instance)
            sites.append({"instance": instance, "fleet": fleet, "job": job, "guard": common.Guard(fleet, job),
                          "algorithm": None, "failed": False})
        healthy = {"outcome": {"kind": "exact", "seed": 0}, "algorithm": "same"}
        steps = scenario["steps"] + [dict(healthy, instance=i) for i in range(len(sites))]
        for number, step in enumerate(steps):
            site = sites[step["instance"] % len(sites)]
            if site["algorithm"] is None or step["algorithm"] == "new":
                site["algorithm"] = jit.MilpAlgorithm(fleet=site["fleet"], job=site["job"], solver=solver)
            _solve(out, solver, site, step, f"solve {number}")
            if out.violations:
                break
        common.note_world(out, w, scenario["world"])


def _solve(out, solver, site, step, label):
    outcome, instance = step["outcome"], site["instance"]
    solver.outcome, solver.error, solver.healthy = outcome, None, None
    kind = outcome["kind"]
    name = f"status:{outcome['status']}" if kind == "status" else kind
    out.probes[name] += 1
    if kind != "exact":
        out.faults[name] += 1
        out.nontrivial = True
    calls = solver.calls
    result = error = None
    try:
        result = site["algorithm"].optimize()
    except (Exception, KeyboardInterrupt) as caught:
        error = caught
    site["guard"].check(out, f"{label} ({name})")
    if result is None:
        out.log(label, name, "raised", type(error).__name__)
        out.state([outcome, type(error).__name__])
        out.probes["raised"] += 1
        site["failed"] = True
        if solver.healthy and _ambiguous(instance):
            out.probes["ambiguous"] += 1
        elif solver.healthy:
            out.add("refused", f"{label}: a proper solution of the solver ({name}) ended in {type(error).__name__}: "
                               f"{error}")
        if kind == "exact" and solver.healthy is False:
            out.probes["infeasible-instance"] += 1
        if solver.error is not None and isinstance(solver.error, KeyboardInterrupt) and error is not solver.error:
            out.add("swallowed", f"{label}: the interrupt became {type(error).__name__}")
        return
    routes = oracle.extract(result.planning)
    out.log(label, name, "returned", oracle.digest(routes))
    out.state([name, oracle.visits(result.planning)])
    out.probes["returned"] += 1
    out.probes["again-after-failure"] += site["failed"]
    if solver.calls == calls:
        out.log("the solver was not asked")
    if solver.error is not None:
        out.add("swallowed", f"{label}: {type(solver.error).__name__} of the solver did not reach the caller")
    found = oracle.Violations()
    oracle.check_conservation(instance, routes, found)
    oracle.check_routes(instance, routes, found)
    lost = {t["id"] for t in instance["trips"]} - oracle.served(routes)
    if lost:
        found.add("dropped", f"trips {sorted(lost)} are not served")
    for violation, message in found:
        out.add(violation, f"{label}: with the outcome {name}, {message}")
    if not found and not result.feasible:
        out.add("not-feasible", f"{label}: with the outcome {name}, the planning is reported as not feasible")


def _ambiguous(instance):
    """Whether services that take no time share a place: the model does not tell in which order they are visited."""
    places = [tuple(t[end]) for t in instance["trips"] for end in "od" if t[end + "d"] == 0]
    return len(set(places)) < len(places)


def shrinks(scenario):
    steps = scenario["steps"]
    for i in range(len(steps)):
        yield dict(copy.deepcopy(scenario), steps=steps[:i] + steps[i + 1:])
    if scenario.get("without_assertions"):
        yield dict(copy.deepcopy(scenario), without_assertions=False)
    for i, instance in enumerate(scenario["instances"]):
        if len(scenario["instances"]) > 1:
            yield dict(copy.deepcopy(scenario), instances=scenario["instances"][:i] + scenario["instances"][i + 1:])
        for variant in instances.shrinks(instance):
            smaller = copy.deepcopy(scenario)
            smaller["instances"][i] = variant
            yield smaller
    for i, step in enumerate(steps):
        if step["algorithm"] != "new":
            smaller = copy.deepcopy(scenario)
            smaller["steps"][i]["algorithm"] = "new"
            yield smaller
    yield from common.world_shrinks(scenario)
