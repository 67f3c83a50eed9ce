"""C04: improving never makes a solution worse."""
import copy

from .. import common, configs, instances, oracle, plans

LEVEL = "exploration"
RUNS = {"quick": 3200, "thorough": 60000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run is one of: a local search (every neighbourhood, objective and threshold) from a solved or adversarial "
        "hand-built start, with the objective recomputed before and after; a local search over scripted neighbours; an iterated algorithm over scripted or real "
        "recorded episodes; a sequence over scripted stages; a GRASP with recorded first solutions. Worlds decide every "
        "iteration order. Non-trivial: the start served a trip, or more than one stage or episode ran. "
        "Distinct: by scenario.")
STATE_MEASURE = "distinct (start, outcome) pairs of plannings"
REAL = ["local searches, IterativeAlgorithm, SequentialAlgorithm, GraspAlgorithm, objectives, insertion"]
STUB = ["in scripted runs, the inner algorithms (they return prepared results)",
        "hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["the class of instances is the one of sim/instances.py", "search samples, it does not enumerate"]
EXPECTED_PROBES = ["improved", "unchanged", "scripted-iterative", "scripted-sequential", "grasp", "recorded-iterative",
                   "scripted-neighbours", "direct"]


def generate(rng, tier):
    kind = rng.choice(("local",) * 6 + ("neighbours", "iterative", "sequential", "recorded", "grasp"))
    if rng.random() < 0.25:
        instance = instances.generate(rng, "hashcode", rng.randint(2, 6), rng.randint(1, 3))
    else:
        instance = instances.generate(rng, rng.choice(("cordeau", "hetero", "grid", "tight", "loose", "loose", "loose", "loose")),
                                      trips=rng.randint(2, 7 if kind == "local" else 4), vehicles=rng.randint(1, 4))
    if instance["profile"] == "loose" and rng.random() < 0.8:
        common.relax(rng, instance, wide=True if kind == "local" else None)
    scenario = {"kind": kind, "instance": instance, "world": common.world_params(rng)}
    if kind == "local":
        start = configs.planned(rng, instance, 1.0) if rng.random() < 0.7 else configs.insertion(rng)
        scenario["config"] = configs.local(rng, start)
        if rng.random() < 0.3:
            instance, scenario["config"] = common.fitted(rng, rng.randint(2, 6), kind="local")
            scenario["instance"] = instance
        scenario["config"]["threshold"] = rng.choice((1, 2, 3))
        scenario["direct"] = rng.random() < 0.5
    elif kind in ("iterative", "sequential", "neighbours"):
        count = rng.randint(1, 4)
        scenario["scripts"] = [plans.generate(rng, instance, True, merge=0.0, fill=rng.choice((1.0, 0.5)))
                               for _ in range(count)]
        if rng.random() < 0.3 and count > 1:
            scenario["scripts"][-1] = scenario["scripts"][0]
        scenario["initial"] = plans.generate(rng, instance, True, merge=0.0, fill=0.5)
        scenario["restart"] = rng.random() < 0.5
        scenario["seed"] = rng.getrandbits(31)
        scenario["threshold"] = rng.choice((1, 2, 3))
    elif kind == "recorded":
        scenario["config"] = {"alg": "iterative", "episodes": rng.randint(2, 4), "restart": rng.random() < 0.5,
                              "seed": rng.getrandbits(31), "inner": configs.insertion(rng)}
        scenario["config"]["inner"]["randomized_size"] = rng.choice((2, 3, 4))
    else:
        instance["objective"] = "DialARideObjective" if instance["profile"] != "hashcode" else "HashCodeObjective"
        scenario["config"] = {"alg": "grasp", "episodes": rng.choice((1, 2, 3)), "seed": rng.getrandbits(31),
                              "randomized_size": rng.choice((2, 3)), "first_episodes": rng.choice((1, 2))}
    scenario.update(common.before(rng, instance))
    return scenario


def _value(instance, result):
    return oracle.objective(instance, oracle.extract(result.planning))


def _key(result):
    return oracle.digest(oracle.extract(result.planning))


def _best(values):
    top = values[0]
    for value in values[1:]:
        if not oracle.better_or_equal(top, value):
            top = value
    return top


def _local(scenario, fleet, job, out):
    import jinete as jit

    instance = scenario["instance"]
    pairs = []

    def record(config, initial, result):
        if config["alg"] == "local":
            pairs.append((config, initial, result))
        elif config is scenario["config"]["initial"]:
            starts.append((_value(instance, result), _key(result)))

    starts = []
    configs.solve_chain(scenario["config"], fleet, job, record)
    (config, initial, result), = pairs
    before, key = starts[0]
    after = _value(instance, result)
    if not oracle.better_or_equal(after, before):
        out.add("worse", f"{config['strategy']}: from {before} to {after}")
    elif not oracle.better_or_equal(before, after):
        out.probes["improved"] += 1
    else:
        out.probes["unchanged"] += 1
    reported = result.optimization_value
    if not all(oracle.close(a, b) for a, b in zip(reported, after)):
        out.add("worse", f"{config['strategy']}: reports {reported} but its value is {after}")
    if _key(initial) != key:
        out.add("start-changed", f"{config['strategy']} changed the solution it started from")
    if scenario["direct"]:
        # The neighbourhood on its own, which the search would not take if it were worse.
        neighbour = getattr(jit, config["strategy"])(initial).improve()
        after = _value(instance, neighbour)
        out.probes["direct"] += 1
        if not oracle.better_or_equal(after, before):
            out.add("worse", f"{config['strategy']} on its own: from {before} to {after}")
        if _key(initial) != key:
            out.add("start-changed", f"{config['strategy']} on its own changed the solution it started from")
    if oracle.served(oracle.extract(initial.planning)):
        out.nontrivial = True
    out.state([key, _key(result)])
    out.log(config["strategy"], before, after)


class _Script:
    """Algorithm classes that return prepared results and record what they were given."""

    def __init__(self, instance, fleet, job, scripts):
        import jinete as jit

        self.instance = instance
        self.prepared = [plans.build(instance, fleet, job, script) for script in scripts]
        self.calls = []
        self.results = []
        outer = self

        class Scripted(jit.Algorithm):
            def __init__(self, *args, initial=None, tag=None, seed=None, **kwargs):
                super().__init__(*args, **kwargs)
                self.initial, self.tag = initial, tag

            def _optimize(self):
                outer.calls.append((self.tag, None if self.initial is None else _key(self.initial),
                                    None if self.initial is None else _value(instance, self.initial)))
                return outer.prepared[(len(outer.calls) - 1) % len(outer.prepared)]

            def optimize(self):
                result = super().optimize()
                outer.results.append(result)
                return result

        self.cls = Scripted


def _iterative(scenario, fleet, job, out):
    import jinete as jit

    instance, scripts = scenario["instance"], scenario["scripts"]
    script = _Script(instance, fleet, job, scripts)
    result = jit.IterativeAlgorithm(fleet=fleet, job=job, episodes=len(scripts), algorithm_cls=script.cls,
                                    restart_mode=scenario["restart"], seed=scenario["seed"]).optimize()
    values = [_value(instance, r) for r in script.results]
    _judge_episodes(scenario["restart"], len(scripts), script.calls, script.results, values, result, instance, out)
    out.probes["scripted-iterative"] += 1


def _judge_episodes(restart, episodes, calls, results, values, result, instance, out):
    if len(results) != episodes:
        out.add("episodes", f"{len(results)} episodes ran instead of {episodes}")
        return
    final = _value(instance, result)
    best = _best(values)
    if not oracle.better_or_equal(final, best):
        out.add("not-best", f"returned {final} but an episode reached {best} (episodes: {values})")
    if _key(result) not in [_key(r) for r in results]:
        out.add("not-best", "returned a solution that no episode produced")
    for i, (_, initial_key, initial_value) in enumerate(calls):
        if restart or i == 0:
            if initial_key is not None:
                out.add("hand-over", f"episode {i} was given a starting solution")
        elif initial_key is None:
            out.add("hand-over", f"episode {i} was not given the best solution so far")
        else:
            best = _best(values[:i])
            if not oracle.better_or_equal(initial_value, best):
                out.add("hand-over", f"episode {i} started from {initial_value} instead of the best so far {best}")
            if initial_key not in [_key(r) for r in results[:i]]:
                out.add("hand-over", f"episode {i} started from something no episode produced")
    if episodes > 1:
        out.nontrivial = True
    out.state([[_key(r) for r in results], _key(result)])
    out.log("episodes", values, "->", final)


def _recorded(scenario, fleet, job, out):
    import jinete as jit

    instance, config = scenario["instance"], scenario["config"]
    calls, results = [], []

    class Recorded(jit.InsertionAlgorithm):
        def optimize(self):
            initial = self.initial
            calls.append((None, None if initial is None else _key(initial),
                          None if initial is None else _value(instance, initial)))
            result = super().optimize()
            results.append(result)
            return result

    inner = configs.insertion_kwargs(config["inner"])
    del inner["seed"]
    result = jit.IterativeAlgorithm(fleet=fleet, job=job, episodes=config["episodes"], seed=config["seed"],
                                    restart_mode=config["restart"], algorithm_cls=Recorded, **inner).optimize()
    values = [_value(instance, r) for r in results]
    _judge_episodes(config["restart"], config["episodes"], calls, results, values, result, instance, out)
    out.probes["recorded-iterative"] += 1


def _sequential(scenario, fleet, job, out):
    import jinete as jit

    instance, scripts = scenario["instance"], scenario["scripts"]
    script = _Script(instance, fleet, job, scripts)
    initial = plans.result(fleet, job, plans.build(instance, fleet, job, scenario["initial"]))
    first = _key(initial)
    stages = [(script.cls, {"tag": i}) for i in range(len(scripts))]
    result = jit.SequentialAlgorithm(fleet=fleet, job=job, initial=initial, algorithms_cls=stages,
                                     seed=scenario["seed"]).optimize()
    tags = [tag for tag, _, _ in script.calls]
    if tags != list(range(len(scripts))):
        out.add("stages", f"the stages ran in the order {tags}")
    else:
        expected = [first] + [_key(r) for r in script.results[:-1]]
        given = [key for _, key, _ in script.calls]
        if given != expected:
            out.add("hand-over", f"the stages started from {given} instead of {expected}")
        if _key(result) != _key(script.results[-1]):
            out.add("hand-over", "the result is not the one of the last stage")
    out.probes["scripted-sequential"] += 1
    if len(scripts) > 1:
        out.nontrivial = True
    out.state([tags, _key(result)])


def _grasp(scenario, fleet, job, out):
    import jinete as jit

    instance, config = scenario["instance"], scenario["config"]
    firsts = []

    class First(jit.InsertionAlgorithm):
        def optimize(self):
            result = super().optimize()
            firsts.append(_value(instance, result))
            return result

    result = jit.GraspAlgorithm(
        fleet=fleet, job=job, episodes=config["episodes"], seed=config["seed"],
        first_solution_kwargs={"episodes": config["first_episodes"], "randomized_size": config["randomized_size"],
                               "algorithm_cls": First}).optimize()
    final = _value(instance, result)
    if len(firsts) != config["episodes"] * config["first_episodes"]:
        out.add("episodes", f"{len(firsts)} first solutions instead of {config['episodes']} times "
                            f"{config['first_episodes']}")
    elif not oracle.better_or_equal(final, _best(firsts)):
        out.add("not-best", f"GRASP returned {final} but constructed {firsts}")
    out.probes["grasp"] += 1
    if len(firsts) > 1:
        out.nontrivial = True
    out.state(oracle.visits(result.planning))
    out.log("grasp", firsts, final)


def _neighbours(scenario, fleet, job, out):
    """A neighbourhood that proposes prepared solutions, better and worse ones."""
    import jinete as jit

    instance = scenario["instance"]
    initial = plans.result(fleet, job, plans.build(instance, fleet, job, scenario["initial"]))
    prepared = [plans.build(instance, fleet, job, script) for script in scenario["scripts"]]
    before, key = _value(instance, initial), _key(initial)
    proposed = []

    class Neighbourhood(jit.LocalSearchStrategy):
        def _improve(self):
            if prepared:
                self._planning.routes = prepared.pop(0).routes
            proposed.append(_value(instance, self.result))

    result = jit.LocalSearchAlgorithm(fleet=fleet, job=job, initial=initial, strategy_cls=Neighbourhood,
                                      no_improvement_threshold=scenario["threshold"]).optimize()
    after = _value(instance, result)
    if not oracle.better_or_equal(after, before):
        out.add("worse", f"from {before} to {after}, where the neighbours were {proposed}")
    if _key(initial) != key:
        out.add("start-changed", "the local search changed the solution it started from")
    out.probes["scripted-neighbours"] += 1
    out.nontrivial = True
    out.state([key, _key(result)])
    out.log("neighbours", before, proposed, after)


def execute(scenario, out):
    with common.world(scenario["world"]) as w:
        common.do_before(scenario, out)
        fleet, job = instances.build(scenario["instance"])
        {"local": _local, "iterative": _iterative, "sequential": _sequential, "recorded": _recorded,
         "grasp": _grasp, "neighbours": _neighbours}[scenario["kind"]](scenario, fleet, job, out)
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    yield from common.before_shrinks(scenario)
    if scenario["kind"] in ("iterative", "sequential", "neighbours"):
        for i in range(len(scenario["scripts"])):
            if len(scenario["scripts"]) > 1:
                smaller = copy.deepcopy(scenario)
                del smaller["scripts"][i]
                yield smaller
        for trip in scenario["instance"]["trips"]:
            if len(scenario["instance"]["trips"]) > 1:
                smaller = copy.deepcopy(scenario)
                smaller["instance"]["trips"] = [t for t in smaller["instance"]["trips"] if t["id"] != trip["id"]]
                smaller["scripts"] = [plans.without(p, trip["id"]) for p in smaller["scripts"]]
                smaller["initial"] = plans.without(smaller["initial"], trip["id"])
                yield smaller
        yield from common.world_shrinks(scenario)
        return
    if scenario["kind"] == "local":
        for config in configs.shrinks(scenario["config"]):
            if config["alg"] == "local":
                yield dict(copy.deepcopy(scenario), config=copy.deepcopy(config))
        if scenario["config"]["threshold"] > 1:
            yield dict(copy.deepcopy(scenario), config=dict(copy.deepcopy(scenario["config"]), threshold=1))
    elif scenario["kind"] == "grasp":
        yield from configs.alternatives(scenario)
    elif scenario["config"]["episodes"] > 2:
        smaller = copy.deepcopy(scenario)
        smaller["config"]["episodes"] -= 1
        yield smaller
    yield from common.instance_shrinks(scenario)
    yield from common.world_shrinks(scenario)
