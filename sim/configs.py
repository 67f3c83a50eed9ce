"""Algorithm configurations as plain JSON: seeded generation, construction of the library's objects and shrinking."""
import copy
import json

from . import plans

STRATEGIES = ("SamplingInsertionStrategy", "IntensiveInsertionStrategy", "TailInsertionStrategy")
CRITERIA = ("EarliestLastDepartureTimeRouteCriterion", "ShortestTimeRouteCriterion", "LongestTimeRouteCriterion",
            "LongestUtilTimeRouteCriterion", "HashCodeRouteCriterion", "ShortestAveragePlannerTripDurationCriterion")
ITERATORS = ("RankingInsertionIterator", "StatelessInsertionIterator", "BestStatelessInsertionIterator")
LOCAL = ("ReallocationLocalSearchStrategy", "OneShiftLocalSearchStrategy", "TwoOPTLocalSearchStrategy")


def insertion(rng):
    return {"alg": "insertion", "iterator": rng.choice(ITERATORS), "strategy": rng.choice(STRATEGIES),
            "criterion": rng.choice(CRITERIA), "randomized_size": rng.choice((1, 1, 2, 4)),
            "seed": rng.randrange(1 << 31), "max_size": rng.choice((24, 24, None, 30, 24, None, 1, 2, 3))}


def local(rng, initial=None, strategy=None):
    return {"alg": "local", "strategy": strategy or rng.choice(LOCAL), "threshold": rng.choice((1, 1, 2)),
            "initial": initial or insertion(rng)}


def generate(rng, depth=2):
    kind = rng.choice(("insertion", "insertion", "local", "local", "warm", "iterative", "sequential", "grasp"))
    if kind == "insertion" or depth <= 0:
        return insertion(rng)
    if kind == "local":
        return local(rng, generate(rng, depth - 1))
    if kind == "warm":
        return {"alg": "warm", "initial": generate(rng, depth - 1), "then": insertion(rng)}
    if kind == "iterative":
        return {"alg": "iterative", "episodes": rng.choice((1, 2, 3)), "restart": rng.random() < 0.5,
                "seed": rng.randrange(1 << 31), "inner": insertion(rng)}
    if kind == "sequential":
        return {"alg": "sequential", "initial": generate(rng, depth - 1), "seed": rng.randrange(1 << 31),
                "stages": rng.choice((None, None, [["local", rng.choice(LOCAL)] if rng.random() < 0.6 else ["insertion"]
                                                   for _ in range(rng.randint(1, 3))]))}
    return {"alg": "grasp", "episodes": rng.choice((1, 2)), "randomized_size": rng.choice((1, 2, 3)),
            "first_episodes": rng.choice((1, 2)), "seed": rng.randrange(1 << 31)}


def planned(rng, instance, fill=0.8):
    """A hand-built feasible starting solution, sometimes without routes for the vehicles it does not use."""
    plan = plans.generate(rng, instance, True, merge=0.0, fill=fill)
    if rng.random() < 0.3:
        plan = {vehicle: stops for vehicle, stops in plan.items() if stops}
    return {"alg": "plan", "instance": instance, "plan": plan}


def with_start(rng, instance, config):
    """The configuration, its innermost starting solution sometimes replaced by a hand-built one."""
    if config["alg"] in ("local", "warm", "sequential"):
        if config["initial"]["alg"] in ("insertion", "iterative", "grasp"):
            if rng.random() < 0.4:
                return dict(config, initial=planned(rng, instance, rng.choice((1.0, 0.7, 0.4))))
            return config
        return dict(config, initial=with_start(rng, instance, config["initial"]))
    return config


def restrict(config, instance):
    """The configuration for a smaller instance: hand-built plans lose the trips and vehicles that are gone."""
    if config["alg"] == "plan":
        known = {t["id"] for t in instance["trips"]}
        vehicles = {v["id"] for v in instance["vehicles"]}
        plan = {v: stops for v, stops in config["plan"].items() if v in vehicles}
        for trip_id in sorted({t for stops in plan.values() for s in stops for t in s[0]} - known):
            plan = plans.without(plan, trip_id)
        return dict(config, instance=instance, plan=plan)
    if "initial" in config:
        return dict(config, initial=restrict(config["initial"], instance))
    return config


def build(config, fleet, job, solve=None, options=None):
    """Build the algorithm object; initial solutions are solved through ``solve(config)``."""
    solve = solve or (lambda c: run(c, fleet, job))
    initial = solve(config["initial"]) if "initial" in config else None
    return algorithm_cls(config)(fleet=fleet, job=job, **constructor_kwargs(config, initial, options))


def algorithm_cls(config):
    import jinete as jit

    return {"insertion": jit.InsertionAlgorithm, "warm": jit.InsertionAlgorithm, "local": jit.LocalSearchAlgorithm,
            "iterative": jit.IterativeAlgorithm, "sequential": jit.SequentialAlgorithm,
            "grasp": jit.GraspAlgorithm}[config["alg"]]


def constructor_kwargs(config, initial, options=None):
    """The arguments of the algorithm's constructor, except for the fleet and the job.

    ``options`` keeps the collections among them, which all the algorithms of a configuration are then given.
    """
    kwargs = _constructor_kwargs(config, initial)
    if options is not None:
        for name, value in kwargs.items():
            if isinstance(value, (dict, list)):
                key = json.dumps({k: v for k, v in config.items() if k != "initial"}, sort_keys=True) + name
                kwargs[name] = options.setdefault(key, value)
    return kwargs


def _constructor_kwargs(config, initial):
    import jinete as jit

    kind = config["alg"]
    if kind == "insertion":
        return insertion_kwargs(config)
    if kind == "warm":
        return dict(insertion_kwargs(config["then"]), initial=initial)
    if kind == "local":
        return dict(initial=initial, strategy_cls=getattr(jit, config["strategy"]),
                    no_improvement_threshold=config["threshold"])
    if kind == "iterative":
        inner = insertion_kwargs(config["inner"])
        del inner["seed"]
        return dict(episodes=config["episodes"], seed=config["seed"], restart_mode=config["restart"],
                    algorithm_cls=jit.InsertionAlgorithm, **inner)
    if kind == "sequential":
        stages = None
        if config["stages"] is not None:
            stages = []
            for stage in config["stages"]:
                if stage[0] == "local":
                    stages.append((jit.LocalSearchAlgorithm, {"strategy_cls": getattr(jit, stage[1])}))
                else:
                    stages.append((jit.InsertionAlgorithm, {}))
        return dict(initial=initial, algorithms_cls=stages, seed=config["seed"])
    return dict(episodes=config["episodes"], seed=config["seed"],
                first_solution_kwargs={"episodes": config["first_episodes"],
                                       "randomized_size": config["randomized_size"]})


def run(config, fleet, job):
    return solve_chain(config, fleet, job, lambda *args: None)


def insertion_kwargs(config):
    import jinete as jit

    kwargs = dict(iterator_cls=getattr(jit, config["iterator"]), strategy_cls=getattr(jit, config["strategy"]),
                  criterion_cls=getattr(jit, config["criterion"]), seed=config["seed"])
    if config["iterator"] != "StatelessInsertionIterator":
        kwargs["randomized_size"] = config["randomized_size"]
    if config["iterator"] == "RankingInsertionIterator":
        kwargs["neighborhood_max_size"] = config["max_size"]
    return kwargs


def solve_chain(config, fleet, job, record, options=None):
    """Solve the configuration; ``record(config, initial, result)`` sees every intermediate solution."""
    made = {}

    def solve(inner):
        result = solve_chain(inner, fleet, job, record, options)
        made["initial"] = result
        return result

    result = solve_stage(config, fleet, job, solve(config["initial"]) if "initial" in config else None,
                         options)
    record(config, made.get("initial"), result)
    return result


def solve_stage(config, fleet, job, initial, options=None):
    """Solve the last stage of a configuration, whose starting solution (if it has one) is given."""
    if config["alg"] == "plan":
        return plans.result(fleet, job, plans.build(config["instance"], fleet, job, config["plan"]), 1.0)
    return build(config, fleet, job, lambda inner: initial, options).optimize()


def shrinks(config):
    """Simpler configurations, most aggressive first."""
    if config["alg"] in ("local", "warm", "sequential"):
        yield config["initial"]
        for inner in shrinks(config["initial"]):
            yield dict(config, initial=inner)
    if config["alg"] == "plan":
        for smaller in plans.shrinks({"instance": copy.deepcopy(config["instance"]), "plan": config["plan"]}):
            if len(smaller["instance"]["vehicles"]) == len(config["instance"]["vehicles"]) and \
                    smaller["instance"]["vehicles"] == config["instance"]["vehicles"]:
                yield dict(config, plan=smaller["plan"])
    if config["alg"] == "warm":
        for inner in shrinks(config["then"]):
            yield dict(config, then=inner)
    if config["alg"] == "iterative":
        yield config["inner"]
        if config["episodes"] > 1:
            yield dict(config, episodes=config["episodes"] - 1)
    if config["alg"] == "sequential" and config["stages"]:
        for i in range(len(config["stages"])):
            if len(config["stages"]) > 1:
                yield dict(config, stages=config["stages"][:i] + config["stages"][i + 1:])
    if config["alg"] == "grasp":
        for key in ("episodes", "randomized_size", "first_episodes"):
            if config[key] > 1:
                yield dict(config, **{key: 1})
    if config["alg"] == "insertion":
        for key, value in (("iterator", ITERATORS[0]), ("strategy", STRATEGIES[1]), ("criterion", CRITERIA[0]),
                           ("randomized_size", 1), ("seed", 0), ("max_size", 24)):
            if config[key] != value:
                yield dict(config, **{key: value})


def alternatives(scenario, key="config"):
    for config in shrinks(scenario[key]):
        smaller = copy.deepcopy(scenario)
        smaller[key] = copy.deepcopy(config)
        yield smaller
