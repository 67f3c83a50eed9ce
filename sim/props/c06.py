"""C06: the same seed gives the same result."""
import copy
import random

from .. import common, configs, instances, oracle, runner, sched

LEVEL = "exploration"
RUNS = {"quick": 1300, "thorough": 40000}
REPEATS = {"quick": 40, "thorough": 400}
RULE = ("A run solves the same instance with the same configuration and seed in two simulated worlds with the same "
        "iteration orders that differ in entropy, clocks (epoch, tick, wall-clock jumps), the process-wide random "
        "generator (also drawn from during the solve) and the solves made before, and then a second time on the same "
        "objects; every planning of the chain must be the same and the process-wide generator undisturbed. Non-trivial: "
        "some trip was served and the configuration draws random numbers or the worlds differ in earlier solves. "
        "Distinct: by scenario.")
STATE_MEASURE = "distinct plannings (with times) returned"
REAL = ["all of jinete.models, jinete.algorithms (heuristics, metaheuristics), jinete.utils"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["both worlds draw the hashes of models from the same stream, in the order in which they are first needed"]
EXPECTED_PROBES = ["sampled-pairs", "randomized", "earlier-solves", "same-objects", "ambient-draws", "wall-jumps"]


def generate(rng, tier):
    instance, config = common.solvable(rng, "quick", heavy=0.12)
    world = common.world_params(rng)
    earlier = []
    for _ in range(rng.choice((0, 1, 1, 2, 2))):
        kind = rng.choice(("same", "related", "related", "related", "other"))
        if kind == "same":
            earlier.append([copy.deepcopy(instance), copy.deepcopy(config)])
            continue
        if kind == "related":
            related = instances.variant(rng, instance)
            del related["trips"][5:]
        else:
            related = instances.generate(rng, trips=rng.randint(1, 4), vehicles=rng.randint(1, 3))
        usable = "plan" not in str(config) and len(related["trips"]) == len(instance["trips"])
        earlier.append([related, copy.deepcopy(config) if usable and rng.random() < 0.6 else configs.generate(rng, 1)])
    return {"instance": instance, "config": config, "world": world, "earlier": earlier,
            "other": {"seed": rng.getrandbits(48), "epoch": rng.choice((0.0, 1.7e9, 4e9)),
                      "tick": rng.choice((0.0, 1e-6, 0.5))},
            "jumps": rng.choice((0, 0, 3600.0, -86400.0)),
            "draws": rng.choice((0, 0, 7, 1000)), "again": rng.random() < 0.6,
            "without_assertions": rng.random() < 0.1}


def _randomized(config):
    return config.get("randomized_size", 1) > 1 or any(_randomized(config[k]) for k in ("initial", "then", "inner")
                                                       if k in config)


def _chain(config, fleet, job, out, label, options=None):
    seen = []
    configs.solve_chain(config, fleet, job, lambda c, i, r: seen.append(oracle.extract(r.planning)), options)
    out.log(label, [oracle.digest(routes) for routes in seen])
    return seen


def _compare(reference, other, what, out):
    for i, (a, b) in enumerate(zip(reference, other)):
        if a != b:
            kind = "order" if [r["v"] for r in a] != [r["v"] for r in b] else "visits" if \
                [[(s["p"], s["d"]) for s in r["stops"]] for r in a] != \
                [[(s["p"], s["d"]) for s in r["stops"]] for r in b] else "times"
            out.add("differs", f"{what}: the {kind} of solution {i + 1} of {len(reference)} differ")
            return


def _reference(scenario, out):
    config, params = scenario["config"], scenario["world"]
    with common.world(params) as w:
        fleet, job = instances.build(scenario["instance"])
        common.touch(fleet, job)
        w.reset_layout(f"{params['seed']}/solve")
        state = random.getstate()
        reference = _chain(config, fleet, job, out, "reference")
        if random.getstate() != state:
            out.add("global-generator", "the solve changed the state of the process-wide random generator")
        if scenario["again"]:
            w.reset_layout(f"{params['seed']}/solve")
            _compare(reference, _chain(config, fleet, job, out, "again"), "solving the same objects again", out)
            out.probes["same-objects"] += 1
        common.note_world(out, w, params)
    return reference


def execute(scenario, out):
    instance, config = scenario["instance"], scenario["config"]
    params = scenario["world"]
    # In a process of its own: it must not prepare anything for the other world.
    reference = runner.isolated(lambda o: _reference(scenario, o), out)
    if reference is None:
        return
    other = dict(params, **scenario["other"])
    with common.world(other, layout_seed=params["seed"]) as w:
        options = {}
        for small, small_config in scenario["earlier"]:
            configs.solve_chain(small_config, *instances.build(small), lambda c, i, r: None, options)
            out.probes["earlier-solves"] += 1
        if scenario["jumps"]:
            def on_read(world_):
                if world_.clock_reads % 2:
                    world_.jump_wall(scenario["jumps"])
                    out.faults["wall-jump"] += 1

            w.on_clock_read = on_read
            out.probes["wall-jumps"] += 1
        w.reset_layout(params["seed"])
        fleet, job = instances.build(instance)
        common.touch(fleet, job)
        w.reset_layout(f"{params['seed']}/solve")
        if scenario["draws"]:
            def ambient(count):
                if count % scenario["draws"] == 0:
                    random.random()

            with sched.Steps(hook=ambient):
                second = _chain(config, fleet, job, out, "other world", options)
            out.probes["ambient-draws"] += 1
            out.faults["process-wide-generator-drawn"] += 1
        else:
            second = _chain(config, fleet, job, out, "other world", options)
        _compare(reference, second, "another clock, entropy and history", out)
        out.faults["other-entropy"] += 1
        out.sim_time += w.now

    for routes in reference:
        out.state(routes)
        if any(len(r["stops"]) >= 17 for r in routes):
            out.probes["sampled-pairs"] += 1
    randomized = _randomized(config)
    if randomized:
        out.probes["randomized"] += 1
    if oracle.served(reference[-1]) and (randomized or scenario["earlier"]):
        out.nontrivial = True


def shrinks(scenario):
    for i in range(len(scenario["earlier"])):
        smaller = copy.deepcopy(scenario)
        del smaller["earlier"][i]
        yield smaller
    for key, value in (("jumps", 0), ("draws", 0), ("again", False)):
        if scenario[key] != value:
            yield dict(copy.deepcopy(scenario), **{key: value})
    yield from common.shrinks(scenario)
