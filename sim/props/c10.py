"""C10: copies and candidates never leak into their source."""
import copy

from .. import common, configs, instances, kernel, oracle, plans
from . import c09

LEVEL = "exploration"
RUNS = {"quick": 5000, "thorough": 120000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run grows a family of routes from a planning: clones at any index, deep copies of routes, plannings and "
        "results, insertion candidates of every strategy, improved and warm-started solutions, copies of copies. Any "
        "member is edited at random in the part it shares with nobody, or read, in any order. After every step the "
        "structure (identity of routes, stops, links and planned trips) of all the other members must be unchanged; at "
        "random points and at the end every member must match its own reference model. Non-trivial: some member was "
        "edited while another one existed. Distinct: by scenario.")
STATE_MEASURE = "distinct sequences of visits reached"
REAL = ["jinete.models (routes, cloner, stops, planned trips, plannings, results)",
        "jinete.algorithms (insertion strategies, local search strategies, insertion algorithm)"]
STUB = ["hashes of models, entropy, process-wide random generator, clocks (simulated)"]
ASSUMPTIONS = ["a stop that several routes share is edited by none of them; the first stop after the shared part counts "
               "as the copy's own",
               "service times are adjusted through Stop.starting_time followed by Route.flush, as the library does"]
EDITS = tuple(op for op in c09.OPS if op not in ("deepcopy", "clone", "check", "read"))
OPS = ("edit",) * 10 + ("read",) * 6 + ("clone",) * 4 + ("deepcopy",) * 2 + ("planning", "result") + \
    ("candidates",) * 4 + ("improve", "warm", "check", "check")
EXPECTED_PROBES = ["op:" + op for op in sorted(set(OPS))] + ["partial-clone", "edited-beside-shared"]
MAX_MEMBERS = 12


def generate(rng, tier):
    instance = instances.generate(rng, trips=rng.randint(1, 6), vehicles=rng.randint(1, 2))
    feasible = rng.random() < 0.6
    if rng.random() < 0.4:
        common.relax(rng, instance)
    merge = 0.5 if rng.random() < 0.2 else 0.0
    return {"instance": instance, "world": common.world_params(rng), "merged": merge > 0.0,
            "plan": plans.generate(rng, instance, feasible, 0.1, merge=merge, fill=rng.choice((0.7, 0.7, 1.0))),
            "history": [[rng.choice(OPS), rng.getrandbits(32)]
                        for _ in range(rng.randint(2, 12 if tier == "quick" else 24))]}


class Member(c09.History):
    """One route of the family, together with the model of what it should be."""

    def __init__(self, family, raw_vehicle, vehicle, route, model, exact):
        self.family, self.out, self.instance = family, family.out, family.instance
        self.fleet, self.job, self.trips, self.raw = family.fleet, family.job, family.trips, family.raw
        self.raw_vehicle, self.vehicle, self.route = raw_vehicle, vehicle, route
        self.model, self.exact = model, exact
        self.have_read = self.edited_after_read = False

    def lower(self):
        foreign = {id(s) for m in self.family.members if m is not self for s in m.route.stops}
        shared = [i for i, s in enumerate(self.route.stops) if id(s) in foreign]
        return shared[-1] + 1 if shared else 0

    def fork(self, route):
        return Member(self.family, self.raw_vehicle, self.vehicle, route, copy.deepcopy(self.model), self.exact)

    def derived(self, route):
        """A route whose service times are the library's choice."""
        model = [{"pos": tuple(map(float, s.position.coordinates)), "r": None,
                  "p": sorted(pt.trip.identifier for pt in s.pickup_planned_trips),
                  "d": sorted(pt.trip.identifier for pt in s.delivery_planned_trips)} for s in route.stops]
        return Member(self.family, self.raw_vehicle, self.vehicle, route, model, False)

    def structure(self):
        return (id(self.route), id(self.route.vehicle), [
            (id(s), id(s.vehicle), id(s.position), id(s.previous),
             sorted((pt.trip.identifier, id(pt), id(pt.trip), id(pt.pickup), id(pt.delivery))
                    for pt in s.pickup_planned_trips),
             sorted((pt.trip.identifier, id(pt), id(pt.trip), id(pt.pickup), id(pt.delivery))
                    for pt in s.delivery_planned_trips))
            for s in self.route.stops])

    def visits(self):
        return [(tuple(s["pos"]), tuple(sorted(s["p"])), tuple(sorted(s["d"]))) for s in self.model]


class Family:
    def __init__(self, scenario, out):
        self.instance, self.out, self.merged = scenario["instance"], out, scenario["merged"]
        self.fleet, self.job = instances.build(self.instance)
        self.trips = {t.identifier: t for t in self.job.trips}
        self.raw = {t["id"]: t for t in self.instance["trips"]}
        vehicles = {v.identifier: v for v in self.fleet.vehicles}
        self.members, group = [], []
        for raw in self.instance["vehicles"]:
            if raw["id"] not in scenario["plan"]:
                continue
            stops = scenario["plan"][raw["id"]]
            route = plans.build_route(self.instance, vehicles[raw["id"]], self.job, stops)
            model = [{"pos": pos, "p": list(p), "d": list(d), "r": None}
                     for pos, p, d in plans.sequence(self.instance, raw, stops)]
            for i, stop in enumerate(stops):
                model[i + 1]["r"] = stop[2]
            group.append(Member(self, raw, vehicles[raw["id"]], route, model, True))
        self.members += group
        self.groups = [group]
        self.raw_state = common.raw_state(self.fleet, self.job)
        self.edits = 0

    def apply(self, op, seed):
        rng = kernel.stream("family", seed)
        before = [(m, m.structure()) for m in self.members]
        done = getattr(self, "_" + op)(rng)
        if done is False:
            return
        self.out.probes["op:" + op] += 1
        for member, structure in before:
            if member is not done and member.structure() != structure:
                self.out.add("leak", f"{op}: a route that was not edited changed "
                                     f"({len(structure[2])} stops before, {len(member.route.stops)} now)")
                return

    # -- steps; each returns the member it edited, None, or False if it does not apply

    def _edit(self, rng):
        member = rng.choice(self.members)
        op = rng.choice(EDITS)
        if self.merged and op in ("remove", "reject-remove"):
            return False
        shares = 0 < member.lower() < len(member.model)
        if getattr(member, "_" + op.split("-")[0])(rng, op) is False:
            return False
        self.out.log(" ", op, self.members.index(member))
        self.edits += len(self.members) > 1
        self.out.probes["edited-beside-shared"] += shares
        return member

    def _read(self, rng):
        rng.choice(self.members)._read(rng, "read")

    def _check(self, rng=None):
        for member in self.members:
            if not self.out.violations:
                member._check()
        if not self.out.violations and common.raw_state(self.fleet, self.job) != self.raw_state:
            self.out.add("leak", "the instance changed")

    def _equal(self, rng, source, copied):
        """Compare a fresh copy with its source, sometimes reading one or the other first, often not at all."""
        if rng.random() < 0.5:
            pair = [(m.route.feasible, oracle.extract_routes([m.route])) for m in
                    ((source, copied) if rng.random() < 0.5 else (copied, source))]
            if pair[0] != pair[1]:
                self.out.add("unequal", f"a fresh copy differs from its source: {pair}")

    def _clone(self, rng):
        if len(self.members) >= MAX_MEMBERS:
            return False
        source = rng.choice(self.members)
        index = rng.randint(0, len(source.model))
        route = source.route.clone(index)
        copied = source.fork(route)
        self.members.append(copied)
        own = sum(1 for a, b in zip(source.route.stops, route.stops) if a is not b)
        self.out.probes["partial-clone"] += 0 < own < len(route.stops)
        if own < len(source.model) - index:
            self.out.add("shared", f"a clone from index {index} on owns only {own} of its {len(source.model)} stops")
        self._equal(rng, source, copied)

    def _deepcopy(self, rng):
        if len(self.members) >= MAX_MEMBERS:
            return False
        source = rng.choice(self.members)
        copied = source.fork(copy.deepcopy(source.route))
        self.members.append(copied)
        self._disjoint([source], [copied])
        self._equal(rng, source, copied)

    def _disjoint(self, sources, copies):
        parts = [{id(x) for m in ms for s in m.route.stops for x in (s, *s.pickup_planned_trips, *s.delivery_planned_trips)}
                 for ms in (sources, copies)]
        if parts[0] & parts[1]:
            self.out.add("shared", "a deep copy shares stops or planned trips with its source")

    def _planning(self, rng, through=lambda self, planning: copy.deepcopy(planning)):
        import jinete as jit

        group = rng.choice(self.groups)
        if len(self.members) + len(group) > MAX_MEMBERS:
            return False
        made = self._adopt(group, through(self, jit.Planning({m.route for m in group})), Member.fork)
        if made:
            self._disjoint(group, made)
            for source, copied in zip(group, made):
                self._equal(rng, source, copied)

    def _adopt(self, group, planning, how):
        """Make the routes of a planning members of the family, each as a copy of the group's one for its vehicle."""
        routes = {r.vehicle.identifier: r for r in planning.routes}
        if len(routes) != len(planning.routes) or not set(routes) >= {m.raw_vehicle["id"] for m in group}:
            self.out.add("unequal", f"a copy has routes for {sorted(r.vehicle.identifier for r in planning.routes)}")
            return []
        made = [how(m, routes[m.raw_vehicle["id"]]) for m in group]
        self.members += made
        self.groups.append(made)
        return made

    def _result(self, rng):
        def through(self, planning):
            source = plans.result(self.fleet, self.job, planning, 1.5)
            copied = copy.deepcopy(source)
            if copied.planning is planning or copied.computation_time != 1.5:
                self.out.add("unequal", "a deep copy of a result is not a copy")
            return copied.planning

        return self._planning(rng, through)

    def _candidates(self, rng):
        import jinete as jit

        if len(self.members) + 3 > MAX_MEMBERS:
            return False
        source = rng.choice(self.members)
        absent = sorted(set(self.trips) - set(source.planned()))
        if not absent:
            return False
        name = rng.choice(("InsertionStrategy",) * 2 + configs.STRATEGIES)
        strategy = getattr(jit, name)(only_feasible=rng.random() < 0.3)
        trips = [self.trips[t] for t in rng.sample(absent, rng.randint(1, min(2, len(absent))))]
        given = trips[0] if len(trips) == 1 and rng.random() < 0.5 else trips
        if name == "InsertionStrategy":
            i = rng.randint(0, len(source.model) - 2)
            j = rng.randint(i + 1, len(source.model) - 1)
            found = strategy.compute(source.route, given, i, j)
        else:
            found = strategy.compute(source.route, given)
        for route in rng.sample(list(found), min(3, len(found))):
            member = source.derived(route)
            added = set(member.planned()) - set(source.planned())
            rest = [(pos, p, d) for pos, p, d in member.visits() if not added & {*p, *d}]
            if len(added) != 1 or not added <= {t.identifier for t in trips} or rest != source.visits():
                self.out.add("unequal", f"a candidate is not its source with one of the trips: {member.visits()}")
                return None
            self.members.append(member)
        self.out.probes["candidates"] += len(found)
        return None

    def _solve(self, rng, solve):
        import jinete as jit

        group = rng.choice(self.groups)
        if len(self.members) + len(group) > MAX_MEMBERS or self.merged or \
                any(not (s["p"] or s["d"]) for m in group for s in m.model[1:-1]):
            return False
        served = [t for m in group for t in m.planned()]
        planning = jit.Planning({m.route for m in group})
        if len(set(served)) != len(served) or not planning.feasible:
            return False
        result = solve(plans.result(self.fleet, self.job, planning))
        made = self._adopt(group, result.planning, Member.derived)
        if made:
            self._disjoint(group, made)
        return None

    def _improve(self, rng):
        import jinete as jit

        name = rng.choice(configs.LOCAL)
        return self._solve(rng, lambda result: getattr(jit, name)(result).improve())

    def _warm(self, rng):
        import jinete as jit

        kwargs = configs.insertion_kwargs(dict(configs.insertion(rng), max_size=24))
        return self._solve(rng, lambda result: jit.InsertionAlgorithm(fleet=self.fleet, job=self.job, initial=result,
                                                                      **kwargs).optimize())


def execute(scenario, out):
    with common.world(scenario["world"]) as w:
        family = Family(scenario, out)
        for op, seed in scenario["history"]:
            out.log(op)
            if family.members:
                family.apply(op, seed)
            if out.violations:
                break
        else:
            family._check()
        out.nontrivial = family.edits > 0
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    history = scenario["history"]
    for size in (len(history) // 2, len(history) // 4, 1):
        if size:
            for i in range(0, len(history), size):
                if size < len(history):
                    yield dict(copy.deepcopy(scenario), history=history[:i] + history[i + size:])
    yield from plans.shrinks(scenario)
    yield from common.world_shrinks(scenario)
