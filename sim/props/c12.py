"""C12: loading is all or nothing."""
import copy
import os

from .. import common, fs, instances, kernel, oracle, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 5000, "thorough": 100000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run writes versions of an instance file (complete ones, and broken ones with missing rows, cut rows, garbled "
        "values, nothing at all) and creates loaders that read the job, the fleet and the surface in any order, several "
        "times, while files are atomically replaced between and during the reads, reads fail or come back short, and "
        "interrupts, allocation failures and disk errors strike at any file operation or line. Every successful load is "
        "decoded and must equal one complete version that was there; after a failure the same loader and a new one are "
        "tried again. Non-trivial: some fault fired or the file was replaced or broken. Distinct: by scenario.")
STATE_MEASURE = "distinct sequences of steps with their outcomes"
REAL = ["jinete.loaders (FileLoader, formatters)", "jinete.models", "pathlib, io buffering and text layers"]
STUB = ["the disk below the raw file layer (real files of a scratch directory, with faults)",
        "entropy, clocks and hashes (simulated)"]
ASSUMPTIONS = ["files are replaced by renaming a complete new file over them, never rewritten in place while read",
               "damage shows: rows are missing, too short or not numeric (a plausible other number can not be noticed)"]
KINDS = ("eio", "eio", "short-read", "short-read", "interrupt", "memory", "eacces", "emfile", "estale")
BREAKS = ("rows", "cut", "garble", "empty", "gone", "directory", "middle", "binary", "bytes", "bytes")
EXPECTED_PROBES = ["loaded", "failed", "recovered", "swapped-while-loading", "line-fault"] + \
    ["break:" + b for b in BREAKS] + sorted(set(KINDS))


def generate(rng, tier):
    kind = rng.choice(("cordeau", "hashcode"))
    versions = []
    for _ in range(rng.randint(1, 3)):
        n = rng.choice((1, 2, 3, 5, 5, 150))
        versions.append(instances.file_instance(rng, kind, n, rng.randint(1, 4)))
        if versions and rng.random() < 0.5:
            # Nearly the same instance: mixtures of versions look plausible.
            variant = copy.deepcopy(versions[0])
            for trip in variant["trips"]:
                trip["o"] = [c + 1 for c in trip["o"]]
            for vehicle in variant["vehicles"]:
                vehicle["cap" if kind == "cordeau" else "dl"] += 1
            versions.append(variant)
    steps = []
    for _ in range(rng.randint(2, 8)):
        op = rng.choice(("load",) * 5 + ("new", "new", "replace", "break", "break"))
        step = {"op": op, "seed": rng.getrandbits(32)}
        if op == "load":
            step["faults"] = [_fault(rng) for _ in range(rng.choice((0, 0, 1, 1, 2)))]
            if not step["faults"] and rng.random() < 0.4:
                step["line"] = {"at": rng.choice((rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 3000))),
                                "kind": rng.choice(("interrupt", "memory"))}
            if rng.random() < 0.3:
                step["swap"] = {"op": rng.randint(0, 6), "what": rng.choice(("replace", "replace", "break"))}
        steps.append(step)
    return {"kind": kind, "versions": versions, "steps": steps, "world": common.world_params(rng),
            "style": rng.randrange(4)}


def _fault(rng):
    return {"op": rng.randint(0, 8), "kind": rng.choice(KINDS), "when": rng.choice(("before", "before", "after")),
            "n": rng.choice((1, 7, 100, 5000)), "repeat": rng.choice((1, 1, 3, 50))}


def text_of(instance, kind, style):
    text = instances.file_text(instance, kind, separator=("  ", " ", "\t", " ")[style], final_newline=style != 1)
    return text.replace("\n", "\r\n") if style == 3 else text


def broken(rng, text, how, kind):
    """A damaged text, or None for a file that is not there."""
    rows = text.split("\n")
    count = len([r for r in rows if r.strip()])
    if how == "rows":
        return "\n".join(rows[:rng.randint(1, count - 1)]) + "\n"
    if how == "middle":
        del rows[rng.randint(1 if kind == "hashcode" else 2, count - 1)]
        return "\n".join(rows)
    if how == "cut":
        # The last row that is left misses some of its columns.
        last = rng.randint(2 if kind == "cordeau" else 1, count - 1)
        columns = rows[last].split()
        return "\n".join(rows[:last] + [" ".join(columns[:rng.randint(1, len(columns) - 1)])])
    if how == "garble":
        row = rng.randint(0, count - 1)
        columns = rows[row].split()
        columns[rng.randrange(len(columns))] = rng.choice(("x", "1.2.3", "--", "1,5"))
        rows[row] = " ".join(columns)
        return "\n".join(rows)
    if how == "bytes":
        # Damaged so that it is no text any more, in the middle of a number or instead of one of its digits.
        places = [i for i, c in enumerate(text) if c.isdigit()]
        place = rng.choice(places)
        return text[:place] + rng.choice("\udcff\udc80\udcfe\udcc0") + text[place + rng.randint(0, 1):]
    if how == "binary":
        return "\x00\x01" + text[10:]
    return ""


def expected(instance, kind):
    """What loading a complete file must yield."""
    inf = instances.inf
    trips = []
    for i, t in enumerate(instance["trips"]):
        trips.append([str(i + 1) if kind == "cordeau" else str(i), list(map(float, t["o"])), list(map(float, t["d"])),
                      float(t["oe"]), float(t["ol"]), float(t["de"]), float(inf(t["dl"])), float(t["od"]),
                      float(t["dd"]), float(t["cap"]), float(inf(t["tmo"])), float(t["bonus"])])
    vehicles = [[str(i), list(map(float, v["o"])), float(v["cap"]), float(inf(v["tmo"])),
                 float(inf(v["dl"])) if kind == "hashcode" else 0.0] for i, v in enumerate(instance["vehicles"])]
    return {"trips": sorted(trips), "vehicles": sorted(vehicles)}


def decoded(job, fleet, kind):
    from jinete import MAX_FLOAT

    def number(value):
        return float("inf") if value >= MAX_FLOAT else float(value)

    def place(position):
        return list(map(float, position.coordinates))

    return {
        "trips": sorted([t.identifier, place(t.origin.position), place(t.destination.position), float(t.origin.earliest),
                         number(t.origin.latest), float(t.destination.earliest), number(t.destination.latest),
                         float(t.origin.duration), float(t.destination.duration), float(t.capacity), number(t.timeout),
                         float(t.on_time_bonus)] for t in job.trips),
        "vehicles": sorted([v.identifier, place(v.origin.position), float(v.capacity), number(v.timeout),
                            number(v.origin.latest) if kind == "hashcode" else 0.0] for v in fleet.vehicles)}


class Site:
    def __init__(self, scenario, out, root):
        self.out, self.kind, self.style = out, scenario["kind"], scenario["style"]
        self.versions = scenario["versions"]
        self.root = os.path.join(root, "in")
        os.mkdir(self.root)
        self.path = os.path.join(self.root, "instance.txt")
        self.disk = fs.Disk(self.root)
        self.seen = []            # Every state of the file: an index into the versions, or None when broken.
        self.moves = 0
        self.expected = [expected(v, self.kind) for v in self.versions]
        self.put(0)
        self.loaders = []

    def _clear(self):
        if os.path.isdir(self.path):
            fs.REAL["rmdir"](self.path)
        elif os.path.lexists(self.path):
            fs.REAL["unlink"](self.path)

    def _write(self, text):
        other = self.path + ".next"
        with fs.real_open(other, "w", newline="", encoding="utf-8", errors="surrogateescape") as file:
            file.write(text)
        if os.path.isdir(self.path):
            fs.REAL["rmdir"](self.path)
        fs.REAL["replace"](other, self.path)

    def put(self, index):
        self._write(text_of(self.versions[index], self.kind, self.style))
        self.seen.append(index)

    def replace(self, rng):
        self.put(rng.randrange(len(self.versions)))
        self.out.log("replaced by", self.seen[-1])
        self.moves += 1

    def damage(self, rng):
        how = rng.choice(BREAKS)
        text = text_of(rng.choice(self.versions), self.kind, self.style)
        if how in ("gone", "directory"):
            self._clear()
            if how == "directory":
                fs.REAL["mkdir"](self.path)
        else:
            self._write(broken(rng, text, how, self.kind))
        self.seen.append(None)
        self.out.probes["break:" + how] += 1
        self.out.log("broken:", how)
        self.moves += 1

    def new(self, rng):
        import jinete as jit
        from pathlib import Path

        formatter = jit.HashCodeLoaderFormatter if self.kind == "hashcode" else jit.CordeauLaporteLoaderFormatter
        path = Path(self.path) if rng.random() < 0.7 else self.path
        self.loaders.append({"loader": jit.FileLoader(file_path=path, formatter_cls=formatter), "since": None,
                             "failed": False})

    def load(self, step):
        out, disk, rng = self.out, self.disk, kernel.stream("load", step["seed"])
        if not self.loaders or rng.random() < 0.2:
            self.new(rng)
        entry = self.loaders[-1] if rng.random() < 0.7 else rng.choice(self.loaders)
        before = len(self.seen) - 1
        if entry["since"] is None:
            entry["since"] = before
        disk.faults = [dict(f) for f in step.get("faults", ())]
        disk.fired, disk.trace, disk.ops = [], [], 0
        disk.observers = []
        swap = step.get("swap")
        if swap:
            done = []

            def observer():
                if not done and disk.ops > swap["op"]:
                    done.append(1)
                    (self.replace if swap["what"] == "replace" else self.damage)(kernel.stream("swap", step["seed"]))
                    out.probes["swapped-while-loading"] += 1

            disk.observers.append(observer)
        names = ["job", "fleet"]
        rng.shuffle(names)
        for _ in range(rng.randint(0, 2)):
            names.insert(rng.randint(0, len(names)), rng.choice(("surface", "job", "fleet")))
        steps = None
        if step.get("line"):
            steps = sched.Steps(crash_at=step["line"]["at"],
                                error={"interrupt": KeyboardInterrupt, "memory": MemoryError}[step["line"]["kind"]])
        error, values = None, {}
        try:
            with disk:
                if steps is not None:
                    steps.__enter__()
                try:
                    for name in names:
                        values[name] = getattr(entry["loader"], name)
                finally:
                    if steps is not None:
                        steps.__exit__()
        except (Exception, KeyboardInterrupt) as caught:
            error = caught
        fired = [kind for _, _, kind in disk.fired]
        for kind in fired:
            out.faults[kind] += 1
        struck = bool(steps and steps.fired)
        if struck:
            out.faults["line-" + step["line"]["kind"]] += 1
            out.probes["line-fault"] += 1
        harmless = not struck and not [k for k in fired if k != "short-read"]
        out.nontrivial |= bool(fired) or struck or self.moves > 0
        self.judge(entry, names, values, error, harmless, before)

    def judge(self, entry, names, values, error, harmless, before):
        out = self.out
        window = self.seen[before:]
        out.log(self.loaders.index(entry), names, type(error).__name__, "file", window)
        out.state([names, type(error).__name__, window, entry["failed"]])
        if error is not None:
            out.probes["failed"] += 1
            entry["failed"] = True
            # A loader may also fail because of what it read earlier, unless that is over and the file is complete.
            if harmless and None not in window:
                out.add("refused", f"a load from a complete file failed with {type(error).__name__}: {error}"
                                   + (" after an earlier failure" if before > entry["since"] or entry["failed"] else ""))
            return
        out.probes["loaded"] += 1
        out.probes["recovered"] += entry["failed"]
        entry["failed"] = False
        found = decoded(values["job"], values["fleet"], self.kind)
        matches = [i for i, e in enumerate(self.expected) if _equal(e, found)]
        candidates = {v for v in self.seen[entry["since"]:] if v is not None}
        if not matches:
            parts = [[i for i, e in enumerate(self.expected) if _equal(e[key], found[key])]
                     for key in ("trips", "vehicles")]
            out.add("mixed" if all(parts) else "partial",
                    f"a load yielded {len(found['trips'])} trips and {len(found['vehicles'])} vehicles that no complete "
                    f"version describes (versions with these trips: {parts[0]}, with these vehicles: {parts[1]})")
        elif not set(matches) & candidates:
            out.add("stale", f"a load yielded version {matches} but the file held {sorted(candidates)} since the loader "
                             f"was first used")


def _equal(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(_equal(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(_equal(x, y) for x, y in zip(a, b))
    return oracle.close(a, b) if isinstance(a, float) else a == b


def execute(scenario, out):
    with common.world(scenario["world"]) as w, common.scratch() as root:
        site = Site(scenario, out, root)
        for step in scenario["steps"]:
            rng = kernel.stream("step", step["seed"])
            if step["op"] == "load":
                site.load(step)
            else:
                {"new": site.new, "replace": site.replace, "break": site.damage}[step["op"]](rng)
            if out.violations:
                break
        else:
            # Once the causes are gone, every loader and a new one load the complete instance.
            site.put(site.seen[-1] if site.seen[-1] is not None else 0)
            for i in range(len(site.loaders) + 1):
                if out.violations:
                    break
                if i == len(site.loaders):
                    site.new(kernel.stream("last"))
                entry = site.loaders[i]
                if entry["since"] is None:
                    entry["since"] = len(site.seen) - 1
                error, values = None, {}
                try:
                    values = {"job": entry["loader"].job, "fleet": entry["loader"].fleet}
                except Exception as caught:
                    error = caught
                site.judge(entry, ["job", "fleet"], values, error, True, len(site.seen) - 1)
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    steps = scenario["steps"]
    for i in range(len(steps)):
        if len(steps) > 1:
            yield dict(copy.deepcopy(scenario), steps=steps[:i] + steps[i + 1:])
    for i, step in enumerate(steps):
        for key in ("swap", "line", "faults"):
            if step.get(key):
                smaller = copy.deepcopy(scenario)
                del smaller["steps"][i][key]
                yield smaller
        for j in range(len(step.get("faults", ()))):
            smaller = copy.deepcopy(scenario)
            del smaller["steps"][i]["faults"][j]
            yield smaller
    if len(scenario["versions"]) > 1:
        for i in range(len(scenario["versions"])):
            yield dict(copy.deepcopy(scenario), versions=scenario["versions"][:i] + scenario["versions"][i + 1:])
    for i, version in enumerate(scenario["versions"]):
        for variant in instances.shrinks(version):
            smaller = copy.deepcopy(scenario)
            smaller["versions"][i] = variant
            yield smaller
    if scenario["style"]:
        yield dict(copy.deepcopy(scenario), style=0)
    yield from common.world_shrinks(scenario)
