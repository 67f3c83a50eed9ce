"""C11: a stored file is always complete: the previous one or the new one."""
import copy
import os
import stat as stat_module

from .. import common, fs, instances, kernel, plans, sched

LEVEL = "fault_enumeration"
RUNS = {"quick": 4000, "thorough": 150000}
REPEATS = {"quick": 60, "thorough": 600}
RULE = ("A run stores texts one after the other in the same file (which exists or not, is a link or a plain file, beside "
        "neighbours with tempting names), each time under its own faults: errors at any file operation (also at fsync, "
        "close, rename and clean-up), short writes, a disk that fills up, formatters that fail, texts that can not be "
        "encoded, interrupts and allocation failures at any file operation or line, process crashes before, after or in "
        "the middle of any file operation or at any line, power losses, and a second storer of the same file in another "
        "thread. After every file operation the target must be complete. Non-trivial: some fault fired. Distinct: by "
        "scenario.")
STATE_MEASURE = "distinct sequences of file operations with the faults that hit them"
REAL = ["jinete.storers (FileStorer, formatters)", "pathlib, shutil, io buffering and text layers"]
STUB = ["the disk below the raw file layer: real files of a scratch directory plus a journal that tells what a power "
        "loss leaves (a prefix of the unsynced operations, the last one torn; fsync commits the names too)",
        "entropy, clocks and hashes (simulated)"]
ASSUMPTIONS = ["the file system makes a rename atomic with respect to crashes, as journaling ones do",
               "a process that was killed can not clean up after itself; only the target and files of others are judged",
               "interrupts between two lines of the library are not required to leave no temporary file behind"]
EXPECTED_PROBES = ["stored", "failed", "crashed", "power-loss", "power-loss-derived", "disk-full", "line-fault", "pair",
                   "kind:link", "kind:missing", "kind:plain", "kind:directory", "kind:nowhere", "format-error",
                   "unencodable"] + list(fs.APPLICABLE.keys() - {"short-read"})
NEIGHBOURS = ("{}.tmp", "{}.bak", "{}~", ".{}.tmp", ".{}.swp", "other.txt", "tmp", "{}.new", "{}.part", ".{}")
KINDS = tuple(k for k in fs.APPLICABLE if k != "short-read")


def generate(rng, tier):
    instance = instances.generate(rng, trips=rng.randint(1, 3), vehicles=rng.randint(1, 2))
    scenario = {
        "instance": instance, "world": common.world_params(rng),
        "plan": plans.generate(rng, instance, True, merge=0.0),
        "target": rng.choice(("plain", "plain", "plain", "missing", "missing", "link", "directory", "nowhere")),
        "name": rng.choice(("out.txt", "out", "solution.tar.gz", "a b.txt", "x" * 200)),
        "neighbours": rng.sample(NEIGHBOURS, rng.randint(0, 3)), "episodes": []}
    for _ in range(rng.choice((1, 1, 2, 3))):
        scenario["episodes"].append(_episode(rng))
    return scenario


def _text(rng):
    return {"kind": rng.choice(("columnar", "hashcode", "text", "text", "text", "text", "text", "error", "unencodable")),
            "size": rng.choice((0, 1, 20, 500, 9000, 9000, 30000)), "seed": rng.randrange(1000),
            "lines": rng.random() < 0.7}


def _episode(rng):
    episode = {"text": _text(rng), "faults": [], "limit": None, "line": None, "after": "none", "pair": None,
               "power": rng.getrandbits(32)}
    mode = rng.choice(("fault",) * 6 + ("none", "limit", "line", "line", "pair"))
    if mode == "fault":
        for _ in range(rng.choice((1, 1, 1, 2, 3))):
            episode["faults"].append(_fault(rng))
    elif mode == "limit":
        episode["limit"] = rng.choice((0, 1, 100, 5000, 8192, 10000, 20000))
    elif mode == "line":
        episode["line"] = {"at": rng.choice((rng.randint(1, 30), rng.randint(1, 30), rng.randint(1, 300))),
                           "kind": rng.choice(("crash", "crash", "interrupt", "memory"))}
    elif mode == "pair":
        episode["pair"] = {"text": dict(_text(rng), kind="text"),
                           "switches": [[rng.randint(1, 60), 0] for _ in range(rng.randint(1, 6))]}
        episode["text"]["kind"] = "text"
    if rng.random() < 0.3:
        episode["after"] = "power"
    return episode


def _fault(rng):
    return {"op": rng.randint(0, 14), "kind": rng.choice(KINDS + ("crash", "torn", "interrupt", "eio", "enospc")),
            "when": rng.choice(("before", "before", "after")), "n": rng.choice((0, 1, 7, 100, 5000)),
            "repeat": rng.choice((1, 1, 1, 3, 50))}


def content(text):
    size, rng = text["size"], kernel.stream("text", text["seed"])
    alphabet = "abcdefghij 0123456789.|" + ("\n" if text["lines"] else "")
    block = "".join(rng.choice(alphabet) for _ in range(min(size, 997)))
    whole = f"<{text['seed']}>" + (block * (size // max(1, len(block)) + 1))[:size]
    if text["kind"] == "unencodable":
        middle = len(whole) // 2
        whole = whole[:middle] + "\ud800" + whole[middle:]
    return whole


class FormatError(Exception):
    pass


def formatter(text):
    """The formatter class that yields the text, or fails to."""
    import jinete as jit

    if text["kind"] == "columnar":
        return jit.ColumnarStorerFormatter
    if text["kind"] == "hashcode":
        return jit.HashCodeStorerFormatter

    class Formatter(jit.StorerFormatter):
        def format(self):
            if text["kind"] == "error":
                raise FormatError("formatting failed")
            return content(text)

    return Formatter


class Storage:
    def __init__(self, scenario, out, root):
        self.out, self.scenario = out, scenario
        self.fleet, self.job = instances.build(scenario["instance"])
        planning = plans.build(scenario["instance"], self.fleet, self.job, scenario["plan"])
        self.result = plans.result(self.fleet, self.job, planning, 0.25)
        self.base = os.path.join(root, "d")
        os.mkdir(self.base)
        self.kind, name = scenario["target"], scenario["name"]
        self.path = os.path.join(self.base, name)
        out.probes["kind:" + self.kind] += 1
        if self.kind == "nowhere":
            self.path = os.path.join(self.base, "nowhere", name)
        if self.kind == "plain":
            self._put(self.path, b"previous\ncontent\n")
        if self.kind == "directory":
            os.mkdir(self.path)
        if self.kind == "link":
            os.mkdir(os.path.join(self.base, "far"))
            self._put(os.path.join(self.base, "far", "real.txt"), b"previous")
            os.symlink(os.path.join("far", "real.txt"), self.path)
        for pattern in scenario["neighbours"]:
            path = os.path.join(self.base, pattern.format(name))
            if len(os.path.basename(path)) < 250 and not os.path.lexists(path):
                self._put(path, b"neighbour " + pattern.encode())
        self.neighbours = self.others()
        self.disk = fs.Disk(self.base)
        self.disk.observers.append(self.observe)
        self.versions = {self.read()}
        self.allowed = set(self.versions)
        self.torn = None

    @staticmethod
    def _put(path, data):
        with fs.real_open(path, "wb") as file:
            file.write(data)

    def read(self):
        try:
            with fs.real_open(self.path, "rb") as file:
                return file.read()
        except OSError:
            return None

    def observe(self):
        if self.torn is None and self.read() not in self.allowed:
            self.torn = f"after {self.disk.trace[-1] if self.disk.trace else 'the start'}"

    def others(self):
        """Every other file, with its content."""
        found = {}
        real = os.path.realpath(self.path)
        for directory, folders, files in os.walk(self.base):
            for name in files:
                path = os.path.join(directory, name)
                if os.path.realpath(path) != real and stat_module.S_ISREG(os.lstat(path).st_mode):
                    with fs.real_open(path, "rb") as file:
                        found[os.path.relpath(path, self.base)] = file.read()
        return found

    def store(self, text):
        import jinete as jit
        from pathlib import Path

        jit.FileStorer(file_path=Path(self.path), result=self.result, formatter_cls=formatter(text)).store()

    def expected(self, text):
        if text["kind"] in ("error", "unencodable"):
            return None
        whole = formatter(text)(result=self.result).format()
        return whole.encode()

    def episode(self, episode):
        out, disk, text = self.out, self.disk, episode["text"]
        before, others = self.read(), self.others()
        new = self.expected(text)
        self.allowed = {before} | ({new} if new is not None else set())
        functions = [lambda: self.store(text)]
        if episode["pair"] is not None:
            self.allowed.add(self.expected(episode["pair"]["text"]))
            functions.append(lambda: self.store(episode["pair"]["text"]))
        disk.faults = [dict(f) for f in episode["faults"]]
        disk.limit, disk.fired, disk.ops, disk.trace, self.torn = episode["limit"], [], 0, [], None
        steps = None
        if episode["line"] is not None:
            kind = episode["line"]["kind"]
            error = {"crash": disk.kill, "interrupt": KeyboardInterrupt, "memory": MemoryError}[kind]
            steps = sched.Steps(crash_at=episode["line"]["at"], error=error)
        error = None
        try:
            with disk:
                if len(functions) > 1:
                    for outcome, value in sched.Scheduler(functions, episode["pair"]["switches"]).run():
                        if outcome == "error":
                            raise value
                elif steps is not None:
                    with steps:
                        self.store(text)
                else:
                    self.store(text)
        except (Exception, KeyboardInterrupt, fs.SimCrash) as caught:
            error = caught
        now = self.read()
        fired = [f[2] for f in disk.fired]
        for kind in fired:
            out.faults[kind] += 1
        if steps is not None and steps.fired:
            out.faults["line-" + episode["line"]["kind"]] += 1
            out.probes["line-fault"] += 1
        out.probes["pair"] += episode["pair"] is not None
        out.log(text["kind"], text["size"], "->", type(error).__name__, "|", *disk.trace, "|",
                steps.fired if steps else "")
        out.state([disk.trace, steps.fired if steps else None])
        out.nontrivial |= bool(fired) or bool(steps and steps.fired)
        self.judge(episode, before, now, others, new, error, fired, steps)
        if out.violations:
            return
        self.versions |= self.allowed
        if disk.dead or episode["after"] == "power":
            power = episode["after"] == "power"
            derived = disk.restart(kernel.stream("power", episode["power"]) if power else None)
            if power:
                out.faults["power-loss"] += 1
                out.probes["power-loss-derived"] += derived
                left = self.read()
                if left not in self.versions:
                    out.add("torn", f"after a power loss the target holds {_show(left)}, which was never stored "
                                    f"completely")
                for name, data in self.others().items():
                    if name in self.neighbours and data != self.neighbours[name]:
                        out.add("neighbour", f"after a power loss {name} is damaged")

    def judge(self, episode, before, now, others, new, error, fired, steps):
        out, dead = self.out, self.disk.dead
        text = episode["text"]
        harmless = not [k for k in fired if k != "short"] and not (steps and steps.fired)
        storable = self.kind not in ("directory", "nowhere")
        if self.torn:
            out.add("torn", f"the target was neither the previous nor the new file {self.torn}")
        elif now not in self.allowed:
            out.add("torn", f"the target holds {_show(now)} instead of {_show(before)} or {_show(new)}")
        if dead:
            out.probes["crashed"] += 1
        elif error is None:
            out.probes["stored"] += 1
            if text["kind"] in ("error", "unencodable"):
                out.add("silent", "a store whose text could not be produced returned normally")
            elif now not in self.allowed - {before} and now != new and episode["pair"] is None:
                out.add("silent", f"a store returned normally but the target holds {_show(now)}")
            elif episode["pair"] is not None and now == before and before != new:
                out.add("silent", "two stores returned normally but the target was not written")
        else:
            out.probes["failed"] += 1
            out.probes["format-error"] += text["kind"] == "error"
            out.probes["unencodable"] += text["kind"] == "unencodable"
            if harmless and storable and text["kind"] not in ("error", "unencodable"):
                out.add("refused", f"a store without any fault failed with {type(error).__name__}: {error}")
        after = self.others()
        for name, data in others.items():
            if after.get(name) != data:
                out.add("neighbour", f"{name} held {_show(data)} and now holds {_show(after.get(name))}")
        excused = dead or (steps and steps.fired) or any(op in ("unlink", "stat") for _, op, _ in self.disk.fired)
        extra = sorted(set(after) - set(others))
        if extra and not excused:
            out.add("leftover", f"the store left {len(extra)} other files behind")


def _show(data):
    if data is None:
        return "nothing (it does not exist)"
    return f"{len(data)} bytes ({data[:12]!r}...)" if len(data) > 12 else repr(data)


def execute(scenario, out):
    with common.world(scenario["world"]) as w, common.scratch() as root:
        storage = Storage(scenario, out, root)
        for episode in scenario["episodes"]:
            storage.episode(episode)
            if out.violations:
                break
        common.note_world(out, w, scenario["world"])


def shrinks(scenario):
    episodes = scenario["episodes"]
    for i in range(len(episodes)):
        if len(episodes) > 1:
            yield dict(copy.deepcopy(scenario), episodes=episodes[:i] + episodes[i + 1:])
    for i, episode in enumerate(episodes):
        def change(**values):
            smaller = copy.deepcopy(scenario)
            smaller["episodes"][i].update(copy.deepcopy(values))
            return smaller

        for j in range(len(episode["faults"])):
            yield change(faults=episode["faults"][:j] + episode["faults"][j + 1:])
        for j, fault in enumerate(episode["faults"]):
            if fault["repeat"] > 1:
                yield change(faults=[dict(f, repeat=1) if k == j else f for k, f in enumerate(episode["faults"])])
        if episode["after"] != "none":
            yield change(after="none")
        if episode["text"]["size"] > 20:
            yield change(text=dict(episode["text"], size=20))
        if episode["text"]["kind"] != "text":
            yield change(text=dict(episode["text"], kind="text"))
        if episode["pair"]:
            switches = episode["pair"]["switches"]
            for j in range(len(switches)):
                if len(switches) > 1:
                    yield change(pair=dict(episode["pair"], switches=switches[:j] + switches[j + 1:]))
    if scenario["neighbours"]:
        for i in range(len(scenario["neighbours"])):
            yield dict(copy.deepcopy(scenario),
                       neighbours=scenario["neighbours"][:i] + scenario["neighbours"][i + 1:])
    if scenario["target"] not in ("plain", "missing"):
        yield dict(copy.deepcopy(scenario), target="plain")
    if scenario["name"] != "out.txt":
        yield dict(copy.deepcopy(scenario), name="out.txt")
    yield from common.world_shrinks(scenario)
