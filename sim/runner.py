"""Seeded search over simulated runs: forks one process per run, minimises, confirms and reports the first violation.

A *scenario* is a JSON document that decides a run completely (together with the code under test).  A *run* executes
one scenario in a process of its own, forked from a warm parent, and returns an outcome as JSON.
"""
import collections
import hashlib
import importlib
import json
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import kernel, sched

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = max(1, min(8, os.cpu_count() or 1))
RUN_TIMEOUT = 40.0        # Wall seconds before a run is repeated under a step budget.
CONFIRM_TIMEOUT = 300.0   # Wall seconds of that repetition.
STEP_BUDGET = 150_000_000  # Library lines a run may execute in that repetition.
SHRINK_SECONDS = {"quick": 45.0, "thorough": 120.0}
SEARCH_SECONDS = {"quick": 480.0}  # A slow machine executes fewer runs rather than giving no answer.


class Outcome:
    """What one run observed."""

    def __init__(self):
        self.violations = []                     # [class, message]
        self.faults = collections.Counter()      # fault kinds that really fired
        self.probes = collections.Counter()      # rare conditions reached
        self.states = set()                      # digests of the distinct states or interleavings reached
        self.sim_time = 0.0
        self.trace = []                          # event log of the run
        self.nontrivial = False

    # Violations interface used by the oracle.
    def add(self, kind, message):
        self.violations.append([kind, self._portable(message)])

    def log(self, *parts):
        self.trace.append(self._portable(" ".join(str(p) for p in parts)))

    @staticmethod
    def _portable(text):
        """The name of the scratch directory is the only thing that differs between two executions."""
        from . import common

        return text.replace(common.scratch_path(), "<scratch>")

    def state(self, value):
        self.states.add(digest(value))

    def pack(self):
        return {
            "violations": self.violations, "faults": dict(self.faults), "probes": dict(self.probes),
            "states": sorted(self.states), "sim_time": self.sim_time, "nontrivial": self.nontrivial,
            "trace": self.trace, "digest": digest([self.violations, sorted(self.faults.items()),
                                                   sorted(self.probes.items()), sorted(self.states), self.trace,
                                                   round(self.sim_time, 6)]),
        }


def digest(value):
    return hashlib.sha256(json.dumps(value, sort_keys=True, default=str).encode()).hexdigest()[:16]


def load(prop):
    kernel.install()
    return importlib.import_module(f"sim.props.{prop.lower()}")


def innermost_is_library(error):
    """Whether the error was raised by the library (or by something the library called)."""
    prefix = kernel.repo_prefix()
    seen = False
    for frame, _ in traceback.walk_tb(error.__traceback__):
        path = os.path.realpath(frame.f_code.co_filename)
        if path.startswith(prefix):
            seen = True
        elif path.startswith(HERE + os.sep):
            seen = False
    return seen


def describe(error):
    place = ""
    for frame, line in traceback.walk_tb(error.__traceback__):
        if kernel.is_repo_code(frame.f_code):
            place = f" at {os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}"
    return f"{type(error).__name__}: {str(error)[:200]}{place}"


def execute(module, scenario, budget=None):
    """Execute one scenario in this process."""
    outcome = Outcome()
    if scenario.get("without_assertions"):
        kernel.without_assertions()
        outcome.probes["without-assertions"] += 1
    try:
        if budget is not None:
            with sched.Steps(budget=budget):
                _guarded(lambda o: module.execute(scenario, o), outcome)
        else:
            _guarded(lambda o: module.execute(scenario, o), outcome)
    except sched.StepBudgetExceeded as error:
        outcome.add("hang", f"still running after {error}")
    return outcome.pack()


def _guarded(function, outcome):
    """Run a function; errors of the library become violations."""
    try:
        return function(outcome)
    except Exception as error:
        if innermost_is_library(error):
            outcome.add("exception", describe(error))
        elif isinstance(error, (AttributeError, LookupError, TypeError, ValueError, ArithmeticError)) and \
                "module 'jinete" not in str(error):
            # The oracles work on every object the library may rightly hand out.
            frame = traceback.extract_tb(error.__traceback__)[-1]
            outcome.add("malformed", f"the observed objects are malformed: {describe(error)} "
                                     f"(seen by {os.path.basename(frame.filename)}:{frame.name})")
        else:
            raise


def isolated(function, outcome):
    """Run ``function(outcome)`` in a process of its own, so that it leaves nothing behind in this one.

    Returns its value (as pickled and loaded), or None when it ended in a violation.
    """
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(read)
            inner = Outcome()
            try:
                reply = ("ok", _guarded(function, inner), inner.__dict__)
            except sched.StepBudgetExceeded as error:
                reply = ("budget", str(error), inner.__dict__)
            except BaseException:
                reply = ("error", traceback.format_exc(), None)
            with os.fdopen(write, "wb") as pipe:
                pickle.dump(reply, pipe)
        finally:
            os._exit(0)
    os.close(write)
    with os.fdopen(read, "rb") as pipe:
        data = pipe.read()
    os.waitpid(pid, 0)
    kind, value, inner = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(f"in an isolated process: {value}")
    outcome.violations += inner["violations"]
    outcome.faults.update(inner["faults"])
    outcome.probes.update(inner["probes"])
    outcome.states |= inner["states"]
    outcome.trace += inner["trace"]
    outcome.sim_time += inner["sim_time"]
    if kind == "budget":
        raise sched.StepBudgetExceeded(value)
    return None if inner["violations"] else value


class _Child:
    """A forked process executing one scenario."""

    def __init__(self, module, scenario, budget=None):
        self.started = kernel.real_clock()
        self.read, write = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 0
            try:
                os.setpgid(0, 0)
                os.close(self.read)
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                try:
                    reply = ("ok", execute(module, scenario, budget))
                except BaseException:
                    reply = ("error", traceback.format_exc())
                with os.fdopen(write, "wb") as pipe:
                    pickle.dump(reply, pipe)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(write)
        try:
            os.setpgid(self.pid, self.pid)
        except OSError:
            pass
        self.data = bytearray()

    def pump(self):
        """Read what is available; returns whether the child has finished."""
        block = os.read(self.read, 1 << 16)
        if block:
            self.data += block
            return False
        os.close(self.read)
        os.waitpid(self.pid, 0)
        self.elapsed = kernel.real_clock() - self.started
        return True

    def kill(self):
        for kill in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                kill()
            except OSError:
                pass
        os.close(self.read)
        os.waitpid(self.pid, 0)
        from . import common
        import shutil

        shutil.rmtree(common.scratch_path(self.pid), ignore_errors=True)

    def reply(self):
        if not self.data:
            return "error", "the simulated process died"
        return pickle.loads(bytes(self.data))


def run_one(module, scenario, timeout=RUN_TIMEOUT):
    """Execute one scenario in a child of this process, telling hangs from slowness."""
    for budget, limit in ((None, timeout), (STEP_BUDGET, CONFIRM_TIMEOUT)):
        child = _Child(module, scenario, budget)
        deadline = child.started + limit
        while True:
            ready, _, _ = select.select([child.read], [], [], max(0.0, deadline - kernel.real_clock()))
            if ready:
                if child.pump():
                    return child.reply()
            elif kernel.real_clock() >= deadline:
                child.kill()
                break
    return stalled()


def stalled():
    outcome = Outcome()
    outcome.add("hang", f"still running after {CONFIRM_TIMEOUT:.0f} s")
    return "ok", outcome.pack()


slowest = [0.0]  # Wall seconds of the slowest run of this process.


def run_many(module, scenarios, on_reply, workers=WORKERS, stop=lambda index: False, deadline=None):
    """Execute ``(index, scenario)`` pairs in parallel; ``stop(index)`` tells not to start a run."""
    scenarios = iter(scenarios)
    running, repeat, exhausted = {}, [], False
    while True:
        while len(running) < workers and repeat:
            index, scenario = repeat.pop(0)
            if not stop(index):
                child = _Child(module, scenario, STEP_BUDGET)
                running[child.read] = (index, scenario, child, CONFIRM_TIMEOUT)
        while not exhausted and len(running) < workers:
            if deadline is not None and kernel.real_clock() > deadline:
                exhausted = True
                break
            try:
                index, scenario = next(scenarios)
            except StopIteration:
                exhausted = True
                break
            if stop(index):
                exhausted = True
                break
            child = _Child(module, scenario)
            running[child.read] = (index, scenario, child, RUN_TIMEOUT)
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 0.5)
        for fd in ready:
            index, scenario, child, _ = running[fd]
            if child.pump():
                del running[fd]
                slowest[0] = max(slowest[0], child.elapsed)
                on_reply(index, scenario, child.reply())
        now = kernel.real_clock()
        for fd, (index, scenario, child, limit) in list(running.items()):
            if now - child.started > limit:
                child.kill()
                del running[fd]
                if limit == RUN_TIMEOUT:
                    repeat.append((index, scenario))
                else:
                    on_reply(index, scenario, stalled())


def classes(reply):
    return {kind for kind, _ in reply[1]["violations"]} if reply[0] == "ok" else set()


def minimise(module, scenario, reply, seconds):
    """Greedy shrinking that preserves the class of the first violation; returns (scenario, reply, attempts)."""
    wanted = reply[1]["violations"][0][0]
    attempts = 0
    deadline = kernel.real_clock() + seconds
    if wanted == "hang":
        deadline = kernel.real_clock()
    progress = True
    while progress and kernel.real_clock() < deadline:
        progress = False
        found = []

        def on_reply(index, candidate, candidate_reply):
            nonlocal attempts
            attempts += 1
            if wanted in classes(candidate_reply):
                found.append((index, candidate, candidate_reply))

        run_many(module, enumerate(module.shrinks(scenario)), on_reply,
                 stop=lambda index: any(i < index for i, _, _ in found), deadline=deadline)
        if found:
            _, scenario, reply = min(found, key=lambda f: f[0])
            progress = True
    return scenario, reply, attempts


# -- known findings

def known_findings(prop):
    path = os.path.join(HERE, "known_findings.txt")
    result = []
    if os.path.exists(path):
        with open(path) as file:
            for line in file:
                line = line.strip()
                if line.startswith(f"known: property={prop} "):
                    signature, _, text = line[len(f"known: property={prop} "):].partition(" ")
                    result.append((signature, text))
    return result


# -- the check

def check(prop, tier, seed):
    started = kernel.real_clock()
    module = load(prop)
    import gc

    gc.collect()
    gc.freeze()
    total = module.RUNS[tier]
    known = known_findings(prop)
    print(f"{prop}: VERIF_SEED={seed} tier={tier} runs={total} workers={WORKERS}", flush=True)

    faults, probes = collections.Counter(), collections.Counter()
    states, scenarios_seen = set(), set()
    nontrivial = set()
    sim_time = 0.0
    executed = 0
    failures, errors, known_hit, samples = [], [], {}, []
    digests = {}

    def scenario_of(index):
        return module.generate(kernel.stream(seed, prop, index), tier)

    def generate():
        for index in range(total):
            yield index, scenario_of(index)

    def on_reply(index, scenario, reply):
        nonlocal sim_time, executed
        executed += 1
        if reply[0] != "ok":
            errors.append((index, reply[1]))
            return
        outcome = reply[1]
        digests[index] = outcome["digest"]
        faults.update(outcome["faults"])
        probes.update(outcome["probes"])
        states.update(outcome["states"])
        sim_time += outcome["sim_time"]
        key = digest(scenario)
        scenarios_seen.add(key)
        if outcome["nontrivial"]:
            nontrivial.add(key)
            if len(samples) < 2:
                samples.append({"index": index, "scenario": scenario, "events": outcome["trace"][:40]})
        fresh = []
        for violation in outcome["violations"]:
            match = next((k for k in known if k[0] == violation[0]), None)
            if match:
                known_hit[match] = known_hit.get(match, 0) + 1
            else:
                fresh.append(violation)
        if fresh:
            outcome["violations"] = fresh
            failures.append((index, scenario, reply))

    deadline = started + SEARCH_SECONDS[tier] if tier in SEARCH_SECONDS else None
    run_many(module, generate(), on_reply, stop=lambda index: bool(failures) or len(errors) > 3, deadline=deadline)
    search_seconds = kernel.real_clock() - started

    # Determinism sample: the same scenarios again, with another number of workers.
    repeated, diverged = 0, []
    if not failures and not errors:
        sample = [i for i in sorted(digests) if i % max(1, total // module.REPEATS[tier]) == 0]

        def on_repeat(index, scenario, reply):
            nonlocal repeated
            repeated += 1
            if reply[0] != "ok" or reply[1]["digest"] != digests[index]:
                diverged.append(index)

        run_many(module, ((i, scenario_of(i)) for i in sample), on_repeat, workers=3)

    violation_line = None
    minimise_attempts = 0
    if failures:
        index, scenario, reply = min(failures, key=lambda f: f[0])
        print(f"{prop}: run {index} violates the property: {reply[1]['violations'][0]}", flush=True)
        scenario, reply, minimise_attempts = minimise(module, scenario, reply, SHRINK_SECONDS[tier])
        path = write_replay(prop, seed, index, scenario, reply)
        confirmed = confirm(path)
        if not confirmed:
            _, scenario, reply = min(failures, key=lambda f: f[0])
            path = write_replay(prop, seed, index, scenario, reply)
            confirmed = confirm(path)
        print(f"{prop}: minimised in {minimise_attempts} runs; replay in a fresh process "
              f"{'reproduced it' if confirmed else 'DID NOT reproduce it'}")
        for kind, message in reply[1]["violations"][:5]:
            print(f"  {kind}: {message}")
        violation_line = f"VIOLATION property={prop} replay={path}"
        if not confirmed:
            print(f"{prop}: the code under test depends on something outside the simulation")

    wall = kernel.real_clock() - started
    coverage = {
        "evaluations": executed,
        "distinct_nontrivial": len(nontrivial),
        "rule": module.RULE,
        "samples": samples,
        "simulated_runs": executed,
        "seeds_per_hour": round(executed / max(search_seconds, 1e-9) * 3600),
        "simulated_seconds": round(sim_time, 3),
        "faults_injected": dict(sorted(faults.items())),
        "probes": dict(sorted(probes.items())),
        "distinct_states": len(states),
        "state_measure": module.STATE_MEASURE,
        "real_components": module.REAL,
        "stubbed_components": module.STUB,
        "determinism": {"runs_repeated": repeated, "diverged": len(diverged)},
        "slowest_run_wall_s": round(slowest[0], 2),
        "minimisation_runs": minimise_attempts,
    }
    evidence = {"property": prop, "tier": tier, "seed": seed, "level": module.LEVEL, "coverage": coverage,
                "assumptions": module.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(failures)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as file:
        json.dump(evidence, file, indent=1)
        file.write("\n")

    for (signature, text), count in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {signature} {text} ({count} runs)")
    print(f"{prop}: {executed} runs, {len(nontrivial)} distinct non-trivial, {len(states)} states, "
          f"faults {dict(sorted(faults.items()))}, {wall:.1f} s (slowest run {slowest[0]:.1f} s)")
    missing = [p for p in getattr(module, "EXPECTED_PROBES", ()) if not probes[p] and not faults[p]]
    if missing and not failures:
        print(f"{prop}: warning: never reached: {missing}")
    if errors:
        for index, text in errors[:3]:
            print(f"{prop}: harness error in run {index}:\n{text}", file=sys.stderr)
        if violation_line is None:
            return 2
    if violation_line is not None:
        print(violation_line, flush=True)
        return 1
    if diverged:
        print(f"{prop}: warning: runs {diverged[:10]} did not repeat exactly", file=sys.stderr)
    return 0


# -- replays

def write_replay(prop, seed, index, scenario, reply):
    directory = os.path.join(HERE, "replays")
    os.makedirs(directory, exist_ok=True)
    path = os.path.join(directory, f"{prop}-{seed}-{index}.json")
    with open(path, "w") as file:
        json.dump({"property": prop, "seed": seed, "run": index, "scenario": scenario,
                   "violations": reply[1]["violations"], "trace": reply[1]["trace"], "digest": reply[1]["digest"]},
                  file, indent=1)
        file.write("\n")
    return path


def replay(path):
    """Execute a replay file; returns (violates, same digest, outcome)."""
    with open(path) as file:
        document = json.load(file)
    module = load(document["property"])
    reply = run_one(module, document["scenario"])
    if reply[0] != "ok":
        raise RuntimeError(reply[1])
    wanted = {kind for kind, _ in document["violations"]}
    return bool(wanted & classes(reply)), reply[1]["digest"] == document["digest"], reply[1]


def confirm(path):
    done = subprocess.run([sys.executable, "-B", os.path.join(HERE, "check.py"), "--replay", path], cwd=HERE,
                          capture_output=True, text=True)
    return done.returncode == 1
