"""Writes MANIFEST.json from the property modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": ("seeded search over iteration orders, random draws and configurations; per-stop reference checker",
            "Real heuristics and metaheuristics run in a world that decides hashes, entropy and clocks."),
    "C02": ("seeded search over iteration orders and algorithm chains; conservation over the history of plannings",
            "Real heuristics and metaheuristics; every planning of each chain is checked."),
    "C03": ("seeded search over read/copy histories and iteration orders; reference recomputation",
            "Reported values are recomputed from the raw instance and the sequence of visits."),
    "C04": ("seeded search over iteration orders, random draws and starting solutions; history checks with scripted stages",
            "Real local searches on reachable and adversarial solutions; metaheuristics also with scripted stages."),
    "C05": ("seeded search over iteration orders and random draws under a step budget; bounded liveness",
            "Steps are executed library lines; idle vehicles are checked with conservative slack."),
    "C06": ("pairs of simulated worlds that differ in clock, entropy, global random state and earlier work",
            "Both runs use the same decided iteration order."),
    "C07": ("crash injection at seeded library lines; state comparison and re-execution",
            "Interrupts, allocation failures and errors are raised at executed lines of the library."),
    "C08": ("seeded thread schedules at line granularity; comparison with solo runs",
            "Real threads of which exactly one runs at a time, switched by the scenario."),
    "C09": ("seeded operation histories on routes against a reference schedule", "Edits, reads and rejected edits."),
    "C10": ("seeded histories of copies, candidates and edits against a reference schedule",
            "Copies at every depth, edited in the part they do not share."),
    "C11": ("simulated disk with errors, full disk, short writes, crashes and power loss",
            "Real storer and Python I/O stack over a simulated raw file layer."),
    "C12": ("simulated disk reads with errors, short reads, truncation, replacement and interrupts",
            "Real loaders over a simulated raw file layer."),
    "C13": ("simulated pipeline stages with faults in seeded positions; history check", "Real solver and dispatcher."),
    "C14": ("simulated external solver: outcomes within its contract injected around the real one",
            "Real model and route reconstruction, CBC wrapped by a fault injector."),
    "C15": ("simulated clocks: elapsed time and wall-clock jumps injected inside the steps", "Real algorithms."),
    "C16": ("seeded histories of formatting, storing and plotting; parsed artifacts against a reference",
            "Real formatters and plots."),
}
LEVELS = {p: "fault_enumeration" for p in ("C07", "C11", "C12", "C13", "C14", "C15", "C16")}
NOT_APPLICABLE = {
    "C17": "Decoding an intact file is a pure function of its text: no schedule, clock, fault or history takes part "
           "(files that are cut, replaced or fail while being read are C12).",
    "C18": "Optimality of the linear formulation is a pure function of the instance; the only nondeterminism, the "
           "external solver's outcome, is decided by C14.",
    "C19": "Distances and criteria are pure functions of their arguments without state, time or faults (their caches "
           "are exercised by C03, C08 and C09).",
}


def main():
    built = [p for p in sorted(CHECKS) if os.path.exists(os.path.join(HERE, "sim", "props", p.lower() + ".py"))]
    checks = []
    for prop in built:
        technique, note = CHECKS[prop]
        checks.append({
            "property": prop,
            "quick_cmd": f"python3 check.py {prop} quick",
            "thorough_cmd": f"python3 check.py {prop} thorough",
            "evidence_file": f"evidence/{prop}.json",
            "technique": TECH + technique,
            "level": LEVELS.get(prop, "exploration"),
            "level_note": note + " Search samples seeds, it does not enumerate all of them.",
        })
    not_applicable = [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items())]
    not_applicable += [{"property": p, "reason": "Not claimed yet: its check is being built."}
                       for p in sorted(CHECKS) if p not in built]
    manifest = {
        "version": 1,
        "setup_cmd": "python3 check.py --self-test",
        "hooks": {"guard": "none", "enable": "No hooks: every seam is installed from outside by sim/kernel.py, "
                                             "sim/sched.py and sim/fs.py.", "source_commits": []},
        "checks": checks,
        "not_applicable": not_applicable,
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as file:
        json.dump(manifest, file, indent=1)
        file.write("\n")


main()
