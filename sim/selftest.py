"""Setup: the harness can be imported, sees the repository's working tree and repeats its runs exactly."""
import glob
import os

from . import kernel, runner

HERE = runner.HERE


def properties():
    return sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(os.path.join(HERE, "sim", "props", "c*.py")))


def digests(prop, seeds, runs, workers):
    module = runner.load(prop)
    result = {}

    def on_reply(key, scenario, reply):
        result[key] = reply[1]["digest"] if reply[0] == "ok" else reply[1]

    pairs = (((seed, i), module.generate(kernel.stream(seed, prop, i), "quick"))
             for seed in seeds for i in range(runs))
    runner.run_many(module, pairs, on_reply, workers=workers)
    return result


def main():
    kernel.install()
    for prop in properties():
        first = digests(prop, (1, 2), 4, 8)
        second = digests(prop, (1, 2), 4, 3)
        different = sorted(k for k in first if first[k] != second[k])
        print(f"{prop}: {len(first)} runs repeated, {len(different)} diverged", flush=True)
    return 0
