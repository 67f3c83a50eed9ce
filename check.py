"""Entry point of every check: ``check.py C01`` or ``check.py --replay FILE``."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
WANTED = {"PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1",
          "OPENBLAS_NUM_THREADS": "1"}


def main(argv):
    interpreter = os.environ.get("JINETE_PYTHON", "/opt/venv/bin/python")
    free_hash_seed = "JINETE_SIM_ANY_HASH_SEED" in os.environ
    if any(os.environ.get(k) != v for k, v in WANTED.items() if not (free_hash_seed and k == "PYTHONHASHSEED")) or \
            os.path.realpath(interpreter) != os.path.realpath(sys.executable) or sys.prefix == sys.base_prefix:
        if "JINETE_SIM_REEXEC" not in os.environ:
            env = dict(os.environ, **WANTED, JINETE_SIM_REEXEC="1")
            if free_hash_seed:
                env["PYTHONHASHSEED"] = os.environ["JINETE_SIM_ANY_HASH_SEED"]
            os.execve(interpreter, [interpreter, "-B", os.path.abspath(__file__), *argv], env)
    sys.path.insert(0, HERE)
    from sim import runner

    if argv[:1] == ["--replay"]:
        violates, same, outcome = runner.replay(argv[1])
        for line in outcome["trace"]:
            print(f"  | {line}")
        for kind, message in outcome["violations"]:
            print(f"{kind}: {message}")
        print(f"reproduced: {violates}; identical event log: {same}")
        return 1 if violates else 0
    if argv[:1] == ["--self-test"]:
        from sim import selftest

        return selftest.main()
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.check(prop, tier, seed)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except BaseException:
        import traceback

        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
