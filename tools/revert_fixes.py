"""Sensitivity to the defects that were repaired: take each "fix:" commit back in a scratch worktree and run the check.

Usage: revert_fixes.py [COMMIT...]; without arguments all the "fixed:" entries of known_findings.txt.
"""
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


def git(where, *args, check=True):
    return subprocess.run(["git", "-C", where, *args], check=check, capture_output=True, text=True)


def main(wanted):
    fixes = []
    with open(os.path.join(HERE, "known_findings.txt")) as file:
        for line in file:
            found = re.match(r"fixed: property=(\w+) (\w+) (.*)", line)
            if found and (not wanted or found[2] in wanted):
                fixes.append(found.groups())
    with tempfile.TemporaryDirectory(prefix="jinete-revert-") as scratch:
        tree = os.path.join(scratch, "tree")
        git(REPO, "worktree", "add", "--detach", tree, "HEAD")
        try:
            for prop, commit, text in fixes:
                done = git(tree, "revert", "--no-commit", commit, check=False)
                if done.returncode:
                    verdict = "later changes overlap, not reverted"
                else:
                    checked = subprocess.run(
                        [sys.executable, os.path.join(HERE, "check.py"), prop, "quick"], cwd=HERE, text=True,
                        capture_output=True, env=dict(os.environ, JINETE_REPO=tree))
                    verdict = {0: "MISSED", 1: "noticed"}.get(checked.returncode, "harness error")
                    named = [l for l in checked.stdout.splitlines() if " violates the property: " in l]
                    verdict += f" ({named[0].split(' violates')[0]})" if named else ""
                git(tree, "revert", "--quit", check=False)
                git(tree, "reset", "--hard", "HEAD")
                print(f"{prop} {commit} {verdict}: {text}", flush=True)
        finally:
            git(REPO, "worktree", "remove", "--force", tree, check=False)
            git(REPO, "worktree", "prune", check=False)


main(sys.argv[1:])
