#!/usr/bin/env python3
"""Confirm planted bugs: plant.py [ID...] [--no-tests] [--checks] [--others C01,C02]

For each /verif/seeded/<ID>: in a scratch copy of /repo the demonstration must succeed, and with the patch
applied it must fail while the stable tests pass.  With --checks the property's quick check runs against the
patched copy (MC_REPO) and must report a violation.
"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/pypyvenv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LC_ALL="C.UTF-8")


def run(cmd, cwd, timeout=900, **env):
    return subprocess.run(cmd, cwd=cwd, env={**ENV, **env}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=timeout, universal_newlines=True, errors="replace")


def one(name, args):
    folder = os.path.join(HOME, "seeded", name)
    meta = json.load(open(os.path.join(folder, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="plant-")
    notes = []
    try:
        repo = os.path.join(scratch, "repo")
        demo = os.path.join(scratch, "demo")
        shutil.copytree("/repo", repo, symlinks=True)
        shutil.copytree(folder, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        clean = run(["bash", os.path.join(demo, "demo.sh")], repo, 300)
        if clean.returncode:
            notes.append("DEMO FAILS CLEAN: " + clean.stdout[-800:])
        applied = run(["git", "apply", os.path.join(folder, "patch.diff")], repo)
        if applied.returncode:
            return name, meta, ["NOT APPLICABLE " + applied.stdout]
        broken = run(["bash", os.path.join(demo, "demo.sh")], repo, 300)
        if not broken.returncode:
            notes.append("DEMO PASSES WITH PATCH")
        if args.tests:
            tests = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=300",
                         "--ignore=tests/test_checker.py", "--ignore=tests/paifu/test_tenhouRecord.py", "tests"], repo)
            if tests.returncode:
                notes.append("TESTS FAIL: " + tests.stdout[-600:])
        if args.checks:
            for prop in [meta["property"]] + [o for o in args.others.split(",") if o]:
                start = time.time()
                got = run([os.path.join(HOME, "run.sh"), prop], HOME, 1800, MC_REPO=repo)
                lines = [l for l in got.stdout.splitlines() if l.startswith("VIOLATION")]
                notes.append("%s %s rc=%d %.0fs %s" % (prop, "caught" if got.returncode == 1 and lines else "MISSED",
                                                       got.returncode, time.time() - start, lines[:1]))
        return name, meta, notes or ["ok"]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("ids", nargs="*")
    parser.add_argument("--no-tests", dest="tests", action="store_false")
    parser.add_argument("--checks", action="store_true")
    parser.add_argument("--others", default="")
    parser.add_argument("--jobs", type=int, default=0)
    args = parser.parse_args()
    ids = args.ids or sorted(os.listdir(os.path.join(HOME, "seeded")))
    jobs = args.jobs or (1 if args.checks else 6)
    with ThreadPoolExecutor(jobs) as pool:
        for name, meta, notes in pool.map(lambda n: one(n, args), ids):
            print(name, meta["property"], "|", "; ".join(notes), flush=True)


main()
