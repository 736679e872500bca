"""
Making and confirming planted changes (seeded/).

seed.py make ID FILE 'old' 'new' ['old' 'new' ...]   write seeded/ID/patch.diff against /repo's HEAD
seed.py confirm [ID ...]                             tests pass with it, demo fails with it and passes without
seed.py checks [ID ...]                              run the property's quick check on it
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = os.path.join(VERIF, "seeded")


def copy(to):
    subprocess.run(["cp", "-a", REPO, to], check=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=to, check=True)


def make(name, file, *changes):
    with tempfile.TemporaryDirectory() as d:
        wt = os.path.join(d, "repo")
        copy(wt)
        path = os.path.join(wt, file)
        s = open(path).read()
        for old, new in zip(changes[::2], changes[1::2]):
            if s.count(old) != 1:
                sys.exit(f"{name}: {s.count(old)} occurrences of {old!r}")
            s = s.replace(old, new)
        open(path, "w").write(s)
        out = subprocess.run(["git", "diff"], cwd=wt, check=True, capture_output=True, text=True).stdout
        os.makedirs(os.path.join(BASE, name), exist_ok=True)
        open(os.path.join(BASE, name, "patch.diff"), "w").write(out)


def demo(name, wt):
    # laid elsewhere, as it will be
    with tempfile.TemporaryDirectory() as d:
        there = os.path.join(d, "demo")
        shutil.copytree(os.path.join(BASE, name), there, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r = subprocess.run(
            ["bash", os.path.join(there, "demo.sh")], cwd=wt, capture_output=True, text=True, timeout=300,
            env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1"},
        )
        return r.returncode, (r.stdout + r.stderr)[-600:]


def tests(wt):
    """The stable tests, run on this copy."""
    r = subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=120", "tests", "-x", "--co", "-q"],
        cwd=wt, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": wt},
    )
    stable = json.load(open("/opt/vp/BASELINE.json"))
    passed = set()
    for args in (["--ignore=tests/test_server.py"], ["tests/test_server.py"]):
        r = subprocess.run(
            [PY, "-m", "pytest", "-q", "-rA", "-p", "no:cacheprovider", "--timeout=120", "--doctest-modules", *args],
            cwd=wt, capture_output=True, text=True,
            env={**os.environ, "PYTHONPATH": wt, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"},
        )
        passed |= {l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED ")}
    names = stable if isinstance(stable, list) else next(v for v in stable.values() if isinstance(v, list))
    return len(passed), len(names)


def confirm(name):
    with tempfile.TemporaryDirectory() as d:
        wt = os.path.join(d, "repo")
        copy(wt)
        clean, out = demo(name, wt)
        subprocess.run(["git", "apply", os.path.join(BASE, name, "patch.diff")], cwd=wt, check=True)
        broken, out2 = demo(name, wt)
        ok, want = tests(wt)
        good = clean == 0 and broken != 0 and ok >= want
        print(f"{name}: {'ok' if good else 'BAD'} demo clean={clean} patched={broken} tests {ok}/{want}")
        if not good:
            print("clean:", out, "\npatched:", out2)
        else:
            print("   ", out2.strip().splitlines()[-1:] )


def checks(name, extra=()):
    prop = json.load(open(os.path.join(BASE, name, "meta.json")))["property"]
    with tempfile.TemporaryDirectory() as d:
        wt = os.path.join(d, "repo")
        copy(wt)
        subprocess.run(["git", "apply", os.path.join(BASE, name, "patch.diff")], cwd=wt, check=True)
        r = subprocess.run(
            [PY, "run.py", prop], cwd=VERIF, capture_output=True, text=True,
            env={**os.environ, "MC_REPO": wt, "MC_OUT": os.path.join(d, "out")},
        )
        lines = [l for l in r.stdout.splitlines() if l.strip()]
        print(f"{name}: {prop} exit {r.returncode}", ("|".join(lines[:2]) or r.stderr[-800:])[:800] if r.returncode else "MISSED " + lines[-1])


if __name__ == "__main__":
    what, *rest = sys.argv[1:]
    if what == "make":
        make(*rest)
    else:
        for n in rest or sorted(os.listdir(BASE)):
            {"confirm": confirm, "checks": checks}[what](n)
