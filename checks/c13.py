"""
C13 A fixed random seed gives the same model whatever the schedule.
"""

import json
import os
import random
import subprocess
import sys

from mc import env, kit, seeded_run
from mc.env import CTL, MCPool, HarnessError, workdir
from mc.explore import explore
from mc.runner import VERIF

TECHNIQUE = "exhaustive exploration of completion orders of the background tasks of seeded runs (deviation bound), over seeds, worker counts and hash seeds"
NOTE = (
    "Every completion order within the bound of each operation, and of a whole sequence of operations; runs in fresh processes with different hash "
    "seeds and with the real process pool must agree with the controlled ones."
)
LEVEL = "model_checking"
BOUNDS = {
    "quick": "10 operations, 3 seeds, 4 worker counts, all single departures from submission order; 3 hash seeds; one run with the real process pool",
    "thorough": "6 seeds, two departures, 6 hash seeds, two runs with the real process pool",
}
ASSUMPTIONS = ["the random module's generators are the only intended source of chance"]

SEEDS = [0, 7, "a seed", 3.5, 10**30, -1]


def jobs(tier, seed):
    deep = tier == "thorough"
    out = []
    for s in range(6 if deep else 3):
        for i in range(len(seeded_run.PARTS)):
            if deep:
                out += [("orders", s, i, 2, part, 8) for part in range(8)]
            else:
                out.append(("orders", s, i, 1, 0, 1))
        out.append(("together", s))
    hashes = [0, 1, 4711, 5, 6, 99][: 6 if deep else 3]
    out += [("processes", s, h) for s in range(3) for h in hashes]
    out += [("pool", s) for s in range(2 if deep else 1)]
    return out


def base():
    def make(path):
        with kit.opened(path, seeded_run.make_corpus()) as idx:
            idx.index(doc_batch_size=4, index_positions=True)
            idx.initialise_clusters(3)
            idx.refine_clusters(iterations=1, tolerance=0)

    return kit.template("c13", make)


def run(path, seed, workers=2, parts=seeded_run.PARTS):
    kit.write_db(path, base())
    corpus = seeded_run.make_corpus()
    with kit.opened(path, corpus, workers=workers, seed=SEEDS[seed]) as idx:
        return seeded_run.run(idx, corpus, parts)


def job_orders(R, seed, part, bound, shard, shards):
    """Completion orders of one operation."""
    name = seeded_run.PARTS[part]
    with workdir() as d:
        path = os.path.join(d, "i.db")
        want = run(path, seed, 2, (name,))
        for workers in (1, 2, 3, 6):

            def once(ch):
                random.seed(R.executions)
                CTL.default_seed = R.executions
                CTL.order = lambda n, tag: ch.choose(n, tag)
                R.context = {"seed": SEEDS[seed], "operation": name, "workers": workers}
                try:
                    got = run(path, seed, workers, (name,))
                finally:
                    CTL.order = None
                R.run()
                R.step()
                R.state((seed, name, workers, ch.choices))
                R.outcome(got)
                R.equal(got, want, "the same seed gives another model with another schedule")

            explore(once, bound=bound, shard=(shard, shards))
        R.sample({"seed": SEEDS[seed], "operation": name, "orders": R.executions})


def job_together(R, seed):
    """The whole sequence of operations, under fixed unusual orders."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        want = run(path, seed)
        for workers in (1, 2, 5):
            for kind in ("first", "last", "rotating"):
                calls = [0]

                def order(n, tag):
                    calls[0] += 1
                    return {"first": 0, "last": n - 1, "rotating": calls[0] % n}[kind]

                CTL.order = order
                random.seed(calls[0])
                R.context = {"seed": SEEDS[seed], "workers": workers, "order": kind}
                try:
                    got = run(path, seed, workers)
                finally:
                    CTL.order = None
                R.run()
                R.step(len(seeded_run.PARTS))
                R.state((seed, workers, kind))
                R.outcome(got)
                R.equal(got, want, "the same seed gives another model with another schedule")


def child(args, **environment):
    result = subprocess.run(
        [sys.executable, *args],
        capture_output=True,
        text=True,
        cwd=VERIF,
        timeout=600,
        env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MC_REPO=env.REPO, **environment),
    )
    if result.returncode:
        raise ChildFailed(result.stderr[-3000:])
    return json.loads(result.stdout.splitlines()[-1])


class ChildFailed(Exception):
    pass


def job_processes(R, seed, hash_seed):
    """A fresh process with another hash seed."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        want = run(path, seed)
        kit.write_db(path, base())
        R.context = {"seed": SEEDS[seed], "PYTHONHASHSEED": hash_seed}
        got = child(
            ["-c", f"from checks import c13; c13.main({path!r}, {seed})"], PYTHONHASHSEED=str(hash_seed)
        )
        R.run()
        R.step(len(seeded_run.PARTS))
        R.state(("hash", seed, hash_seed))
        R.outcome(got)
        R.equal(got, want, "the same seed gives another model in another process")


def main(path, seed):
    corpus = seeded_run.make_corpus()
    with kit.opened(path, corpus, seed=SEEDS[seed]) as idx:
        print(json.dumps(seeded_run.run(idx, corpus)))


def job_pool(R, seed):
    """The real process pool agrees with the controlled one."""
    with workdir() as d:
        path = os.path.join(d, "i.db")
        want = run(path, seed)
        kit.write_db(path, base())
        R.context = {"seed": SEEDS[seed], "pool": "processes"}
        got = child(
            ["-m", "mc.seeded_run", env.REPO, path, json.dumps(SEEDS[seed]), "3"],
            PYTHONHASHSEED="random",
            TMPDIR=d,
        )
        R.run()
        R.step(len(seeded_run.PARTS))
        R.state(("pool", seed))
        R.equal(got, want, "the same seed gives another model with a pool of processes")
