"""
Runs the jobs of a check over all cores, collects what was covered, and turns
disagreements into VIOLATION lines with a replayable artefact.
"""

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

from mc import env
from mc.env import HarnessError, Hang

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")
# writable place for evidence and replay artefacts
OUT = os.environ.get("MC_OUT", VERIF)


def digest(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class StopJob(Exception):
    """Enough violations were found in this job."""


class Recorder:
    """What one job covered."""

    MAX_VIOLATIONS = 3

    def __init__(self, job, only=None):
        self.job = job
        self.states = set()
        self.transitions = 0
        self.executions = 0
        self.nontrivial = set()
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.capped = []
        self.notes = {}
        self.context = None

    # coverage
    def state(self, obj):
        d = digest(obj)
        new = d not in self.states
        self.states.add(d)
        return new

    def step(self, n=1):
        self.transitions += n

    def run(self, n=1):
        self.executions += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def case(self, obj):
        """A distinct, non-trivial case."""
        self.nontrivial.add(digest(obj))

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    # verdicts
    def violation(self, message, detail=None, sig=None):
        self.violations.append(
            {
                "message": message,
                "detail": detail,
                "sig": sig or message,
                "context": self.context,
                "job": self.job,
            }
        )
        if len(self.violations) >= self.MAX_VIOLATIONS:
            raise StopJob()

    def check(self, ok, message, detail=None, sig=None):
        if not ok:
            self.violation(message, detail() if callable(detail) else detail, sig)
        return ok

    def equal(self, got, want, message, detail=None, sig=None):
        if got != want:
            self.violation(
                message,
                {"got": repr(got)[:2000], "want": repr(want)[:2000], "case": detail},
                sig,
            )
            return False
        return True


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        if isinstance(x, dict):
            return {str(k): _jsonable(v) for k, v in x.items()}
        if isinstance(x, (list, tuple, set, frozenset)):
            return [_jsonable(v) for v in x]
        return repr(x)


def run_job(module_name, job, limit):
    """Run one job in this process; returns a plain dict."""
    module = importlib.import_module(module_name)
    rec = Recorder(job)
    env.CTL.reset()
    started = time.time()
    error = None
    import random

    random.seed(12345)
    try:
        with env.time_limit(limit, lambda: rec.executions + rec.transitions):
            getattr(module, "job_" + job[0])(rec, *job[1:])
    except StopJob:
        pass
    except env.OutOfTime:
        rec.capped.append(f"job {job} stopped after {limit} s")
    except Hang as e:
        rec.violations.append(
            {
                "message": f"the code under test did not finish: {e}",
                "detail": {"traceback": traceback.format_exc()[-3000:]},
                "sig": "hang",
                "context": rec.context,
                "job": job,
            }
        )
    except HarnessError:
        error = traceback.format_exc()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not env.in_repo(e):
            error = traceback.format_exc()
        elif env.in_repo(e) or env.cannot_read(e):
            # The code under test raised where the check expects it to work,
            # or answered something a check cannot make sense of.
            rec.violations.append(
                {
                    "message": f"unexpected {type(e).__name__}: {e}",
                    "detail": {"traceback": traceback.format_exc()[-3000:]},
                    "sig": f"unexpected {type(e).__name__}",
                    "context": rec.context,
                    "job": job,
                }
            )
        else:
            error = traceback.format_exc()
    finally:
        env.CTL.reset()
    return {
        "job": job,
        "states": rec.states,
        "transitions": rec.transitions,
        "executions": rec.executions,
        "nontrivial": rec.nontrivial,
        "outcomes": rec.outcomes,
        "samples": [_jsonable(s) for s in rec.samples],
        "violations": [_jsonable(v) for v in rec.violations],
        "capped": rec.capped,
        "notes": rec.notes,
        "error": error,
        "wall": time.time() - started,
    }


def _worker_init():
    # Workers write below the same scratch directory, removed by the parent.
    pass


def load_known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid = argv.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    only = None
    jobs_n = os.cpu_count() or 4
    verbose = False
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--replay":
            replay = argv.pop(0)
        elif a == "--only":
            only = argv.pop(0)
        elif a == "-j":
            jobs_n = int(argv.pop(0))
        elif a == "-v":
            verbose = True
        else:
            raise SystemExit(f"unknown argument {a}")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    started = time.time()
    module_name = f"checks.{pid.lower()}"
    module = importlib.import_module(module_name)
    limit = getattr(module, "JOB_LIMIT", {"quick": 240, "thorough": 3000})[tier]

    if replay:
        with open(replay) as f:
            jobs = [json.load(f)["job"]]
    else:
        jobs = list(module.jobs(tier, seed))
        if only:
            jobs = [j for j in jobs if j[0] == only]

    results = []
    errors = []
    if jobs_n <= 1 or len(jobs) == 1:
        for job in jobs:
            results.append(run_job(module_name, job, limit))
    else:
        import multiprocessing as mp

        with env.orig_ProcessPoolExecutor(
            min(jobs_n, len(jobs)), mp_context=mp.get_context("fork")
        ) as pool:
            futures = {
                pool.submit(run_job, module_name, job, limit): job for job in jobs
            }
            for f in env.orig_as_completed(futures):
                try:
                    results.append(f.result())
                except BaseException as e:  # a worker died
                    errors.append(f"job {futures[f]} died: {e!r}")
    for r in results:
        if r["error"]:
            errors.append(f"job {r['job']}:\n{r['error']}")
        if verbose:
            sys.stdout.flush()
            print(
                f"  {r['wall']:6.1f}s {r['job']} states={len(r['states'])} "
                f"trans={r['transitions']} exec={r['executions']} "
                f"outcomes={len(r['outcomes'])} {r['notes']}",
                file=sys.stderr,
            )
    results.sort(key=lambda r: repr(r["job"]))

    known = {
        (k["property"], k["sig"]): k for k in load_known().get("known", [])
    }
    violations = [v for r in results for v in r["violations"]]
    seen_known, fresh, sigs = {}, [], set()
    for v in violations:
        k = known.get((pid, v["sig"]))
        if k is not None:
            seen_known[v["sig"]] = k
        elif v["sig"] not in sigs:
            sigs.add(v["sig"])
            fresh.append(v)

    states = set().union(*(r["states"] for r in results)) if results else set()
    nontrivial = set().union(*(r["nontrivial"] for r in results)) if results else set()
    outcomes = set().union(*(r["outcomes"] for r in results)) if results else set()
    notes = {}
    for r in results:
        for k, n in r["notes"].items():
            notes[k] = notes.get(k, 0) + n
    transitions = sum(r["transitions"] for r in results)
    executions = sum(r["executions"] for r in results)
    capped = [c for r in results for c in r["capped"]]
    samples = []
    for r in results:
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append({"job": _jsonable(r["job"]), "case": s})
    level = module.LEVEL
    coverage = {
        "jobs": len(jobs),
        "executions": executions,
        "distinct_outcomes": len(outcomes),
        "bounds": module.BOUNDS[tier] if isinstance(module.BOUNDS, dict) else module.BOUNDS,
        "exhaustive": not capped and not errors,
        "counters": notes,
        "samples": samples,
    }
    if capped:
        coverage["capped"] = capped
    if level == "model_checking":
        coverage.update(
            states=len(states),
            transitions=transitions,
            traces_validated_against_impl=executions,
        )
    else:
        coverage.update(
            evaluations=executions,
            distinct_nontrivial=len(nontrivial),
            rule=module.RULE,
            states=len(states),
            transitions=transitions,
        )
    evidence = {
        "property": pid,
        "tier": tier if tier in ("quick", "thorough") else "quick",
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - started, 2),
        "violations": len(fresh),
    }
    if not replay and not only:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
            f.write("\n")

    for sig, k in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {k['text']}")
    if fresh:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        for i, v in enumerate(fresh[:5]):
            path = os.path.join(OUT, "replays", f"{pid}-{i}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": pid,
                        "job": v["job"],
                        "message": v["message"],
                        "context": v["context"],
                        "detail": v["detail"],
                        "replay": f"cd {VERIF} && /opt/venv/bin/python run.py {pid} --replay {path}",
                    },
                    f,
                    indent=1,
                )
            sys.stdout.flush()
            print(f"VIOLATION property={pid} replay={path}")
            print(f"  {v['message'][:400]}")
            print(f"  at {json.dumps(v['context'])[:600] if v['context'] else v['job']}")
            if verbose or os.environ.get("MC_DETAIL"):
                d = v["detail"]
                print("  " + (json.dumps(d, indent=1) if d else "").replace("\\n", "\n")[:4000])
        print(f"{pid}: {len(fresh)} distinct violation(s)")
        return 1
    if errors:
        for e in errors[:5]:
            print(e, file=sys.stderr)
        print(f"{pid}: error in the checker ({len(errors)} job(s))", file=sys.stderr)
        return 3
    print(
        f"{pid} {tier}: held. jobs={len(jobs)} executions={executions} "
        f"states={len(states)} transitions={transitions} "
        f"outcomes={len(outcomes)} wall={evidence['wall_s']}s"
    )
    return 0
