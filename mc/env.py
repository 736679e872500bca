"""
Closed environment for running hyperreal under a model checker.

Importing this module *before* hyperreal replaces every source of
nondeterminism and every failure point the code under test can reach:

- sqlite3.connect returns connections whose statements are reported to the
  controller before they run (fault injection, crash points, reader probes and
  scheduling points), with no lock wait (a lock conflict is visible at once),
- random.Random asks the controller for each random outcome when an exploration
  is active (otherwise it is an ordinary generator with a fixed default seed),
- concurrent.futures pools run their tasks in this process, at moments and in
  an order that the controller decides, with arguments and results pickled as a
  process pool would,
- multiprocessing.Manager is an in-process stand-in whose locks the controller
  sees,
- temporary files live in a scratch directory in memory.
"""

import atexit
import concurrent.futures as cf
import contextlib
import itertools
import logging
import multiprocessing as mp
import multiprocessing.context
import os
import pickle
import random as random_module
import shutil
import signal
import sqlite3
import sys
import tempfile
import threading
import time
import traceback

REPO = os.environ.get("MC_REPO", "/repo")

# ---------------------------------------------------------------- scratch ----
_base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
SCRATCH = tempfile.mkdtemp(prefix="hrmc-", dir=_base)
_owner_pid = os.getpid()


def _cleanup():
    if os.getpid() == _owner_pid:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_cleanup)
os.makedirs(os.path.join(SCRATCH, "tmp"), exist_ok=True)
tempfile.tempdir = os.path.join(SCRATCH, "tmp")

_counter = 0


def fresh_dir(tag="d"):
    """A new empty directory below the scratch directory."""
    global _counter
    _counter += 1
    path = os.path.join(SCRATCH, f"{tag}-{os.getpid()}-{_counter}")
    os.makedirs(path)
    return path


@contextlib.contextmanager
def workdir(tag="d"):
    path = fresh_dir(tag)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


class HarnessError(Exception):
    """Something is wrong with the checker itself, never a verdict."""


class Hang(BaseException):
    """The code under test did not finish in the generous time allowed."""


class OutOfTime(Hang):
    """The checker itself ran out of time while making progress."""


@contextlib.contextmanager
def time_limit(seconds, progress=lambda: 0, stall=120):
    """
    Raise Hang when progress() does not change for `stall` seconds, and
    OutOfTime when it does but the whole takes longer than `seconds`.
    """
    started = last = time.monotonic()
    value = progress()

    def on_alarm(signum, frame):
        nonlocal last, value
        now = time.monotonic()
        if progress() != value:
            last, value = now, progress()
        elif now - last >= stall:
            raise Hang(f"not finished after {stall} s")
        if now - started > seconds:
            raise OutOfTime()

    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 5, 5)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# -------------------------------------------------------------- originals ----
orig_connect = sqlite3.connect
orig_Random = random_module.Random
orig_wait = cf.wait
orig_as_completed = cf.as_completed
orig_ProcessPoolExecutor = cf.ProcessPoolExecutor
orig_Manager = mp.Manager


class Controller:
    """What the running exploration decides. One per process."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.sql_hook = None  # object with before(ctx, conn, sql), after(...)
        self.random = None  # object with randbelow(n), random()
        self.order = None  # callable(n, tag) -> index of the task to complete next
        self.submit_hook = None  # callable(fn, args), may raise
        self.task_hook = None  # callable(fn, args) in the worker, may raise
        self.wait_hook = None  # callable() when the main program waits, may raise
        self.corpus_hook = None  # callable(what) when a corpus delivers something
        self.sched = None  # cooperative thread scheduler
        self.lock_hook = None
        self.local = threading.local()
        self.on_connect = None  # callable(conn) for every new connection
        self.connections = None  # list collecting every connection made
        self.same_thread = False  # connections only work in the thread they are made in
        self.default_workers = 2
        self.default_seed = 0

    @property
    def role(self):
        return getattr(self.local, "role", "main")

    @role.setter
    def role(self, value):
        self.local.role = value


CTL = Controller()


# ----------------------------------------------------------------- sqlite ----
class _Rewindable:
    """Parameter rows that can be offered again when a statement is retried."""

    def __init__(self, rows):
        self._it = iter(rows)
        self._seen = []
        self._at = 0

    def rewind(self):
        self._at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if self._at < len(self._seen):
            self._at += 1
            return self._seen[self._at - 1]
        row = next(self._it)
        self._seen.append(row)
        self._at += 1
        return row


def _run_sql(owner, conn, kind, sql, args, call):
    hook = CTL.sql_hook
    if hook is None:
        return call(*args)
    args = hook.before(conn, kind, sql, args) or args
    rows = None
    if kind == "executemany" and CTL.sched is not None:
        rows = _Rewindable(args[0])
        args = (rows,) + tuple(args[1:])
    while True:
        try:
            if rows is not None:
                rows.rewind()
            result = call(*args)
        except sqlite3.OperationalError as e:
            if hook.retry(conn, kind, sql, e):
                continue
            hook.after(conn, kind, sql, e)
            raise
        except BaseException as e:
            hook.after(conn, kind, sql, e)
            raise
        hook.after(conn, kind, sql, None)
        return result


class SqlHook:
    """Base class of statement observers."""

    def before(self, conn, kind, sql, args):
        return None

    def retry(self, conn, kind, sql, error):
        return False

    def after(self, conn, kind, sql, error):
        return None


class MCCursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        return _run_sql(
            self,
            self.connection,
            "execute",
            sql,
            args,
            lambda *a: sqlite3.Cursor.execute(self, sql, *a),
        )

    def executemany(self, sql, *args):
        return _run_sql(
            self,
            self.connection,
            "executemany",
            sql,
            args,
            lambda *a: sqlite3.Cursor.executemany(self, sql, *a),
        )

    def executescript(self, sql):
        return _run_sql(
            self,
            self.connection,
            "executescript",
            sql,
            (),
            lambda: sqlite3.Cursor.executescript(self, sql),
        )


class MCConnection(sqlite3.Connection):
    mc_path = None
    mc_role = "main"

    def cursor(self, factory=MCCursor):
        return super().cursor(factory)

    def execute(self, sql, *args):
        return _run_sql(
            self,
            self,
            "execute",
            sql,
            args,
            lambda *a: sqlite3.Connection.execute(self, sql, *a),
        )

    def executemany(self, sql, *args):
        return _run_sql(
            self,
            self,
            "executemany",
            sql,
            args,
            lambda *a: sqlite3.Connection.executemany(self, sql, *a),
        )

    def executescript(self, sql):
        return _run_sql(
            self,
            self,
            "executescript",
            sql,
            (),
            lambda: sqlite3.Connection.executescript(self, sql),
        )

    def commit(self):
        if not self.in_transaction:
            return super().commit()
        return _run_sql(self, self, "commit", "commit", (), super().commit)

    def rollback(self):
        if not self.in_transaction:
            return super().rollback()
        return _run_sql(self, self, "rollback", "rollback", (), super().rollback)


def connect(database, *args, **kwargs):
    kwargs.pop("timeout", None)
    args = args[1:] if args else args  # drop a positional timeout
    kwargs.setdefault("factory", MCConnection)
    if not CTL.same_thread:
        kwargs["check_same_thread"] = False
    conn = orig_connect(database, 0, *args, **kwargs)
    if isinstance(conn, MCConnection):
        conn.mc_path = os.fspath(database) if not isinstance(database, bytes) else database
        conn.mc_role = CTL.role
    if CTL.connections is not None:
        CTL.connections.append(conn)
    if CTL.on_connect is not None:
        CTL.on_connect(conn)
    return conn


sqlite3.connect = connect


# ----------------------------------------------------------------- random ----
class MCRandom(orig_Random):
    def __init__(self, x=None):
        if x is None:
            x = CTL.default_seed
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None:
            a = CTL.default_seed
        super().seed(a, version)

    def random(self):
        if CTL.random is not None:
            return CTL.random.random()
        return super().random()

    def _randbelow(self, n):
        if CTL.random is not None:
            return CTL.random.randbelow(n)
        if not n:
            raise ValueError("empty range")
        k = n.bit_length()
        r = self.getrandbits(k)
        while r >= n:
            r = self.getrandbits(k)
        return r

    def __reduce__(self):
        return (_rebuild_random, (self.getstate(),))


def _rebuild_random(state):
    r = MCRandom(0)
    r.setstate(state)
    return r


random_module.Random = MCRandom


# ------------------------------------------------------------------ pools ----
_sequence = itertools.count()


class MCFuture(cf.Future):
    def __init__(self, pool, task):
        super().__init__()
        self._mc_pool = pool
        self._mc_task = task
        self._mc_seq = next(_sequence)
        self._mc_thread = None

    def _mc_run(self):
        """Run the task now, in this process, as a worker would."""
        task, self._mc_task = self._mc_task, None
        if task is None:
            return
        if not self.set_running_or_notify_cancel():
            return
        role = CTL.role
        CTL.role = "worker"
        try:
            fn, args, kwargs = pickle.loads(task)
            if CTL.task_hook is not None:
                CTL.task_hook(fn, args)
            result = pickle.loads(pickle.dumps(fn(*args, **kwargs)))
        except (HarnessError, Hang):
            raise
        except BaseException as e:
            if CTL.sched is not None and CTL.sched.is_abort(e):
                raise
            self.set_exception(e)
        else:
            self.set_result(result)
        finally:
            CTL.role = role

    def _mc_wait(self):
        if CTL.wait_hook is not None:
            CTL.wait_hook()
        if self._state == "PENDING" and self._mc_thread is None:
            self._mc_pool._complete_until(self)
        elif CTL.sched is not None and not super().done():
            CTL.sched.wait_for(lambda: cf.Future.done(self), "future")

    def result(self, timeout=None):
        self._mc_wait()
        return super().result(0 if CTL.sched is not None else timeout)

    def exception(self, timeout=None):
        self._mc_wait()
        return super().exception(0 if CTL.sched is not None else timeout)


class MCPool(cf.Executor):
    """
    An executor whose tasks run in this process under the controller.

    Without a scheduler a task runs when something waits for it; which of the
    waiting tasks completes first is the controller's choice. With a scheduler
    each task is a thread of its own.
    """

    def __init__(self, max_workers=None, mp_context=None, *args, **kwargs):
        self._max_workers = max_workers or CTL.default_workers
        self._pending = []
        self._shutdown = False

    def submit(self, fn, /, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        if CTL.submit_hook is not None:
            CTL.submit_hook(fn, args)
        future = MCFuture(self, pickle.dumps((fn, args, kwargs)))
        if CTL.sched is not None and CTL.sched.threads_for_tasks:
            future._mc_thread = CTL.sched.spawn(future._mc_run, name=fn.__name__)
        else:
            self._pending.append(future)
        return future

    def _complete_until(self, future):
        # Which tasks finish before the awaited one makes a difference only to
        # the code that looks at them; run the chosen ones first.
        if CTL.order is not None:
            while future in self._pending:
                i = self._pending.index(future)
                # candidates: the awaited task first (default), then the others
                rest = [f for f in self._pending if f is not future]
                k = CTL.order(1 + len(rest), "result") if rest else 0
                chosen = future if k == 0 else rest[k - 1]
                self._pending.remove(chosen)
                chosen._mc_run()
        else:
            if future in self._pending:
                self._pending.remove(future)
            future._mc_run()

    def _complete_one_of(self, futures):
        todo = [f for f in self._pending if f in futures]
        if not todo:
            return None
        k = CTL.order(len(todo), "complete") if CTL.order is not None and len(todo) > 1 else 0
        chosen = todo[k]
        self._pending.remove(chosen)
        chosen._mc_run()
        return chosen

    def shutdown(self, wait=True, *, cancel_futures=False):
        if cancel_futures:
            for f in self._pending:
                f.cancel()
            self._pending = []
        elif wait:
            while self._pending:
                self._pending.pop(0)._mc_run()
        self._shutdown = True


def _mc_kind(fs):
    return any(isinstance(f, MCFuture) for f in fs)


def mc_wait(fs, timeout=None, return_when=cf.ALL_COMPLETED):
    fs = set(fs)
    if not _mc_kind(fs):
        return orig_wait(fs, timeout, return_when)

    def done_set():
        return {f for f in fs if cf.Future.done(f)}

    def finished():
        d = done_set()
        if len(d) == len(fs):
            return True
        if return_when == cf.FIRST_COMPLETED:
            return bool(d)
        if return_when == cf.FIRST_EXCEPTION:
            return any(not f.cancelled() and cf.Future.exception(f, 0) for f in d)
        return False

    ordered = _submission_order(fs)
    if CTL.wait_hook is not None:
        CTL.wait_hook()
    while not finished():
        if any(f._mc_thread is None and f._mc_task is not None for f in ordered):
            _complete_any(ordered)
        elif CTL.sched is not None:
            CTL.sched.wait_for(finished, "wait")
        else:
            raise HarnessError("waiting for futures that can never complete")
    if CTL.order is not None and return_when != cf.ALL_COMPLETED and CTL.sched is None:
        # further tasks may have completed at the same time
        while any(f._mc_task is not None for f in ordered):
            if CTL.order(2, "also-done") == 0:
                break
            _complete_any(ordered)
    d = done_set()
    return cf._base.DoneAndNotDoneFutures(d, fs - d)


def _submission_order(fs):
    return sorted(fs, key=lambda f: f._mc_seq)


def _complete_any(ordered):
    for f in ordered:
        if f._mc_task is not None and f._mc_thread is None:
            if f._mc_pool._complete_one_of(set(ordered)) is None:
                raise HarnessError("a pending task is not in its pool")
            return


def mc_as_completed(fs, timeout=None):
    fs = set(fs)
    if not _mc_kind(fs):
        yield from orig_as_completed(fs, timeout)
        return
    remaining = set(fs)
    while remaining:
        already = [f for f in _submission_order(remaining) if cf.Future.done(f)]
        if already:
            # results available at once: in any order
            k = (
                CTL.order(len(already), "already")
                if CTL.order is not None and len(already) > 1
                else 0
            )
            f = already[k]
            remaining.discard(f)
            yield f
            continue
        mc_wait(remaining, return_when=cf.FIRST_COMPLETED)


cf.wait = mc_wait
cf.as_completed = mc_as_completed
cf.ProcessPoolExecutor = MCPool
cf.ThreadPoolExecutor = MCPool


# --------------------------------------------------------------- managers ----
_locks = {}


def _find_lock(i):
    return _locks[i]


class MCLock:
    def __init__(self):
        self._id = len(_locks)
        _locks[self._id] = self
        self._held = False

    def __reduce__(self):
        return (_find_lock, (self._id,))

    def acquire(self, blocking=True, timeout=None):
        if CTL.sched is not None:
            CTL.sched.wait_for(lambda: not self._held, "lock")
        elif self._held:
            raise HarnessError("lock acquired twice without a scheduler")
        self._held = True
        return True

    def release(self):
        if not self._held:
            raise RuntimeError("release unlocked lock")
        self._held = False
        if CTL.sched is not None:
            CTL.sched.point("unlock")

    def locked(self):
        return self._held

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()


class MCManager:
    live = 0

    def __init__(self):
        MCManager.live += 1
        self._open = True

    def Lock(self):
        return MCLock()

    RLock = Lock

    def shutdown(self):
        if self._open:
            self._open = False
            MCManager.live -= 1

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()


def mc_manager(*args, **kwargs):
    return MCManager()


mp.Manager = mc_manager
multiprocessing.context.BaseContext.Manager = lambda self: MCManager()

# ------------------------------------------------------- code under check ----
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(SCRATCH, "pycache")
sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)

import hyperreal  # noqa: E402
import hyperreal.index  # noqa: E402
import hyperreal.corpus  # noqa: E402
import hyperreal.utilities  # noqa: E402

if not os.path.realpath(hyperreal.__file__).startswith(os.path.realpath(REPO) + os.sep):
    raise HarnessError(f"hyperreal was imported from {hyperreal.__file__}, not {REPO}")


def in_repo(exc):
    """True if exc comes from the code under test, not from the checker."""
    tb = exc.__traceback__
    root = os.path.realpath(REPO) + os.sep
    here = os.path.dirname(os.path.realpath(__file__)) + os.sep
    seen, innermost = False, None
    while tb is not None:
        name = os.path.realpath(tb.tb_frame.f_code.co_filename)
        innermost = name
        seen = seen or name.startswith(root)
        tb = tb.tb_next
    if (
        innermost
        and innermost.startswith(here)
        and os.path.basename(innermost) in ("env.py", "sched.py", "explore.py")
        and not isinstance(exc, (sqlite3.Error, RuntimeError))
    ):
        return False
    return seen


def cannot_read(exc):
    """
    True if a check failed to take apart what it was given: a missing file or
    part, or a value of another kind. On the tree the checks were written for
    this does not happen.
    """
    kinds = (LookupError, ValueError, TypeError, FileNotFoundError, SyntaxError, StopIteration, AssertionError)
    nothing = isinstance(exc, AttributeError) and str(exc).startswith("'NoneType'")
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
    checks = os.path.join(os.path.dirname(os.path.dirname(os.path.realpath(__file__))), "checks") + os.sep
    machinery = {"explore.py", "sched.py", "env.py"}
    return (
        (isinstance(exc, kinds) or nothing)
        and any(f.startswith(checks) for f in frames)
        and os.path.basename(frames[-1]) not in machinery
    )
