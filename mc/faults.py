"""
Enumerating single faults of an execution: every database statement (of the
program and of its background tasks), every row of a bulk statement, every
submission, every background task, every wait.
"""

import contextlib
import sqlite3
from concurrent.futures.process import BrokenProcessPool

from mc.env import CTL, SqlHook


class InjectedError(sqlite3.OperationalError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedWorkerError(RuntimeError):
    pass


INJECTED = (InjectedError, InjectedInterrupt, InjectedWorkerError, BrokenProcessPool)


class _Counter(SqlHook):
    """Counts fault points, and fires at one of them."""

    def __init__(self, target=None, on_fire=None):
        self.points = []
        self.target = target
        self.fired = None
        self.on_fire = on_fire

    def _point(self, name, make):
        i = len(self.points)
        self.points.append(name)
        if self.fired is None and i == self.target:
            self.fired = name
            if self.on_fire:
                self.on_fire()
            raise make()

    # database statements
    def before(self, conn, kind, sql, args):
        role = CTL.role
        text = " ".join(sql.split())[:70]
        self._point((role, "error", text), lambda: InjectedError("injected disk I/O error"))
        if role == "main":
            self._point((role, "interrupt", text), InjectedInterrupt)
            if conn.in_transaction and not text.lower().startswith("select"):
                # SQLite gives up the whole transaction on some errors
                def give_up():
                    sqlite3.Connection.rollback(conn)
                    return InjectedError("injected disk full")

                self._point((role, "error and automatic rollback", text), give_up)
        if kind == "executemany" and args:
            return (self._rows(args[0], role, text),) + tuple(args[1:])
        return None

    def _rows(self, rows, role, text):
        for i, row in enumerate(rows):
            if i:
                self._point(
                    (role, f"interrupt at row {i}" if role == "main" else f"error at row {i}", text),
                    InjectedInterrupt if role == "main" else InjectedWorkerError,
                )
            yield row

    # background work
    def submit(self, fn, args):
        name = getattr(fn, "__name__", "task")
        self._point(("main", "submit fails", name), lambda: BrokenProcessPool("injected"))

    def task(self, fn, args):
        name = getattr(fn, "__name__", "task")
        self._point(("worker", "task fails", name), lambda: InjectedWorkerError("injected"))

    def corpus(self, what):
        self._point(
            (CTL.role, "corpus raises", what), lambda: InjectedWorkerError("injected corpus failure")
        )

    def wait(self):
        if CTL.role == "main":
            self._point(("main", "interrupt", "waiting"), InjectedInterrupt)


def chosen(points, each=3):
    """
    Positions of fault points of a long execution: of all points that are alike
    (the same statement, whatever the row), the first, the last and some between.
    """
    alike = {}
    for i, (role, what, text) in enumerate(points):
        alike.setdefault((role, what.rstrip("0123456789"), text), []).append(i)
    out = set()
    for places in alike.values():
        n = len(places)
        out |= {places[min(n - 1, n * j // each)] for j in range(each)} | {places[-1]}
    return sorted(out)


@contextlib.contextmanager
def injected(target=None, on_fire=None):
    """Install the fault counter; yields it."""
    counter = _Counter(target, on_fire)
    CTL.sql_hook = counter
    CTL.submit_hook = counter.submit
    CTL.task_hook = counter.task
    CTL.wait_hook = counter.wait
    try:
        yield counter
    finally:
        CTL.sql_hook = None
        CTL.submit_hook = None
        CTL.task_hook = None
        CTL.wait_hook = None
