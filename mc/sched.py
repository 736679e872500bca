"""
Cooperative scheduler: real threads, one running at a time, switching only at
scheduling points (database statements, locks, waits). The choice of the next
thread is the explorer's. Choice 0 keeps the running thread going, so every
other choice at a point where it could continue is a preemption.
"""

import threading

from mc.env import CTL, HarnessError, SqlHook


class Abort(BaseException):
    """Unwinds a managed thread when the execution is abandoned."""


class Deadlock(Exception):
    pass


class Scheduler:
    def __init__(self, chooser, threads_for_tasks=False, max_points=5000):
        self.chooser = chooser
        self.threads_for_tasks = threads_for_tasks
        self.threads = []
        self.current = None
        self.error = None
        self.points = 0
        self.max_points = max_points
        self.done_event = threading.Semaphore(0)
        self.aborting = False
        self.switches = 0

    # -- set up ------------------------------------------------------------
    class _Thread:
        def __init__(self, sched, fn, name):
            self.sched = sched
            self.fn = fn
            self.name = name
            self.go = threading.Semaphore(0)
            self.finished = False
            self.blocked_on = None  # predicate
            self.stalled = False  # waits for progress of another thread
            self.timed_out = False
            self.thread = threading.Thread(target=self.body, daemon=True)

        def body(self):
            self.go.acquire()
            try:
                if not self.sched.aborting:
                    self.fn()
            except Abort:
                pass
            except BaseException as e:  # harness failure: functions catch their own
                if self.sched.error is None:
                    self.sched.error = e
            finally:
                self.finished = True
                self.sched._progress(self)
                self.sched._next(self)

        def enabled(self):
            if self.finished or self.stalled:
                return False
            return self.blocked_on is None or self.blocked_on()

    def spawn(self, fn, name=""):
        t = self._Thread(self, fn, name)
        self.threads.append(t)
        t.thread.start()
        return t

    def is_abort(self, e):
        return isinstance(e, Abort)

    # -- running -----------------------------------------------------------
    def run(self):
        CTL.sched = self
        try:
            self._next(None)
            self.done_event.acquire()
            for t in self.threads:
                t.thread.join(30)
                if t.thread.is_alive():
                    raise HarnessError(f"thread {t.name} did not end")
        finally:
            CTL.sched = None
        if self.error is not None:
            raise self.error

    def _fail(self, error):
        if self.error is None:
            self.error = error
        self.aborting = True

    def _me(self):
        for t in self.threads:
            if t.thread is threading.current_thread():
                return t
        raise HarnessError("a scheduling point in an unmanaged thread")

    def _next(self, me):
        """Hand over to the next thread; called by the running thread."""
        if self.aborting or self.error is not None:
            self.aborting = True
            for t in self.threads:
                if not t.finished and t is not me:
                    t.blocked_on = None
                    t.go.release()
                    return
            if me is None or me.finished:
                self.done_event.release()
                return
            return
        order = [t for t in self.threads if t is me] + [
            t for t in self.threads if t is not me
        ]
        enabled = [t for t in order if t.enabled()]
        if not enabled:
            if all(t.finished for t in self.threads):
                self.done_event.release()
                return
            stalled = [t for t in self.threads if t.stalled and not t.finished]
            if stalled:
                # nobody can make progress: the first stalled one times out
                stalled[0].stalled = False
                stalled[0].timed_out = True
                enabled = [stalled[0]]
            else:
                self._fail(Deadlock("no thread can continue"))
                self._next(me)
                return
        k = 0
        if len(enabled) > 1:
            try:
                k = self.chooser.choose(
                    len(enabled),
                    "preempt" if me is not None and enabled[0] is me else "switch",
                )
            except BaseException as e:
                self._fail(e)
                self._next(me)
                return
        chosen = enabled[k]
        if chosen is me:
            return
        self.switches += 1
        chosen.go.release()

    def _yield(self, me):
        self.points += 1
        if self.points > self.max_points:
            self._fail(Deadlock("no end in sight: too many scheduling points"))
        self._switch(me)

    def _switch(self, me):
        # choose; if another thread was released, wait for our turn
        token = self.switches
        if self.aborting:
            raise Abort()
        self._next(me)
        if self.aborting and not me.finished:
            raise Abort()
        if self.switches != token:
            me.go.acquire()
            if self.aborting:
                raise Abort()

    def point(self, tag=""):
        self._yield(self._me())

    def wait_for(self, predicate, tag=""):
        me = self._me()
        if predicate():
            self._yield(me)
            while not predicate():
                me.blocked_on = predicate
                self._yield(me)
                me.blocked_on = None
            return
        while not predicate():
            me.blocked_on = predicate
            self._yield(me)
            me.blocked_on = None

    def _progress(self, me):
        for t in self.threads:
            if t is not me:
                t.stalled = False


class SchedSqlHook(SqlHook):
    """Every statement is a scheduling point; lock conflicts wait or time out."""

    def __init__(self, sched, chooser, filter=None, give_up=True):
        self.give_up = give_up  # also explore lock waits that time out
        self.sched = sched
        self.chooser = chooser
        self.filter = filter
        self.conflicts = 0

    def before(self, conn, kind, sql, args):
        if self.filter is None or self.filter(conn, sql):
            self.sched.point(sql)
        return None

    def retry(self, conn, kind, sql, error):
        code = getattr(error, "sqlite_errorcode", None)
        if code is None or (code & 0xFF) not in (5, 6):
            return False
        self.conflicts += 1
        if code == 517:  # SQLITE_BUSY_SNAPSHOT: waiting cannot help
            return False
        # wait for the other side, or give up as the busy timeout would
        if self.give_up and self.chooser.choose(2, "busy") == 1:
            return False
        me = self.sched._me()
        me.timed_out = False
        me.stalled = True
        self.sched._yield(me)
        me.stalled = False
        return not me.timed_out

    def after(self, conn, kind, sql, error):
        if error is None:
            self.sched._progress(self.sched._me())
