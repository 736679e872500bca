"""
Crash points and concurrent readers of an operation: before and after every
database statement the files are copied as a killed process would leave them,
and a reader on another connection looks at the live files.
"""

import contextlib
import hashlib
import os
import sqlite3
import struct

from mc import kit
from mc.env import CTL, SqlHook, orig_connect

# what users can ask about; bookkeeping tables may differ while nothing is lost
VISIBLE = (
    "doc_key",
    "inverted_index",
    "position_doc_map",
    "position_index",
    "field_summary",
    "feature_cluster",
    "cluster",
    "settings",
)


def visible(dump):
    return {t: dump.get(t) for t in VISIBLE}


class CrashHook(SqlHook):
    """Collects the distinct file states and what a reader saw, in order."""

    def __init__(self, path, content=None):
        self.path = os.fspath(path)
        self.content = content or (lambda c: visible(kit.dump(c)))
        self.images = {}  # digest -> (description, {suffix: bytes})
        self.seen = []  # (description, content)
        self.points = 0
        self.reader = orig_connect(self.path, isolation_level=None, timeout=0)
        self.probe("start")

    def files(self):
        out = {}
        for suffix in ("", "-wal", "-journal"):
            with contextlib.suppress(FileNotFoundError):
                with open(self.path + suffix, "rb") as f:
                    out[suffix] = f.read()
        return out

    def probe(self, what):
        self.points += 1
        files = self.files()
        key = hashlib.blake2b(
            b"".join(k.encode() + v for k, v in sorted(files.items())), digest_size=16
        ).digest()
        if key not in self.images:
            self.images[key] = (what, files)
            try:
                content = self.content(self.reader)
            except sqlite3.OperationalError as e:
                content = f"unreadable: {e}"
            if not self.seen or self.seen[-1][1] != content:
                self.seen.append((what, content))

    def before(self, conn, kind, sql, args):
        self.probe(("before", CTL.role, " ".join(sql.split())[:70]))
        if kind == "executemany" and args and conn.mc_path == self.path:
            return (self._rows(args[0], sql),) + tuple(args[1:])
        return None

    def _rows(self, rows, sql):
        for i, row in enumerate(rows):
            self.probe(("row", i, " ".join(sql.split())[:70]))
            yield row

    def after(self, conn, kind, sql, error):
        self.probe(("after", CTL.role, " ".join(sql.split())[:70]))

    def close(self):
        self.reader.close()


class Observer(SqlHook):
    """
    For operations of many steps: every committed state, told apart by the
    change counter of another connection, looked at around every statement and
    row. What is committed is what a crash leaves and what readers see.
    """

    def __init__(self, path, content=None):
        self.path = os.fspath(path)
        self.content = content or (lambda c: visible(kit.dump(c)))
        self.reader = orig_connect(self.path, isolation_level=None, timeout=0)
        self.seen = []
        self.points = 0
        self.version = None
        self.probe("start")

    def probe(self, what):
        self.points += 1
        try:
            version = self.reader.execute("pragma data_version").fetchone()[0]
            if version != self.version:
                content = self.content(self.reader)
                self.version = version
                if not self.seen or self.seen[-1][1] != content:
                    self.seen.append((what, content))
        except sqlite3.OperationalError as e:
            if "locked" not in str(e) and "busy" not in str(e):
                raise

    def before(self, conn, kind, sql, args):
        if getattr(conn, "mc_path", None) != self.path:
            return None
        self.probe(("before", CTL.role, sql[:70]))
        if kind == "executemany" and args:
            return (self._rows(args[0], sql),) + tuple(args[1:])
        return None

    def _rows(self, rows, sql):
        for i, row in enumerate(rows):
            if i % 50 == 49:
                self.probe(("row", i, sql[:70]))
            yield row

    def after(self, conn, kind, sql, error):
        if getattr(conn, "mc_path", None) == self.path:
            self.probe(("after", CTL.role, sql[:70]))


@contextlib.contextmanager
def observed(path, content=None):
    hook = Observer(path, content)
    CTL.sql_hook = hook
    try:
        yield hook
    finally:
        CTL.sql_hook = None
        hook.probe("end")
        hook.reader.close()


@contextlib.contextmanager
def watched(path, content=None):
    hook = CrashHook(path, content)
    CTL.sql_hook = hook
    try:
        yield hook
    finally:
        CTL.sql_hook = None
        hook.probe("end")
        hook.final = hook.files()
        hook.close()


def recovered(path):
    """What the files show when they are opened again; a string if they can't be read."""
    try:
        return visible(kit.dump(path))
    except sqlite3.DatabaseError as e:
        return f"unreadable: {e}"


def small_cache(conn):
    """Makes SQLite write uncommitted pages early."""
    sqlite3.Connection.execute(conn, "pragma cache_size=1")
    sqlite3.Connection.execute(conn, "pragma cache_spill=1")


def write_image(target, files):
    for suffix in ("", "-wal", "-shm", "-journal"):
        with contextlib.suppress(FileNotFoundError):
            os.unlink(target + suffix)
    for suffix, data in files.items():
        with open(target + suffix, "wb") as f:
            f.write(data)
    return target


def wal_prefixes(files, begun=0):
    """Every prefix of the write-ahead log not shorter than begun, with whole and torn frames."""
    wal = files.get("-wal")
    if not wal or len(wal) < 32:
        return
    page = struct.unpack(">I", wal[8:12])[0]
    frame = 24 + page
    n = (len(wal) - 32) // frame
    for i in range(n + 1):
        end = 32 + i * frame
        if end < begun:
            continue
        yield f"{i} of {n} frames", dict(files, **{"-wal": wal[:end]})
        if i < n:
            for part, what in ((24, "frame header"), (frame // 2, "half a frame")):
                yield f"{i} of {n} frames and {what}", dict(files, **{"-wal": wal[: end + part]})
            torn = bytearray(wal[: end + frame])
            torn[-1] ^= 0xFF
            yield f"{i} of {n} frames and a damaged one", dict(files, **{"-wal": bytes(torn)})
