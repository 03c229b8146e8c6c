"""Fault injection into the code under test.

Two injectors, both deterministic and addressed by a number:

* ``SqlFaults``: every call that reaches SQLite through a cursor (execute,
  executemany, executescript, fetching a row) is an *event*.  Event *n* can be
  made to fail before it runs, or to be aborted by SQLite itself after a given
  number of virtual machine steps (SQLITE_INTERRUPT: the statement and
  possibly the whole transaction are rolled back by SQLite), or to run out of
  storage (SQLITE_FULL).
* ``Interrupts``: every point in the package's own code at which CPython would
  deliver a pending signal is an event at which KeyboardInterrupt is raised.
"""
import os
import sqlite3
import sys
from contextlib import contextmanager
from . import core

sys.unraisablehook = lambda args: None   # interrupts that end up in a generator's clean-up

PACKAGE = os.path.join(os.path.realpath(core.REPO), 'src', 'toron') + os.sep


# --------------------------------------------------------------------------
# SQL events
# --------------------------------------------------------------------------
class Plan:
    def __init__(self):
        self.on = False
        self.n = 0
        self.at = None
        self.kind = None
        self.arg = 0
        self.log = None
        self.fired = False


PLAN = Plan()


class FaultCursor(sqlite3.Cursor):
    def _event(self, what, call):
        p = PLAN
        if not p.on:
            return call()
        p.n += 1
        if p.log is not None:
            p.log.append(what)
        if p.n != p.at:
            return call()
        p.fired = True
        if p.kind == 'error':
            raise sqlite3.OperationalError('disk I/O error')
        con = self.connection
        if p.kind == 'abort':
            left = [p.arg]

            def tick():
                left[0] -= 1
                return 1 if left[0] < 0 else 0
            con.set_progress_handler(tick, 1)
            try:
                return call()
            finally:
                con.set_progress_handler(None, 1)
        if p.kind == 'full':
            p.on = False
            cur = sqlite3.Cursor(con)
            try:
                pages = cur.execute('PRAGMA page_count').fetchone()[0]
                cur.execute(f'PRAGMA max_page_count={max(1, pages)}').fetchone()
            finally:
                cur.close()
            try:
                return call()
            finally:
                cur = sqlite3.Cursor(con)
                cur.execute('PRAGMA max_page_count=1073741823').fetchone()
                cur.close()
        raise AssertionError(p.kind)

    def execute(self, sql, *args):
        return self._event(sql, lambda: super(FaultCursor, self).execute(sql, *args))

    def executemany(self, sql, *args):
        return self._event(sql, lambda: super(FaultCursor, self).executemany(sql, *args))

    def executescript(self, sql):
        return self._event(sql, lambda: super(FaultCursor, self).executescript(sql))

    def __next__(self):
        return self._event('next', super().__next__)

    def fetchone(self):
        return self._event('fetchone', super().fetchone)

    def fetchall(self):
        return self._event('fetchall', super().fetchall)

    def fetchmany(self, *args, **kwds):
        return self._event('fetchmany', lambda: super(FaultCursor, self).fetchmany(*args, **kwds))


_classes = {}


def _faulty(factory):
    if factory not in _classes:
        def cursor(self, factory=FaultCursor):
            return sqlite3.Connection.cursor(self, factory)
        _classes[factory] = type(factory.__name__, (factory,), {'cursor': cursor})
    return _classes[factory]


_real_connect = sqlite3.connect


def install():
    """From now on all connections deliver events (while PLAN.on)."""
    def connect(*args, **kwds):
        kwds['factory'] = _faulty(kwds.get('factory') or sqlite3.Connection)
        return _real_connect(*args, **kwds)
    sqlite3.connect = connect


def uninstall():
    sqlite3.connect = _real_connect


@contextmanager
def sql_events(at=None, kind=None, arg=0, log=None):
    p = PLAN
    p.n, p.at, p.kind, p.arg, p.log, p.fired = 0, at, kind, arg, log, False
    p.on = True
    try:
        yield p
    finally:
        p.on = False
        p.log = None


# --------------------------------------------------------------------------
# Interrupt events
# --------------------------------------------------------------------------
TOOL = 3


class Interrupts:
    """Counts the places at which CPython delivers a pending signal: entry of a
    (generator) function and return from a C call.  (Backward jumps are left
    out: an exception raised by a callback for one is not given to the
    handlers around the jump, unlike that of a real signal.)"""

    def __init__(self, at=None, log=None, exc=KeyboardInterrupt):
        self.n, self.at, self.log, self.exc, self.fired = 0, at, log, exc, False
        self.own = {}

    def mine(self, code):
        name = code.co_filename
        own = self.own.get(name)
        if own is None:
            own = self.own[name] = os.path.realpath(name).startswith(PACKAGE)
        return own

    def event(self, code, offset, kind):
        self.n += 1
        if self.log is not None:
            frame = sys._getframe(2)
            stack = [(kind, offset)]
            while frame is not None and len(stack) < 12:
                if self.own.get(frame.f_code.co_filename):
                    stack.append((frame.f_code.co_name, frame.f_lineno))
                frame = frame.f_back
            self.log.append(tuple(stack))
        if self.n == self.at:
            self.fired = True
            self.at = None
            raise self.exc()

    def start(self, code, offset):
        if not self.mine(code):
            return sys.monitoring.DISABLE
        return self.event(code, offset, 'enter')

    def call(self, code, offset, func, arg):
        if not self.mine(code):
            return sys.monitoring.DISABLE

    def returned(self, code, offset, func, arg):
        if self.mine(code):
            return self.event(code, offset, 'call')


@contextmanager
def interrupt_events(at=None, log=None, exc=KeyboardInterrupt):
    m = sys.monitoring
    e = m.events
    t = Interrupts(at, log, exc)
    m.use_tool_id(TOOL, 'toronmc')
    m.register_callback(TOOL, e.PY_START, t.start)
    m.register_callback(TOOL, e.PY_RESUME, t.start)
    m.register_callback(TOOL, e.CALL, t.call)
    m.register_callback(TOOL, e.C_RETURN, t.returned)
    m.restart_events()
    m.set_events(TOOL, e.PY_START | e.PY_RESUME | e.CALL)
    try:
        yield t
    finally:
        m.set_events(TOOL, 0)
        for k in (e.PY_START, e.PY_RESUME, e.CALL, e.C_RETURN):
            m.register_callback(TOOL, k, None)
        m.free_tool_id(TOOL)
