"""Two clients under a controlled scheduler.

Each client runs in a thread of its own, but only one runs at a time.  Every
call that reaches SQLite through a cursor is a *point* at which the scheduler
decides who goes on.  Nothing is left to the operating system: a run is
determined by its schedule.

SQLite's busy timeout is replaced by the scheduler: a statement that finds the
database locked either fails at once (the timeout ran out) or waits: it is
tried again after each point of the other client ('early') or when the other
client has finished or is waiting too ('late').
"""
import sqlite3
import threading

_real_connect = sqlite3.connect
CURRENT = None          # the running Scheduler


class SchedCursor(sqlite3.Cursor):
    def _point(self, what, call, repeatable=True):
        s = CURRENT
        if s is None:
            return call()
        return s.point(self, what, call, repeatable)

    def execute(self, sql, *args):
        return self._point(sql, lambda: super(SchedCursor, self).execute(sql, *args))

    def executemany(self, sql, params):
        s = CURRENT
        if s is None:
            return super().executemany(sql, params)
        for p in list(params) if isinstance(params, (list, tuple)) else params:
            self._point(sql, lambda: super(SchedCursor, self).execute(sql, p))
        return self

    def executescript(self, sql):
        return self._point(sql, lambda: super(SchedCursor, self).executescript(sql), False)

    def __next__(self):
        return self._point('next', super().__next__, False)

    def fetchone(self):
        return self._point('fetchone', super().fetchone, False)

    def fetchall(self):
        return self._point('fetchall', super().fetchall, False)

    def fetchmany(self, *args, **kwds):
        return self._point('fetchmany', lambda: super(SchedCursor, self).fetchmany(*args, **kwds), False)

    def close(self):
        return self._point('close', super().close, False)


_classes = {}


class _Of:
    def __init__(self, connection):
        self.connection = connection


def _controlled(factory):
    if factory not in _classes:
        def cursor(self, factory=SchedCursor):
            return sqlite3.Connection.cursor(self, factory)

        def backup(self, target, **kwds):
            # On its own it would wait for the lock without end.
            def progress(status, *rest):
                if status in (sqlite3.SQLITE_BUSY, sqlite3.SQLITE_LOCKED):
                    raise sqlite3.OperationalError('database is locked')

            def call():
                return sqlite3.Connection.backup(self, target, progress=progress)
            s = CURRENT
            return call() if s is None else s.point(_Of(self), 'backup', call, True)
        _classes[factory] = type(factory.__name__, (factory,), {'cursor': cursor, 'backup': backup})
    return _classes[factory]


def _connect(*args, **kwds):
    kwds['factory'] = _controlled(kwds.get('factory') or sqlite3.Connection)
    kwds['timeout'] = 0
    con = _real_connect(*args, **kwds)
    if CURRENT is not None and CURRENT.spill:
        con.execute('PRAGMA cache_size = 1')    # changed pages reach the file before the commit
    return con


class Deadlock(Exception):
    pass


class Client:
    def __init__(self, func):
        self.func = func
        self.go = threading.Lock()
        self.go.acquire()
        self.done = False
        self.waiting = False
        self.waited = False
        self.events = 0
        self.log = []           # (what, lock state after) per point
        self.result = None
        self.base = 0
        self.locked = 0         # statements that failed because of a lock


class Scheduler:
    """Run two functions; *plan* is a list of (client, points): run that
    client for so many points (None: to its end), in this order."""

    def __init__(self, funcs, plan, policy='fail', spill=False):
        self.spill = spill
        self.clients = [Client(f) for f in funcs]
        self.plan = list(plan)
        self.policy = policy
        self.back = threading.Lock()
        self.back.acquire()
        self.by_thread = {}
        self.order = []         # (client, in a transaction after the point) of all points

    # -- called in a client's thread
    def point(self, cursor, what, call, repeatable):
        c = self.by_thread.get(threading.get_ident())
        if c is None:
            return call()
        self.pause(c)
        while True:
            try:
                out = call()
                break
            except sqlite3.OperationalError as err:
                if 'locked' not in str(err):
                    self.note(c, cursor, what)
                    raise
                if self.policy == 'fail' or not repeatable or getattr(c, 'giveup', False):
                    c.giveup = False
                    c.locked += 1
                    self.note(c, cursor, what)
                    raise
                c.waiting = c.waited = True
                self.pause(c)
            except BaseException:
                self.note(c, cursor, what)
                raise
        c.waiting = False
        self.note(c, cursor, what)
        return out

    def note(self, c, cursor, what):
        try:
            con = cursor.connection
            if not con.in_transaction:
                c.base = con.total_changes
            state = (con.in_transaction, con.total_changes > c.base)
        except sqlite3.Error:
            state = None
        c.log.append((what, state))
        self.order.append((self.clients.index(c), state))

    def pause(self, c):
        self.back.release()
        c.go.acquire()

    def body(self, c):
        self.by_thread[threading.get_ident()] = c
        c.go.acquire()
        try:
            if getattr(c.func, 'pause_first', False):
                c.log.append(('start', None))
                self.order.append((self.clients.index(c), None))
                self.pause(c)
            c.result = c.func()
        except BaseException as err:
            c.result = err
        c.done = True
        self.by_thread.pop(threading.get_ident(), None)
        self.back.release()

    # -- called in the main thread
    def step(self, c):
        c.go.release()
        self.back.acquire()

    def run(self):
        global CURRENT
        CURRENT = self
        sqlite3.connect = _connect
        threads = [threading.Thread(target=self.body, args=(c,), daemon=True) for c in self.clients]
        try:
            for t in threads:
                t.start()
            for c in self.clients:      # bring each to its first point
                self.step(c)
            for who, points in self.plan + [(0, None), (1, None)]:
                c, other = self.clients[who], self.clients[1 - who]
                n = 0
                while not c.done and (points is None or n < points):
                    if c.waiting:
                        # It cannot go on by itself.
                        if other.done or other.waiting:
                            self.retry(c, other)
                        else:
                            self.advance(other)
                            if self.policy == 'early' or other.done or other.waiting:
                                self.retry(c, other)
                    else:
                        self.step(c)
                        n += 1
            for t in threads:
                t.join(60)
        finally:
            CURRENT = None
            sqlite3.connect = _real_connect
        return self

    def advance(self, c):
        self.step(c)

    def retry(self, c, other):
        self.step(c)
        if c.waiting and not c.done and (other.done or other.waiting):
            # Nobody can go on: the timeout runs out.
            c.giveup = True
            c.waiting = False
            self.step(c)


def run(funcs, plan, policy='fail', spill=False):
    return Scheduler(funcs, plan, policy, spill).run()
