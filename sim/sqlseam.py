"""
The data base seam: every connection SQLAlchemy makes to SQLite while a simulation is active is one of these.
Statements, commits and rollbacks are points where other tasks may run and where faults are injected. Waiting for a
locked data base is done in simulated time.

Real: SQLAlchemy, the sqlite3 library and its files.
"""
import sqlite3
import weakref

from sqlalchemy import event
from sqlalchemy.engine import Engine

from . import core

CONNS = []  # [connection, task]
BUSY_TIMEOUT_NS = 5 * 10 ** 9  # what sqlite3.connect() has as default


def interesting(sql):
    s = sql.lstrip().upper()
    return s.startswith(('DELETE', 'INSERT', 'UPDATE', 'SELECT', 'REPLACE')) and 'THING' in s and \
        'SQLITE_' not in s


def injected(f, what):
    text = '%s (injected, %s)' % (f.get('msg', 'disk I/O error'), what)
    if f.get('exc') == 'MemoryError':
        raise MemoryError(text)
    raise getattr(sqlite3, f.get('exc', 'OperationalError'))(text)


def dead():
    sim = core.SIM
    if sim is not None and sim.cur is not None and sim.cur.dead:
        raise core.SimCrash()


def retry(fn, *args):
    sim = core.SIM
    start = None
    while True:
        try:
            return fn(*args)
        except sqlite3.OperationalError as err:
            if 'locked' not in str(err) or sim is None or sim.cur is None:
                raise
            if start is None:
                start = sim.mono_ns
                sim.probe('db-locked')
            if sim.mono_ns - start >= BUSY_TIMEOUT_NS:
                sim.probe('db-locked-timeout')
                raise
            sim.sleep(0.02)


def seam(kind, what, do):
    """A call with faults before and after"""
    sim = core.SIM
    if sim is None or sim.cur is None:
        return do()
    dead()
    f = sim.point(kind, what)
    if f is not None and f['do'] == 'ext:sql-error':
        injected(f, 'before ' + kind)
    res = retry(do)
    f = sim.point(kind + '-done', what)
    if f is not None and f['do'] == 'ext:sql-error':
        injected(f, 'after ' + kind)
    return res


class SimCursor(sqlite3.Cursor):
    def execute(self, sql, *args):
        sup = super().execute
        if core.SIM is None or not interesting(sql):
            return retry(sup, sql, *args)
        return seam('sql-' + sql.split()[0].lower(), repr(args)[:60], lambda: sup(sql, *args))

    def executemany(self, sql, *args):
        sup = super().executemany
        if core.SIM is None or not interesting(sql):
            return retry(sup, sql, *args)
        return seam('sql-' + sql.split()[0].lower(), repr(args)[:60], lambda: sup(sql, *args))


class SimConnection(sqlite3.Connection):
    cursors = ()

    def cursor(self, *args):
        cur = super().cursor(SimCursor)
        if self.cursors == ():
            self.cursors = []
        self.cursors[:] = [c for c in self.cursors if c() is not None] + [weakref.ref(cur)]
        return cur

    def commit(self):
        sup = super().commit
        if not self.in_transaction:
            return sup()
        return seam('sql-commit', '', sup)

    def rollback(self):
        dead()
        return super().rollback()


def do_connect(dialect, conn_rec, cargs, cparams):
    sim = core.SIM
    if sim is None:
        return None
    dead()
    cparams = dict(cparams, factory=SimConnection, timeout=0, check_same_thread=False)
    conn = sqlite3.connect(*cargs, **cparams)
    # durability against power failures isn't what is looked at
    retry(sqlite3.Connection.execute, conn, 'PRAGMA synchronous=OFF')
    CONNS.append([conn, sim.cur])
    return conn


event.listen(Engine, 'do_connect', do_connect)


def crashed(task):
    """The connections of a dead process are gone, what was not committed as well"""
    for ent in list(CONNS):
        if task is None or ent[1] is task:
            CONNS.remove(ent)
            for ref in ent[0].cursors:
                cur = ref()
                if cur is not None:  # a statement that isn't finished keeps its locks
                    try:
                        sqlite3.Cursor.close(cur)
                    except sqlite3.Error:
                        pass
            try:
                sqlite3.Connection.close(ent[0])
            except sqlite3.Error:
                pass
