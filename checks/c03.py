"""C03: a failing SQL statement leaves the SQL-backed store unchanged."""
import os
import sqlite3
import sys

from hypothesis import strategies as st

from pyslet.odata2 import csdl as edm
from pyslet.odata2 import sqlds

from vlib import Prop, eq, ok, fail
from . import c02, odm

# generators left unfinished by an injected error are closed by the garbage
# collector, sometimes after the database
sys.unraisablehook = lambda args: None

PROPERTY = "C03"
FAILED = c02.REFUSED + (sqlite3.Error,)


class Injector(object):
    """Makes the n-th statement or commit of an operation fail"""

    def __init__(self):
        self.n = None           # position which fails
        self.kind = None
        self.count = 0
        self.fired = 0

    def arm(self, n, kind):
        self.n, self.kind, self.count, self.fired = n, kind, 0, 0

    def disarm(self):
        self.n = None

    def point(self, what):
        if self.n is None:
            return
        i = self.count
        self.count += 1
        if i < self.n or self.kind in ("error", "busy") and i > self.n:
            return
        self.fired += 1
        self.what = what
        if self.kind == "error":
            raise sqlite3.DatabaseError("injected error")
        raise sqlite3.OperationalError("injected: database or disk is full")


class Cursor(object):

    def __init__(self, cursor, inj):
        self.__dict__["_c"] = cursor
        self.__dict__["_i"] = inj

    def execute(self, *args):
        self._i.point("commit" if args[0].lstrip().upper().startswith(
            "COMMIT") else args[0].split()[0])
        return self._c.execute(*args)

    def __getattr__(self, name):
        return getattr(self._c, name)

    def __setattr__(self, name, value):
        setattr(self._c, name, value)

    def __iter__(self):
        return iter(self._c)


class Connection(object):

    def __init__(self, dbc, inj):
        self.__dict__["_d"] = dbc
        self.__dict__["_i"] = inj

    def cursor(self, *args):
        return Cursor(self._d.cursor(*args), self._i)

    def execute(self, *args):
        self._i.point(args[0].split()[0])
        return self._d.execute(*args)

    def commit(self):
        self._i.point("commit")
        return self._d.commit()

    def __getattr__(self, name):
        return getattr(self._d, name)

    def __setattr__(self, name, value):
        setattr(self._d, name, value)


class FaultStore(odm.Store):

    def __init__(self, spec):
        self.inj = Injector()
        super(FaultStore, self).__init__(spec, "sql")
        db = self.db
        real_open = db.open
        real_close = db.close_connection
        db.open = lambda: Connection(real_open(), self.inj)

        def close_connection(dbc):
            return real_close(dbc._d if isinstance(dbc, Connection) else dbc)
        db.close_connection = close_connection
        # discard the connections used to create the tables
        pools = list(db.cpool_unlocked.values()) + list(db.cpool_idle)
        for item in pools:
            if item.dbc is not None and not isinstance(item.dbc, Connection):
                item.dbc = Connection(item.dbc, self.inj)

    def dump(self):
        """All committed rows, read through an independent connection"""
        dbc = sqlite3.connect(os.path.join(self.dir, "test.db"))
        try:
            r = {}
            for t, in list(dbc.execute(
                    "SELECT name FROM sqlite_master WHERE type='table'")):
                r[t] = sorted(dbc.execute('SELECT * FROM "%s"' % t),
                              key=repr)
            return r
        finally:
            dbc.close()


class Run(c02.Run):

    fault = None

    def attempt(self, name, f, m, certain):
        inj = self.store.inj
        if self.fault is None:
            return super(Run, self).attempt(name, f, m, certain)
        good = m is not None and not getattr(m, "bad", False) and m.valid()
        before = self.store.dump()
        inj.arm(*self.fault)
        try:
            f()
            failed = None
        except FAILED as e:
            failed = e
        finally:
            inj.disarm()
        self.result = inj.fired
        if not inj.fired:
            # not reached: the operation ran without any fault
            if failed is None:
                if not good:
                    fail("an operation which breaks a constraint was "
                         "accepted", name)
                m.bad = False
                self.model = m
            elif good and certain:
                fail("a legal operation was refused", name, type(failed),
                     str(failed))
            else:
                eq(self.store.dump(), before, "rows after refusal", name)
            return
        self.c.label("%s failed at %s" % (name, inj.what))
        self.c.nontrivial()
        w = "%s with fault %r at %s" % (name, self.fault, inj.what)
        if failed is None:
            # retried with success: allowed if it did what it should
            if self.fault[1] != "busy":
                fail("a failed statement was not reported", w)
            if not good:
                fail("an operation which breaks a constraint was accepted", w)
            self.c.label("retried")
            m.bad = False
            self.model = m
            self.check_state(w)
        else:
            eq(self.store.dump(), before, "rows after the failure", w)
        self.check_counts(w)

    def check_counts(self, w):
        """The store can be read and agrees with the model"""
        m = self.model
        for s in sorted(m.entities):
            with self.store.open(s) as coll:
                eq(set(coll), m.entities[s], "keys after the failure", w, s)

    def run(self):
        sets = sorted(self.model.entities)
        for r, binds in enumerate(self.init):
            self.do(("insert", r, 1, binds, True))
        for x, (op, kind) in enumerate(self.ops):
            n = 0
            while n < 40:
                self.fault = (n, kind)
                self.result = 0
                self.do(op)
                if not self.result:
                    break
                n += 1
            self.fault = None
            self.check_state("after op %d %s" % (x, op[0]))
            # the store is usable
            self.do(op)
            self.check_state("after repeated op %d %s" % (x, op[0]))
        ok(not self.store.db.cpool_locked, "connections released")


def case_strategy():
    def f(case, kinds):
        a, n, ops, compound = case
        return (a, n, list(zip(ops[:4], kinds)), compound)
    return st.builds(f, c02.cases(True), st.lists(st.sampled_from(
        ["error", "full", "busy"]), min_size=4, max_size=4))


def check(case, c):
    with FaultStore(c02.spec_of(case[0], case[3])) as store:
        Run(case, store, c).run()


# -- failing reads ---------------------------------------------------------

def read_check(case, c):
    (assocs, n, ops, compound), pos, kind, how = case
    with FaultStore(c02.spec_of(assocs, compound)) as store:
        run = c02.Run((assocs, n, ops, compound), store, c)
        for r, binds in enumerate(n):
            run.do(("insert", r, 1, binds, True))
        for op in ops[:4]:
            run.do(op)
        before = store.dump()
        for s in sorted(run.model.entities):
            with store.open(s) as coll:
                nav = None
                if how == "nav":
                    for e in coll.values():
                        for nn, i, j in run.model.ends[s]:
                            if nn:
                                nav = e[nn].open()
                    if nav is None:
                        continue
                target = nav or coll
                if how == "filter":
                    coll.set_orderby([])
                    coll.set_expand(dict(
                        (nn, None) for nn, i, j in run.model.ends[s] if nn))
                try:
                    store.inj.arm(pos, kind)
                    try:
                        if how == "len":
                            r = len(target)
                        elif how == "key":
                            r = [k in target for k in
                                 sorted(run.model.entities[s])]
                        elif how == "page":
                            target.set_page(2)
                            r = list(target.iterpage())
                        else:
                            r = list(target.values())
                        failed = False
                    except FAILED as e:
                        failed = True
                    finally:
                        store.inj.disarm()
                    if store.inj.fired:
                        c.label("%s failed" % how)
                        c.nontrivial()
                        if not failed and kind != "busy":
                            fail("a failed read was not reported", how, pos,
                                 kind)
                    elif failed:
                        fail("failed without a fault", how)
                finally:
                    if nav is not None:
                        nav.close()
        eq(store.dump(), before, "rows after failing reads", how)
        run.check_state("after failing reads")
        ok(not store.db.cpool_locked, "connections released")


PROPS = [
    Prop("writes", case_strategy(), check, quick=700,
         rule="a statement or commit of an operation failed"),
    Prop("reads", st.tuples(c02.cases(True), st.integers(0, 3),
                            st.sampled_from(["error", "full", "busy"]),
                            st.sampled_from(["len", "key", "page", "all",
                                             "nav", "filter"])),
         read_check, quick=400, rule="a statement of a read failed"),
]
