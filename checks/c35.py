"""C35: store locks exclude each other and can be recovered."""
import math
import random
import types

from hypothesis import strategies as st

from pyslet import blockstore, iso8601
from pyslet.odata2 import csdl as edm

from vlib import Prop, eq, ok, fail
from . import c34
from . import odm
from . import sched

PROPERTY = "C35"

SLOW = 0.25

KEYS = ["0" * 64, "a", "b'key"]


class Locks(object):
    """The entity set of the locks; each operation on its collections lets
    the other threads run before and after it"""

    def __init__(self, es, s, seed):
        self.es = es
        self.s = s
        self.random = random.Random(seed)
        # some stores take time to answer; the time passes for the others
        self.slow = seed % 2 * SLOW

    def open(self):
        return LockCollection(self.es.open(), self)


class LockCollection(object):

    def __init__(self, coll, locks):
        self.coll = coll
        self.locks = locks
        self.s = locks.s

    def __enter__(self):
        self.coll.__enter__()
        return self

    def __exit__(self, *args):
        return self.coll.__exit__(*args)

    def new_entity(self):
        return self.coll.new_entity()

    def step(self, f, *args):
        self.pause()
        try:
            return f(*args)
        finally:
            self.pause()

    def pause(self):
        if self.locks.slow and self.locks.random.random() < 0.4:
            self.s.sleep(self.locks.random.choice([0.125, SLOW]))
        else:
            self.s.switch()

    def insert_entity(self, e):
        return self.step(self.coll.insert_entity, e)

    def update_entity(self, e, *args):
        return self.step(self.coll.update_entity, e, *args)

    def __getitem__(self, k):
        return self.step(self.coll.__getitem__, k)

    def __contains__(self, k):
        return self.step(self.coll.__contains__, k)

    def __delitem__(self, k):
        return self.step(self.coll.__delitem__, k)

    def __getattr__(self, name):
        return getattr(self.coll, name)


actions = st.lists(st.tuples(
    st.integers(0, 2),                       # process
    st.sampled_from([0, 0, 0, 1, 2]),        # key
    st.sampled_from([1, 3, 5, 10, 30]),      # timeout
    st.sampled_from([0, 0, 1, 2, 4.5, 5, 6, 20]),     # time the lock is held
    st.sampled_from(["unlock", "unlock", "with", "error", "crash"]),
    st.sampled_from([0, 0, 0.25, 1, 3])),    # pause afterwards
    min_size=1, max_size=4)
choices = st.lists(st.integers(0, 4), min_size=1, max_size=40)
free = st.tuples(
    st.sampled_from([2, 5, 180]), st.lists(actions, min_size=1, max_size=4),
    st.integers(0, 999), choices)
# all want the same lock as it expires, or is unlocked late
contended = st.sampled_from([2, 5]).flatmap(lambda expiry: st.tuples(
    st.just(expiry),
    st.lists(st.lists(st.tuples(
        st.integers(0, 2), st.just(0), st.sampled_from([3, 4, 9, 30]),
        st.sampled_from([0, 0, 1, expiry - 0.25, expiry, expiry + 0.25,
                         expiry + 0.75, expiry + 1]),
        st.sampled_from(["unlock", "unlock", "crash"]),
        st.sampled_from([0, 0.25])), min_size=1, max_size=3),
        min_size=2, max_size=4),
    st.integers(0, 999), choices))
cases = st.one_of(free, contended, contended)


class Patched(object):

    def __init__(self, s, seed):
        self.s = s
        self.seed = seed

    def __enter__(self):
        self.saved = (blockstore.time, blockstore.threading,
                      blockstore.random, iso8601.pytime)
        real = iso8601.pytime
        blockstore.time = types.SimpleNamespace(
            time=self.s.time, sleep=self.sleep)
        blockstore.threading = self.s
        blockstore.random = random.Random(self.seed)
        fake = types.SimpleNamespace(**dict(
            (k, getattr(real, k)) for k in dir(real)))
        fake.time = self.s.time
        iso8601.pytime = fake

    def sleep(self, t):
        # attempts take time too
        self.s.sleep(max(t, 0.125))

    def __exit__(self, *args):
        (blockstore.time, blockstore.threading, blockstore.random,
         iso8601.pytime) = self.saved


class Fault(Exception):
    pass


def check(kind):
    def f(case, c):
        expiry, tasks, seed, choices = case
        if kind == "mem":
            # no concurrency control there: locks don't expire
            expiry = 100000
        s = sched.Sched(choices * (2000 // len(choices)))
        with odm.Store(c34.SPEC, kind) as store, Patched(s, seed):
            try:
                World(store, s, expiry, seed, case, c).run(tasks)
            except sched.Deadlock as e:
                fail("threads can't go on", str(e), case)
    return f


class World(object):

    def __init__(self, store, s, expiry, seed, case, c):
        self.es = store.container["Locks"]
        es = Locks(self.es, s, seed)
        self.slow = es.slow
        self.s = s
        self.c = c
        self.case = case
        self.expiry = expiry
        # each is as it would be in another process
        self.stores = [blockstore.LockStore(es, lock_timeout=expiry)
                       for i in range(3)]
        # {key: [(task, last second it is protected)]}
        self.holders = dict((k, []) for k in KEYS)
        # {key: [[task, since, until]]} all that have had it
        self.had = dict((k, []) for k in KEYS)
        # {key: number of attempts to lock it now}
        self.pending = dict((k, 0) for k in KEYS)
        self.trace = []

    def note(self, *args):
        self.trace.append((round(self.s.now - sched.START, 3),
                           self.s.current.name) + args)

    def held(self, key):
        """whether somebody holds the lock and can rely on it"""
        now = self.s.now
        self.holders[key] = [h for h in self.holders[key] if h[1] >= now]
        return self.holders[key]

    def run(self, tasks):
        for i, todo in enumerate(tasks):
            self.s.add("task %i" % i, lambda i=i, t=todo: self.task(i, t))
        self.s.run()
        for t in self.s.tasks:
            if t.error is not None:
                raise t.error
        if self.s.switches > 2 and len(tasks) > 1:
            self.c.label("contended" if any(
                x[2] == "refused" for x in self.trace) else "schedule")

    def task(self, i, todo):
        s = self.s
        for p, k, timeout, hold, how, pause in todo:
            self.attempt(i, self.stores[p], KEYS[k], timeout, hold, how)
            if pause:
                s.sleep(pause)

    def attempt(self, i, ls, key, timeout, hold, how):
        s = self.s
        start = s.now
        self.note("lock", key[:3], timeout)
        self.pending[key] += 1
        try:
            context = ls.lock(key, timeout)
        except blockstore.LockError:
            self.note("refused", key[:3])
            ok(s.now >= start + timeout, "gave up before the timeout",
               s.now - start, self.trace, self.case)
            ok(s.now <= start + timeout + timeout // 5 + 1 +
               8 * self.slow,
               "gave up long after the timeout", s.now - start, self.trace,
               self.case)
            self.pending[key] -= 1
            # somebody must have had it, or be about to have it
            ok(self.pending[key] or any(h[2] >= start for h in self.had[
                key]), "refused when nobody had the lock", self.trace,
               self.case)
            return
        now = s.now
        self.pending[key] -= 1
        self.note("locked", key[:3])
        held = self.held(key)
        eq(held, [], "another owner holds the lock", self.trace, self.case)
        if len(self.s.tasks) == 1:
            eq(context.hash_key, key, "context", self.case)
        # the lock dates from before it was stored
        until = math.floor(now - 2 * self.slow) + self.expiry
        if self.had[key]:
            self.c.nontrivial()
        had = [i, now, until + 1]
        self.had[key].append(had)
        me = (i, until)
        self.holders[key].append(me)
        s.switch()
        if hold:
            s.sleep(hold)
        self.note(how, key[:3])
        self.c.label(how)
        if how == "crash":
            return
        if me in self.holders[key]:
            self.holders[key].remove(me)
        if how == "unlock":
            ls.unlock(key)
        else:
            try:
                with context:
                    if how == "error":
                        raise Fault()
            except Fault:
                pass
        if until >= s.now:
            # otherwise it may have passed to another owner
            had[2] = s.now


PROPS = [
    Prop("sql", cases, check("sql"), quick=1500,
         rule="a lock was granted that had been held before"),
    Prop("mem", cases, check("mem"), quick=1500,
         rule="a lock was granted that had been held before"),
]
