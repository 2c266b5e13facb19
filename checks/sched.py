"""Deterministic scheduling of threads: the code under test runs in real
threads, one at a time, that give way where they lock, wait or sleep; which
thread goes on is read from a generated list of choices.  Time is virtual."""
import threading
import time as _time

START = 1600000000.0


class Deadlock(Exception):
    pass


class Abort(BaseException):
    pass


class Task(object):

    def __init__(self, sched, name, fn):
        self.sched = sched
        self.name = name
        self.fn = fn
        self.sem = threading.Semaphore(0)
        self.done = False
        # what it is waiting for: a function that tells if it may go on
        self.ready = None
        self.deadline = None
        self.timedout = False
        self.error = None
        self.result = None
        self.ident = 139700000000000 + len(sched.tasks)

    def run(self):
        self.sem.acquire()
        try:
            if not self.sched.abort:
                self.result = self.fn()
        except Abort:
            pass
        except BaseException as e:
            self.error = e
        self.done = True
        self.sched.main.release()


class Sched(object):
    """choices: list of integers which select the thread that goes on"""

    def __init__(self, choices, limit=20000):
        self.choices = list(choices)
        self.tasks = []
        self.main = threading.Semaphore(0)
        self.current = None
        self.now = START
        self.abort = False
        self.steps = 0
        self.limit = limit
        self.switches = 0

    def add(self, name, fn):
        t = Task(self, name, fn)
        self.tasks.append(t)
        return t

    # -- called by the threads

    def switch(self, ready=None, timeout=None):
        """Lets another thread go on; returns True when ready() holds,
        False after the timeout"""
        me = self.current
        if me is None:
            # not one of the threads
            if ready is not None and not ready():
                raise Deadlock("waiting outside of the threads")
            return True
        me.ready = ready
        me.deadline = None if timeout is None else self.now + max(timeout, 0)
        me.timedout = False
        self.main.release()
        me.sem.acquire()
        if self.abort:
            raise Abort()
        me.ready = None
        return not me.timedout

    def time(self):
        return self.now

    def sleep(self, seconds):
        self.switch(lambda: False, seconds)

    def current_thread(self):
        return self.current or threading.current_thread()

    # -- called by the test

    def run(self):
        """Runs all threads to their end; raises Deadlock if they can't"""
        threads = [threading.Thread(target=t.run, daemon=True)
                   for t in self.tasks]
        for t in threads:
            t.start()
        last = None
        try:
            while True:
                todo = [t for t in self.tasks if not t.done]
                if not todo:
                    break
                self.steps += 1
                if self.steps > self.limit:
                    raise Deadlock("too many steps: %s" % [
                        t.name for t in todo])
                able = [t for t in todo if t.ready is None or t.ready() or (
                    t.deadline is not None and t.deadline <= self.now)]
                if not able:
                    timed = [t for t in todo if t.deadline is not None]
                    if not timed:
                        raise Deadlock("deadlock: %s" % [
                            t.name for t in todo])
                    t = min(timed, key=lambda t: t.deadline)
                    self.now = max(self.now, t.deadline)
                    # others may be due too
                    able = [t] + [x for x in timed if x is not t and
                                  x.deadline <= self.now]
                if len(able) == 1:
                    t = able[0]
                else:
                    n = self.choices.pop(0) if self.choices else 0
                    if n == 0 and last in able:
                        # carry on
                        t = last
                    else:
                        t = able[n % len(able)]
                        self.switches += t is not last
                if t.ready is not None and not t.ready():
                    t.timedout = True
                last = t
                self.current = t
                t.sem.release()
                self.main.acquire()
                self.current = None
                if t.done and t.error is not None:
                    # the others may depend on it
                    break
        finally:
            self.abort = True
            for t in self.tasks:
                if not t.done:
                    t.sem.release()
            for t in threads:
                t.join()

    # -- stand-ins for the threading and time modules

    def Condition(self, lock=None):
        return Condition(self)

    def Lock(self):
        return Lock(self, False)

    def RLock(self):
        return Lock(self, True)

    def Event(self):
        return Event(self)


class Lock(object):

    def __init__(self, sched, reentrant):
        self.sched = sched
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = self.sched.current
        self.sched.switch()
        if self.count and self.owner is me and self.reentrant:
            self.count += 1
            return True
        if self.count:
            if not blocking:
                return False
            if not self.sched.switch(lambda: not self.count,
                                     None if timeout < 0 else timeout):
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release of a lock that is not held")
        self.count -= 1

    def locked(self):
        return bool(self.count)

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        if not self.sched.abort:
            self.release()


class Condition(Lock):

    def __init__(self, sched):
        Lock.__init__(self, sched, True)
        self.waiting = []

    def wait(self, timeout=None):
        if not self.count or self.owner is not self.sched.current:
            raise RuntimeError("wait on a lock that is not held")
        count, self.count = self.count, 0
        token = []
        self.waiting.append(token)
        got = self.sched.switch(lambda: bool(token) and not self.count,
                                timeout)
        if not token:
            self.waiting.remove(token)
        if self.count:
            self.sched.switch(lambda: not self.count)
        self.owner = self.sched.current
        self.count = count
        return got

    def notify(self, n=1):
        if not self.count or self.owner is not self.sched.current:
            raise RuntimeError("notify without the lock")
        for token in self.waiting[:n]:
            token.append(1)
        del self.waiting[:n]

    def notify_all(self):
        self.notify(len(self.waiting))


class Event(object):

    def __init__(self, sched):
        self.sched = sched
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        self.sched.switch(lambda: self.flag, timeout)
        return self.flag
