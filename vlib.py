"""Shared machinery for the property checks.

A check module (checks/<id>.py) defines

    PROPERTY = "C01"
    PROPS = [Prop(...), ...]

Each Prop couples a Hypothesis strategy producing *plain literal data* (the
case) with a function ``check(case, c)`` which drives the real pyslet code and
compares it with an oracle.  ``check`` signals a broken property by raising
Violation (use the helpers fail/eq/ok).  An exception which passes through
pyslet code and which the check does not expect is a violation too; any other
exception is an error of the harness.
"""
import base64
import hashlib
import json
import math
import os
import pickle
import traceback


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness itself misbehaved: never reported as a violation."""


class NonTermination(BaseException):
    """The case used far more CPU time than any case should."""


class Discard(Exception):
    """The case lies outside the domain; counted, never judged."""


class Prop(object):

    def __init__(self, name, strategy, check, quick=1000, thorough=None,
                 rule="", shards=8, known=None, cpu_limit=60, weight=1.0):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule
        self.shards = shards
        # known: predicate on the case, true if it falls in the class of
        # inputs described by a recorded (unrepaired) finding
        self.known = known
        self.cpu_limit = cpu_limit
        self.weight = weight


class Enum(object):
    """Exhaustive enumeration of a finite list of cases."""

    def __init__(self, name, cases, check, rule="", thorough_cases=None,
                 shards=8, known=None, cpu_limit=120):
        self.name = name
        self.cases = cases              # callable returning an iterable
        self.thorough_cases = thorough_cases or cases
        self.check = check
        self.rule = rule
        self.shards = shards
        self.known = known
        self.cpu_limit = cpu_limit


class Ctx(object):
    """Per-case context used to classify cases."""

    def __init__(self):
        self.nt = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.nt = True

    def label(self, *names):
        self.labels.extend(names)


def short(v, n=300):
    try:
        r = repr(v)
    except Exception as e:      # repr of an object under test may fail
        r = "<unrepresentable %s: %s>" % (type(v).__name__, e)
    if len(r) > n:
        r = r[:n] + "...(%d chars)" % len(r)
    return r


def fail(msg, *args):
    raise Violation(msg + "".join(" | " + short(a) for a in args))


def ok(cond, msg, *args):
    if not cond:
        fail(msg, *args)


def eq(actual, expected, msg, *args):
    if not (actual == expected):
        raise Violation("%s | got %s | expected %s%s" % (
            msg, short(actual), short(expected),
            "".join(" | " + short(a) for a in args)))


def feq(actual, expected, msg, rel=1e-9, absolute=1e-12):
    """float comparison with a stated tolerance (nan equals nan)"""
    if isinstance(actual, float) and isinstance(expected, float):
        if math.isnan(actual) and math.isnan(expected):
            return
        if actual == expected:
            return
        if math.isclose(actual, expected, rel_tol=rel, abs_tol=absolute):
            return
    elif actual == expected:
        return
    fail(msg, actual, expected)


def raises(exc, f, *args, **kwargs):
    """Returns the exception instance if f raises exc, None if it returns.
    Other exceptions propagate."""
    try:
        f(*args, **kwargs)
    except exc as e:
        return e
    return None


def through_pyslet(e):
    """True if the traceback of e includes a frame of the code under test"""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/pyslet/" in fn and "/verif/" not in fn:
            return True
        tb = tb.tb_next
    return False


def describe_exc(e):
    lines = traceback.format_exception_only(type(e), e)
    frames = [f for f in traceback.extract_tb(e.__traceback__)]
    where = ""
    for f in reversed(frames):
        if "/pyslet/" in f.filename:
            where = " at %s:%s in %s" % (
                f.filename.split("/pyslet/", 1)[1], f.lineno, f.name)
            break
    return ("".join(lines).strip() + where)[:1000]


def case_hash(v):
    return hashlib.sha1(repr(v).encode("utf-8", "backslashreplace")).digest()[:8]


def dump_replay(path, pid, prop, case, message, seed, tier):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({
            "property": pid,
            "prop": prop,
            "seed": seed,
            "tier": tier,
            "message": message,
            "case": short(case, 20000),
            "pickle": base64.b64encode(
                pickle.dumps(case, protocol=4)).decode("ascii"),
            "how": "python3-vt /verif/run.py %s --replay %s" % (pid, path),
        }, f, indent=1)


def load_replay(path):
    with open(path) as f:
        d = json.load(f)
    return d, pickle.loads(base64.b64decode(d["pickle"]))
