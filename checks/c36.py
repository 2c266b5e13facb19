"""C36: encrypted application data decrypts to what was encrypted."""
import base64
import hashlib
import hmac
import re
import types

from hypothesis import strategies as st

from pyslet import iso8601, wsgi

from vlib import Prop, eq, ok, fail
from . import gens
from . import odm

PROPERTY = "C36"

NN = {"Nullable": "false"}
SPEC = dict(
    types={"K": dict(props=[
        ("KeyNum", "Int32", NN),
        ("KeyString", "String", dict(NN, MaxLength="256", Unicode="false")),
        ("Expires", "DateTime", dict(NN, Precision="0"))],
        keys=["KeyNum"])},
    complex={}, sets={"AppKeys": "K"}, assocs=[])

START = 1600000000


class MacCipher(object):
    """A toy cipher whose output is useless with any other key"""

    def __init__(self, key):
        self.key = key

    def stream(self, data):
        n = hashlib.sha256(b"s" + self.key).digest()
        return bytes(b ^ n[i % 32] for i, b in enumerate(data))

    def encrypt(self, data):
        mac = hmac.new(self.key, data, "sha256").digest()[:6]
        return mac + self.stream(data)

    def decrypt(self, data):
        mac, data = data[:6], self.stream(data[6:])
        if mac != hmac.new(self.key, data, "sha256").digest()[:6]:
            raise ValueError("wrong key or tampered data")
        return data

    def hash(self, data):
        return hashlib.sha256(data + self.key).digest()


class MacAppCipher(wsgi.AppCipher):

    def new_cipher(self, key):
        return MacCipher(key)


class Clock(object):

    def __init__(self):
        self.now = START + 0.5
        self.time_module = wsgi.time

    def __enter__(self):
        wsgi.time = types.SimpleNamespace(time=lambda: self.now)
        return self

    def __exit__(self, *args):
        wsgi.time = self.time_module


data = st.one_of(st.binary(max_size=12), st.sampled_from([
    b"", b"-", b":", b"a-b", b"Hello Caf\xc3\xa9", b"%41", b"\0\xff", b"a b"]))
ops = st.one_of(
    st.tuples(st.just("enc"), st.integers(0, 3), data),
    st.tuples(st.just("enc"), st.integers(0, 3), data),
    st.tuples(st.just("dec"), st.integers(0, 3), st.integers(0, 9)),
    st.tuples(st.just("dec"), st.integers(0, 3), st.integers(0, 9)),
    st.tuples(st.just("dec"), st.integers(0, 3), st.integers(0, 9)),
    st.tuples(st.just("sign"), st.integers(0, 3), data, st.booleans()),
    st.tuples(st.just("check"), st.integers(0, 3), st.integers(0, 9),
              st.sampled_from(["none", "same", "other"])),
    st.tuples(st.just("change"), st.integers(0, 3),
              st.sampled_from([-1, -1, 0, 5, 10, 10, 3600]),
              st.sampled_from([0, 0, 60, -300, 330])),
    st.tuples(st.just("change"), st.integers(0, 3),
              st.sampled_from([-1, -1, 0, 5, 10, 10, 3600]),
              st.sampled_from([0, 0, 60, -300, 330])),
    st.tuples(st.just("restart"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("restart"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("tick"), st.sampled_from([1, 5, 10, 11, 3600])),
    st.tuples(st.just("all")),
)
cases = st.tuples(
    st.sampled_from(["plain", "mac"]), st.sampled_from([1, 2, 3, 100, 100]),
    st.lists(st.integers(0, 12), min_size=9, max_size=9, unique=True),
    st.lists(st.binary(min_size=1, max_size=5),
             min_size=9, max_size=9, unique=True),
    st.lists(ops, max_size=25))


class World(object):

    def __init__(self, store, case, clock, c):
        self.cname, self.max_age, self.nums, self.keys, todo = case
        self.case = case
        self.c = c
        self.clock = clock
        self.key_set = store.es("AppKeys")
        base = wsgi.AppCipher if self.cname == "plain" else MacAppCipher

        class Cipher(base):
            MAX_AGE = self.max_age

        self.cls = Cipher
        # when each key comes into force, as given
        self.when = [(START - 1000, 0)]
        self.items = []
        self.signed = []
        # [cipher, key index, knows of the change time]
        self.procs = [[self.start(0, False), 0, False] for i in range(2)]

    @property
    def newest(self):
        return len(self.when) - 1

    def point(self, i):
        t, zone = self.when[i]
        return iso8601.TimePoint.from_unix_time(t).with_zone(0).shift_zone(
            *((1 if zone >= 0 else -1), abs(zone) // 60, abs(zone) % 60)) \
            if zone else iso8601.TimePoint.from_unix_time(t)

    def start(self, i, when):
        return self.cls(self.nums[i], self.keys[i], self.key_set,
                        self.point(i) if when else None)

    def current(self, p):
        """index of the key process p should use"""
        ac, i, when = p
        if when and i and self.clock.now <= self.when[i][0]:
            return i - 1
        return i

    def proc(self, n):
        return self.procs[n % len(self.procs)]

    def decrypt(self, p, item):
        text, value, j = item
        ac, i, when = p
        if i > j:
            self.c.nontrivial()
            self.c.label("%i changes later" % min(i - j, 3))
        try:
            got = ac.decrypt(text)
        except RuntimeError:
            # never before MAX_AGE changes of the key
            ok(j > i or i - j > self.max_age, "data can't be decrypted",
               text, i, j, self.case)
            self.c.label("unknown key")
            return
        ok(isinstance(got, bytes), "not a binary string", got, self.case)
        eq(got, value, "decrypted", i, j, self.case)

    def run(self, op):
        name = op[0]
        if name == "tick":
            self.clock.now += op[1]
            return
        if name == "all":
            # a new process with the newest key decrypts everything
            p = [self.start(self.newest, False), self.newest, False]
            for item in self.items:
                self.decrypt(p, item)
            return
        p = self.proc(op[1])
        ac, i, when = p
        if name == "enc":
            value = op[2]
            text = ac.encrypt(value)
            j = self.current(p)
            self.check_ascii(text)
            eq(text.split(":")[0], "%i" % self.nums[j], "key number", i,
               self.clock.now, self.when, self.case)
            if self.cname == "plain":
                eq(text, "%i:%s" % (self.nums[j], base64.b64encode(
                    value).decode()), "documented form", self.case)
            self.items.append((text, value, j))
        elif name == "dec":
            if self.items:
                self.decrypt(p, self.items[-1 - op[2] % len(self.items)])
        elif name == "sign":
            value, whole = op[2:]
            text = (ac.ascii_sign if whole else ac.sign)(value)
            self.check_ascii(text)
            self.signed.append((text, value, whole, self.current(p)))
            self.check_signature(p, self.signed[-1], "same")
        elif name == "check":
            if self.signed:
                self.check_signature(
                    p, self.signed[-1 - op[2] % len(self.signed)], op[3])
        elif name == "change":
            delay, zone = op[2:]
            if i == self.newest:
                if self.clock.now <= self.when[i][0] or \
                        self.newest + 1 >= len(self.nums):
                    # one change at a time
                    return
                self.when.append((int(self.clock.now) + delay, zone))
            elif i != self.newest - 1:
                return
            else:
                self.c.label("same change twice")
            j = i + 1
            ac.change_key(self.nums[j], self.keys[j], self.point(j))
            p[1:] = [j, True]
            self.c.label("change")
        elif name == "restart":
            when = op[2] and self.newest > 0
            p[:] = [self.start(self.newest, when), self.newest, when]
            self.c.label("restart")

    def check_ascii(self, text):
        ok(isinstance(text, str) and all(ord(ch) < 128 for ch in text),
           "not ASCII", text, self.case)

    def check_signature(self, p, signed, how):
        text, value, whole, j = signed
        ac, i, when = p
        if how == "none" and not whole:
            how = "same"
        msg = {"none": None, "same": value, "other": value + b"x"}[how]
        try:
            got = ac.check_signature(text, msg)
        except ValueError:
            ok(how == "other" or j > i or i - j > self.max_age,
               "signature refused", text, value, how, i, j, self.case)
            return
        ok(how != "other", "signature of another message accepted", text,
           msg, self.case)
        eq(got, value, "message", text, self.case)
        if i > j:
            self.c.nontrivial()


def check_history(kind):
    def f(case, c):
        with odm.Store(SPEC, kind) as store, Clock() as clock:
            w = World(store, case, clock, c)
            for op in case[-1]:
                w.run(op)
            w.run(("all",))
    return f


# -- tampering

tampered = st.tuples(
    data, st.booleans(),
    st.one_of(
        st.tuples(st.just("char"), st.integers(0, 200), st.characters(
            max_codepoint=0xFFFF, exclude_categories=("Cs",))),
        st.tuples(st.just("char"), st.integers(0, 200),
                  st.sampled_from("0123456789abcdef-:%ABC= ")),
        st.tuples(st.just("del"), st.integers(0, 200)),
        st.tuples(st.just("ins"), st.integers(0, 200),
                  st.sampled_from("0123456789abcdef-:%ABC= \u00e9")),
        st.tuples(st.just("cut"), st.integers(0, 200)),
        st.tuples(st.just("num"), st.integers(-5, 2 ** 70).map(str)),
        st.tuples(st.just("num"), st.sampled_from(
            ["1", "3", "", "x", "-1", "+1", "01", " 1", "1.0", "2147483648",
             "\u0661"])),
        st.tuples(st.just("text"), gens.any_text(20))))


def mutate(text, m):
    kind = m[0]
    if kind == "text":
        return m[1]
    if kind == "num":
        sep = "-" if "-" in text else ":"
        return m[1] + text[text.index(sep):]
    n = m[1] % (len(text) + 1)
    if kind == "char":
        return text[:n] + m[2] + text[n + 1:]
    if kind == "del":
        return text[:n] + text[n + 1:]
    if kind == "ins":
        return text[:n] + m[2] + text[n:]
    return text[:n]


def decoded(sig):
    """What a signature stands for"""
    parts = sig.split("-", 3)
    if len(parts) < 3:
        return None
    return (parts[0], parts[1].lower(), parts[2].lower(),
            None if len(parts) < 4 else parts[3])


def pct(s):
    out = bytearray()
    i = 0
    b = s.encode("utf-8")
    while i < len(b):
        if b[i:i + 1] == b"%" and len(b) >= i + 3:
            try:
                out.append(int(b[i + 1:i + 3].decode("ascii"), 16))
                i += 3
                continue
            except ValueError:
                pass
        out.append(b[i])
        i += 1
    return bytes(out)


def check_tamper(case, c):
    value, whole, m = case
    # enough for the lookup of earlier keys
    with odm.Store(SPEC, "mem") as store, Clock():
        ks = store.es("AppKeys")
        ac = MacAppCipher(7, b"secret", ks)
        sig = (ac.ascii_sign if whole else ac.sign)(value)
        bad = mutate(sig, m)
        ac2 = MacAppCipher(7, b"secret", ks)
        for msg in (value, None, b"", value + b"-"):
            try:
                got = ac2.check_signature(bad, msg)
            except ValueError:
                c.label("refused")
                continue
            # only another spelling of a right one is accepted
            a, b = decoded(sig), decoded(bad)
            ok(b is not None and int(a[0]) == int(b[0]) and
               a[1:3] == b[1:3], "tampered signature accepted", sig, bad, msg)
            if b[3] is not None and (b[3] or not whole) and not re.search(
                    "%(?![0-9A-Fa-f]{2})", b[3]):
                eq(pct(b[3]) if b[3] else value, value,
                   "tampered message accepted", sig, bad, msg)
            if msg is not None:
                eq(msg, value, "signature of another message", sig, bad)
            eq(got, value, "message of a signature", sig, bad, msg)
            c.label("accepted")
        if bad != sig:
            c.nontrivial()
        # neither does anyone who has another key
        for cls in (wsgi.AppCipher, MacAppCipher):
            foreign = cls(7, b"other", ks)
            for msg in (value, None):
                for sig2 in (foreign.sign(value), foreign.ascii_sign(value)):
                    try:
                        cls(7, b"secret", ks).check_signature(sig2, msg)
                    except ValueError:
                        continue
                    fail("signature made with another key accepted", sig2,
                         msg)
        # the same for encrypted data
        text = ac.encrypt(value)
        bad = mutate(text, m)
        try:
            got = ac2.decrypt(bad)
        except (ValueError, RuntimeError):
            return
        eq(got, value, "tampered data decrypted", text, bad)
        n = bad.split(":")[0]
        eq(int(n), 7, "data of another key decrypted", text, bad)


PROPS = [
    Prop("mem", cases, check_history("mem"), quick=2500,
         rule="something was decrypted or verified after a key change"),
    Prop("sql", cases, check_history("sql"), quick=1000,
         rule="something was decrypted or verified after a key change"),
    Prop("tamper", tampered, check_tamper, quick=3000,
         rule="the signature was altered"),
]
