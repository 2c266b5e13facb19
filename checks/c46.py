"""C46: comparison mixins, text helpers and renamed methods."""
import functools
import importlib
import inspect
import itertools
import pkgutil
import sys
import types
import warnings

from hypothesis import strategies as st

import pyslet
from pyslet import html401, iso8601, pep8, py2, rfc2396, rfc5023, vfs
from pyslet.http import grammar, messages, params
from pyslet.odata2 import core, csdl as edm, memds, metadata

from vlib import Enum, Prop, eq, fail, ok, raises
from . import urigen

PROPERTY = "C46"

# ---------------------------------------------------------------------------
# order

TOKENS = ["a", "A", "ab", "b", "B", "x-y", "gzip", "chunked", "Chunked", "z9"]


def tok():
    return st.sampled_from(TOKENS)


def parms():
    return st.dictionaries(
        st.sampled_from(["a", "b", "charset", "q1"]),
        st.sampled_from(["", "1", "x", "X", "utf-8", "\xe9"]), max_size=3)


def pdict(d):
    return dict((k.lower(), (k, v)) for k, v in d.items())


def opt(s):
    return st.one_of(st.none(), s)


URIS = ["http://a/", "http://A/", "http://a:80/", "http://a/%7Eb", "http://a/~b",
        "http://a/b#f", "HTTP://a/", "http://a", "http://a:8080/", "b/c", "",
        "file:///a", "file:///b", "FILE:///a", "urn:x:y", "mailto:a@b", "#f",
        "http://a/%7eb", "https://a/", "https://a:443/", "/", "?q", "http://b/"]
VERSION = st.lists(st.sampled_from(
    ["1", "0", "10", "a", "b3", "a3", "0a3", "a20", "0b3", "", "1a", "1a1"]),
    min_size=1, max_size=3).map(".".join)
PATHS = ["", "a", "b", "a/b", "/a", "/a/b", "A", "\xe9", "\u4e00", ".", "a.txt"]
QV = st.sampled_from([0.0, 0.1, 0.5, 0.501, 1.0])

SPECS = {
    "URI": st.one_of(st.sampled_from(URIS), urigen.uris()
                     if hasattr(urigen, "uris") else st.sampled_from(URIS)),
    "MemFilePath": st.sampled_from(PATHS),
    "OSFilePath": st.sampled_from(PATHS),
    "HTTPVersion": st.tuples(st.integers(0, 3), opt(st.integers(0, 30))),
    "TransferEncoding": st.tuples(tok(), parms()),
    "MediaType": st.tuples(tok(), tok(), parms()),
    "MediaRange": st.tuples(st.one_of(st.just("*"), tok()),
                            st.one_of(st.just("*"), tok()), parms()),
    "Chunk": st.tuples(st.integers(0, 300), parms()),
    "ProductToken": st.tuples(st.sampled_from(["a", "a", "a", "A"]),
                              opt(VERSION)),
    "LanguageTag": st.lists(st.sampled_from(
        ["en", "EN", "us", "US", "x", "de"]), min_size=1, max_size=3),
    "EntityTag": st.tuples(st.sampled_from(["", "a", "A", "\xe9", 'q"\\', "b"]),
                           st.booleans()),
    "AcceptItem": st.tuples(st.sampled_from(["*", "a", "b"]),
                            st.sampled_from(["*", "a", "b"]), parms(), QV),
    "AcceptToken": st.tuples(st.one_of(st.just("*"), tok()), QV),
    "AcceptLanguageItem": st.tuples(st.sampled_from(
        ["*", "en", "EN", "en-us", "en-US", "de", "de-x"]), QV),
    "AcceptRanges": st.lists(st.sampled_from(
        ["bytes", "Bytes", "x", "lines"]), max_size=3),
    "Allow": st.lists(st.sampled_from(["GET", "get", "PUT", "X"]), max_size=3),
    "Slug": st.sampled_from(["", "a", "A", "%", "a b", "\xe9", "%41", "\u4e00"]),
    "Date": st.tuples(st.integers(1, 9999), st.integers(1, 12),
                      st.integers(1, 28)),
    "TimePoint": st.tuples(st.integers(1999, 2001), st.sampled_from([1, 12]),
                           st.sampled_from([1, 28]), st.integers(0, 23),
                           st.sampled_from([0, 59]),
                           st.sampled_from([0, 60, -60, 765])),
    "Entity": st.tuples(st.sampled_from([0, 1, 2]),
                        st.sampled_from(["", "a", "b"]), st.integers(0, 2)),
    "AssociationSetEnd": st.sampled_from(["a", "b", "c", "A"]),
}


class _Set(object):
    """One entity set shared by the entities of a case"""

    METADATA = """<edmx:Edmx Version="1.0"
 xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
 xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
<edmx:DataServices m:DataServiceVersion="2.0">
<Schema Namespace="S" xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
<EntityContainer Name="C" m:IsDefaultEntityContainer="true">
<EntitySet Name="E" EntityType="S.T"/></EntityContainer>
<EntityType Name="T"><Key><PropertyRef Name="A"/><PropertyRef Name="B"/></Key>
<Property Name="A" Type="Edm.Int32" Nullable="false"/>
<Property Name="B" Type="Edm.String" Nullable="false"/>
<Property Name="V" Type="Edm.Int32"/></EntityType>
</Schema></edmx:DataServices></edmx:Edmx>"""
    es = None

    @classmethod
    def get(cls):
        if cls.es is None:
            doc = metadata.Document()
            doc.read(cls.METADATA)
            memds.InMemoryEntityContainer(doc.root.DataServices["S.C"])
            cls.doc = doc
            cls.es = doc.root.DataServices["S.C.E"]
        return cls.es


def make(name, spec):
    if name == "URI":
        return rfc2396.URI.from_octets(spec)
    if name == "MemFilePath":
        return vfs.MemFilePath(spec)
    if name == "OSFilePath":
        return vfs.OSFilePath(spec)
    if name in ("TransferEncoding", "Chunk"):
        return getattr(params, name)(spec[0], pdict(spec[1]))
    if name == "MediaType":
        return params.MediaType(spec[0], spec[1], pdict(spec[2]))
    if name == "MediaRange":
        return messages.MediaRange(spec[0], spec[1], pdict(spec[2]))
    if name == "AcceptItem":
        return messages.AcceptItem(messages.MediaRange(
            spec[0], spec[1], pdict(spec[2])), spec[3])
    if name == "LanguageTag":
        return params.LanguageTag(*spec)
    if name in ("HTTPVersion", "ProductToken", "EntityTag"):
        return getattr(params, name)(*spec)
    if name in ("AcceptToken", "AcceptLanguageItem", "AcceptRanges", "Allow"):
        return getattr(messages, name)(*spec)
    if name == "Slug":
        return rfc5023.Slug(spec)
    if name == "Date":
        return iso8601.Date(century=spec[0] // 100, year=spec[0] % 100,
                            month=spec[1], day=spec[2])
    if name == "TimePoint":
        return iso8601.TimePoint.from_str(
            "%04i-%02i-%02iT%02i:%02i:00%s%02i:%02i" % (
                spec[0], spec[1], spec[2], spec[3], spec[4],
                "-" if spec[5] < 0 else "+",
                abs(spec[5]) // 60, abs(spec[5]) % 60))
    if name == "Entity":
        e = edm.Entity(_Set.get())
        e["A"].set_from_value(spec[0])
        e["B"].set_from_value(spec[1])
        e["V"].set_from_value(spec[2])
        return e
    if name == "AssociationSetEnd":
        end = edm.AssociationSetEnd(None)
        end.name = spec
        return end
    raise KeyError(name)


def low(d):
    return tuple(sorted((k.lower(), v.encode("latin-1"))
                        for k, v in d.items()))


def explode(v):
    """The documented version key"""
    if v is None:
        return ()
    result = []
    parts = v.split(".")
    if parts[-1] == "":
        parts.pop()
    for part in parts:
        item = []
        for digits, run in itertools.groupby(part, str.isdigit):
            s = "".join(run)
            if digits:
                item.append(int(s))
            else:
                if not item:
                    item.append(-1)
                item.append(s)
        if item and isinstance(item[-1], int):
            item.append("~")
        result.append(tuple(item))
    return tuple(result)


def wild(t):
    return "~" if t == "*" else t


def model(name, spec):
    """The documented sort key, for the types where it is documented"""
    if name == "HTTPVersion":
        return (spec[0], spec[1] if spec[1] is not None else
                (1 if spec[0] == 1 else 0))
    if name == "TransferEncoding":
        t = spec[0].lower()
        return (t, low(spec[1]) if t != "chunked" else ())
    if name == "Chunk":
        return (spec[0], low(spec[1]))
    if name == "MediaType":
        return (spec[0].lower(), spec[1].lower(), low(spec[2]))
    if name == "MediaRange":
        return (wild(spec[0].lower()), wild(spec[1].lower()),
                -len(spec[2]), low(spec[2]))
    if name == "AcceptItem":
        return (wild(spec[0].lower()), wild(spec[1].lower()),
                -len(spec[2]), low(spec[2]),
                -spec[3])
    if name == "ProductToken":
        return (spec[0], explode(spec[1]))
    if name == "LanguageTag":
        return tuple(s.lower() for s in spec)
    if name == "EntityTag":
        return (spec[0].encode("latin-1"), spec[1])
    if name == "AcceptLanguageItem":
        r = () if spec[0] == "*" else tuple(spec[0].lower().split("-"))
        return (-len(r), r)
    if name == "AcceptRanges":
        return tuple(sorted(s.lower() for s in spec))
    if name == "Allow":
        return tuple(sorted(s.upper() for s in spec))
    if name in ("Slug", "MemFilePath", "OSFilePath"):
        return spec
    if name == "Date":
        return spec
    if name == "TimePoint":
        import datetime
        return datetime.datetime(*spec[:5]) - datetime.timedelta(
            minutes=spec[5])
    if name == "Entity":
        return spec[:2]
    return None


class Foreign(object):
    pass


FOREIGN = [None, 5, 2.5, (), ("a",), [1], Foreign(), object]
STR_TYPES = ("URI", "MemFilePath", "OSFilePath", "HTTPVersion",
             "TransferEncoding", "MediaType", "MediaRange", "Chunk",
             "ProductToken", "LanguageTag", "EntityTag", "AcceptItem",
             "AcceptToken", "AcceptLanguageItem", "AcceptRanges", "Allow",
             "Slug")


@st.composite
def order_case(draw):
    name = draw(st.sampled_from(sorted(SPECS) + ["ProductToken"] * 3))
    return (name, draw(st.lists(SPECS[name], min_size=2, max_size=6)))


def compare(a, b):
    """Returns the six results, which must be true or false"""
    result = (a == b, a != b, a < b, a <= b, a > b, a >= b)
    for r in result:
        ok(r is True or r is False,
           lambda: "comparison of %r and %r: %r" % (a, b, result))
    return result


def check_order(case, c):
    name, specs = case
    values = [make(name, s) for s in specs]
    keys = [model(name, s) for s in specs]
    c.label("type " + name)
    signs = {}
    equal = 0
    for (i, a), (j, b) in itertools.product(enumerate(values), repeat=2):
        e, ne, lt, le, gt, ge = compare(a, b)
        what = "%s %r and %r" % (name, specs[i], specs[j])
        eq(ne, not e, what + ": != is not the opposite of ==")
        eq((e, lt, gt).count(True), 1, what + ": exactly one of ==, < and > "
           "must hold %r" % ((e, lt, gt),))
        eq(le, e or lt, what + ": <=")
        eq(ge, e or gt, what + ": >=")
        signs[i, j] = 0 if e else -1 if lt else 1
        if i == j:
            ok(e, what + ": a value differs from itself")
        elif e:
            equal += 1
        if keys[i] is not None:
            want = (0 if keys[i] == keys[j] else
                    -1 if keys[i] < keys[j] else 1)
            eq(signs[i, j], want, what + ": order")
        if e and type(a).__hash__ is not None:
            eq(hash(a), hash(b), what + ": equal values, different hashes")
    n = len(values)
    for i in range(n):
        for j in range(n):
            eq(signs[i, j], -signs[j, i], "%s %r and %r: not antisymmetric" %
               (name, specs[i], specs[j]))
            for k in range(n):
                if signs[i, j] <= 0 and signs[j, k] <= 0:
                    ok(signs[i, k] <= 0 and
                       (signs[i, k] < 0 or signs[i, j] == signs[j, k] == 0),
                       lambda: "%s %r, %r, %r: not transitive" % (
                           name, specs[i], specs[j], specs[k]))
    # separately built values are the same
    for s, v in zip(specs, values):
        w = make(name, s)
        ok(v == w and not v != w and not v < w and not w < v,
           lambda: "%s %r: built twice" % (name, s))
        if type(v).__hash__ is not None:
            eq(hash(v), hash(w), "%s %r: hash of a copy" % (name, s))
    # sorting is stable in the sense that any order gives equal sequences
    forward = sorted(values)
    backward = sorted(reversed(values))
    ok(all(x == y for x, y in zip(forward, backward)),
       lambda: "%s: sorted depends on the order of the input" % name)
    for x, y in zip(forward, forward[1:]):
        ok(x <= y, lambda: "%s: sorted values out of order" % name)
    # ... and so are sets and dictionaries
    if type(values[0]).__hash__ is not None:
        classes = len(set(min(j for j in range(n) if signs[i, j] == 0)
                          for i in range(n)))
        eq(len(set(values)), classes, name + ": members of the set")
    # other objects
    for f in FOREIGN:
        for v in values[:2]:
            what = "%s compared with %r" % (name, f)
            ok((v == f) is False and (f == v) is False, what + ": ==")
            ok((v != f) is True and (f != v) is True, what + ": !=")
            for op in (lambda: v < f, lambda: v <= f, lambda: v > f,
                       lambda: v >= f):
                try:
                    op()
                except TypeError:
                    pass
                else:
                    fail(what + ": ordered")
    # their own string form
    if name in STR_TYPES:
        for v, s in zip(values, specs):
            if name == "ProductToken" and s[1] is not None and not s[1]:
                continue
            if name == "MediaRange" and s[0] == "*" and s[1] != "*":
                continue
            if name == "AcceptItem" and s[0] == "*" and s[1] != "*":
                continue
            if name in ("OSFilePath", "MemFilePath"):
                text = s
            else:
                text = str(v)
                if hasattr(v, "to_bytes"):
                    eq(text, v.to_bytes().decode("latin-1"), "str")
                    if not text.isascii():
                        text = v.to_bytes()
            e, ne, lt, le, gt, ge = compare(v, text)
            eq((e, ne, lt, le, gt, ge),
               (True, False, False, True, False, True),
               "%s %r compared with its own text %r" % (name, s, text))
    c.nontrivial(equal > 0 and len(set(signs.values())) > 1)


# ---------------------------------------------------------------------------
# renamed methods

KINDS = ["instance", "class", "static"]
NEW = ["new_name", "get_value", "x2"]
OLD = ["NewName", "GetValue", "OldX2"]


@st.composite
def hierarchy(draw):
    """A list of classes.  Each is (bases, [action per method]) where an
    action is None, "new", "old", "again" (decorated again) or
    "introduce"; the first class introduces every method."""
    kinds = [draw(st.sampled_from(KINDS)) for i in range(len(NEW))]
    classes = [((), ["introduce"] * len(NEW))]
    for i in range(draw(st.integers(1, 5))):
        nb = draw(st.integers(1, 2))
        bases = []
        for b in range(nb):
            x = draw(st.integers(0, i))
            if x not in bases:
                bases.append(x)
        actions = [draw(st.sampled_from(
            [None, None, "new", "old", "again"])) for m in NEW]
        supers = [draw(st.sampled_from([None, "new", "old"])) for m in NEW]
        classes.append((tuple(bases), actions, supers))
    return (kinds, classes)


class Boom(Exception):
    pass


def body(label, kind, sup, new, old, holder):
    """A method that reports the chain of implementations that ran"""

    def run(first, args, kws):
        if args and args[0] == "boom":
            raise Boom(label)
        up = []
        if sup and kind != "static":
            owner = holder[0]
            up = getattr(super(owner, first), new if sup == "new" else old)(
                *args, **kws)[1:]
            up = list(up[0])
        return (first, [label] + up, args, kws)

    if kind == "static":
        def f(*args, **kws):
            return (None,) + run(None, args, kws)[1:]
    else:
        def f(self, *args, **kws):
            return run(self, args, kws)
    return f


def check_renaming(case, c):
    kinds, classes = case
    built = []
    labels = []
    holders = []
    for n, entry in enumerate(classes):
        bases, actions = entry[:2]
        supers = entry[2] if len(entry) > 2 else [None] * len(NEW)
        holder = []
        ns = {}
        for m, action in enumerate(actions):
            if action is None:
                continue
            f = body((n, m), kinds[m], supers[m], NEW[m], OLD[m], holder)
            key = OLD[m] if action == "old" else NEW[m]
            f.__name__ = key
            if action in ("introduce", "again"):
                f = pep8.old_method(OLD[m])(f)
            if kinds[m] == "class":
                f = classmethod(f)
            elif kinds[m] == "static":
                f = staticmethod(f)
            ns[key] = f
        b = tuple(built[i] for i in bases) or (pep8.MigratedClass,)
        try:
            plain = type("P%i" % n, tuple(
                holders[i][1] for i in bases) or (object,), {})
        except TypeError:
            # no consistent method resolution order in Python either
            built.append(built[0])
            holders.append(holders[0])
            continue
        cls = pep8.MigratedMetaclass("K%i" % n, b, ns)
        holder.append(cls)
        holder.append(plain)
        built.append(cls)
        holders.append(holder)
    number = dict((holders[n][0], n) for n in reversed(range(len(built))))
    overridden = diamond = False

    def define(cls, m, skip=None):
        """The label chain expected"""
        mro = [number[k] for k in cls.__mro__ if k in number]
        if skip is not None:
            mro = mro[mro.index(skip) + 1:]
        for n in mro:
            entry = classes[n]
            if entry[1][m] is not None:
                sup = entry[2][m] if len(entry) > 2 else None
                chain = [(n, m)]
                if sup and kinds[m] != "static":
                    chain += define(cls, m, n)
                return chain
        raise AssertionError

    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        for n, cls in enumerate(built):
            if number[cls] != n:
                continue
            obj = cls()
            for m in range(len(NEW)):
                want = define(cls, m)
                overridden = overridden or want[0][0] != 0
                diamond = diamond or len(want) > 2
                for on_class in (False, True):
                    if on_class and kinds[m] == "instance":
                        continue
                    target = cls if on_class else obj
                    for name in (NEW[m], OLD[m], NEW[m], OLD[m]):
                        what = "%s method %s of class %i" % (
                            kinds[m], name, n)
                        del log[:]
                        got = getattr(target, name)(1, "two", key=3)
                        eq(got[1], want, what + ": implementations that ran")
                        eq(got[2:], ((1, "two"), {"key": 3}),
                           what + ": arguments")
                        who = {"instance": obj, "class": cls,
                               "static": None}[kinds[m]]
                        ok(got[0] is who, what + ": bound to %r" % (got[0],))
                        for w in log:
                            ok(issubclass(w.category, DeprecationWarning),
                               what + ": warning %r" % w)
                        if name == NEW[m] and not any(
                                len(x) > 2 and x[2][m] == "old"
                                for x in classes):
                            eq(len(log), 0, what + ": warnings")
                    for name in (NEW[m], OLD[m]):
                        try:
                            getattr(target, name)("boom")
                        except Boom as e:
                            eq(e.args[0], want[0], "exception from")
                        else:
                            fail("exception lost")
                eq(getattr(cls, NEW[m]).__name__, NEW[m],
                   "name of the method under its new name")
    c.nontrivial(overridden)
    if diamond:
        c.label("super chain of three")
    for x in classes[1:]:
        if len(x[0]) > 1:
            c.label("two bases")
        for a in x[1]:
            c.label("action %s" % a)


@st.composite
def bad_override(draw):
    return (draw(st.sampled_from(KINDS)), draw(st.sampled_from(KINDS)),
            draw(st.booleans()), draw(st.integers(0, 2)))


def wrap(kind, f):
    return {"instance": lambda x: x, "class": classmethod,
            "static": staticmethod}[kind](f)


def check_override(case, c):
    """Conflicting overrides are refused, others work"""
    kind, other, both, depth = case

    def new_name(*args):
        return "base"

    def derived(*args):
        return "derived"

    base = pep8.MigratedMetaclass("B", (pep8.MigratedClass,), {
        "new_name": wrap(kind, pep8.old_method("NewName")(new_name))})
    for i in range(depth):
        base = pep8.MigratedMetaclass("M%i" % i, (base,), {})
    ns = {"NewName": wrap(other, derived)}
    if both:
        ns["new_name"] = wrap(kind, lambda *args: "also")
    c.nontrivial(True)
    if both or kind != other:
        raises(TypeError, pep8.MigratedMetaclass, "D", (base,), ns)
        c.label("refused")
    else:
        d = pep8.MigratedMetaclass("D", (base,), ns)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            eq((d().new_name(), d().NewName()), ("derived",) * 2, "override")
        c.label("accepted")


# renamed functions and attributes

@st.composite
def attr_case(draw):
    parts = draw(st.lists(st.sampled_from(
        ["a", "b", "ab", "A", "B", "AB", "_", "1", "Ab", "URL", "x"]),
        min_size=1, max_size=5))
    name = "".join(parts)
    return name if name.isidentifier() else "n" + name


def attr_name(name):
    """The documented rule"""
    result = []
    for i, ch in enumerate(name):
        before = name[i - 1] if i else ""
        after = name[i + 1] if i + 1 < len(name) else ""
        if ch.isupper():
            if before.islower() or (before.isupper() and after.islower()):
                result.append("_")
            result.append(ch.lower())
        else:
            result.append(ch)
    return "".join(result)


def check_attr(case, c):
    name = case
    want = attr_name(name)
    eq(pep8.make_attr_name(name), want, "make_attr_name(%r)" % name)
    eq(pep8.make_attr_name(want), want, "make_attr_name(%r)" % want)
    c.nontrivial(want != name)
    if name.startswith("__"):
        return

    class T(pep8.PEP8Compatibility):
        pass

    t = T()
    value = object()
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        raises(AttributeError, getattr, t, name)
        raises(AttributeError, getattr, t, want)
        del log[:]
        setattr(t, want, value)
        ok(getattr(t, want) is value, "attribute")
        eq(len(log), 0, "warnings for the new name")
        for i in range(2):
            ok(getattr(t, name) is value, "%s as %s" % (want, name))
        eq(len(log) > 0, want != name, "warnings for the old name")
        other = T()
        raises(AttributeError, getattr, other, name)
        # a real attribute with the old name wins
        if want != name:
            setattr(t, name, 1)
            eq(getattr(t, name), 1, "attribute with the old name")
            ok(getattr(t, want) is value, "attribute with the new name")


@st.composite
def function_case(draw):
    n = draw(st.integers(1, 4))
    return [draw(st.sampled_from(["plain", "raises", "keywords"]))
            for i in range(n)]


def check_functions(case, c):
    mod = types.ModuleType("c46_generated")
    mod.__dict__["old_function"] = pep8.old_function
    mod.__dict__["Boom"] = Boom
    src = []
    for i, k in enumerate(case):
        src.append("@old_function('OldName%i')" % i)
        src.append("def new_name%i(a, b=2, *args, **kws):" % i)
        if k == "raises":
            src.append("    raise Boom(%i, a, b)" % i)
        else:
            src.append("    return (%i, a, b, args, kws)" % i)
    exec("\n".join(src), mod.__dict__)
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        for i, k in enumerate(case):
            for args, kws in (((1,), {}), ((1, 3, 4), {"z": 5}),
                              ((), {"a": 9})):
                results = []
                for name in ("new_name%i" % i, "OldName%i" % i):
                    try:
                        results.append(getattr(mod, name)(*args, **kws))
                    except Boom as e:
                        results.append(e.args)
                eq(results[1], results[0], "result of OldName%i" % i)
                eq(results[0][0], i, "function called")
        eq([w.category for w in log], [DeprecationWarning] * len(case),
           "one warning for each renamed function")
    c.nontrivial(len(case) > 1)


# every class of the library

def modules():
    result = []
    for m in pkgutil.walk_packages(pyslet.__path__, "pyslet."):
        if m.name in ("pyslet.mysqldbds", "pyslet.wsgi_django",
                      "pyslet.wsgi_jinja"):
            # these need packages that are not installed
            continue
        try:
            result.append(importlib.import_module(m.name))
        except ImportError:
            continue
    return result


def func(a):
    if isinstance(a, (classmethod, staticmethod)):
        return a.__func__
    return a


def library_cases():
    return sorted(m.__name__ for m in modules())


def check_library(case, c):
    """In every class, a renamed method's two names come from one class"""
    mod = importlib.import_module(case)
    n = 0
    for k, v in sorted(vars(mod).items()):
        if inspect.isfunction(v) and hasattr(v, "old_function"):
            n += 1
            home = sys.modules[v.__module__]
            ok(getattr(home, v.old_function.__name__, None) is not None,
               "%s.%s has lost its old name" % (case, k))
        if not (isinstance(v, type) and v.__module__ == case):
            continue
        mro = v.__mro__
        pairs = {}
        for cls in mro:
            for name, a in vars(cls).items():
                old = getattr(func(a), "old_method", None)
                if inspect.isfunction(old) and inspect.isfunction(func(a)):
                    pairs[func(a).__name__, old.__name__] = type(a)
        for (new, old), kind in sorted(pairs.items(), key=str):
            n += 1
            a = [cls for cls in mro if new in vars(cls)]
            b = [cls for cls in mro if old in vars(cls)]
            what = "%s.%s: %s (%s)" % (case, v.__name__, new, old)
            ok(a and b, what + ": name missing")
            ok(a[0] is b[0], lambda: "%s: new name from %s, old name from %s"
               % (what, a[0].__name__, b[0].__name__))
            eq(type(vars(b[0])[old]), type(vars(a[0])[new]),
               what + ": kind of method")
    c.nontrivial(n > 0)


# ---------------------------------------------------------------------------
# text

@st.composite
def text_case(draw):
    kind = draw(st.sampled_from(["text", "bytes", "int", "none", "bytearray",
                                 "list"]))
    alphabet = draw(st.sampled_from(["a~ 0", "ab\xe9\xff", "a\u4e00\U0001f600",
                                     "\x00\x7f\x80"]))
    if kind == "text":
        return draw(st.text(alphabet, max_size=4))
    if kind == "bytes":
        return draw(st.binary(max_size=4))
    if kind == "bytearray":
        return bytearray(draw(st.binary(max_size=2)))
    if kind == "int":
        return draw(st.sampled_from([-1, 0, 1, 127, 128, 254, 255, 256, 300]))
    if kind == "none":
        return None
    return [draw(st.integers(0, 9))]


def outcome(f, *args):
    try:
        return ("value", f(*args))
    except (ValueError, TypeError) as e:
        return ("error", None)


ERROR = ("error", None)


def check_text(case, c):
    x = case
    text, data = isinstance(x, str), isinstance(x, bytes)
    ascii_only = (text and all(ord(ch) < 128 for ch in x)) or (
        data and all(ch < 128 for ch in x))

    def same(name, want):
        got = outcome(getattr(py2, name), x)
        eq(got, want, "%s(%r)" % (name, x))
        if want[0] == "value":
            eq(type(got[1]), type(want[1]), "type of %s(%r)" % (name, x))

    same("is_string", ("value", text or data))
    same("is_text", ("value", text))
    same("is_unicode", ("value", text))
    same("force_text", ("value", x) if text else ERROR)
    if data:
        same("force_ascii", ("value", x.decode("ascii")) if ascii_only
             else ERROR)
    elif not text:
        same("force_ascii", ERROR)
    elif ascii_only:
        same("force_ascii", ("value", x))
    if text:
        same("force_bytes", ("value", x.encode("ascii")) if ascii_only
             else ERROR)
    else:
        same("force_bytes", ("value", x))
    if text:
        same("to_text", ("value", x))
    elif data:
        same("to_text", ("value", x.decode("ascii")) if ascii_only else ERROR)
    else:
        same("to_text", ("value", str(x)))
    # literals
    if text:
        same("u8", ("value", x) if ascii_only else ERROR)
        same("ul", ("value", x) if all(ord(ch) < 256 for ch in x) else ERROR)
    elif data:
        try:
            same("u8", ("value", x.decode("utf-8")))
        except UnicodeDecodeError:
            same("u8", ERROR)
        same("ul", ("value", x.decode("latin-1")))
    else:
        same("u8", ERROR)
        same("ul", ERROR)
    # single bytes
    same("is_byte", ("value", isinstance(x, int) and 0 <= x <= 255))
    if isinstance(x, int):
        b = ("value", x) if 0 <= x <= 255 else ERROR
    elif text:
        b = ("value", ord(x)) if len(x) == 1 and ord(x) < 256 else ERROR
    elif isinstance(x, (bytes, bytearray)):
        b = ("value", x[0]) if len(x) == 1 else ERROR
    else:
        b = ERROR
    same("byte", b)
    if b[0] == "value":
        n = b[1]
        eq(py2.byte_to_bstr(py2.byte(x)), bytes((n,)), "byte_to_bstr")
        eq(py2.byte_value(py2.byte(x)), n, "byte_value")
        eq(py2.character(n), chr(n), "character")
        eq(py2.byte(py2.character(n)), n, "byte of character")
    if data:
        eq(py2.join_bytes(list(x)), x, "join_bytes")
        eq(py2.join_bytes([py2.byte(i) for i in x]), x, "join_bytes of bytes")
        eq(b"".join(py2.byte_to_bstr(i) for i in x), x, "byte_to_bstr")
        eq(py2.ul(x).encode("latin-1"), x, "ul is lossless")
    if text:
        eq(py2.join_characters(list(x)), x, "join_characters")
        eq(py2.join_characters([py2.character(ord(ch)) for ch in x]), x,
           "join_characters of characters")
    if ascii_only and (text or data):
        eq(py2.force_bytes(py2.force_ascii(x)),
           x if data else x.encode("ascii"), "ascii round trip")

    class U(py2.UnicodeMixin):
        def __unicode__(self):
            return x

    class B(py2.BoolMixin):
        def __bool__(self):
            return bool(x)

        def __bytes__(self):
            return x

    if text:
        eq(str(U()), x, "UnicodeMixin")
        eq(py2.to_text(U()), x, "to_text of UnicodeMixin")
    if data:
        eq(py2.to_bytes(B()), x, "to_bytes uses __bytes__")
    eq(B().__nonzero__(), bool(x), "BoolMixin")
    c.nontrivial((text or data) and len(x) > 0)
    c.label(type(x).__name__)


PROPS = [
    Prop("order", order_case(), check_order, 7000, 60000,
         rule="two of the values are equal and two are not"),
    Prop("renaming", hierarchy(), check_renaming, 700, 12000,
         rule="a renamed method is overridden in a subclass"),
    Prop("override", bad_override(), check_override, 150, 600,
         rule="always"),
    Prop("attributes", attr_case(), check_attr, 1000, 20000,
         rule="the old and new names differ"),
    Prop("functions", function_case(), check_functions, 100, 2000,
         rule="more than one renamed function"),
    Enum("library", library_cases, check_library,
         rule="the module has renamed methods or functions"),
    Prop("text", text_case(), check_text, 1500, 30000,
         rule="text or bytes that are not empty"),
]
