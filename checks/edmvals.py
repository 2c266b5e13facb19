"""EDM simple values as plain data, shared by the OData checks.

A value is (type name, payload) with payload plain literal data or None:
  Binary bytes, Boolean bool, Byte/SByte/Int16/Int32/Int64 int,
  DateTime ((y,m,d),(h,mi,s,k),ndp), DateTimeOffset (same + zone minutes),
  Time ((h,mi,s,k),ndp), Decimal string, Double/Single float repr string,
  Guid 32 hex digits, String text
"""
import decimal
import math
import uuid

from hypothesis import strategies as st

from pyslet import iso8601 as iso
from pyslet.odata2 import csdl as edm

from . import gens

TYPES = ["Binary", "Boolean", "Byte", "DateTime", "DateTimeOffset", "Time",
         "Decimal", "Double", "Single", "Guid", "Int16", "Int32", "Int64",
         "String", "SByte"]

RANGES = {"Byte": (0, 255), "SByte": (-128, 127), "Int16": (-32768, 32767),
          "Int32": (-2 ** 31, 2 ** 31 - 1), "Int64": (-2 ** 63, 2 ** 63 - 1)}

CODE = dict((t, getattr(edm.SimpleType, t)) for t in TYPES)


def doubles(nonfinite=True):
    base = st.one_of(
        st.floats(allow_nan=nonfinite, allow_infinity=nonfinite),
        st.integers(-10 ** 6, 10 ** 6).map(float),
        st.tuples(st.integers(-99, 99), st.integers(-300, 300)).map(
            lambda t: float("%de%d" % t)),
        st.sampled_from([0.0, 1e16, 1e22, 5e-324, 1.7976931348623157e308,
                         -1e-7, 0.1, 123456789012345680.0, 1e15]))
    return base.map(repr)


def singles(nonfinite=True):
    base = st.one_of(
        st.floats(width=32, allow_nan=nonfinite, allow_infinity=nonfinite),
        st.integers(-10 ** 6, 10 ** 6).map(float),
        st.sampled_from([0.0, 1.401298464324817e-45, 3.4028234663852886e38,
                         1.0, 16777216.0, 1e10]))
    return base.map(lambda x: repr(gens.float32(x)))


def decimals(max_left=28, max_right=28, total=28):
    def mk(t):
        sign, l, r = t
        l = l[:max_left].lstrip("0") or "0"
        r = r[:min(max_right, total - len(l))]
        return sign + l + ("." + r if r else "")
    dig = st.text("0123456789", max_size=29)
    short = st.text("0123456789", max_size=4)
    return st.tuples(st.sampled_from(["", "-"]), st.one_of(dig, short),
                     st.one_of(dig, short)).map(mk)


def datetimes(min_year=1, max_year=9999, ndps=(0, 1, 3, 6, 7)):
    return st.sampled_from(ndps).flatmap(lambda n: st.tuples(
        gens.date_tuple(min_year, max_year), gens.time_tuple(n), st.just(n)))


def zones():
    return st.one_of(st.just(0), st.integers(-839, 839),
                     st.sampled_from([-720, 60, 330, 345, -30, 30, 839, -839,
                                      1, -1]))


def payload(tname, text=None, nonfinite=True, min_year=1, max_year=9999,
            ndps=(0, 1, 3, 6, 7)):
    if tname in RANGES:
        return gens.edge_ints(*RANGES[tname])
    if tname == "Binary":
        return st.one_of(st.binary(max_size=12), st.sampled_from(
            [b"", b"\x00", b"\xff\x00", b"'", bytes(range(256))]))
    if tname == "Boolean":
        return st.booleans()
    if tname == "DateTime":
        return datetimes(min_year, max_year, ndps)
    if tname == "DateTimeOffset":
        return st.tuples(datetimes(max(min_year, 2), min(max_year, 9998),
                                   ndps), zones()).map(
            lambda t: t[0] + (t[1],))
    if tname == "Time":
        return st.sampled_from(ndps).flatmap(
            lambda n: st.tuples(gens.time_tuple(n), st.just(n)))
    if tname == "Decimal":
        return decimals()
    if tname == "Double":
        return doubles(nonfinite)
    if tname == "Single":
        return singles(nonfinite)
    if tname == "Guid":
        return st.one_of(st.binary(min_size=16, max_size=16).map(
            lambda b: b.hex()), st.just("0" * 32), st.just("f" * 32))
    if tname == "String":
        return text if text is not None else gens.text()
    raise KeyError(tname)


def frac(s, k, ndp):
    if not k:
        return s
    return float("%d.%0*d" % (s, ndp, k))


def to_python(tname, p):
    """The python value to hand to set_from_value"""
    if p is None:
        return None
    if tname in ("Double", "Single"):
        return float(p)
    if tname == "Decimal":
        return decimal.Decimal(p)
    if tname == "Guid":
        return uuid.UUID(hex=p)
    if tname == "Time":
        (h, m, s, k), ndp = p
        return iso.Time(hour=h, minute=m, second=frac(s, k, ndp))
    if tname in ("DateTime", "DateTimeOffset"):
        (y, mo, d), (h, m, s, k), ndp = p[:3]
        kw = {}
        if tname == "DateTimeOffset":
            z = p[3]
            zd = 0 if z == 0 else (1 if z > 0 else -1)
            kw = dict(zdirection=zd, zhour=abs(z) // 60, zminute=abs(z) % 60)
        return iso.TimePoint(
            date=iso.Date(century=y // 100, year=y % 100, month=mo, day=d),
            time=iso.Time(hour=h, minute=m, second=frac(s, k, ndp), **kw))
    return p


def p_def(tname, name="P", ndp=None, nullable=True):
    p = edm.Property(None)
    p.name = name
    p.simpleTypeCode = CODE[tname]
    p.nullable = nullable
    if ndp is not None and tname in ("DateTime", "DateTimeOffset", "Time"):
        p.precision = ndp
    return p


def ndp_of(tname, p):
    if p is None:
        return None
    if tname == "Time":
        return p[1]
    if tname in ("DateTime", "DateTimeOffset"):
        return p[2]
    return None


def make(tname, p, with_def=True, name="P"):
    """A pyslet SimpleValue holding the payload"""
    if with_def:
        v = edm.EDMValue.from_property(p_def(tname, name, ndp_of(tname, p)))
    else:
        v = edm.EDMValue.from_type(CODE[tname])
    v.set_from_value(to_python(tname, p))
    return v


def secs_close(a, b, tol=1e-7):
    return abs(a - b) <= tol


def canon(tname, value):
    """Canonical comparable form of the python value held in a SimpleValue"""
    if value is None:
        return None
    if tname == "Double":
        return "nan" if math.isnan(value) else repr(float(value) + 0.0)
    if tname == "Single":
        return "nan" if math.isnan(value) else repr(
            gens.float32(value) + 0.0)
    if tname == "Decimal":
        return (value.normalize(decimal.Context(prec=80)) + 0
                if not isinstance(value, str) else value)
    if tname == "Guid":
        return value.hex
    if tname == "Time":
        h, m, s = value.get_time()
        return (h, m, round(float(s), 6), value.get_zone_offset())
    if tname == "DateTime":
        return (value.date.get_calendar_day(), value.time.get_time()[:2],
                round(float(value.time.get_time()[2]), 6),
                value.time.get_zone_offset())
    if tname == "DateTimeOffset":
        return (value.date.get_calendar_day(), value.time.get_time()[:2],
                round(float(value.time.get_time()[2]), 6),
                value.time.get_zone_offset())
    if tname == "Binary":
        return ("bytes", bytes(value)) if isinstance(value, bytes) else (
            type(value).__name__, value)
    if tname == "Boolean":
        return ("bool", value) if isinstance(value, bool) else (
            type(value).__name__, value)
    return (type(value).__name__, value)


def expect(tname, p, ndp=None):
    """canon() of what a value set from payload p must be; ndp truncates the
    seconds to that many decimal places"""
    if p is None:
        return None
    if tname == "Double":
        return canon(tname, float(p))
    if tname == "Single":
        return canon(tname, float(p))
    if tname == "Decimal":
        return canon(tname, decimal.Decimal(p))
    if tname == "Guid":
        return p
    if tname in ("Time", "DateTime", "DateTimeOffset"):
        if tname == "Time":
            (h, m, s, k), n = p
        else:
            d, (h, m, s, k), n = p[:3]
        if ndp is not None and ndp < n:
            k = k // 10 ** (n - ndp)
            n = ndp
        sec = round(s + (k / 10.0 ** n), 6)
        if tname == "Time":
            return (h, m, sec, None)
        y, mo, day = d
        cal = (y // 100, y % 100, mo, day)
        return (cal, (h, m), sec, p[3] if tname == "DateTimeOffset" else None)
    return {"Binary": "bytes", "Boolean": "bool", "String": "str"}.get(
        tname, "int"), p
