"""C19: XML Schema datatypes map lexical forms to values and back."""
import decimal
import math
import re
import struct
from fractions import Fraction

from hypothesis import strategies as st

from vlib import Prop, eq, ok, raises

from pyslet import iso8601
from pyslet.xml import structures as xml
from pyslet.xml import xsdatatypes as xsi

NUMBER = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)\Z")
FLOAT = re.compile(r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
INTEGER = re.compile(r"[+-]?[0-9]+\Z")

digits = st.text("0123456789", max_size=6)
noise = st.lists(st.sampled_from(
    ["+", "-", ".", "e", "E", " ", "\n", "0", "1", "9", "_", ",", "INF",
     "NaN", "\u0661", "\uff11", "x", "0x1", "inf", "true", "j", "\xa0", "\xb2",
     "infinity", "'"]), max_size=6).map("".join)
sign = st.sampled_from(["", "", "+", "-"])
number = st.builds(lambda s, a, p, b: s + a + p + b, sign, digits,
                   st.sampled_from(["", "."]), digits)
big = st.builds(lambda s, a, p, b: s + a + p + b, sign,
                st.text("0123456789", min_size=1, max_size=40),
                st.sampled_from(["", "."]),
                st.text("0123456789", max_size=40))
exponent = st.builds(
    lambda e, s, n: e + s + n, st.sampled_from("eE"), sign,
    st.one_of(digits, st.integers(0, 400).map(str),
              st.integers(20, 60).map(str)))
lexical = st.one_of(
    number, number, big, st.builds(lambda a, b: a + b, number, exponent),
    st.builds(lambda a, b: a + b, big, exponent), noise,
    st.builds(lambda a, i, n: a[:i] + n + a[i:], number, st.integers(0, 9),
              noise), st.sampled_from(["INF", "-INF", "NaN", "", "+", "."]))


def refused(f, src):
    try:
        result = f(src)
    except ValueError:
        return
    ok(False, "accepted", f.__name__, src, result)


def same(a, b):
    return (math.isnan(a) and math.isnan(b)) or (
        a == b and (a != 0 or math.copysign(1, a) == math.copysign(1, b)))


def nearest(src):
    """the double nearest to a decimal, by integer arithmetic"""
    m = re.match(r"([+-]?)([0-9]*)\.?([0-9]*)(?:[eE]([+-]?[0-9]+))?\Z", src)
    s, a, b, e = m.groups()
    e = int(e or "0") - len(b)
    n = int(a + b)
    neg = s == "-"
    if n == 0 or e + len(a + b) < -400:
        v = 0.0
    elif e > 400 or e + len(str(n)) > 400:
        v = float("inf")
    else:
        try:
            # exact division of integers rounds correctly
            v = (n * 10 ** e) / 1 if e >= 0 else n / 10 ** -e
        except OverflowError:
            v = float("inf")
    return -v if neg else v


def check_lexical(src, c):
    # integer
    if INTEGER.match(src):
        n = 0
        for ch in src.lstrip("+-"):
            n = n * 10 + "0123456789".index(ch)
        eq(xsi.integer_from_str(src), -n if src[0] == "-" else n, "integer",
           src)
    else:
        refused(xsi.integer_from_str, src)
    # decimal
    if NUMBER.match(src):
        ok(same(xsi.decimal_from_str(src), nearest(src)), "decimal", src)
    else:
        refused(xsi.decimal_from_str, src)
    # double and float
    if FLOAT.match(src):
        v = nearest(src)
        ok(same(xsi.double_from_str(src), v), "double", src,
           xsi.double_from_str(src), v)
        if abs(v) >= 2.0 ** 128:
            v = math.copysign(float("inf"), v)
        elif abs(v) < 2.0 ** -149:
            v = math.copysign(0.0, v)
        got = xsi.float_from_str(src)
        # (the sign of an underflowed zero may be preserved)
        ok(same(got, v) or got == v == 0, "float", src, got, v)
        c.nontrivial()
        c.label("number")
    elif src in ("INF", "-INF", "NaN"):
        v = float(src.lower())
        ok(same(xsi.double_from_str(src), v), "double", src)
        ok(same(xsi.float_from_str(src), v), "float", src)
    elif src.lower() in ("inf", "-inf", "nan"):
        c.label("lenient")
    else:
        refused(xsi.double_from_str, src)
        refused(xsi.float_from_str, src)
        c.label("refused")
        c.nontrivial(len(src) > 1)
    # boolean
    if src in ("true", "1", "false", "0"):
        eq(xsi.boolean_from_str(src), src in ("true", "1"), "boolean", src)
    else:
        refused(xsi.boolean_from_str, src)


# ----------------------------------------------------------------- encodings

@st.composite
def floats(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.floats())
    elif k == 1:
        return struct.unpack("<d", struct.pack("<Q", draw(
            st.integers(0, 2 ** 64 - 1))))[0]
    elif k == 2:
        return struct.unpack("<f", struct.pack("<I", draw(
            st.integers(0, 2 ** 32 - 1))))[0]
    elif k == 3:
        return float("%s%i.%se%i" % (
            draw(st.sampled_from(["", "-"])), draw(st.integers(0, 9)),
            draw(st.sampled_from(["0", "5", "99999", "999999999999999", "25",
                                  "4999999", "1", "05", "95"])),
            draw(st.integers(-20, 20))))
    elif k == 4:
        return draw(st.sampled_from(
            [2.0 ** 128, 2.0 ** 127, 2.0 ** -149, 2.0 ** -150, -2.0 ** -149,
             2.0 ** -1074, 0.0, -0.0, float("inf"), float("nan"), 1e15, 1e16,
             1e22, 1e23, 0.5, 1.5, 2.5, 0.05, 9.5, 99.5, 999.95]))
    else:
        return float(draw(st.integers(-10 ** 17, 10 ** 17)))


CANON_DECIMAL = re.compile(r"-?(0|[1-9][0-9]*)\.([0-9]*[1-9]|0)\Z")
CANON_DOUBLE = re.compile(r"(-?[1-9]\.([0-9]*[1-9]|0)E(0|-?[1-9][0-9]*)"
                          r"|0\.0E0|INF|-INF|NaN)\Z")


def check_encoding(case, c):
    v, d, strip = case
    s = xsi.double_to_str(v)
    ok(CANON_DOUBLE.match(s), "canonical double", v, s)
    got = xsi.double_from_str(s)
    ok(same(got, v) or got == v == 0, "double", v, s, got)
    s = xsi.float_to_str(v)
    ok(CANON_DOUBLE.match(s), "canonical float", v, s)
    got = xsi.float_from_str(s)
    if abs(v) >= 2.0 ** 128:
        ok(math.isinf(got) and (got > 0) == (v > 0), "float", v, s)
    elif abs(v) < 2.0 ** -149:
        ok(got == 0, "float", v, s)
    else:
        ok(same(got, v), "float", v, s, got)
    if math.isnan(v) or math.isinf(v):
        raises(ValueError, xsi.decimal_to_str, v)
        raises(ValueError, xsi.decimal_to_str, v, d, strip)
        c.label("special")
        return
    s = xsi.decimal_to_str(v)
    ok(CANON_DECIMAL.match(s), "canonical decimal", v, s)
    got = xsi.decimal_from_str(s)
    ok(same(got, v) or got == v == 0, "decimal", v, s, got)
    c.nontrivial(v != int(v) if abs(v) < 1e18 else True)
    # with a number of digits
    exact = Fraction(decimal.Decimal(repr(v)))
    s = xsi.decimal_to_str(v, d, strip)
    m = re.match(r"-?([0-9]+)(?:\.([0-9]+))?\Z", s)
    ok(m, "decimal form", v, d, strip, s)
    n = len(m.group(2) or "")
    if d == 0:
        eq(n, 0, "no digits", v, s)
    elif strip:
        ok(1 <= n <= d and CANON_DECIMAL.match(s), "digits", v, d, s)
    else:
        eq(n, d, "digits", v, d, s)
    ok(abs(Fraction(s) - exact) <= Fraction(1, 2 * 10 ** d), "rounding", v, d,
       s)
    s = xsi.double_to_str(v, d, strip)
    m = re.match(r"-?([0-9])(?:\.([0-9]+))?E(0|-?[1-9][0-9]*)\Z", s)
    ok(m, "double form", v, d, strip, s)
    n = len(m.group(2) or "")
    if d == 0:
        eq(n, 0, "no digits", v, s)
    elif strip:
        ok(1 <= n <= d, "digits", v, d, s)
    else:
        eq(n, d, "digits", v, d, s)
    e = int(m.group(3))
    if v:
        ok(m.group(1) != "0", "normalised", v, d, s)
    ok(abs(Fraction(s) - exact) <= Fraction(10) ** (e - d) / 2, "rounding", v,
       d, s)


def check_integer(n, c):
    s = xsi.integer_to_str(n)
    ok(re.match(r"(0|-?[1-9][0-9]*)\Z", s), "canonical", n, s)
    eq(xsi.integer_from_str(s), n, "integer", n)
    eq(xsi.boolean_from_str(xsi.boolean_to_str(n)), bool(n), "boolean", n)
    eq(xsi.decimal_to_str(n), "%i.0" % n, "decimal", n)
    c.nontrivial(abs(n) > 2 ** 53)


# ------------------------------------------------------------------ durations

comp = st.one_of(st.none(), st.integers(0, 9), st.integers(0, 10 ** 6))


@st.composite
def durations(draw):
    """(sign, components)"""
    comps = [draw(comp) for i in range(6)]
    if comps[5] is not None and draw(st.booleans()):
        comps[5] = "%i.%s" % (comps[5], draw(
            st.text("0123456789", min_size=1, max_size=9)))
    if all(x is None for x in comps):
        comps[draw(st.integers(0, 5))] = 0
    return (draw(st.booleans()), comps)


def duration_text(case):
    neg, comps = case
    t = [None if v is None else "%s%s" % (v, u)
         for v, u in zip(comps, "YMDHMS")]
    s = "P" + "".join(v for v in t[:3] if v)
    tail = "".join(v for v in t[3:] if v)
    return ("-" if neg else "") + s + ("T" + tail if tail else "")


def duration_value(d):
    return (d.sign if any((d.years, d.months, d.days, d.hours, d.minutes,
                           d.seconds)) else 1,
            d.years or 0, d.months or 0, d.days or 0, d.hours or 0,
            d.minutes or 0, d.seconds or 0)


def check_duration(case, c):
    neg, comps = case
    src = duration_text(case)
    d = xsi.Duration(src)
    values = [float(v or 0) for v in comps]
    want = tuple([-1 if neg and any(values) else 1] + values)
    got = duration_value(d)
    eq(got[:-1], want[:-1], "value", src)
    ok(abs(got[-1] - want[-1]) < 1e-9 * max(1, want[-1]), "seconds", src)
    want = got
    s = str(d)
    ok(re.match(r"-?P([0-9]+Y)?([0-9]+M)?([0-9]+D)?(T([0-9]+H)?([0-9]+M)?"
                r"([0-9]+(\.[0-9]+)?S)?)?\Z", s) and s[-1] not in "PT",
       "lexical form", src, s)
    d2 = xsi.Duration(s)
    eq(duration_value(d2), want, "reread", src, s)
    ok(d == d2 and not d != d2, "equality", src, s)
    d3 = xsi.Duration(d)
    ok(d3 == d, "copy", src)
    if any(values):
        other = xsi.Duration(src[1:] if neg else "-" + src)
        ok(d != other and not d == other, "the sign is significant", src)
    c.nontrivial(neg or any("." in str(v) for v in comps))


bad_duration = st.one_of(
    noise,
    st.builds(lambda d, i, n: d[:i] + n + d[i:],
              durations().map(duration_text), st.integers(0, 9),
              st.sampled_from(["P", "T", "-", " ", "+", ".", "x", "Y", "S",
                               ":", "\u0661"])),
    st.builds(lambda d, i: d[:i] + d[i + 1:],
              durations().map(duration_text), st.integers(0, 9)),
    st.builds(lambda d, i: d.replace("YMDHM"[i], ".5" + "YMDHM"[i], 1),
              durations().map(duration_text), st.integers(0, 4)))

DURATION = re.compile(
    r"-?P(?=[0-9T])([0-9]+Y)?([0-9]+M)?([0-9]+D)?"
    r"(T(?=[0-9])([0-9]+H)?([0-9]+M)?([0-9]+(\.[0-9]+)?S)?)?\Z")
# what ISO 8601 allows as well
ISO_DURATION = re.compile(
    r"-?P([0-9.,]+[YMDW])*(T([0-9.,]+[HMS])*)?\Z|-?P[0-9-]*(T[0-9:.,]*)?\Z")


def check_bad_duration(src, c):
    legal = bool(DURATION.match(src))
    try:
        xsi.Duration(src)
    except (ValueError, iso8601.DateTimeError):
        ok(not legal, "refused", src)
        c.label("refused")
        c.nontrivial()
        return
    if not legal:
        ok(ISO_DURATION.match(src), "accepted", src)
        # (only the last component may have a fraction)
        ok(not re.search(r"[.,][0-9]*[A-Z]T?[0-9]", src), "accepted", src)
        c.label("iso")
    else:
        c.label("legal")


# ------------------------------------------------------------------ date/times

@st.composite
def datetimes(draw):
    y = draw(st.one_of(st.integers(1, 9999), st.sampled_from([1, 9999])))
    mo = draw(st.integers(1, 12))
    d = draw(st.integers(1, [31, 29 if y % 4 == 0 and (
        y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30,
        31][mo - 1]))
    frac = draw(st.one_of(st.just(""), st.text("0123456789", min_size=1,
                                               max_size=6)))
    zone = draw(st.sampled_from(["", "Z", "z1", "z2"]))
    if zone[:1] == "z":
        zone = "%s%02i:%02i" % ("+" if zone == "z1" else "-",
                                draw(st.integers(0, 13)),
                                draw(st.sampled_from([0, 30, 45, 59])))
    return (y, mo, d, draw(st.integers(0, 23)), draw(st.integers(0, 59)),
            draw(st.integers(0, 59)), frac, zone)


def check_datetime(case, c):
    y, mo, d, h, mi, s, frac, zone = case
    src = "%04i-%02i-%02iT%02i:%02i:%02i%s%s" % (
        y, mo, d, h, mi, s, "." + frac if frac else "", zone)
    t = xsi.datetime_from_str(src)
    eq(t.date.get_calendar_day(), (y // 100, y % 100, mo, d), "date", src)
    th, tmi, ts = t.time.get_time()
    eq((th, tmi, int(ts)), (h, mi, s), "time", src)
    ok(abs(ts - float("%i.%s" % (s, frac or "0"))) < 1e-9, "fraction", src)
    zd, zo = t.get_zone()
    if not zone:
        eq(zd, None, "zone", src)
    else:
        off = 0 if zone == "Z" else (int(zone[1:3]) * 60 + int(zone[4:])) * (
            1 if zone[0] == "+" else -1)
        eq((zd or 0) * zo, off, "zone", src)
    out = xsi.datetime_to_str(t)
    ok(re.match(r"[0-9]{4}-[0-9]{2}-[0-9]{2}T[0-9]{2}:[0-9]{2}:[0-9]{2}"
                r"(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})?\Z", out),
       "lexical form", src, out)
    t2 = xsi.datetime_from_str(out)
    eq(t2.date, t.date, "date reread", src, out)
    eq(t2.get_zone()[0] or 0, zd or 0, "zone reread", src, out)
    eq(t2.time.get_time()[:2], (h, mi), "time reread", src, out)
    ok(abs(t2.time.get_time()[2] - ts) < 1e-6, "seconds reread", src, out)
    c.nontrivial(bool(frac or zone))


bad_datetime = st.builds(
    lambda s, i, n, k: s[:i] + n + s[i + k:],
    st.sampled_from(["2001-02-28T23:59:59Z", "2000-12-31T00:00:00.5+01:30",
                     "1900-01-01T12:00:00"]),
    st.integers(0, 30), st.sampled_from(
        ["", "x", "9", "-", "3", " ", "T", "\u0661", ":", "29", "60"]),
    st.integers(0, 3))


def check_bad_datetime(src, c):
    try:
        t = xsi.datetime_from_str(src)
    except ValueError:
        c.label("refused")
        c.nontrivial()
        return
    m = re.match(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):"
                 r"([0-9]{2})(\.[0-9]+)?(Z|[+-][0-9]{2}:[0-9]{2})?\Z", src)
    if m:
        y, mo, d, h, mi, s = [int(m.group(i)) for i in range(1, 7)]
        eq(t.date.get_calendar_day(), (y // 100, y % 100, mo, d), "date", src)
        c.label("legal")
    else:
        ok(all(ch in "0123456789-:.,+TZWtz" for ch in src.strip()),
           "accepted", src)
        c.label("iso")


# ----------------------------------------------------------------------- names

# XML 1.0, fifth edition, productions 4 and 4a
START = [(0x3a, 0x3a), (0x41, 0x5a), (0x5f, 0x5f), (0x61, 0x7a), (0xc0, 0xd6),
         (0xd8, 0xf6), (0xf8, 0x2ff), (0x370, 0x37d), (0x37f, 0x1fff),
         (0x200c, 0x200d), (0x2070, 0x218f), (0x2c00, 0x2fef),
         (0x3001, 0xd7ff), (0xf900, 0xfdcf), (0xfdf0, 0xfffd),
         (0x10000, 0xeffff)]
OTHER = [(0x2d, 0x2e), (0x30, 0x39), (0xb7, 0xb7), (0x300, 0x36f),
         (0x203f, 0x2040)]
EDGES = sorted({n for r in START + OTHER
                for n in (r[0] - 1, r[0], r[1], r[1] + 1)
                if not 0xd800 <= n <= 0xdfff and n <= 0x10ffff})
name_text = st.lists(st.one_of(
    st.sampled_from([chr(n) for n in EDGES]),
    st.sampled_from("aZ_:-.9 "), st.characters(
        blacklist_categories=["Cs"])), max_size=5).map("".join)


def inside(ch, ranges):
    return any(a <= ord(ch) <= b for a, b in ranges)


def check_name(src, c):
    legal = bool(src) and inside(src[0], START) and all(
        inside(ch, START + OTHER) for ch in src)
    eq(xml.is_valid_name(src), legal, "is_valid_name", src)
    if legal:
        eq(xsi.name_from_str(src), src, "name", src)
        eq(xsi.name_to_str(src), src, "name", src)
    else:
        refused(xsi.name_from_str, src)
    c.nontrivial(len(src) > 1)
    c.label("legal" if legal else "not a name")
    # white space
    t = src.replace("a", "\t").replace("Z", "\r\n")
    want = "".join(" " if ch in "\t\r\n" else ch for ch in t)
    eq(xsi.white_space_replace(t), want, "replace", t)
    eq(xsi.white_space_collapse(t), " ".join(
        w for w in want.split(" ") if w), "collapse", t)


# ---------------------------------------------------------------- enumerations

WORDS = ["Apple", "apple", "PEAR", "pear", "Red fish", "orange", "aB", "ab",
         "x-y", "Tangerine"]


@st.composite
def enums(draw):
    words = draw(st.lists(st.sampled_from(
        [w for w in WORDS if " " not in w]), min_size=1, max_size=6,
        unique=True))
    values = draw(st.permutations(range(1, len(words) + 1)))
    aliases = draw(st.dictionaries(
        st.sampled_from(["Zed", "zed", "APPLE", "q"]),
        st.sampled_from(words), max_size=2))
    if draw(st.booleans()):
        aliases[None] = draw(st.sampled_from(words))
    return (dict(zip(words, values)), aliases, draw(st.booleans()),
            draw(st.lists(st.sampled_from(WORDS + ["zed", "Zed", "q", "APPLE"]
                                          ), max_size=5)))


def check_enum(case, c):
    decode, aliases, nocase, probes = case
    base = xsi.EnumerationNoCase if nocase else xsi.Enumeration
    E = type(base)("E", (base, ), {"decode": dict(decode),
                                   "aliases": dict(aliases)})
    table = dict(decode)
    for k, w in aliases.items():
        if k is not None:
            table[k] = decode[w]
    back = {v: k for k, v in decode.items()}
    default = decode[aliases[None]] if None in aliases else None
    if nocase and len({k.lower() for k in decode}) < len(decode):
        # words that differ in case only are ambiguous
        return
    eq(E.DEFAULT, default, "DEFAULT", case)
    for k, v in table.items():
        eq(getattr(E, k), v, "constant", k, case)
    if nocase:
        # (words that differ in case only are ambiguous)
        for k in decode:
            a = k.lower()
            if a not in table and len(
                    {w for w in decode if w.lower() == a}) == 1:
                table[a] = decode[k]
    for v, k in back.items():
        eq(E.to_str(v), k, "to_str", case)
        eq(E.from_str(k), v, "from_str", case)
        eq(E.from_str(" " + k + "\n"), v, "from_str", case)
    eq(E.to_str(None), back.get(default), "to_str default", case)
    methods = [(E.from_str, lambda s: s), (E.from_str_lower, str.lower),
               (E.from_str_upper, str.upper),
               (E.from_str_title, lambda s: s[:1].upper() + s[1:].lower())]
    for f, change in methods:
        good = []
        for w in probes + ["", " "]:
            if change(w) in table:
                eq(f(w), table[change(w)], f.__name__, w, case)
                good.append(w)
            else:
                refused(f, w)
        sep = " \n " if len(good) % 2 else " "
        want = [table[change(w)] for w in good]
        eq(E.list_from_str(f, sep.join(good)), want, "list", good, case)
        first = {}
        for w in good:
            first.setdefault(table[change(w)], w)
        d = E.dict_from_str(f, sep.join(good))
        eq(d, first, "dict", good, case)
        eq(E.list_to_str(want), " ".join(back[v] for v in want), "list_to_str",
           case)
        eq(E.dict_to_str(d), " ".join(back[v] for v in sorted(d)),
           "dict_to_str", case)
        eq(E.list_from_str(E.from_str, E.list_to_str(want)), want, "reread",
           case)
        if good:
            c.nontrivial()
    c.label("no case" if nocase else "plain")


PROPS = [
    Prop("lexical", lexical, check_lexical, quick=12000, thorough=400000,
         rule="a number, or a longer string that is not one"),
    Prop("encoding", st.tuples(floats(), st.integers(0, 25), st.booleans()),
         check_encoding, quick=8000, thorough=300000,
         rule="a fractional or very large value"),
    Prop("integer", st.one_of(st.integers(), st.integers(
        -10 ** 60, 10 ** 60)), check_integer, quick=1000, thorough=20000,
        rule="beyond the exact integers of a float"),
    Prop("duration", durations(), check_duration, quick=3000, thorough=60000,
         rule="negative or with a fraction"),
    Prop("bad duration", bad_duration, check_bad_duration, quick=3000,
         thorough=60000, rule="refused"),
    Prop("datetime", datetimes(), check_datetime, quick=3000, thorough=60000,
         rule="with a fraction or zone"),
    Prop("bad datetime", bad_datetime, check_bad_datetime, quick=2000,
         thorough=40000, rule="refused"),
    Prop("names", name_text, check_name, quick=6000, thorough=200000,
         rule="more than one character"),
    Prop("enums", enums(), check_enum, quick=2000, thorough=40000,
         rule="some value was decoded"),
]
