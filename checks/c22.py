"""C22: ISO 8601 dates against the proleptic Gregorian calendar.

Oracle: the standard library's datetime.date (ordinals, ISO weeks, day of
year) and, for the Julian calendar, the Julian Day Number formula."""
import datetime
import re

from hypothesis import strategies as st

from pyslet import iso8601 as iso

from vlib import Prop, Enum, eq, ok, fail, raises
from . import gens

PROPERTY = "C22"
ASSUMPTIONS = ["datetime.date is a correct proleptic Gregorian calendar"]

REFUSED = (iso.DateTimeError, ValueError)

#: the complete and reduced precision representations
WHOLE = re.compile(r"^[0-9]{2}([0-9]{2}(-?[0-9]{3}|-[0-9]{2}|"
                   r"-[0-9]{2}-[0-9]{2}|[0-9]{4}|-?W[0-9]{2}|W[0-9]{3}|"
                   r"-W[0-9]{2}-[0-9])?)?\Z")


def followed(s, base=None):
    """A date followed by anything else is malformed"""
    for tail in ("x", " 0", "T", "Z", "\n1"):
        ok(raises(REFUSED, iso.Date.from_str, s + tail, base) is not None,
           "date followed by other text accepted", s + tail)
        ok(raises(REFUSED, iso.Date.from_string_format, s + tail, base)
           is not None, "date followed by other text accepted with its "
           "format", s + tail)
MAXORD = datetime.date.max.toordinal()
T = iso.Truncation


def mk(y, m=None, d=None):
    return iso.Date(century=y // 100, year=y % 100, month=m, day=d)


def jdn_julian(y, m, d):
    a = (14 - m) // 12
    yy = y + 4800 - a
    mm = m + 12 * a - 3
    return d + (153 * mm + 2) // 5 + 365 * yy + yy // 4 - 32083


def jdn_gregorian(ordinal):
    return ordinal + 1721425


def weeks_in(y):
    return datetime.date(y, 12, 28).isocalendar()[1]


# -- calendar conversions --------------------------------------------------

def check_calendar(case, c):
    y, m, d = case
    g = datetime.date(y, m, d)
    c.nontrivial(not (m == 1 and d == 1))
    if d > 28:
        c.label("day>28")
    x = mk(y, m, d)
    eq(x.get_calendar_day(), (y // 100, y % 100, m, d), "calendar day")
    eq(x.get_absolute_day(), g.toordinal(), "absolute day", case)
    yday = g.timetuple().tm_yday
    eq(x.get_ordinal_day(), (y // 100, y % 100, yday), "ordinal day", case)
    iy, iw, iwd = g.isocalendar()
    eq(x.get_week_day(), (iy // 100, iy % 100 // 10, iy % 10, iw, iwd),
       "week day", case)
    if iy != y:
        c.label("week year differs")
    eq(x.leap_year(), (y % 4 == 0 and y % 100 != 0) or y % 400 == 0, "leap")
    eq(iso.leap_year(y), x.leap_year(), "leap_year function")
    eq(iso.day_of_week(y, m, d), iwd, "day_of_week function", case)
    eq(iso.week_count(y), weeks_in(y), "week_count function", case)
    same = [iso.Date(absolute_day=g.toordinal()),
            iso.Date(century=y // 100, year=y % 100, ordinal_day=yday),
            iso.Date(x)]
    if 1 <= iy <= 9999:
        same.append(iso.Date(century=iy // 100, decade=iy % 100 // 10,
                             year=iy % 10, week=iw, weekday=iwd))
    tt = list(g.timetuple())
    same.append(iso.Date.from_struct_time(tt))
    for s in same:
        ok(s == x and not (s != x) and hash(s) == hash(x),
           "same date by another construction", case, s)
        eq(s.get_calendar_day(), x.get_calendar_day(), "same calendar day")
    t = [0] * 9
    x.update_struct_time(t)
    eq((t[0], t[1], t[2], t[6], t[7]), (tt[0], tt[1], tt[2], tt[6], tt[7]),
       "update_struct_time", case)
    jy, jm, jd = x.get_julian_day()
    if jy >= 1:
        eq(jdn_julian(jy, jm, jd), jdn_gregorian(g.toordinal()),
           "Julian calendar day", case, (jy, jm, jd))
        ok(1 <= jm <= 12 and 1 <= jd <= 31, "Julian date exists",
           (jy, jm, jd))
        j = iso.Date.from_julian(jy, jm, jd)
        eq(j.get_calendar_day(), x.get_calendar_day(), "from_julian", case)
    eq(x.complete(), True, "complete")
    eq(x.get_precision(), iso.Precision.Complete, "precision")


def boundary_days():
    for y in range(1, 10000):
        for md in ((1, 1), (1, 2), (1, 3), (1, 4), (2, 28), (3, 1), (12, 28),
                   (12, 29), (12, 30), (12, 31)):
            yield (y,) + md
        if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0:
            yield (y, 2, 29)


def quick_boundary():
    for i, t in enumerate(boundary_days()):
        y = t[0]
        if y < 30 or y > 9980 or 1580 < y < 1620 or 1880 < y < 2120 or \
                y % 100 in (0, 99, 1) or i % 7 == 0:
            yield t


def all_days():
    for n in range(1, MAXORD + 1):
        g = datetime.date.fromordinal(n)
        yield (g.year, g.month, g.day)


# -- offsets and comparison ------------------------------------------------

def offset_cases():
    days = st.one_of(st.integers(-800, 800), st.integers(-200000, 200000),
                     st.integers(-4000000, 4000000),
                     st.sampled_from([0, 1, -1, 7, -7, 365, 366, 1461, 36524,
                                      146097, -146097]))
    return st.tuples(gens.date_tuple(), days, st.one_of(
        st.just(0), st.integers(-60, 60)))


def check_offset(case, c):
    (y, m, d), days, weeks = case
    x = mk(y, m, d)
    n = datetime.date(y, m, d).toordinal() + days + 7 * weeks
    c.nontrivial(days + 7 * weeks != 0)
    if 1 <= n <= MAXORD:
        r = x.offset(days=days, weeks=weeks)
        g = datetime.date.fromordinal(n)
        eq(r.get_calendar_day(), (g.year // 100, g.year % 100, g.month,
                                  g.day), "offset", case)
        a, b = x.get_absolute_day(), n
        eq((x < r, x <= r, x == r, x != r, x > r, x >= r),
           (a < b, a <= b, a == b, a != b, a > b, a >= b),
           "comparison agrees with day numbers", case)
        eq(r.offset(days=-days, weeks=-weeks).get_calendar_day(),
           x.get_calendar_day(), "offset and back", case)
    else:
        c.label("out of range")
        e = raises(REFUSED, x.offset, days=days, weeks=weeks)
        ok(e is not None, "offset outside years 1-9999 not refused", case)


def low_cases():
    y = st.one_of(st.integers(1, 9999), st.sampled_from(
        [1, 99, 100, 1999, 2000, 9999]))
    off = st.one_of(st.integers(-30, 30), st.integers(-3000, 3000))
    return st.one_of(
        st.tuples(st.just("month"), y, st.integers(1, 12), off,
                  st.integers(-5, 5)),
        st.tuples(st.just("year"), y, st.just(0), off, st.integers(-3, 3)),
        st.tuples(st.just("week"), y, st.integers(1, 53), off, st.just(0)))


def check_low(case, c):
    """Offsets and formats of dates with reduced precision"""
    kind, y, n, off, extra = case
    c.label(kind)
    c.nontrivial(off != 0)
    if kind == "month":
        x = mk(y, n)
        q = y * 12 + (n - 1) + off + 12 * extra
        exp = (q // 12, q % 12 + 1)
        f = lambda: x.offset(months=off, years=extra)
        get = lambda r: (r.century * 100 + r.year, r.month)
        prec = iso.Precision.Month
        s = "%04d-%02d" % (y, n)
    elif kind == "year":
        x = mk(y)
        exp = (y + off + 100 * extra,)
        f = lambda: x.offset(years=off, centuries=extra)
        get = lambda r: (r.century * 100 + r.year,)
        prec = iso.Precision.Year
        s = "%04d" % y
    else:
        n = min(n, weeks_in(y))
        x = iso.Date(century=y // 100, decade=y % 100 // 10, year=y % 10,
                     week=n)
        prec = iso.Precision.Week
        s = "%04d-W%02d" % (y, n)
        # via the Thursday of the week
        o = datetime.date.fromisocalendar(y, n, 4).toordinal() + 7 * off
        if 4 <= o <= MAXORD - 4:
            t = datetime.date.fromordinal(o).isocalendar()
            exp = (t[0], t[1])
        else:
            return
        f = lambda: x.offset(weeks=off)
        get = lambda r: (r.century * 100 + r.year, r.week)
    eq(x.get_precision(), prec, "precision")
    ok(not x.complete(), "complete")
    eq(str(x) if kind != "week" else x.get_week_string(), s, "string form")
    eq(get(iso.Date.from_str(s)), get(x), "parsed", s)
    ok(iso.Date.from_str(s) == x, "parsed equal", s)
    followed(s)
    if 1 <= exp[0] <= 9999:
        r = f()
        eq(get(r), exp, "offset at reduced precision", case)
        eq(r.get_precision(), prec, "precision kept")
        a, b = get(x), exp
        eq((x < r, x == r, x > r), (a < b, a == b, a > b),
           "comparison at reduced precision", case)
    else:
        ok(raises(REFUSED, f) is not None, "out of range offset", case)
    whole = mk(y, 1, 1)
    ok(not (whole == x), "dates of different precision are not equal")
    e = raises(TypeError, lambda: whole < x)
    ok(e is not None, "dates of different precision do not compare")


# -- representations -------------------------------------------------------

FORMATS = [
    # name, fields, template for basic, template for extended
    ("cal", ("y", "m", "d"), "{y:04d}{m:02d}{d:02d}",
     "{y:04d}-{m:02d}-{d:02d}", iso.NoTruncation),
    ("cal", ("yy", "m", "d"), "{yy:02d}{m:02d}{d:02d}",
     "{yy:02d}-{m:02d}-{d:02d}", T.Century),
    ("cal", ("m", "d"), "--{m:02d}{d:02d}", "--{m:02d}-{d:02d}", T.Year),
    ("cal", ("d",), "---{d:02d}", "---{d:02d}", T.Month),
    ("ord", ("y", "n"), "{y:04d}{n:03d}", "{y:04d}-{n:03d}",
     iso.NoTruncation),
    ("ord", ("yy", "n"), "{yy:02d}{n:03d}", "{yy:02d}-{n:03d}", T.Century),
    ("ord", ("n",), "-{n:03d}", "-{n:03d}", T.Year),
    ("week", ("iy", "w", "wd"), "{iy:04d}W{w:02d}{wd}",
     "{iy:04d}-W{w:02d}-{wd}", iso.NoTruncation),
    ("week", ("iyy", "w", "wd"), "{iyy:02d}W{w:02d}{wd}",
     "{iyy:02d}-W{w:02d}-{wd}", T.Century),
    ("week", ("iyd", "w", "wd"), "-{iyd}W{w:02d}{wd}",
     "-{iyd}-W{w:02d}-{wd}", T.Decade),
    ("week", ("w", "wd"), "-W{w:02d}{wd}", "-W{w:02d}-{wd}", T.Year),
    ("week", ("wd",), "-W-{wd}", "-W-{wd}", T.Week),
]


def fields(g):
    iy, w, wd = g.isocalendar()
    return dict(y=g.year, m=g.month, d=g.day, yy=g.year % 100,
                n=g.timetuple().tm_yday, iy=iy, iyy=iy % 100, iyd=iy % 10,
                w=w, wd=wd)


def period(fs):
    """an upper bound on the days between dates sharing the fields"""
    if fs[0] in ("y", "iy"):
        return 0
    if fs[0] in ("yy", "iyy"):
        return 37000
    if fs[0] == "iyd":
        return 3700
    if fs[0] == "wd":
        return 7
    if fs == ("d",):
        return 31
    return 366


def format_cases():
    return st.tuples(
        gens.date_tuple(2, 9800), st.integers(0, len(FORMATS) - 1),
        st.booleans(), st.one_of(st.integers(0, 40000),
                                 st.integers(0, 400), st.integers(0, 35),
                                 st.sampled_from([0, 1, 6, 7, 28, 29, 30, 31,
                                                  365, 366])))


def check_formats(case, c):
    (y, m, d), i, basic, back = case
    kind, fs, tb, te, trunc = FORMATS[i]
    g = datetime.date(y, m, d)
    x = mk(y, m, d)
    f = fields(g)
    s = (tb if basic else te).format(**f)
    get = {"cal": x.get_calendar_string, "ord": x.get_ordinal_string,
           "week": x.get_week_string}[kind]
    eq(get(basic=basic, truncation=trunc), s, "formatted", case)
    c.label(s.translate({ord(ch): "9" for ch in "0123456789"}))
    if trunc == iso.NoTruncation:
        eq(iso.Date.from_str(s).get_calendar_day(), x.get_calendar_day(),
           "parsed back", s)
        followed(s)
        c.nontrivial()
        return
    ok(raises(REFUSED, iso.Date.from_str, s) is not None,
       "truncated date accepted without a base", s)
    # base is the given number of days before, capped to the period over
    # which the truncated form is unambiguous
    lo = g.toordinal() - back
    if lo < 1:
        return
    base = datetime.date.fromordinal(lo)
    # oracle: the first date on or after base that has the same fields
    want = None
    if back == 0:
        want = g
    elif fs[0] in ("yy", "iyy"):
        # enough candidates, one per century
        want = first_match(base, fs, f, max(37100, back + 1))
    else:
        want = first_match(base, fs, f, max(
            back + 1, 3800 if fs[0] == "iyd" else 400))
    b = mk(base.year, base.month, base.day)
    try:
        r = iso.Date.from_str(s, b)
    except REFUSED:
        # the date one unit on may not exist (29th February, week 53, 31st)
        if want is None or exists_one_unit_on(base, fs, f):
            fail("truncated date with base refused", s, base, want)
        c.label("refused: no such date in the next unit")
        return
    c.nontrivial(back > 0)
    followed(s, b)
    if want is None:
        return
    eq(r.get_calendar_day(), (want.year // 100, want.year % 100, want.month,
                              want.day), "truncated date with base", s, base)


def first_match(base, fs, f, n):
    keys = [k for k in fs]
    o = base.toordinal()
    step_ok = fs[0] in ("yy", "iyy")
    if step_ok:
        # candidates by century
        for add in (0, 100, 200, 400, 500):
            for cand in candidates(base.year // 100 * 100 + add, fs, f):
                if cand >= base:
                    return cand
        return None
    while n and o <= MAXORD:
        g = datetime.date.fromordinal(o)
        ff = fields(g)
        if all(ff[k] == f[k] for k in keys):
            return g
        o += 1
        n -= 1
    return None


def candidates(cent, fs, f):
    try:
        if fs[0] == "yy":
            yr = cent + f["yy"]
            if "n" in fs:
                g = datetime.date(yr, 1, 1) + datetime.timedelta(f["n"] - 1)
                return [g] if g.year == yr else []
            return [datetime.date(yr, f["m"], f["d"])]
        yr = cent + f["iyy"]
        g = datetime.date.fromisocalendar(yr, f["w"], f["wd"])
        return [g]
    except (ValueError, OverflowError):
        return []


def exists_one_unit_on(base, fs, f):
    """False if the date in the base's own or the following unit (month,
    year, decade or century) does not exist, so refusal is legitimate"""
    rare = {("d",): f["d"] > 28}
    if fs == ("d",):
        return not f["d"] > 28
    if "n" in fs:
        return f["n"] != 366
    if "m" in fs:
        return not (f["m"] == 2 and f["d"] == 29)
    if "w" in fs:
        return f["w"] != 53
    return True


# -- impossible and malformed ----------------------------------------------

def reject_cases():
    n2 = st.integers(0, 99)
    cal = st.tuples(st.just("cal"), st.integers(0, 9999), st.one_of(
        n2, st.sampled_from([0, 1, 2, 12, 13])), st.one_of(
            n2, st.sampled_from([0, 1, 28, 29, 30, 31, 32])))
    ordn = st.tuples(st.just("ord"), st.integers(0, 9999), st.one_of(
        st.integers(0, 999), st.sampled_from([0, 1, 365, 366, 367])),
        st.just(0))
    week = st.tuples(st.just("week"), st.integers(0, 9999), st.one_of(
        n2, st.sampled_from([0, 1, 52, 53, 54])), st.integers(0, 9))
    return st.one_of(cal, ordn, week)


def check_impossible(case, c):
    kind, y, a, b = case
    c.label(kind)
    try:
        if y == 0:
            g = None
        elif kind == "cal":
            g = datetime.date(y, a, b)
        elif kind == "ord":
            g = datetime.date(y, 1, 1) + datetime.timedelta(a - 1)
            if g.year != y:
                g = None
        else:
            g = datetime.date.fromisocalendar(y, a, b)
            if not 2 <= g.year <= 9998:
                return
    except (ValueError, OverflowError):
        g = None
    strs = {"cal": ["%04d-%02d-%02d", "%04d%02d%02d"],
            "ord": ["%04d-%03d", "%04d%03d"],
            "week": ["%04d-W%02d-%d", "%04dW%02d%d"]}[kind]
    for s in strs:
        s = s % ((y, a) if kind == "ord" else (y, a, b))
        c.nontrivial()
        try:
            r = iso.Date.from_str(s)
        except REFUSED:
            r = None
        if g is None:
            c.label("impossible")
            ok(r is None, "impossible date accepted", s, r)
        else:
            ok(r is not None, "possible date refused", s)
            eq(r.get_calendar_day(), (g.year // 100, g.year % 100, g.month,
                                      g.day), "date parsed", s)
    kw = {"cal": dict(year=y % 100, month=a, day=b),
          "ord": dict(year=y % 100, ordinal_day=a),
          "week": dict(decade=y % 100 // 10, year=y % 10, week=a,
                       weekday=b)}[kind]
    try:
        r = iso.Date(century=y // 100, **kw)
    except REFUSED:
        r = None
    eq(r is None, g is None, "constructor agrees with the calendar", case, r)


def check_junk(s, c):
    """Arbitrary strings are refused with the documented errors or parsed;
    what is accepted must be a real date"""
    c.nontrivial(len(s) > 3)
    for base in (None, mk(1999, 12, 31)):
        try:
            d = iso.Date.from_str(s, base)
        except REFUSED:
            c.label("refused")
            continue
        c.label("accepted")
        ok(isinstance(d, iso.Date), "result is not a date", s, d)
        if d.complete():
            y, m, dd = d.century * 100 + d.year, d.month, d.day
            g = datetime.date(y, m, dd)
            eq(d.get_absolute_day(), g.toordinal(), "real date", s)
            eq(iso.Date.from_str(str(d)), d, "canonical form parses", s)
        if base is None:
            ok(WHOLE.match(s.rstrip()),
               "accepted without matching a complete form", s)


def junk():
    return st.one_of(
        st.text("0123456789-W", max_size=12),
        st.text("0123456789-W:T+Z.x \u0661", max_size=12),
        st.sampled_from(["", "-", "--", "---", "-W", "-W-", "W", "2000-W",
                         "2000-", "20-", "200", "2000-1", "2000-x", "-1x",
                         "-1-", "-1W", "--1"]))


PROPS = [
    Enum("boundaries", quick_boundary, check_calendar,
         thorough_cases=all_days,
         rule="dates at year, week-year and leap boundaries (thorough: every "
         "day of years 1-9999): all conversions against datetime.date; "
         "non-trivial: not 1 January"),
    Prop("calendar", gens.date_tuple(), check_calendar, quick=12000,
         rule="random dates, all conversions against datetime.date"),
    Prop("offset", offset_cases(), check_offset, quick=12000,
         rule="date plus days and weeks against ordinals, comparison and "
         "inverse; non-trivial: the offset is not zero"),
    Prop("reduced", low_cases(), check_low, quick=8000,
         rule="month, year and week precision offsets, formats and "
         "comparisons; non-trivial: the offset is not zero"),
    Prop("formats", format_cases(), check_formats, quick=6000,
         rule="the 12 complete and truncated representations, basic and "
         "extended, formatted and parsed back, the truncated ones against "
         "the first matching date on or after a base date"),
    Prop("impossible", reject_cases(), check_impossible, quick=10000,
         rule="component combinations in and out of range, as strings and "
         "as constructor arguments, accepted exactly when the date exists"),
    Prop("junk", junk(), check_junk, quick=10000,
         rule="arbitrary strings: only documented errors, accepted results "
         "are real dates; non-trivial: longer than 3 characters"),
]
