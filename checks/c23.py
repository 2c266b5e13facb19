"""C23: ISO 8601 times, time points and durations.

Oracle: integer arithmetic on (day ordinal, second of day, fraction) written
here, with datetime.date for the calendar."""
import datetime
import re

from hypothesis import strategies as st

from pyslet import iso8601 as iso

from vlib import Prop, eq, ok, fail, raises
from . import gens

PROPERTY = "C23"
ASSUMPTIONS = ["fractions are held as floats: they are generated with at "
               "most 7 decimal places and compared to 1e-9 s"]
REFUSED = (iso.DateTimeError, ValueError)


def followed(f, s, *args):
    """Text that is followed by anything else is malformed"""
    for tail in ("x", " x", "-", "\n-"):
        ok(raises(REFUSED, f, s + tail, *args) is not None,
           "followed by other text accepted", s + tail)
MAXORD = datetime.date.max.toordinal()
P = iso.Precision
T = iso.Truncation
NDPS = (0, 1, 2, 3, 6, 7)


def zones(none=True):
    z = st.one_of(st.just(0), st.integers(-1439, 1439), st.sampled_from(
        [-720, 60, 330, 345, -30, 30, -1439, 1439, 1, -1, 840]))
    z = st.tuples(z, st.booleans())
    return st.one_of(st.none(), z) if none else z


def zkw(z):
    """zone keyword arguments; the flag picks an explicit +00:00"""
    if z is None:
        return {}
    off, flag = z
    if off == 0 and not flag:
        return dict(zdirection=0)
    d = 1 if off >= 0 else -1
    return dict(zdirection=d, zhour=abs(off) // 60, zminute=abs(off) % 60)


def zstr(z, basic, hours_only):
    if z is None:
        return ""
    off, flag = z
    if off == 0 and not flag:
        return "Z"
    sg = "+" if off >= 0 else "-"
    h, m = divmod(abs(off), 60)
    if hours_only and not m:
        return "%s%02d" % (sg, h)
    return "%s%02d%s%02d" % (sg, h, "" if basic else ":", m)


def num(n, k, ndp):
    return n if not ndp else float("%d.%0*d" % (n, ndp, k))


def mktime(prec, h, m, s, k, ndp, z=None):
    kw = zkw(z)
    if prec == "h":
        return iso.Time(hour=num(h, k, ndp), **kw)
    if prec == "m":
        return iso.Time(hour=h, minute=num(m, k, ndp), **kw)
    return iso.Time(hour=h, minute=m, second=num(s, k, ndp), **kw)


def mkdate(t):
    y, m, d = t
    return iso.Date(century=y // 100, year=y % 100, month=m, day=d)


def close(a, b, tol=1e-9):
    return abs(a - b) <= tol


def fields_eq(t, h, m, s, what, *args, **kw):
    tol = kw.get("tol", 1e-9)
    for got, want in zip(t.get_time(), (h, m, s)):
        if got is None or want is None:
            eq(got, want, what, *args)
        else:
            ok(close(got, want, tol), what, t.get_time(), (h, m, s), *args)


def tp_fields(min_year=1, max_year=9999):
    return st.sampled_from(NDPS).flatmap(lambda n: st.tuples(
        gens.date_tuple(min_year, max_year), gens.time_tuple(n),
        st.just(n)))


# -- representations ---------------------------------------------------------

def rep_cases():
    return st.tuples(st.sampled_from("hms"), st.sampled_from(NDPS).flatmap(
        lambda n: st.tuples(gens.time_tuple(n), st.just(n))), zones(),
        st.booleans(), st.sampled_from(",."), st.booleans(),
        st.sampled_from(["cal", "ord", "week"]), gens.date_tuple(2, 9998))


def check_rep(case, c):
    prec, ((h, m, s, k), ndp), z, basic, dp, zh, form, dt = case
    t = mktime(prec, h, m, s, k, ndp, z)
    sep = "" if basic else ":"
    stem = "%02d" % h
    if prec in "ms":
        stem += sep + "%02d" % m
    if prec == "s":
        stem += sep + "%02d" % s
    if ndp:
        stem += dp + "%0*d" % (ndp, k)
    exp = stem + zstr(z, basic, zh)
    got = t.get_string(basic=basic, ndp=ndp, dp=dp,
                       zone_precision=P.Hour if zh else P.Complete)
    eq(got, exp, "formatted time", case)
    c.label(prec, "ndp%d" % ndp)
    c.nontrivial(ndp > 0 or z is not None)
    r = iso.Time.from_str(got)
    followed(iso.Time.from_str, got)
    followed(iso.Time.from_string_format, got)
    fields_eq(r, *t.get_time(), "parsed time", got)
    eq(r.get_zone_offset(), None if z is None else z[0], "parsed zone", got)
    eq(r.get_canonical_zone(), t.get_canonical_zone(), "canonical zone")
    eq(r.get_precision(), t.get_precision(), "precision", got)
    eq(t.complete(), prec == "s", "complete")
    if ndp == 0:
        ok(r == t and hash(r) == hash(t), "parsed time is equal", got)
    # more decimal places than there are lose nothing, fewer truncate
    if ndp:
        more = iso.Time.from_str(t.get_string(ndp=ndp + 2, dp=dp))
        fields_eq(more, *t.get_time(), "extra decimal places", case)
        less = t.get_string(basic=basic, ndp=ndp - 1, dp=dp)
        exp2 = exp[:len(stem)]
        if ndp == 1:
            exp2 = stem[:-2]
        else:
            exp2 = stem[:-1]
        eq(less, exp2 + zstr(z, basic, False), "truncated decimal places",
           case)
    # in a time point
    d = mkdate(dt)
    tp = iso.TimePoint(date=d, time=t)
    f = {"cal": tp.get_calendar_string, "ord": tp.get_ordinal_string,
         "week": tp.get_week_string}[form]
    fd = {"cal": d.get_calendar_string, "ord": d.get_ordinal_string,
          "week": d.get_week_string}[form]
    text = f(basic=basic, ndp=ndp, dp=dp,
             zone_precision=P.Hour if zh else P.Complete)
    eq(text, fd(basic=basic) + "T" + exp, "formatted time point", case)
    r = iso.TimePoint.from_str(text)
    followed(iso.TimePoint.from_str, text)
    followed(iso.TimePoint.from_string_format, text)
    eq(r.date.get_calendar_day(), d.get_calendar_day(), "time point date",
       text)
    fields_eq(r.time, *t.get_time(), "time point time", text)
    eq(r.time.get_zone_offset(), None if z is None else z[0],
       "time point zone", text)
    # (whole hours with a part-hour zone can't be ordered: refused)
    if ndp == 0 and (prec != "h" or z is None or z[0] % 60 == 0):
        ok(r == tp and hash(r) == hash(tp), "time points equal", text)
    # mixing basic and extended forms is refused
    if prec != "h" or (z is not None and ("+" in exp or "-" in exp) and
                       not zh):
        other = fd(basic=not basic) + "T" + exp
        ok(raises(REFUSED, iso.TimePoint.from_str, other) is not None,
           "mixed basic and extended forms accepted", other)


# -- truncated times ---------------------------------------------------------

def trunc_cases():
    return st.tuples(st.sampled_from(["-mmss", "-mm", "--ss"]),
                     gens.time_tuple(0), gens.time_tuple(0), st.booleans(),
                     zones())


def check_trunc(case, c):
    form, (bh, bm, bs, _), (h, m, s, _), basic, z = case
    base = mktime("s", bh, bm, bs, 0, 0, z)
    t = mktime("s", h, m, s, 0, 0)
    if form == "-mmss":
        text = t.get_string(basic=basic, truncation=T.Hour)
        eq(text, "-%02d%s%02d" % (m, "" if basic else ":", s), "truncated")
        sod = m * 60 + s
        period = 3600
    elif form == "--ss":
        text = t.get_string(basic=basic, truncation=T.Minute)
        eq(text, "--%02d" % s, "truncated")
        sod = s
        period = 60
    else:
        text = mktime("m", h, m, 0, 0, 0).get_string(truncation=T.Hour)
        eq(text, "-%02d" % m, "truncated")
        sod = m
        period = 60
    c.label(form)
    ok(raises(REFUSED, iso.Time.from_str, text) is not None,
       "truncated time accepted with no base", text)
    r, overflow, f = iso.Time.from_string_format(text, base)
    if form == "-mm":
        b = bh * 60 + bm
        n = b + (sod - b) % period
        days, n = divmod(n, 1440)
        want = (n // 60, n % 60, None)
    else:
        b = bh * 3600 + bm * 60 + bs
        n = b + (sod - b) % period
        days, n = divmod(n, 86400)
        want = (n // 3600, n // 60 % 60, n % 60)
    c.nontrivial(sod != b % period)
    eq(r.get_time(), want, "earliest time on or after base", text, base)
    eq(overflow, days, "overflow", text, base)
    eq(r.get_zone_offset(), None if z is None else z[0], "zone from base")


# -- zones, comparison, offsets ---------------------------------------------

def zone_cases():
    return st.tuples(tp_fields(), zones(False), zones(False), tp_fields(),
                     zones(False), st.sampled_from("hms"))


def instant(d, t, ndp, z):
    """(seconds since ordinal 0 in UTC, fraction in 1e-7)"""
    h, m, s, k = t
    o = datetime.date(*d).toordinal()
    return ((o * 86400 + h * 3600 + m * 60 + s - z * 60) * 10 ** 7 +
            k * 10 ** (7 - ndp))


def check_zone(case, c):
    (d, t, ndp), z, z2, (d3, t3, ndp3), z3, prec = case
    h, m, s, k = t
    x = iso.TimePoint(date=mkdate(d), time=mktime("s", h, m, s, k, ndp, z))
    n = instant(d, t, ndp, z[0])
    # shifting denotes the same instant
    loc = n + z2[0] * 60 * 10 ** 7
    o, sod = divmod(loc, 86400 * 10 ** 7)
    c.nontrivial(z[0] != z2[0])
    kw = zkw(z2)
    if 1 <= o <= MAXORD:
        y = x.shift_zone(**kw)
        g = datetime.date.fromordinal(o)
        eq(y.date.get_calendar_day(), (g.year // 100, g.year % 100, g.month,
                                       g.day), "shifted date", case)
        fields_eq(y.time, sod // (3600 * 10 ** 7),
                  sod // (60 * 10 ** 7) % 60, sod % (60 * 10 ** 7) / 1e7,
                  "shifted time", case)
        eq(y.time.get_zone_offset(), z2[0], "shifted zone", case)
        t2, over = x.time.shift_zone(**kw)
        eq(over, o - datetime.date(*d).toordinal(), "overflow", case)
        in_range = (1 <= n // (86400 * 10 ** 7) <= MAXORD)
        if in_range:
            ok(x == y and hash(x) == hash(y) and not x < y and not x > y,
               "shifted time point is equal", case)
            u = x.get_unixtime()
            un = n // 10 ** 7 - 719163 * 86400 + (n % 10 ** 7) / 1e7
            ok(close(u, un, 1e-4 if ndp else 0),
               "unix time", u, case)
            ok(close(u, y.get_unixtime(), 1e-4 if ndp else 0),
               "unix time of shifted", case)
    else:
        c.label("out of range")
        ok(raises(REFUSED, x.shift_zone, **kw) is not None,
           "shift outside years 1-9999 accepted", case)
    # comparison by instant
    w = iso.TimePoint(date=mkdate(d3),
                      time=mktime("s", t3[0], t3[1], t3[2], t3[3], ndp3, z3))
    n3 = instant(d3, t3, ndp3, z3[0])
    lim = 86400 * 10 ** 7
    if 1 <= n // lim <= MAXORD and 1 <= n3 // lim <= MAXORD:
        eq((x < w, x <= w, x == w, x != w, x > w, x >= w),
           (n < n3, n <= n3, n == n3, n != n3, n > n3, n >= n3),
           "comparison by instant", case)
    # reduced precision times shift by their minutes
    if prec != "s":
        p = mktime(prec, h, m, 0, k, ndp, z)
        unit = 60 if prec == "h" else 1
        q = ((h * 60 if prec == "h" else h * 60 + m) * 10 ** ndp +
             k * unit)
        shift = z2[0] - z[0]
        if prec == "h" and shift % 60:
            ok(raises(REFUSED, p.shift_zone, **kw) is not None,
               "part hour shift of an hour precision time", case)
            return
        q += shift * 10 ** ndp
        over, q = divmod(q, 1440 * 10 ** ndp)
        r, got = p.shift_zone(**kw)
        eq(got, over, "overflow at reduced precision", case)
        hh, mm, ss = r.get_time()
        eq(r.get_precision(), p.get_precision(), "precision kept")
        mins = hh * 60 + (mm or 0)
        ok(close(mins, q / float(10 ** ndp), 1e-6), "time at reduced "
           "precision", r.get_time(), q, case)


def compare_cases():
    near = st.tuples(tp_fields(), st.integers(-2, 2), st.sampled_from(
        [1, 60, 3600, 86400]), zones(False), zones(False))
    return near


def check_compare(case, c):
    """Time points a few units apart, across carries and zones"""
    (d, t, ndp), n, unit, z1, z2 = case
    base = instant(d, t[:3] + (0,), 0, z1[0]) // 10 ** 7
    other = base + n * unit + z2[0] * 60
    o, sod = divmod(other, 86400)
    lim = 2 * 86400
    if not (lim < base < (MAXORD - 2) * 86400 and 3 <= o <= MAXORD - 3):
        return
    c.nontrivial(n != 0)
    g = datetime.date.fromordinal(o)
    a = iso.TimePoint(date=mkdate(d), time=mktime(
        "s", t[0], t[1], t[2], 0, 0, z1))
    b = iso.TimePoint(date=mkdate((g.year, g.month, g.day)), time=mktime(
        "s", sod // 3600, sod // 60 % 60, sod % 60, 0, 0, z2))
    k = n * unit
    eq((a < b, a <= b, a == b, a != b, a > b, a >= b),
       (k > 0, k >= 0, k == 0, k != 0, k < 0, k <= 0), "comparison", a, b)
    if k == 0:
        eq(hash(a), hash(b), "equal time points hash alike", a, b)
    # 24:00 is midnight at the start of the next day
    e = iso.TimePoint(date=mkdate(d), time=iso.Time(
        hour=24, minute=0, second=0, **zkw(z1)))
    f = iso.TimePoint(date=mkdate(d).offset(days=1), time=iso.Time(
        hour=0, minute=0, second=0, **zkw(z1)))
    ok(e == f and hash(e) == hash(f), "24:00 equals 00:00 next day", e, f)
    ok(a < e, "any time is before 24:00 of the same day", a, e)
    # with and without zone do not compare
    nz = a.with_zone(None)
    ok(not (nz == a), "zoned and unzoned time points are not equal")
    ok(raises(TypeError, lambda: nz < a) is not None,
       "zoned and unzoned time points do not compare")


def offset_cases():
    n = st.one_of(st.integers(-200, 200), st.integers(-10 ** 6, 10 ** 6))
    sec = st.one_of(
        n.map(lambda i: (i, 0)), n.map(lambda i: (i, 3)),
        st.integers(-10 ** 9, 10 ** 9).map(lambda i: (i, 3)))
    return st.tuples(st.sampled_from(NDPS[:4]).flatmap(lambda n: st.tuples(
        gens.time_tuple(n), st.just(n))), st.one_of(st.just(0), n),
        st.one_of(st.just(0), n), sec, zones(), st.sampled_from("hms"))


def check_offset(case, c):
    ((h, m, s, k), ndp), dh, dm, (ds, sdp), z, prec = case
    c.label(prec)
    t = mktime(prec, h, m, s, k, ndp, z)
    sec = ds if not sdp else ds / 1000.0
    if prec == "s":
        total = ((h * 3600 + m * 60 + s) * 1000 + k * 10 ** (3 - ndp) +
                 (dh * 3600 + dm * 60) * 1000 +
                 (ds if sdp else ds * 1000))
        days, total = divmod(total, 86400000)
        want = (total // 3600000, total // 60000 % 60,
                total % 60000 / 1000.0)
        r, over = t.offset(hours=dh, minutes=dm, seconds=sec)
    elif prec == "m":
        total = ((h * 60 + m + dh * 60 + dm) * 1000 + k * 10 ** (3 - ndp))
        days, total = divmod(total, 1440000)
        want = (total // 60000, total % 60000 / 1000.0, None)
        r, over = t.offset(hours=dh, minutes=dm)
    else:
        total = (h + dh) * 1000 + k * 10 ** (3 - ndp)
        days, total = divmod(total, 24000)
        want = (total / 1000.0, None, None)
        r, over = t.offset(hours=dh)
    c.nontrivial(days != 0 or (dm and prec != "h"))
    eq(over, days, "overflow in days", case)
    got = r.get_time()
    if want[2] is not None:
        a = got[0] * 3600 + got[1] * 60 + got[2]
        b = want[0] * 3600 + want[1] * 60 + want[2]
    elif want[1] is not None:
        a, b = got[0] * 60 + got[1], want[0] * 60 + want[1]
        eq(got[2], None, "precision kept")
    else:
        a, b = got[0], want[0]
        eq(got[1:], (None, None), "precision kept")
    ok(close(a, b, 1e-6), "elapsed time", got, want, case)
    eq(r.get_zone_offset(), None if z is None else z[0], "zone kept")


def unix_cases():
    return st.one_of(
        st.integers(-62135596800, 253402300799).map(lambda i: (i, 0)),
        st.integers(-10 ** 6, 2 * 10 ** 9).map(lambda i: (i, 0)),
        st.tuples(st.integers(-10 ** 9, 4 * 10 ** 9), st.integers(0, 999)))


def check_unix(case, c):
    n, ms = case
    x = n if not ms else n + ms / 1000.0
    c.nontrivial(n != 0)
    tp = iso.TimePoint.from_unix_time(x)
    days, sod = divmod(n, 86400)
    g = datetime.date.fromordinal(719163 + days)
    eq(tp.date.get_calendar_day(), (g.year // 100, g.year % 100, g.month,
                                    g.day), "date of unix time", case)
    fields_eq(tp.time, sod // 3600, sod // 60 % 60, sod % 60 + ms / 1000.0,
              "time of unix time", case, tol=1e-5)
    eq(tp.time.get_zone_offset(), 0, "UTC")
    ok(close(tp.get_unixtime(), x, 1e-5), "unix time round trip", case)
    tt = [g.year, g.month, g.day, sod // 3600, sod // 60 % 60, sod % 60,
          g.weekday(), g.timetuple().tm_yday, -1]
    t = [0] * 9
    base = iso.TimePoint.from_struct_time(tt)
    base.update_struct_time(t)
    eq(t, tt, "struct_time round trip", case)
    ok(base.with_zone(zdirection=0) == iso.TimePoint.from_unix_time(n),
       "from_struct_time", case)
    # total seconds
    t = iso.Time(total_seconds=sod)
    eq(t.get_time(), (sod // 3600, sod // 60 % 60, sod % 60),
       "total_seconds", sod)
    eq(t.get_total_seconds(), sod, "get_total_seconds")
    ok(raises(REFUSED, lambda: iso.Time(total_seconds=sod + 86400))
       is not None, "total seconds overflow", sod)


def check_precision(case, c):
    ((h, m, s, k), ndp), prec, target, trunc, z = case
    t = mktime(prec, h, m, s, k, ndp, z)
    pc = {"h": P.Hour, "m": P.Minute, "s": P.Complete}[target]
    r = t.with_precision(pc, trunc)
    eq(r.get_precision(), pc, "precision")
    eq(r.get_zone_offset(), t.get_zone_offset(), "zone kept")
    c.nontrivial(prec != target or trunc)
    f = k / float(10 ** ndp)
    secs = {"h": (h + f) * 3600, "m": h * 3600 + (m + f) * 60,
            "s": h * 3600 + m * 60 + s + f}[prec]

    def total(x):
        a, b, d = x.get_time()
        return a * 3600 + (b or 0) * 60 + (d or 0)
    if trunc:
        unit = {"h": 3600, "m": 60, "s": 1}[target]
        lo = int((secs + 1e-6) // unit) * unit
        lo2 = int((secs - 1e-6) // unit) * unit
        ok(total(r) in (lo, lo2), "truncated to whole units", r.get_time(),
           case)
        ok(all(x is None or x == int(x) for x in r.get_time()),
           "integer components", r.get_time())
    else:
        ok(close(total(r), secs, 1e-5), "precision change keeps the time",
           r.get_time(), secs, case)


# -- malformed and impossible ------------------------------------------------

def impossible_cases():
    n = st.one_of(st.integers(0, 99), st.sampled_from(
        [0, 23, 24, 25, 59, 60, 61]))
    return st.tuples(st.one_of(n, st.integers(0, 25)), n, n, st.one_of(
        st.none(), st.tuples(st.sampled_from("+-"), st.one_of(
            n, st.integers(0, 25)), n)), st.booleans())


def check_impossible(case, c):
    h, m, s, z, basic = case
    good = h <= 23 and m <= 59 and s <= 60 or (h, m, s) == (24, 0, 0)
    if z is not None:
        good = good and z[1] <= 23 and z[2] <= 59
    sep = "" if basic else ":"
    text = "%02d%s%02d%s%02d" % (h, sep, m, sep, s)
    if z:
        text += "%s%02d%s%02d" % (z[0], z[1], sep, z[2])
    c.label("good" if good else "bad")
    c.nontrivial()
    e = raises(REFUSED, iso.Time.from_str, text)
    eq(e is None, good, "time accepted exactly when it exists", text, e)
    dt = ("20000101T" if basic else "2000-01-01T") + text
    e = raises(REFUSED, iso.TimePoint.from_str, dt)
    eq(e is None, good, "time point accepted exactly when it exists", dt, e)
    kw = {}
    if z:
        kw = dict(zdirection=1 if z[0] == "+" else -1, zhour=z[1],
                  zminute=z[2])
    e = raises(REFUSED, lambda: iso.Time(hour=h, minute=m, second=s, **kw))
    eq(e is None, good, "constructor accepts exactly what exists", case, e)


def junk():
    stems = st.sampled_from(["", "2000-01-01T", "20000101T", "2000-001T",
                             "P", "PT", "P1Y", "20:17", "2017", "20:17:40",
                             "20:17:40+", "20:17:40Z", "-", "--", "T"])
    return st.one_of(
        st.tuples(stems, st.text("0123456789:.,+-ZTW", max_size=8)).map(
            "".join),
        st.tuples(stems, st.text("0123456789PYMDTHSW.,:+ x", max_size=8)
                  ).map("".join))


def check_junk(s, c):
    c.nontrivial(len(s) > 2)
    base = iso.Time(hour=20, minute=17, second=40)
    for name, f in (("time", lambda: iso.Time.from_str(s)),
                    ("based", lambda: iso.Time.from_str(s, base)),
                    ("point", lambda: iso.TimePoint.from_str(s)),
                    ("duration", lambda: iso.Duration(s))):
        try:
            r = f()
        except REFUSED:
            continue
        c.label(name)
        if name in ("time", "based"):
            h, m, sec = r.get_time()
            ok(0 <= h <= 24 and (m is None or 0 <= m < 60) and
               (sec is None or 0 <= sec < 61), "accepted time exists", s, r)
        elif name == "point":
            y, mo, d = (r.date.century * 100 + r.date.year, r.date.month,
                        r.date.day)
            datetime.date(y, mo, d)
        elif r.weeks is None:
            ok(re.match(r"P([0-9]|T[0-9])", s), "duration accepted", s)


# -- durations -------------------------------------------------------------

def duration_cases():
    n = st.one_of(st.integers(0, 99), st.integers(0, 10 ** 6))
    return st.tuples(st.tuples(n, n, n, n, n, n), st.integers(0, 6),
                     st.integers(1, 63), st.sampled_from(
                         [0, 1, 2, 3, 6]).flatmap(lambda d: st.tuples(
                             st.integers(0, 10 ** d - 1), st.just(d))),
                     st.booleans())


def check_duration(case, c):
    vals, _, mask, (k, ndp), trunc = case
    # a mask of the components that are written
    last = max(i for i in range(6) if mask >> i & 1)
    if ndp:
        # fractions are floats: keep the values to which they are added small
        vals = vals[:last] + (vals[last] % 100, ) + vals[last + 1:]
    parts = [v if mask >> i & 1 else None for i, v in enumerate(vals)]
    text = "P"
    for i, v in enumerate(parts):
        if i == 3 and any(x is not None for x in parts[3:]):
            text += "T"
        if v is None:
            continue
        text += str(v)
        if i == last and ndp:
            text += ",%0*d" % (ndp, k)
        text += "YMDHMS"[i]
    c.nontrivial()
    d = iso.Duration(text)
    followed(iso.Duration, text)
    want = [0 if p is None else p for p in parts[:last + 1]] + \
        [None] * (5 - last)
    if ndp:
        want[last] = float("%d.%0*d" % (parts[last], ndp, k))
    got = d.get_calender_duration()
    for g, w in zip(got, want):
        if w is None or g is None:
            eq(g, w, "duration component", text)
        else:
            ok(close(g, w, 1e-6), "duration component", got, want, text)
    out = d.get_string(trunc, ndp)
    e = iso.Duration(out)
    for g, w in zip(e.get_calender_duration(), want):
        if w is None or g is None:
            eq(g, w, "duration round trip", text, out)
        else:
            ok(close(g, w, 1e-6), "duration round trip", text, out)
    if not ndp:
        ok(e == d and iso.Duration(d) == d, "durations equal", text, out)
        z = iso.Duration(d)
        for a in ("years", "months", "days", "hours", "minutes", "seconds"):
            v = getattr(z, a)
            if v is not None:
                setattr(z, a, v + 1)
                ok(not (z == d), "different durations are not equal", a)
                setattr(z, a, v)


PROPS = [
    Prop("representations", rep_cases(), check_rep, quick=5000,
         rule="times and time points formatted (basic/extended, calendar/"
         "ordinal/week, 0-7 decimal places, zones) against an independent "
         "template and parsed back; non-trivial: has a fraction or zone"),
    Prop("truncated", trunc_cases(), check_trunc, quick=4000,
         rule="truncated times extended from a base, against modular "
         "arithmetic; non-trivial: differs from the base"),
    Prop("zones", zone_cases(), check_zone, quick=5000,
         rule="zone shifts and comparisons against integer instants; "
         "non-trivial: the zones differ"),
    Prop("compare", compare_cases(), check_compare, quick=4000,
         rule="time points a few units apart in two zones, 24:00"),
    Prop("offset", offset_cases(), check_offset, quick=5000,
         rule="offsets of hours, minutes, seconds against integer "
         "arithmetic; non-trivial: carries into days or minutes"),
    Prop("unix", unix_cases(), check_unix, quick=5000,
         rule="unix, struct_time and total-second conversions"),
    Prop("precision", st.tuples(
        st.sampled_from(NDPS[:4]).flatmap(lambda n: st.tuples(
            gens.time_tuple(n), st.just(n))), st.sampled_from("hms"),
        st.sampled_from("hms"), st.booleans(), zones()), check_precision,
        quick=5000, rule="change of precision, truncating or not"),
    Prop("impossible", impossible_cases(), check_impossible, quick=4000,
         rule="components in and out of range, strings and constructors"),
    Prop("junk", junk(), check_junk, quick=5000,
         rule="arbitrary strings raise only documented errors"),
    Prop("duration", duration_cases(), check_duration, quick=4000,
         rule="durations with any subset of components, the last one "
         "possibly fractional, parsed, formatted, parsed"),
]
