"""Generators shared by several checks.  All produce plain literal data."""
import string
import struct

from hypothesis import strategies as st

# characters allowed by XML 1.0's Char production, minus none
_SURR = st.characters(min_codepoint=0x20, max_codepoint=0x10FFFF,
                      exclude_categories=("Cs",),
                      exclude_characters="\ufffe\uffff")
NASTY = st.sampled_from(list("'\"&<>%+;/?:@=,#[]{}()|\\^`~ \t\n\r!$*-_.") + [
    "\u00e9", "\u4e2d", "\U0001D11E", "\u0301", "''", "]]>", "%27", "%2F",
    "&amp;", "--", "\u00a0", "\u2028", "\x85", "\u20ac"])
ALNUM = st.sampled_from(list(string.ascii_letters + string.digits))


def text(max_size=12, xml=False, exclude=""):
    chars = st.one_of(ALNUM, NASTY, _SURR)
    if exclude:
        chars = chars.filter(lambda s: not any(c in exclude for c in s))
    return st.lists(chars, max_size=max_size).map("".join)


def xml_text(max_size=12):
    """only characters legal in XML 1.0"""
    return text(max_size)


def any_text(max_size=12):
    """any unicode scalar values including control characters"""
    return st.one_of(text(max_size), st.text(
        st.characters(exclude_categories=("Cs",)), max_size=max_size))


def float32(x):
    return struct.unpack("<f", struct.pack("<f", x))[0]


def edge_ints(lo, hi):
    edges = sorted(set(v for v in (
        lo, lo + 1, -1, 0, 1, hi - 1, hi, lo // 2, hi // 2, 10, 99, 100, -10)
        if lo <= v <= hi))
    return st.one_of(st.sampled_from(edges), st.integers(lo, hi))


def date_tuple(min_year=1, max_year=9999):
    """(y, m, d) biased to month and year ends and leap days"""
    def fix(t):
        y, m, d = t
        import calendar
        n = calendar.monthrange(y, m)[1] if y > 0 else 28
        return (y, m, min(d, n))
    years = st.one_of(
        st.integers(min_year, max_year),
        st.sampled_from([y for y in (
            1, 4, 99, 100, 400, 1582, 1600, 1700, 1752, 1899, 1900, 1904,
            1969, 1970, 1972, 1999, 2000, 2001, 2004, 2038, 2100, 2400, 9999)
            if min_year <= y <= max_year]))
    return st.tuples(years, st.integers(1, 12), st.one_of(
        st.integers(1, 31), st.sampled_from([1, 28, 29, 30, 31]))).map(fix)


def time_tuple(ndp=0):
    """(h, m, s, k) with k an integer fraction in units of 10**-ndp"""
    return st.tuples(
        st.one_of(st.integers(0, 23), st.sampled_from([0, 23, 12])),
        st.one_of(st.integers(0, 59), st.sampled_from([0, 59])),
        st.one_of(st.integers(0, 59), st.sampled_from([0, 59])),
        st.one_of(st.integers(0, 10 ** ndp - 1), st.just(0),
                  st.just(10 ** ndp - 1)))
