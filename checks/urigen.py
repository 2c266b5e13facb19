"""Generators for URI references, as component tuples."""
from hypothesis import strategies as st

ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGIT = "0123456789"
MARK = "-_.!~*'()"
UNRES = ALPHA + DIGIT + MARK
RES = ";/?:@&=+$,[]"


def escaped():
    return st.one_of(
        st.sampled_from(["%20", "%2F", "%2f", "%41", "%25", "%3A", "%00",
                         "%E9", "%e2%82%AC", "%7e", "%2E%2E", "%3F", "%23"]),
        st.integers(0, 255).map(lambda i: "%%%02X" % i),
        st.integers(0, 255).map(lambda i: "%%%02x" % i))


def chars(allowed, min_size=0, max_size=6):
    return st.lists(st.one_of(
        st.sampled_from(allowed), st.sampled_from("abXY01"), escaped()),
        min_size=min_size, max_size=max_size).map("".join)


PCHAR = UNRES + ":@&=+$,"
REGNAME = UNRES + "$,;:@&=+"


def schemes():
    return st.one_of(
        st.sampled_from(["http", "https", "file", "HTTP", "Https", "ftp",
                         "x-a+b.c", "a", "data"]),
        st.tuples(st.sampled_from(ALPHA), st.text(
            ALPHA + DIGIT + "+-.", max_size=5)).map("".join).filter(
                lambda s: s.lower() != "urn"))


def hosts():
    return st.one_of(
        st.sampled_from(["www.example.com", "WWW.Example.COM", "localhost",
                         "192.168.0.1", "[::1]", "[1080::8:800:200C:417A]",
                         "a-b.c", "x"]),
        st.text("abcXYZ019.-", min_size=1, max_size=8))


def ports():
    return st.one_of(st.none(), st.sampled_from(
        ["", "80", "443", "8080", "080", "0", "21"]),
        st.integers(0, 65535).map(str))


def servers():
    """(userinfo, host, port)"""
    return st.tuples(
        st.one_of(st.none(), st.none(), chars(UNRES + ";:&=+$,")),
        hosts(), ports())


def server_str(s):
    u, h, p = s
    return ("" if u is None else u + "@") + h + (
        "" if p is None else ":" + p)


def segments():
    return st.one_of(
        chars(PCHAR + ";", max_size=5),
        st.sampled_from(["a", "b", "c", "d", "", ".", "..", "...", ".a",
                         "a.", "..a", "x:y", "a;p=1"]))


def seglists(min_size=0, max_size=6):
    return st.lists(segments(), min_size=min_size, max_size=max_size)


def abs_paths():
    """Absolute path that does not start with two slashes"""
    def fix(segs):
        p = "/" + "/".join(segs)
        while p.startswith("//"):
            p = p[1:]
        return p
    return seglists(max_size=5).map(fix)


def rel_paths():
    """First segment non-empty and free of ':'"""
    def fix(segs):
        first = segs[0].replace(":", "_") or "r"
        return "/".join([first] + segs[1:])
    return seglists(1, 5).map(fix)


def query():
    return st.one_of(st.none(), st.none(), chars(UNRES + RES))


def fragment():
    return query()


def comps_str(cp):
    scheme, auth, path, q, f = cp
    return ("" if scheme is None else scheme + ":") + \
        ("" if auth is None else "//" + auth) + (path or "") + \
        ("" if q is None else "?" + q) + ("" if f is None else "#" + f)
