"""C31: cookies are returned only where RFC 6265 allows.

Reference: an independent transcription of RFC 6265 sections 5.1 (dates,
domain and path matching), 5.2 (Set-Cookie parsing), 5.3 (storage) and
5.4 (retrieval), plus the public suffix algorithm of publicsuffix.org.
"""
import datetime
import types

from hypothesis import strategies as st

from vlib import Prop, Discard, eq, ok, fail, Violation

import pyslet.iso8601 as iso
import pyslet.rfc2396 as uri
from pyslet.http import cookie, messages, params


# ---------------------------------------------------------------- reference

WSP = b" \t"

MONTHS = [b"jan", b"feb", b"mar", b"apr", b"may", b"jun", b"jul", b"aug",
          b"sep", b"oct", b"nov", b"dec"]

DELIMS = set([9] + list(range(0x20, 0x30)) + list(range(0x3B, 0x41)) +
             list(range(0x5B, 0x61)) + list(range(0x7B, 0x7F)))


def lead_digits(s):
    n = 0
    while n < len(s) and 48 <= s[n] <= 57:
        n += 1
    return n


def ref_time(tok):
    parts = []
    for i in range(3):
        n = lead_digits(tok)
        if not 1 <= n <= 2:
            return None
        parts.append(int(tok[:n]))
        tok = tok[n:]
        if i < 2:
            if tok[:1] != b":":
                return None
            tok = tok[1:]
    return tuple(parts)


def ref_date(s):
    """Section 5.1.1: seconds since the epoch or None"""
    tokens, cur = [], []
    for b in s:
        if b in DELIMS:
            if cur:
                tokens.append(bytes(cur))
            cur = []
        else:
            cur.append(b)
    if cur:
        tokens.append(bytes(cur))
    time = dom = month = year = None
    for tok in tokens:
        if time is None:
            time = ref_time(tok)
            if time is not None:
                continue
        n = lead_digits(tok)
        if dom is None and 1 <= n <= 2:
            dom = int(tok[:n])
            continue
        if month is None and tok[:3].lower() in MONTHS:
            month = MONTHS.index(tok[:3].lower()) + 1
            continue
        if year is None and 2 <= n <= 4:
            year = int(tok[:n])
            continue
    if time is None or dom is None or month is None or year is None:
        return None
    if 70 <= year <= 99:
        year += 1900
    elif 0 <= year <= 69:
        year += 2000
    if not 1 <= dom <= 31 or year < 1601 or time[0] > 23 or \
            time[1] > 59 or time[2] > 59:
        return None
    try:
        d = datetime.datetime(year, month, dom, *time)
    except ValueError:
        return None
    return (d - datetime.datetime(1970, 1, 1)) // datetime.timedelta(
        seconds=1)


def text(b):
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return b.decode("iso-8859-1")


def ref_set_cookie(s):
    """Section 5.2: a dictionary or None (ignored)"""
    nv, sep, attrs = s.partition(b";")
    if b"=" not in nv:
        return None
    name, _, value = nv.partition(b"=")
    name, value = name.strip(WSP), value.strip(WSP)
    if not name:
        return None
    c = dict(name=name, value=value, expires=None, max_age=None,
             domain=None, path=None, secure=False, http_only=False)
    if not sep:
        return c
    for av in attrs.split(b";"):
        n, _, v = av.partition(b"=")
        n, v = n.strip(WSP).lower(), v.strip(WSP)
        if n == b"expires":
            t = ref_date(v)
            if t is not None:
                c["expires"] = t
        elif n == b"max-age":
            d = v[1:] if v[:1] == b"-" else v
            if v == b"-":
                # undefined by RFC 6265: a delta of "" - pyslet takes 0
                c["max_age"] = 0
            elif d and lead_digits(d) == len(d):
                c["max_age"] = int(v)
        elif n == b"domain":
            if v:
                c["domain"] = text((v[1:] if v[:1] == b"." else v).lower())
        elif n == b"path":
            c["path"] = text(v) if v[:1] == b"/" else None
        elif n == b"secure":
            c["secure"] = True
        elif n == b"httponly":
            c["http_only"] = True
    return c


def is_ip(host):
    parts = host.split(".")
    return len(parts) == 4 and all(p.isdigit() for p in parts) or \
        host.startswith("[")


class RefStore(object):

    def __init__(self, suffixes):
        self.suffixes = suffixes
        self.cookies = []

    def set(self, host, path, secure, http, attrs, now):
        """Section 5.3, returns False if ignored"""
        self.expire(now)
        host = host.lower()
        expires = None
        if attrs["max_age"] is not None:
            expires = now + attrs["max_age"] if attrs["max_age"] > 0 else \
                -1e99
        elif attrs["expires"] is not None:
            expires = attrs["expires"]
        domain = attrs["domain"] or None
        if domain is not None and domain.endswith("."):
            # not a valid domain, the attribute is ignored (section 4.1.2.3)
            domain = None
        if domain is not None and self.suffixes.public(domain) and \
                not is_ip(domain):
            if domain == host:
                domain = None
            else:
                return False
        hostonly = domain is None
        if domain is not None:
            if not (domain == host or (
                    host.endswith("." + domain) and not is_ip(host))):
                return False
        else:
            domain = host
        if attrs["http_only"] and not http:
            return False
        cpath = attrs["path"]
        if cpath is None:
            if path.count("/") <= 1:
                cpath = "/"
            else:
                cpath = path[:path.rindex("/")]
        c = dict(name=attrs["name"], value=attrs["value"], expires=expires,
                 domain=domain, hostonly=hostonly, path=cpath,
                 secure=attrs["secure"], http_only=attrs["http_only"],
                 created=now)
        for old in self.cookies:
            if (old["name"], old["domain"], old["path"]) == (
                    c["name"], c["domain"], c["path"]):
                c["created"] = old["created"]
                self.cookies.remove(old)
                break
        self.cookies.append(c)
        return True

    def get(self, host, path, secure, http, now):
        """Section 5.4"""
        host = host.lower()
        path = path or "/"
        self.expire(now)
        result = []
        for c in self.cookies:
            if c["hostonly"]:
                if host != c["domain"]:
                    continue
            elif not (host == c["domain"] or (
                    host.endswith("." + c["domain"]) and not is_ip(host))):
                continue
            p = c["path"]
            if not (path == p or path.startswith(p) and (
                    p.endswith("/") or path[len(p)] == "/")):
                continue
            if c["secure"] and not secure:
                continue
            if c["http_only"] and not http:
                continue
            result.append(c)
        result.sort(key=lambda c: (-len(c["path"]), c["created"]))
        return [(c["name"], c["value"], c["path"]) for c in result]

    def expire(self, now):
        self.cookies = [c for c in self.cookies if c["expires"] is None or
                        c["expires"] >= now]

    def end_session(self, now):
        self.expire(now)
        self.cookies = [c for c in self.cookies if c["expires"] is not None]


class Suffixes(object):

    """The public suffix algorithm"""

    def __init__(self, rules, depth):
        # rules: (labels right to left, exception)
        self.rules = rules
        self.depth = depth

    def suffix_len(self, labels):
        n = min(self.depth, len(labels))
        for rule, exception in self.rules:
            if len(rule) > len(labels):
                continue
            if all(r == "*" or r == d for r, d in zip(rule, labels)):
                if exception:
                    return len(rule) - 1
                n = max(n, len(rule))
        return n

    def certain(self, domain):
        """False if it is the parent of a wild card rule

        Some implementations treat *.x as implying x."""
        labels = domain.lower().split(".")[::-1]
        for rule, exception in self.rules:
            if rule[-1] == "*" and rule[:-1] == labels:
                return False
        return True

    def public(self, domain):
        labels = domain.lower().split(".")[::-1]
        return self.suffix_len(labels) >= len(labels)

    def registered(self, domain):
        labels = domain.lower().split(".")[::-1]
        n = self.suffix_len(labels)
        if n >= len(labels):
            return None
        return ".".join(labels[:n + 1][::-1])


# ---------------------------------------------------------------- parsing

ws = st.sampled_from([b"", b"", b" ", b"  ", b"\t"])

tokens = st.sampled_from([b"SID", b"a", b"b", b"lang", b"x-1", b"!#$", b"Q",
                          b"path", b"secure"])
octets = st.lists(st.sampled_from(list(
    b"aZ09!#$%&'()*+-./:<=>?@[]^_`{|}~")), max_size=6).map(bytes)
value = st.one_of(octets, octets.map(lambda v: b'"' + v + b'"'),
                  st.sampled_from([b"1", b"2", b"3"]))
junk_text = st.lists(st.one_of(
    st.sampled_from(list(b'a=;= "\\,.-/\t')),
    st.integers(0x20, 0x7E), st.integers(0x80, 0xFF)), max_size=8).map(bytes)


def cased(draw, b):
    return bytes(ord(chr(x).upper()) if draw(st.booleans()) else x
                 for x in b) if draw(st.booleans()) else b


day_names = [b"Mon", b"Tuesday", b"Wed", b"Friday"]


@st.composite
def date_strings(draw):
    mon = draw(st.sampled_from(MONTHS))
    mon = draw(st.sampled_from([mon, mon.capitalize(), mon.upper(),
                                mon + b"uary"]))
    bad = draw(st.integers(0, 3)) == 0
    dom = draw(st.sampled_from([0, 32, 99, 31]) if bad else
               st.integers(1, 28))
    year = draw(st.one_of(
        st.integers(1600, 2200), st.integers(1969, 2038), st.integers(0, 99),
        st.sampled_from([1600, 1601, 69, 70, 99, 9999, 100, 999,
                         20145])))
    h = draw(st.sampled_from([24, 99, 1]) if bad else st.integers(0, 23))
    mi = draw(st.sampled_from([60, 59]) if bad else st.integers(0, 59))
    s = draw(st.sampled_from([60, 59]) if bad else st.integers(0, 59))
    fd = draw(st.sampled_from([b"%02d", b"%d"]))
    fy = draw(st.sampled_from([b"%04d", b"%02d"]))
    ft = draw(st.sampled_from([b"%02d:%02d:%02d", b"%d:%d:%d"]))
    parts = [fd % dom, mon, fy % year, ft % (h, mi, s)]
    if draw(st.booleans()):
        parts = draw(st.permutations(parts))
    if draw(st.integers(0, 4)) == 0:
        parts = list(parts)
        parts[draw(st.integers(0, 3))] = draw(st.one_of(
            st.sampled_from([b"", b"x", b"1", b"12345", b"1:2", b"1:2:3x",
                             b"1:2:3:4", b"123:4:5", b"5th", b"2012AD",
                             b"12:34:567", b"::"]),
            junk_text.filter(lambda j: b";" not in j)))
    pre = draw(st.sampled_from([b"", b"Fri, ", b"Friday "]))
    post = draw(st.sampled_from([b"", b" GMT", b" UTC", b" +0100"]))
    seps = [draw(st.sampled_from([b" ", b"-", b", ", b"/"]))
            for i in range(3)]
    return pre + parts[0] + seps[0] + parts[1] + seps[1] + parts[2] + \
        seps[2] + parts[3] + post


@st.composite
def attribute(draw):
    name = draw(st.sampled_from([
        b"expires", b"max-age", b"domain", b"path", b"secure", b"httponly",
        b"samesite", b"", b"expire", b"junk"]))
    if name == b"junk":
        return draw(junk_text)
    n = cased(draw, name)
    v = None
    if name == b"expires":
        v = draw(date_strings())
    elif name == b"max-age":
        v = draw(st.one_of(
            st.integers(-10 ** 6, 10 ** 6).map(lambda i: b"%d" % i),
            st.sampled_from([b"0", b"-0", b"-", b"+5", b"5s", b"", b"007",
                             b"1.5", b"--1", b"9" * 400, b"-5x"])))
    elif name == b"domain":
        v = draw(st.sampled_from([
            b"example.com", b".Example.COM", b"www.example.com", b"", b".",
            b"..a.b", b"a..b", b"com", b"b\xc3\xbccher.de", b"\xff.de",
            b"x_y.com"]))
    elif name == b"path":
        v = draw(st.sampled_from([b"/", b"/a", b"/a/", b"", b"a/b",
                                  b"/a b", b"/\xc3\xa9", b"/\xff"]))
    elif draw(st.integers(0, 3)) == 0:
        v = draw(junk_text.filter(lambda j: b";" not in j))
    out = draw(ws) + n + draw(ws)
    if v is not None and not draw(st.integers(0, 19)) == 0:
        out += b"=" + draw(ws) + v + draw(ws)
    else:
        # see the flags property
        out = out.strip(WSP)
    return out


@st.composite
def set_cookie_strings(draw):
    kind = draw(st.integers(0, 9))
    if kind == 0:
        return draw(junk_text)
    nv = draw(ws) + draw(st.one_of(tokens, tokens, tokens, st.sampled_from([b"", b"a b"]))) \
        + draw(ws) + draw(st.sampled_from([b"="] * 14 + [b""])) + \
        draw(ws) + draw(st.one_of(value, junk_text.filter(
            lambda j: b";" not in j))) + draw(ws)
    return b";".join([nv] + draw(st.lists(attribute(), max_size=5)))


def unix(tp):
    return None if tp is None else tp.get_unixtime()


def attrs_of(c):
    return dict(name=c.name, value=c.value, expires=unix(c.expires),
                max_age=c.max_age, domain=c.domain, path=c.path,
                secure=c.secure, http_only=c.http_only)


def norm_domain(d):
    # the Cookie class itself drops a further leading dot, and ignores
    # domains with a trailing dot
    if d:
        if d[0] == ".":
            d = d[1:]
        elif d[-1] == ".":
            d = None
    return d or None


def check_parse(s, c):
    expect = ref_set_cookie(s)
    r = messages.Response(messages.Request())
    r.set_header("Set-Cookie", s, True)
    # HTTP itself removes white space around the value
    got = r.get_set_cookie()
    if expect is None:
        eq([g for g in got or [] if g is not None], [],
           "should be ignored", s)
        for g in got or []:
            ok(g is not None, "None returned as a cookie", s)
        return
    eq(len(got), 1, "cookies", s)
    expect = dict(expect, domain=norm_domain(expect["domain"]))
    got = attrs_of(got[0])
    got["domain"] = got["domain"] or None
    eq(got, expect, "cookie", s)
    for k, v in expect.items():
        if v and k not in ("name", "value"):
            c.label(k)
            c.nontrivial()


def check_date(s, c):
    expect = ref_date(s)
    got = cookie.CookieParser(s).require_cookie_date()
    eq(unix(got), expect, "date", str(got), s)
    c.nontrivial(expect is not None)
    c.label("valid" if expect is not None else "invalid")


# Flags, with or without white space: a known finding as the test suite
# depends on "; Secure" being ignored

flags = st.tuples(
    st.sampled_from([b"secure", b"Secure", b"HttpOnly", b"HTTPONLY"]), ws,
    ws, st.sampled_from([b"", b"=", b"=1", b" =x"]),
    st.sampled_from([b"", b";path=/", b";a=b"]))


def check_flag(case, c):
    name, before, after, val, rest = case
    s = b"a=1;" + before + name + val + after + rest
    got = cookie.Cookie.from_str(s)
    eq((got.secure, got.http_only), (name.lower() == b"secure",
                                     name.lower() == b"httponly"),
       "flags", s)
    c.nontrivial()


def flag_known(case):
    return b"=" not in case[3] and (case[1] or case[2])


# ------------------------------------------------------------- formatting

hosts = ["example.com", "www.example.com", "a.b.example.com", "Example.COM",
         "example.co.uk", "www.example.co.uk", "co.uk", "com", "localhost",
         "foo.bar.tokyo.jp", "bar.tokyo.jp", "metro.tokyo.jp",
         "www.metro.tokyo.jp", "127.0.0.1", "0.0.1", "1.0.0.127",
         "[::1]", "my_host", "xample.com", "anexample.com",
         "a.b.c.example.org", "b.c.example.org", "c.example.org",
         "example.org", "xn--bcher-kva.de", "www.xn--bcher-kva.de"]

strict_value = st.one_of(octets, octets.map(lambda v: b'"' + v + b'"'))

ext_names = st.sampled_from([b"lang", b"x", b"Path", b"max-age", b"HttpOnly",
                             b"secure", b"domain", b"expires", b"same"])


@st.composite
def api_cookies(draw):
    kw = {}
    if draw(st.booleans()):
        kw["path"] = draw(st.sampled_from(["/", "/a", "/a/b", "/x%20y",
                                           "/a,b", "/a=b"]))
    if draw(st.booleans()):
        kw["domain"] = draw(st.sampled_from([
            "example.com", "www.example.co.uk", "xn--bcher-kva.de",
            u"b\xfccher.de", "localhost"]))
    if draw(st.booleans()):
        kw["max_age"] = draw(st.one_of(st.integers(1, 10 ** 7),
                                       st.sampled_from([1, 60, 10 ** 12])))
    if draw(st.booleans()):
        kw["expires"] = (draw(st.integers(-10 ** 10, 10 ** 10)),
                         draw(st.booleans()))
    kw["secure"] = draw(st.booleans())
    kw["http_only"] = draw(st.booleans())
    exts = draw(st.lists(st.tuples(ext_names, st.one_of(
        st.none(), octets)), max_size=2))
    return (draw(tokens), draw(strict_value), kw, exts, draw(st.booleans()))


def make_cookie(cls, case):
    name, val, kw, exts, as_text = case
    kw = dict(kw)
    if "expires" in kw:
        t, full = kw["expires"]
        tc = params.FullDate if full else iso.TimePoint
        kw["expires"] = tc.from_unix_time(t)
    if exts:
        kw["extensions"] = [n if v is None else n + b"=" + v
                            for n, v in exts]
    if as_text:
        name, val = name.decode(), val.decode()
    return cls(name, val, **kw)


def duplicates(case):
    name, val, kw, exts, as_text = case
    seen = set(k for k in ("path", "domain", "expires") if kw.get(k))
    if kw.get("max_age") is not None:
        seen.add("max-age")
    if kw["secure"]:
        seen.add("secure")
    if kw["http_only"]:
        seen.add("httponly")
    for n, v in exts:
        n = n.decode().lower()
        if n in seen:
            return True
        seen.add(n)
    return False


KNOWN_ATTRS = ("path", "domain", "expires", "max-age", "secure", "httponly")


def check_format(case, c):
    name, val, kw, exts, as_text = case
    dup = duplicates(case)
    try:
        ck = make_cookie(cookie.Section4Cookie, case)
    except cookie.CookieError:
        ok(dup, "refused", case)
        c.label("duplicate")
        return
    ok(not dup, "duplicate attribute accepted", case)
    if any(n.decode().lower() in KNOWN_ATTRS for n, v in exts):
        # not really extensions
        raise Discard
    expect = dict(name=name, value=val, expires=None,
                  max_age=kw.get("max_age"), domain=kw.get("domain"),
                  path=kw.get("path"), secure=kw["secure"],
                  http_only=kw["http_only"])
    if expect["domain"] and not expect["domain"].isascii():
        expect["domain"] = u"xn--bcher-kva.de"
    if "expires" in kw:
        expect["expires"] = kw["expires"][0]
    s = ck.to_bytes()
    ref = ref_set_cookie(s)
    eq(ref, expect, "as read by RFC 6265", s, case)
    # without spaces before flags, see the flags property
    for t in (s, str(ck).encode()):
        t = t.replace(b"; Secure", b";Secure").replace(
            b"; HttpOnly", b";HttpOnly")
        eq(attrs_of(cookie.Cookie.from_str(t)), expect, "read back", t, case)
    strict = cookie.Section4Cookie.from_str(s)
    eq(attrs_of(strict), expect, "read back strictly", s, case)
    eq(strict.extensions or [], [n if v is None else n + b"=" + v
                                 for n, v in exts], "extensions", s, case)
    # and in messages
    r = messages.Response(messages.Request())
    r.set_set_cookie(cookie.Cookie("other", "1"))
    r.set_set_cookie(ck)
    got = r.get_set_cookie()
    eq([attrs_of(g)["name"] for g in got], [b"other", name], "message", case)
    eq(dict(attrs_of(got[1]), secure=kw["secure"],
            http_only=kw["http_only"]), expect, "message", case)
    r.set_set_cookie(ck, replace=True)
    eq(len(r.get_set_cookie()), 1, "replaced", case)
    r.set_set_cookie(None)
    eq(r.get_set_cookie(), None, "removed", case)
    c.nontrivial(len(s.split(b";")) > 2)


def check_strict(s, c):
    try:
        got = cookie.Section4Cookie.from_str(s)
    except ValueError:
        c.label("refused")
        return
    c.nontrivial()
    ok(got.name and got.name == ref_set_cookie(s)["name"], "name", got.name,
       s)
    eq(got.value, ref_set_cookie(s)["value"], "value", s)


@st.composite
def cookie_headers(draw):
    return (draw(st.lists(st.tuples(tokens, strict_value), min_size=1,
                          max_size=5)), draw(junk_text))


def check_header(case, c):
    pairs, junk = case
    expect = {}
    for n, v in pairs:
        if n in expect:
            if not isinstance(expect[n], set):
                expect[n] = set([expect[n]])
            expect[n].add(v)
            c.nontrivial()
        else:
            expect[n] = v
    r = messages.Request()
    r.set_cookie([cookie.Cookie(n, v) for n, v in pairs])
    eq(r.get_cookie(), expect, "read back", case)
    s = b"; ".join(n + b"=" + v for n, v in pairs)
    p = cookie.CookieParser(s)
    eq(p.require_cookie_string(strict=True), expect, "strict", case)
    p.require_end()
    r.set_cookie(None)
    eq(r.get_cookie(), {}, "removed", case) if r.get_cookie() is not None \
        else None
    # anything else is parsed as far as possible
    r.set_header("Cookie", s + b";" + junk)
    got = r.get_cookie()
    for n, v in expect.items():
        vs = v if isinstance(v, set) else set([v])
        gs = got.get(n)
        gs = gs if isinstance(gs, set) else set([gs])
        ok(vs <= gs, "cookie lost", n, got, case)
    r.set_header("Cookie", junk)
    r.get_cookie()


# --------------------------------------------------------- public suffixes

labels = st.sampled_from(["a", "b", "c"])
tops = st.sampled_from(["com", "uk", "jp"])


@st.composite
def rule_sets(draw):
    rules = {}
    for i in range(draw(st.integers(0, 6))):
        base = [draw(tops)] + draw(st.lists(labels, max_size=3))
        kind = draw(st.integers(0, 3))
        if kind == 0:
            base = base[:3] + ["*"]
        elif kind == 1 and len(base) > 1:
            rules[tuple(base)] = True
            continue
        rules.setdefault(tuple(base), False)
    # rules within exceptions aren't judged
    rules = [(k, v) for k, v in rules.items() if not any(
        rules.get(k[:i]) for i in range(len(k)))]
    if draw(st.booleans()):
        rules = draw(st.permutations(rules))
    return [(list(k), v) for k, v in rules], draw(
        st.sampled_from([1, 1, 1, 2, 3, 100]))


def rule_text(rules, sep="\n"):
    return sep.join(("!" if e else "") + ".".join(reversed(r))
                    for r, e in rules)


domains = st.tuples(st.lists(labels, max_size=4), st.one_of(
    tops, st.just("org"))).map(lambda d: ".".join(d[0] + [d[1]]))


def check_public(case, c):
    (rules, depth), comments, doms = case
    ref = Suffixes(rules, depth)
    cs = cookie.CookieStore()
    sep = "\n// comment\n\n" if comments else "\n"
    cs.set_public_list(rule_text(rules, sep) + (
        " trailing words" if comments else ""), depth)
    for i in range(2):
        for d in doms:
            if not ref.certain(d):
                continue
            spell = d.upper() if comments else d
            eq(cs.test_public_domain(spell), ref.public(d), "public", d,
               rule_text(rules), depth)
            # wild card rules may imply their parents
            reg = ref.registered(d)
            eq(cs.get_registered_domain(spell), reg, "registered domain", d,
               rule_text(rules), depth)
            eq(cs.get_registered_domain(spell, True), reg,
               "registered domain", d, rule_text(rules), depth)
            c.nontrivial(ref.suffix_len(d.split(".")[::-1]) > 1 or
                         any(e for r, e in rules))
            eq(cs.get_registered_domain("." + d), None, "leading dot", d)
        # storing cookies changes nothing
        for d in doms:
            cs.set_cookie(uri.URI.from_octets("http://%s/" % d),
                          cookie.Cookie("a", "b"))
            try:
                cs.set_cookie(uri.URI.from_octets("http://z.%s/" % d),
                              cookie.Cookie("a", "b", domain=d))
                ok(not ref.certain(d) or not ref.public(d),
                   "cookie stored for a public domain", d, rule_text(rules))
            except cookie.CookieError:
                ok(not ref.certain(d) or ref.public(d),
                   "cookie refused for a private domain", d,
                   rule_text(rules))
    eq(cs.get_registered_domain(None), None, "None")


# ------------------------------------------------------------------ stores

LIST = """// test list
com
uk
co.uk
*.jp
*.tokyo.jp
!metro.tokyo.jp
c.example.org
"""

LIST_RULES = [(["com"], False), (["uk"], False), (["uk", "co"], False),
              (["jp", "*"], False), (["jp", "tokyo", "*"], False),
              (["jp", "tokyo", "metro"], True),
              (["org", "example", "c"], False)]

paths = st.sampled_from(["", "/", "/a", "/a/", "/a/b", "/a/b/", "/ab",
                         "/a/b/c", "/a/bc", "/abc", "//", "/a//b", "/A", "/a;p", "/a%2Fb"])
urls = st.tuples(st.sampled_from(["http", "http", "https", "HTTP", "file"]),
                 st.sampled_from(hosts), paths,
                 st.sampled_from(["", "", ":8080"]),
                 st.sampled_from(["", "", "?x=/a/b"]))

T0 = 1400000000


@st.composite
def store_cookie(draw, host):
    name = draw(st.sampled_from([b"a", b"a", b"b"]))
    out = [name + b"=" + draw(st.sampled_from([b"1", b"2", b"3", b""]))]
    if draw(st.integers(0, 2)):
        labels = host.split(".")
        d = draw(st.one_of(
            st.integers(0, len(labels)).map(lambda i: ".".join(labels[i:])),
            st.sampled_from(hosts)))
        out.append(b"Domain=" + draw(st.sampled_from([b"", b"", b"."])) +
                   d.encode() + draw(st.sampled_from([b"", b"", b"", b"."])))
    if draw(st.booleans()):
        out.append(b"Path=" + draw(paths).encode())
    k = draw(st.integers(0, 5))
    if k <= 1:
        out.append(b"Max-Age=%d" % draw(st.sampled_from(
            [-1, 0, 1, 5, 10, 50])))
    if 1 <= k <= 2:
        t = T0 + draw(st.integers(-10, 60))
        out.append(datetime.datetime.fromtimestamp(
            t, datetime.timezone.utc).strftime(
                "Expires=%a, %d %b %Y %H:%M:%S GMT").encode())
    if draw(st.integers(0, 3)) == 0:
        out[-1] += b";Secure"
    if draw(st.integers(0, 3)) == 0:
        out[-1] += b";HttpOnly"
    return b"; ".join(out)


@st.composite
def histories(draw):
    ops = []
    known = draw(st.lists(urls, min_size=1, max_size=4))
    for i in range(draw(st.integers(1, 14))):
        u = draw(st.one_of(st.sampled_from(known), urls))
        k = draw(st.integers(0, 19))
        if k < 10:
            ops.append(("set", u, draw(store_cookie(u[1].lower()))))
        elif k < 17:
            ops.append(("get", u))
        elif k == 17:
            ops.append(("wait", draw(st.sampled_from([1, 4, 5, 20]))))
        elif k == 18:
            ops.append(("end", ))
        else:
            ops.append(("expire", ))
    ops += [("get", u) for u in known]
    return draw(st.booleans()), ops


def make_url(u):
    scheme, host, path, port, query = u
    if scheme == "file":
        port = query = ""
    return uri.URI.from_octets("%s://%s%s%s%s" % (
        scheme, host, port, path, query))


def check_store(case, c):
    listed, ops = case
    clock = [float(T0) + 0.25]
    real = cookie.time
    cookie.time = types.SimpleNamespace(time=lambda: clock[0])
    try:
        cs = cookie.CookieStore()
        if listed:
            cs.set_public_list(LIST)
            ref = RefStore(Suffixes(LIST_RULES, 1))
        else:
            ref = RefStore(Suffixes([], 255))
        sent = False
        for op in ops:
            # no two cookies are created at the same time
            clock[0] += 0.015625
            now = clock[0]
            if op[0] == "wait":
                clock[0] += op[1]
                continue
            elif op[0] == "end":
                cs.end_session()
                ref.end_session(now)
                continue
            elif op[0] == "expire":
                cs.expire_cookies()
                ref.expire(now)
                continue
            u = op[1]
            if u[0] == "file" and (not u[2] or u[1].startswith("[")):
                continue
            url = make_url(u)
            http = u[0].lower() != "file"
            secure = u[0] == "https"
            if op[0] == "set":
                attrs = ref_set_cookie(op[2])
                d = attrs["domain"]
                if d and not ref.suffixes.certain(d.strip(".")):
                    continue
                if d and (d[0] == "." or "_" in d):
                    continue
                r = messages.Response(messages.Request())
                r.set_header("Set-Cookie", op[2])
                ck = r.get_set_cookie()[0]
                expect = ref.set(u[1], u[2], secure, http, attrs, now)
                try:
                    cs.set_cookie(url, ck)
                    stored = True
                except cookie.CookieError:
                    stored = False
                eq(stored, expect, "cookie stored", op, case)
                c.label("stored" if stored else "refused")
            else:
                expect = ref.get(u[1], u[2], secure, http, now)
                found = cs.search(url)
                eq([(x.name, x.value, x.path) for x in found], expect,
                   "cookies for", str(url), case)
                for x in found:
                    eq(x.access_time, now, "access time", case)
                if expect:
                    sent = True
                    c.label("sent %d" % min(len(expect), 3))
        c.nontrivial(sent)
    finally:
        cookie.time = real


PROPS = [
    Prop("parse", set_cookie_strings(), check_parse, quick=6000,
         rule="a cookie with at least one attribute"),
    Prop("flags", flags, check_flag, quick=100, known=flag_known,
         rule="all"),
    Prop("dates", date_strings(), check_date, quick=5000,
         rule="the date is valid"),
    Prop("format", api_cookies(), check_format, quick=3000,
         rule="a cookie with at least two attributes"),
    Prop("strict", st.one_of(set_cookie_strings(), st.tuples(
        tokens, strict_value, st.lists(st.one_of(attribute(), date_strings(
        ).map(lambda d: b" expires=" + d)), max_size=4)).map(
            lambda t: b";".join([t[0] + b"=" + t[1]] + t[2]))),
         check_strict, quick=3000, rule="accepted by the strict parser"),
    Prop("headers", cookie_headers(), check_header, quick=2000,
         rule="a name is repeated"),
    Prop("public", st.tuples(rule_sets(), st.booleans(), st.lists(
        domains, min_size=1, max_size=6)), check_public, quick=3000,
        rule="a multi-label suffix or an exception rule applies"),
    Prop("store", histories(), check_store, quick=4000,
         rule="at least one request was sent a cookie"),
]
