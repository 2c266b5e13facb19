"""C24: URI parsing, escaping and canonicalisation."""
import re

from hypothesis import strategies as st

from pyslet import rfc2396 as uri

from vlib import Prop, eq, ok, raises
from . import urigen as ug

PROPERTY = "C24"
SERVER = {"http": 80, "https": 443, "file": None}


def comps():
    """(kind, (scheme, authority, path, query, fragment), server)"""
    hier = st.tuples(
        st.just("net"), ug.schemes(), st.one_of(
            ug.servers().map(lambda s: (ug.server_str(s), s)),
            ug.chars(ug.REGNAME, 1).map(lambda s: (s, None))),
        st.one_of(st.just(""), ug.abs_paths(), ug.seglists(1, 4).map(
            lambda s: "/" + "/".join(s))), ug.query(), ug.fragment())
    absp = st.tuples(st.just("abs"), ug.schemes(), st.none(), ug.abs_paths(),
                     ug.query(), ug.fragment())
    opaque = st.tuples(
        st.just("opaque"), ug.schemes(), st.none(),
        st.tuples(ug.chars(ug.UNRES + ";?:@&=+$,[]", 1, 1),
                  ug.chars(ug.UNRES + ug.RES)).map("".join),
        st.none(), ug.fragment())
    net = st.tuples(st.just("relnet"), st.none(), ug.servers().map(
        lambda s: (ug.server_str(s), s)), st.one_of(
            st.just(""), ug.abs_paths()), ug.query(), ug.fragment())
    rabs = st.tuples(st.just("relabs"), st.none(), st.none(), ug.abs_paths(),
                     ug.query(), ug.fragment())
    rel = st.tuples(st.just("rel"), st.none(), st.none(), st.one_of(
        st.just(""), ug.rel_paths()), ug.query(), ug.fragment())
    return st.one_of(hier, hier, absp, opaque, net, rabs, rel)


def check_parse(case, c):
    kind, scheme, auth, path, q, f = case
    a = None if auth is None else auth[0]
    s = ug.comps_str((scheme, a, path, q, f))
    u = uri.URI.from_octets(s)
    c.label(kind)
    c.nontrivial(q is not None or f is not None or "%" in s)
    eq(str(u), s, "string form is preserved", case)
    eq(u.octets + ("" if f is None else "#" + u.fragment), s, "octets")
    eq(u.scheme, scheme, "scheme", s)
    eq(u.fragment, f, "fragment", s)
    eq(u.is_absolute(), scheme is not None, "is_absolute", s)
    eq(u.opaque_part, path if kind == "opaque" else None, "opaque part", s)
    eq(u.authority, a, "authority", s)
    eq(u.query, q, "query", s)
    if kind in ("net", "relnet"):
        eq(u.abs_path or "", path, "absolute path", s)
        eq(u.rel_path, None, "relative path", s)
    elif kind in ("abs", "relabs"):
        eq((u.abs_path, u.rel_path), (path, None), "path", s)
    elif kind == "rel":
        eq((u.abs_path, u.rel_path), (None, path), "path", s)
    if scheme is not None:
        eq(u.scheme_specific_part, s[len(scheme) + 1:].split("#")[0],
           "scheme specific part", s)
    # the same from bytes, and as an equal, hashable object
    v = uri.URI.from_octets(s.encode("ascii"))
    ok(u == v and hash(u) == hash(v) and u == s and not u != v,
       "equal to itself", s)
    ok(u <= v and u >= v and not u < v and not u > v, "ordering of equals", s)
    # file name
    if kind != "opaque":
        last = path.split("/")[-1]
        try:
            name = re.sub(rb"%([0-9A-Fa-f]{2})", lambda m: bytes.fromhex(
                m.group(1).decode()), last.encode()).decode("utf-8")
        except UnicodeDecodeError:
            name = None
        if name is not None:
            eq(u.get_file_name(), name if path or kind == "rel" and False
               else None, "file name", s)
    # server based
    if auth is not None and auth[1] is not None:
        eq(uri.split_server(a), auth[1], "split_server", a)
        if scheme is not None and scheme.lower() in SERVER:
            c.label("server")
            ui, h, p = auth[1]
            eq((u.userinfo, u.host, u.port), auth[1], "server parts", s)
            eq(u.get_addr(), (h, int(p) if p else SERVER[scheme.lower()]),
               "address", s)
    # canonicalisation
    k = u.canonicalize()
    eq(str(k.canonicalize()), str(k), "canonicalisation is idempotent", s)
    ok(k == u and hash(k) == hash(u), "canonical form is equal", s)
    exp = canonical(kind, scheme, auth, path, q, f)
    if exp is not None:
        eq(str(k), exp, "canonical form", s)
    root = u.get_canonical_root()
    if scheme is None:
        eq(root, None, "no canonical root")
    elif exp is not None and not (auth and auth[1] is None):
        eq(str(root), re.match(r"[^:]*:(//[^/?#]*)?", exp).group(
            0) + ("/" if scheme.lower() in ("http", "https") and False
                  else ""), "canonical root", s)


def unesc(t):
    """Canonical data: unreserved characters unescaped, escapes in upper
    case"""
    def sub(m):
        ch = chr(int(m.group(1), 16))
        return ch if ch in ug.UNRES else m.group(0).upper()
    return re.sub(r"%([0-9A-Fa-f]{2})", sub, t)


def canonical(kind, scheme, auth, path, q, f):
    if f == "":
        # insignificant in some schemes
        return None
    if scheme is None or scheme.lower() not in SERVER:
        return ug.comps_str((scheme and scheme.lower(), auth and auth[0],
                             path, q, f))
    http = scheme.lower() != "file"
    if auth is not None:
        if auth[1] is None:
            return None
        ui, h, p = auth[1]
        dp = SERVER[scheme.lower()]
        if not p or int(p) == dp:
            p = None
        else:
            p = str(int(p))
        a = ug.server_str((ui, h.lower(), p))
    else:
        a = None
    if http:
        if kind != "opaque":
            path = unesc(path)
        if a is not None and not path:
            if q is not None:
                # both http://host?q and http://host/?q
                return None
            path = None
        if q is not None:
            q = unesc(q)
    s = ug.comps_str((scheme.lower(), a, path, q, f))
    return s


def pair_cases():
    """Two http URLs which differ, or not, in one way"""
    return st.tuples(
        st.sampled_from(["http", "https", "file", "x"]), ug.servers(),
        ug.abs_paths(), ug.query(), st.sampled_from(
            ["same", "case", "scheme case", "port", "path case", "path",
             "query", "userinfo", "user", "fragment", "other scheme",
             "escape", "opaque"]), st.sampled_from("xyz"))


def check_equal(case, c):
    scheme, srv, path, q, how, x = case
    u, h, p = srv
    f = None
    t = [scheme, (u, h, p), path, q, f]
    equal = None
    if how == "same":
        equal = True
    elif how == "case":
        t[1] = (u, h.swapcase(), p)
        equal = scheme != "x" or h == h.swapcase()
    elif how == "scheme case":
        t[0] = scheme.upper()
        equal = True
    elif how == "port":
        dp = SERVER.get(scheme)
        if dp is None:
            return
        srv = (u, h, None)
        t[1] = (u, h, str(dp))
        equal = True
    elif how == "path case":
        t[2] = path.replace("a", "A")
        equal = t[2] == path or None
        if equal is None and "%" not in path:
            equal = False
    elif how == "path":
        t[2] = path + x
        equal = False
    elif how == "query":
        t[3] = (q or "") + x
        equal = False
    elif how == "userinfo":
        t[1] = ((u or "") + x, h, p)
        equal = False
    elif how == "user":
        t[1] = (u, h + x, p)
        equal = False
    elif how == "fragment":
        t[4] = x
        equal = False
    elif how == "other scheme":
        t[0] = {"http": "https", "https": "file", "file": "http",
                "x": "y"}[scheme]
        equal = False
    elif how == "escape":
        if scheme not in ("http", "https"):
            return
        path = path + x
        t[2] = t[2] + "%%%02x" % ord(x)
        equal = True
    elif how == "opaque":
        a = uri.URI.from_octets("%s:a%s" % (scheme, x))
        b = uri.URI.from_octets("%s:a%s" % (scheme, x + "1"))
        ok(not (a == b), "different opaque parts", str(a), str(b))
        return
    c.label(how)
    c.nontrivial(how != "same")
    s1 = ug.comps_str((scheme, ug.server_str(srv), path, q, None))
    s2 = ug.comps_str((t[0], ug.server_str(t[1]), t[2], t[3], t[4]))
    a = uri.URI.from_octets(s1)
    b = uri.URI.from_octets(s2)
    if equal is None:
        return
    eq(a == b, equal, "equality of URIs", s1, s2)
    eq(a != b, not equal, "inequality of URIs", s1, s2)
    eq(a.match(b), equal, "match", s1, s2)
    if equal:
        eq(hash(a), hash(b), "equal URIs hash alike", s1, s2)
    else:
        ok((a < b) != (a > b), "order of different URIs", s1, s2)


def check_escape(case, c):
    data, which = case
    reserved, rset = {
        "default": (uri.is_reserved, ug.RES),
        "none": (lambda ch: False, ""),
        "path": (uri.is_path_segment_reserved, "/;=?"),
        "auth": (uri.is_authority_reserved, ";:@?/"),
        "query": (uri.is_query_reserved, ";/?:@&=+,$"),
        "1738": (uri.is_reserved_1738, ";/?:@&="),
        "2396": (uri.is_reserved_2396, ";/?:@&=+$,"),
    }[which]
    c.label(which)
    s = uri.escape_data(data, reserved)
    keep = set((ug.UNRES + ug.RES).encode()) - set(rset.encode())
    exp = "".join(chr(b) if b in keep else "%%%02X" % b for b in data)
    eq(s, exp, "escaped data", data)
    eq(uri.unescape_data(s), data, "unescape(escape(data))", s)
    eq(uri.parse_uric(s), len(s), "escaped data is all URI characters", s)
    c.nontrivial(s != data.decode("latin-1"))
    # older rules on what is allowed
    for at, allowed in ((uri.is_allowed_2396, ug.UNRES + ";/?:@&=+$,"),
                        (uri.is_allowed_1738,
                         ";/?:@&=" + ug.ALPHA + ug.DIGIT + "$-_.+!*'(),")):
        t = uri.escape_data(data, reserved, at)
        keep2 = set(allowed.encode()) - set(rset.encode())
        eq(t, "".join(chr(b) if b in keep2 else "%%%02X" % b for b in data),
           "escaped data with allowed set", data)
        eq(uri.unescape_data(t), data, "unescaped", t)
        eq(uri.parse_uric(t, 0, at), len(t), "parse_uric with allowed set")
    # canonical data
    k = uri.canonicalize_data(s)
    eq(k, unesc(s), "canonical data", s)
    eq(uri.canonicalize_data(k), k, "canonical data is canonical", s)
    eq(uri.unescape_data(k), data, "canonicalisation keeps the data", s)
    eq(uri.canonicalize_data(s.replace("%", "%").lower() if False else
                             re.sub("%..", lambda m: m.group(0).lower(), s)),
       k, "case of hex digits", s)
    eq(uri.canonicalize_data(s, lambda ch: False), s, "no escapes removed")
    # text: non-ASCII is refused
    t = data.decode("latin-1")
    if any(b > 127 for b in data):
        ok(raises(UnicodeEncodeError, uri.escape_data, t) is not None,
           "non-ASCII text escaped", t)
    else:
        eq(uri.escape_data(t, reserved), exp, "escaped text", t)


def check_unicode(s, c):
    c.nontrivial(any(ord(x) > 127 for x in s))
    e = uri.encode_unicode_uri(s)
    exp = "".join(x if ord(x) < 128 else "".join(
        "%%%02X" % b for b in x.encode("utf-8")) for x in s)
    eq(e, exp, "encode_unicode_uri", s)
    legal = re.match(r"(?:[%s]|%%[0-9A-Fa-f]{2})*(?:#(?:[%s]|%%[0-9A-Fa-f]"
                     r"{2})*)?\Z" % ((re.escape(ug.UNRES + ug.RES),) * 2),
                     e) is not None
    m = re.match(r"([A-Za-z][A-Za-z0-9+.-]*):(.*)", e)
    if m and m.group(1).lower() == "urn":
        return
    c.label("legal" if legal else "illegal")
    err = raises((uri.URIException, ValueError), uri.URI.from_octets, s)
    if m is None or m.group(1).lower() not in ("http", "https", "file"):
        eq(err is None, legal, "URI reference accepted exactly when it uses "
           "only URI characters", s, err)
    elif not legal:
        ok(err is not None, "illegal URI accepted", s)
    if err is None:
        u = uri.URI.from_octets(s)
        eq(str(u), e, "string form", s)
    if any(ord(x) > 127 for x in s):
        ok(raises((uri.URIException, ValueError), uri.URI.from_octets, s,
                  True) is not None, "strict parsing accepts non-ASCII", s)
    # extent of URI characters
    n = uri.parse_uric(s)
    m = re.match(r"(?:[%s]|%%[0-9A-Fa-f]{2})*" % re.escape(
        ug.UNRES + ug.RES), s)
    eq(n, m.end(), "parse_uric", s)


def junk():
    return st.one_of(
        st.lists(st.one_of(st.sampled_from(
            ["http:", "//", "a", "/", "?", "#", "%", "%4", "%41", "%4g", " ",
             "<", ">", '"', "{", "}", "|", "\\", "^", "`", "\u00e9", "\u20ac",
             "\U0001f600", "\x00", "\x7f", "[", "]", ":", "x:", "@", ".."]),
            st.characters(max_codepoint=0x2ff)), max_size=8).map("".join),
        st.text(max_size=8))


PROPS = [
    Prop("parse", comps(), check_parse, quick=10000,
         rule="references assembled from generated components split into "
         "exactly those components; canonical form against an independent "
         "one; non-trivial: has query, fragment or escapes"),
    Prop("equality", pair_cases(), check_equal, quick=6000,
         rule="URLs differing in one stated way compare as the scheme says"),
    Prop("escape", st.tuples(st.one_of(st.binary(max_size=30), st.text(
        ug.UNRES + ug.RES + "% <>#", max_size=20).map(
            lambda s: s.encode())), st.sampled_from(
                ["default", "none", "path", "auth", "query", "1738",
                 "2396"])), check_escape, quick=8000,
         rule="escape/unescape of arbitrary bytes under each reserved set; "
         "non-trivial: something is escaped"),
    Prop("characters", junk(), check_unicode, quick=8000,
         rule="arbitrary text is accepted exactly when made of URI "
         "characters after encoding non-ASCII"),
]
