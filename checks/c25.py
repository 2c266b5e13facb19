"""C25: resolving and relativising URI references (RFC 2396 section 5.2)."""
from hypothesis import strategies as st

from pyslet import rfc2396 as uri

from vlib import Prop, eq, ok, raises
from . import urigen as ug

PROPERTY = "C25"


def normalise(path):
    """RFC 2396 5.2 step 6 c-f on a merged path (a string)"""
    lead = path.startswith("/")
    segs = path[1:].split("/") if lead else path.split("/")
    # c and d: complete '.' segments
    n = len(segs)
    segs = [("" if i == n - 1 else None) if s == "." else s
            for i, s in enumerate(segs)]
    segs = [s for s in segs if s is not None]
    # e and f: <segment>/.. removed, leftmost first
    again = True
    while again:
        again = False
        for i in range(len(segs) - 1):
            if segs[i] != ".." and segs[i + 1] == "..":
                last = i + 2 == len(segs)
                segs[i:i + 2] = [""] if last else []
                again = True
                break
    if segs and segs[-1] == "..":
        # left over at the end: denotes a directory
        segs.append("")
    return ("/" if lead else "") + "/".join(segs)


def rfc_resolve(base, ref):
    bs, ba, bp, bq, bf = base
    rs, ra, rp, rq, rf = ref
    if rs is None and ra is None and not rp and rq is None:
        # the current document
        return (bs, ba, bp, bq, rf)
    if rs is not None:
        return ref
    if ra is not None:
        return (bs, ra, rp, rq, rf)
    if rp.startswith("/"):
        return (bs, ba, rp, rq, rf)
    if not bp and ba is not None:
        merged = "/" + rp
    else:
        merged = bp[:bp.rfind("/") + 1] + rp
    return (bs, ba, normalise(merged), rq, rf)


def bases():
    auth = st.one_of(st.just("h.example"), ug.servers().map(ug.server_str))
    return st.tuples(
        st.one_of(st.sampled_from(["http", "https", "ftp", "x"]),
                  ug.schemes()), st.one_of(st.none(), auth, auth),
        ug.abs_paths(), ug.query(), ug.fragment())


def relpaths():
    return st.one_of(ug.rel_paths(), st.tuples(
        st.sampled_from(["..", ".", "../..", "../../..", "./..", "../."]),
        st.lists(ug.segments(), max_size=4)).map(
            lambda t: "/".join((t[0],) + tuple(t[1]))))


def refs():
    return st.one_of(
        st.tuples(st.none(), st.none(), relpaths(), ug.query(),
                  ug.fragment()),
        st.tuples(st.none(), st.none(), relpaths(), ug.query(),
                  ug.fragment()),
        st.tuples(st.none(), st.none(), st.just(""), ug.query(),
                  ug.fragment()),
        st.tuples(st.none(), st.none(), ug.abs_paths(), ug.query(),
                  ug.fragment()),
        st.tuples(st.none(), ug.hosts(), st.one_of(
            st.just(""), ug.abs_paths()), ug.query(), ug.fragment()),
        bases())


def check_resolve(case, c):
    base, ref, no_path = case
    if no_path and base[1] is not None:
        base = base[:2] + ("",) + base[3:]
    b = uri.URI.from_octets(ug.comps_str(base))
    r = uri.URI.from_octets(ug.comps_str(ref))
    u = r.resolve(b)
    want = rfc_resolve(base, ref)
    ws = ug.comps_str(want)
    c.label("same doc" if ref[:2] == (None, None) and not ref[2] else
            "scheme" if ref[0] else "authority" if ref[1] else
            "absolute" if ref[2].startswith("/") else "relative")
    c.nontrivial(ref[2] and not ref[0] and ".." in ref[2])
    if want[1] is None and want[2] and want[2].startswith("//"):
        # no way to write this URI
        c.label("ambiguous")
        return
    eq(str(u), ws, "resolved URI", ug.comps_str(base), ug.comps_str(ref))
    eq(str(r.resolve(str(b))), ws, "resolved from a string")
    if u.scheme is None:
        return
    ok(u.is_absolute(), "absolute")
    # a current document other than the base
    if r.scheme is None and not str(r).split("#")[0]:
        d = uri.URI.from_octets("http://doc.example/d?e#f")
        eq(str(r.resolve(b, d)), "http://doc.example/d?e" + (
            "" if ref[4] is None else "#" + ref[4]), "current document", r)
    # resolving again changes nothing
    eq(str(u.resolve(b)), ws, "resolving an absolute URI", ws)


def plain_segment():
    return st.one_of(
        st.sampled_from(["a", "b", "c", "dir", "a.b", "..x", "...", "x:y",
                         "a;p", "%2E", "1:2", ":", "c:"]),
        ug.chars(ug.PCHAR, 1, 4).filter(lambda s: s not in (".", "..")))


def empty_or_plain():
    return st.one_of(plain_segment(), plain_segment(), plain_segment(),
                     plain_segment(), st.just(""))


def tree_paths():
    """Two normalised absolute paths which often share a prefix"""
    seg = plain_segment()
    return st.tuples(st.lists(seg, max_size=3), st.lists(seg, max_size=3),
                     st.lists(seg, max_size=3), st.booleans(), st.booleans(),
                     st.sampled_from(["", "", "", "", "u", "b", "p"]),
                     st.integers(0, 3))


def build(t):
    pre, x, y, xd, yd, where, pos = t
    pre, x, y = list(pre), list(x), list(y)
    if where:
        # an empty segment somewhere, not first
        lst = {"u": x, "b": y, "p": pre}[where]
        lst.insert(min(pos, len(lst)), "")
    p1 = "/" + "/".join(pre + x + ([""] if xd and pre + x else []))
    p2 = "/" + "/".join(pre + y + ([""] if yd and pre + y else []))
    return p1, p2


def rel_cases():
    return st.tuples(
        st.sampled_from(["http", "https", "x-s", "file"]),
        st.sampled_from(["http", "http", "https", "x-s", "HTTP"]),
        st.sampled_from(["a.example", "a.example", "b.example", None,
                         "u@a.example:81"]),
        st.sampled_from(["a.example", "a.example", "b.example", None]),
        tree_paths(), ug.query(), ug.fragment(), ug.query(),
        st.sampled_from(["same", "same", "same", "any"]),
        st.sampled_from([0, 0, 0, 1, 2, 3]))


def check_relative(case, c):
    s1, s2, a1, a2, t, q, f, bq, same, bare = case
    p1, p2 = build(t)
    if same == "same":
        s2, a2 = s1, a1
    if p1.startswith("//") and a1 is None or \
            p2.startswith("//") and a2 is None:
        return
    if bare & 1 and a1 is not None:
        p1 = ""
    if bare & 2 and a2 is not None:
        p2 = ""
    us = ug.comps_str((s1, a1, p1, q, f))
    bs = ug.comps_str((s2, a2, p2, bq, None))
    u = uri.URI.from_octets(us)
    b = uri.URI.from_octets(bs)
    c.label(same, "bare" if bare else "paths")
    try:
        r = u.relative(b)
    except uri.URIRelativeError:
        # (base more specified than the URI)
        ok(a1 is None and a2 is not None or not p1, "no relative form", us,
           bs)
        return
    c.nontrivial(r.scheme is None and p1 != p2)
    if s1 == s2 or s1.lower() != s2.lower():
        eq(str(r.resolve(b)), us, "relative then resolve", us, bs, str(r))
    else:
        # the result takes the spelling of the base's scheme
        ok(r.resolve(b) == u, "relative then resolve", us, bs, str(r))
    eq(str(u.relative(bs)), str(r), "relative to a string", us)
    if s1.lower() != s2.lower():
        eq(str(r), us, "different schemes", us, bs)
    elif same == "same" and p1 and p2 and a1:
        ok(r.scheme is None and r.authority is None,
           "relative reference expected", us, bs, str(r))


def relrel_cases():
    """Relative references with leading '..' segments"""
    def p(t):
        n, segs, d = t
        return "/".join([".."] * n + list(segs) + ([""] if d or (
            not segs) else []))
    path = st.tuples(st.integers(0, 3), st.lists(
        st.sampled_from(["a", "b", "c", "a;p", "%20"]), min_size=0,
        max_size=4), st.booleans()).map(p).map(lambda s: s or "./")
    return st.tuples(path, path, ug.query(), ug.fragment())


def check_relrel(case, c):
    p1, p2, q, f = case
    us = ug.comps_str((None, None, p1, q, f))
    u = uri.URI.from_octets(us)
    n1, n2 = p1.split("/").count(".."), p2.split("/").count("..")
    try:
        r = u.relative(p2)
    except uri.URIRelativeError:
        ok(n2 > n1, "no relative form although base has no more leading ..",
           us, p2)
        return
    ok(n2 <= n1, "impossible relative form", us, p2, str(r))
    c.nontrivial(n1 > 0)
    got = r.resolve(p2)
    eq(str(got), us, "relative then resolve", us, p2, str(r))


def assoc_cases():
    return st.tuples(bases(), ug.rel_paths(), ug.rel_paths())


def check_assoc(case, c):
    """(B [*] R1) [*] R2 == B [*] (R1 [*] R2) as documented"""
    b, r1, r2 = case
    # the documented property needs the intermediate references to be
    # writeable and no removal of more segments than there are
    for r in (r1, r2):
        depth = 0
        for s in r.split("/"):
            depth += -1 if s == ".." else 0 if s in (".",) else 1
            if depth < 0:
                return
    segs = (r1 + "/" + r2 + b[2][1:]).split("/")
    if "" in segs or r1.split("/")[-1] in (".", ".."):
        # (a base's last segment is dropped, even if it is "..")
        return
    base = uri.URI.from_octets(ug.comps_str(b))
    u1 = uri.URI.from_octets(r1)
    u2 = uri.URI.from_octets(r2)
    x = u2.resolve(u1.resolve(base))
    y = u2.resolve(u1)
    if y.scheme is not None:
        return
    c.nontrivial(True)
    eq(str(x), str(y.resolve(base)), "associativity", ug.comps_str(b), r1,
       r2, str(y))


PROPS = [
    Prop("resolve", st.tuples(bases(), refs(), st.sampled_from(
        [0, 0, 0, 1])), check_resolve, quick=10000,
        rule="references resolved against bases, compared with the RFC's "
        "algorithm applied literally; non-trivial: has a .. segment"),
    Prop("relative", rel_cases(), check_relative, quick=10000,
         rule="relative(base) then resolve(base) gives the URI back; "
         "non-trivial: a relative path results between different paths"),
    Prop("relative paths", relrel_cases(), check_relrel, quick=6000,
         rule="the same for relative references; non-trivial: leading .."),
    Prop("associative", assoc_cases(), check_assoc, quick=5000,
         rule="resolution is associative for references which stay within "
         "their base"),
]
