"""C10: OData URIs are parsed into the resource path they denote.

URIs are composed from generated paths, keys and options with generated
percent-encodings; the components are the oracle."""
import string

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet.odata2 import core
from pyslet.odata2 import csdl as edm

from vlib import Enum, Prop, eq, fail, ok
from . import edmvals as ev
from . import exprs

KEY_TYPES = ["Binary", "Boolean", "Byte", "DateTime", "DateTimeOffset",
             "Time", "Decimal", "Double", "Single", "Guid", "Int16", "Int32",
             "Int64", "String"]
UNRESERVED = set(string.ascii_letters + string.digits + "-_.!~*'()")
PATH_OK = UNRESERVED | set(":@&=+$,;")
# in a query & and # separate and + may be read as a space
QUERY_OK = UNRESERVED | set("/?:@=$,;")


# -- composing -------------------------------------------------------------

class Coder(object):
    """Percent-encodes with a deterministic stream of choices"""

    def __init__(self, bits):
        self.bits = bits
        self.used = False

    def flip(self, n):
        if not self.bits:
            return False
        self.bits = (self.bits * 1103515245 + 12345) & 0x7fffffff
        return (self.bits >> 8) % n == 0

    def encode(self, s, allowed):
        out = []
        for i, ch in enumerate(s):
            if ch in allowed and not (
                    self.flip(6) and not (ch == '$' and i == 0)):
                out.append(ch)
                continue
            if ch in allowed:
                self.used = True
            for b in ch.encode("utf-8"):
                x = "%%%02X" % b
                out.append(x.lower() if self.flip(2) else x)
        return "".join(out)


def lit(t, p):
    """URI literal text, written independently of pyslet"""
    if t == "Time":
        (h, m, s, k), n = p
        return "time'%02d:%02d:%s'" % (h, m, secs(s, k, n, True))
    if t in ("DateTime", "DateTimeOffset"):
        (y, mo, d), (h, m, s, k), n = p[:3]
        x = "%04d-%02d-%02dT%02d:%02d:%s" % (y, mo, d, h, m,
                                             secs(s, k, n, True))
        if t == "DateTime":
            return "datetime'%s'" % x
        z = p[3]
        x += "Z" if z == 0 else "%s%02d:%02d" % (
            "+" if z > 0 else "-", abs(z) // 60, abs(z) % 60)
        return "datetimeoffset'%s'" % x
    if t in ("Byte", "Int16", "Int32"):
        return str(p)
    return exprs.lit_text(t, p)


def secs(s, k, n, two=False):
    x = ("%02d" if two else "%d") % s
    return x + ".%0*d" % (n, k) if n else x


def lit_type(t):
    return "Int32" if t in ("Byte", "Int16") else t


def same_literal(v, t, p, what):
    eq(v.type_code, ev.CODE[lit_type(t)], "type of %s" % what)
    eq(ev.canon(lit_type(t), v.value), ev.expect(lit_type(t), p),
       "value of %s" % what)


names = st.one_of(
    st.sampled_from(["Products", "Orders", "Customers", "Category", "A", "x1",
                     "under_score", "BestellungenÜ", "日本", "Container.Products",
                     "asc", "eq", "null", "datetime", "count", "links"]),
    st.text(string.ascii_letters, min_size=1, max_size=6))
idents = names.filter(lambda s: "." not in s)


def key_payload(t):
    if t in ("Double", "Single"):
        f = ev.doubles if t == "Double" else ev.singles
        # finite and without an exponent form that the grammar lacks
        return f(False).filter(lambda r: "e" not in r)
    if t == "String":
        return st.one_of(
            st.text("aB1'/%()=,&?#+ é;:@$\"\u20ac\U0001f600.", max_size=8),
            st.sampled_from(["", "'", "''", "%41", "%2F", "a%20b", "a/b",
                             "1,2", "x=1", "),(", "a+b", "%", "%%", "$count",
                             "null", "O'Neil, J=1", "..", ".", "a'),B('"]))
    return ev.payload(t, nonfinite=False)


lits = st.sampled_from(KEY_TYPES).flatmap(
    lambda t: st.tuples(st.just(t), key_payload(t)))


def keys():
    return st.one_of(
        st.none(), st.none(), st.just([]),
        lits.map(lambda l: [("", l)]), lits.map(lambda l: [("", l)]),
        st.tuples(idents, lits).map(lambda x: [x]),
        st.lists(st.tuples(idents, lits), min_size=2, max_size=4,
                 unique_by=lambda x: x[0]))


segs = st.tuples(names, keys())
filters = exprs.Gen([(("Name",), "String"), (("Price",), "Decimal"),
                     (("Nav", "Count"), "Int32"), (("When",), "DateTime"),
                     (("Ok",), "Boolean")], text=key_payload("String"))


def trees(star):
    leaf = st.sampled_from(["A", "Bb", "Orders", "x_", "Ümlaut"])
    paths = st.lists(leaf, min_size=1, max_size=3).map(tuple)
    if star:
        paths = st.one_of(paths, paths.map(lambda p: p + ("*",)),
                          st.just(("*",)))
    # distinct paths, none a prefix of another
    return st.lists(paths, min_size=1, max_size=4, unique=True).filter(
        lambda ps: not any(a != b and b[:len(a)] == a
                           for a in ps for b in ps))


OPTS = {
    "filter": st.tuples(filters.expr("Boolean", 2), st.integers(0, 2 ** 30)),
    "orderby": st.lists(st.tuples(
        st.one_of(filters.expr("Int32", 1), filters.expr("String", 1)),
        st.sampled_from(["", " asc", " desc", " ASC", " Desc", "  desc "])),
        min_size=1, max_size=3),
    "expand": trees(False),
    "select": st.tuples(trees(True), st.booleans()),
    "top": st.integers(0, 10 ** 9),
    "skip": st.integers(0, 10 ** 9),
    "inlinecount": st.sampled_from(["allpages", "none", "AllPages"]),
    "skiptoken": st.text("abc'12,()%&=+ é/", min_size=1, max_size=10),
    "format": st.sampled_from(["json", "atom", "xml", "JSON", "Atom",
                               "application/json",
                               "application/atom+xml;type=entry"])}
FORMATS = {"json": ("application", "json"),
           "atom": ("application", "atom+xml"),
           "xml": ("application", "xml"),
           "application/json": ("application", "json"),
           "application/atom+xml;type=entry": ("application", "atom+xml")}

# the options that may be used with each path option; unrestricted paths are
# only judged by the server, which knows the model
ALLOWED = {"$links": ["format", "skip", "top", "skiptoken", "inlinecount"],
           "$metadata": [], "$batch": [],
           "count1": ["expand", "filter"],
           "$count": ["expand", "filter", "orderby", "skip", "top"]}


def opt_dict(allowed):
    return st.lists(st.sampled_from(allowed), max_size=3, unique=True
                    ).flatmap(lambda ks: st.tuples(
                        *[st.tuples(st.just(k), OPTS[k]) for k in ks]))


def cases():
    plain = st.lists(segs, min_size=0, max_size=4)
    some = st.lists(segs, min_size=1, max_size=3)
    allopts = sorted(OPTS)
    shapes = st.one_of(
        st.tuples(plain, st.none(), st.none(), opt_dict(allopts)),
        st.tuples(some, st.none(), st.none(), opt_dict(allopts)),
        st.tuples(some, st.just("$value"), st.none(), opt_dict(["format"])),
        st.tuples(some, st.just("$count"), st.none(), opt_dict(allopts)),
        st.tuples(some, st.just("$links"), segs, opt_dict(allopts)),
        st.tuples(st.just([]), st.sampled_from(["$metadata", "$batch"]),
                  st.none(), st.one_of(st.just(()), opt_dict(allopts))))
    custom = st.lists(st.tuples(idents.filter(lambda n: n.isascii()), lits),
                      max_size=2, unique_by=lambda x: x[0])
    return st.tuples(
        st.sampled_from(["", "/x.svc", "/OData/OData.svc", "/a%20b/c"]),
        st.sampled_from(["", "http://www.example.com",
                         "https://u@host.example:8443", "relative"]),
        shapes, custom, st.integers(0, 2 ** 30))


def seg_text(seg):
    name, k = seg
    if k is None:
        return name
    return name + "(" + ",".join(
        (n + "=" if n else "") + lit(*l) for n, l in k) + ")"


def tree_dict(paths):
    out = {}
    for p in paths:
        d = out
        for i, n in enumerate(p):
            if i == len(p) - 1:
                d.setdefault(n, None)
            else:
                if d.get(n) is None:
                    d[n] = {}
                d = d[n]
    return out


def opt_text(k, v):
    if k == "filter":
        return exprs.render(v[0], exprs.Style(v[1]))
    if k == "orderby":
        return ",".join(exprs.render(e, exprs.Style()) + d for e, d in v)
    if k == "expand":
        return ",".join("/".join(p) for p in v)
    if k == "select":
        return (" , " if v[1] else ",").join("/".join(p) for p in v[0])
    return str(v)


def same_option(k, v, got):
    if k == "filter":
        e = core.CommonExpression.from_str(opt_text(k, v))
        ok(isinstance(got, core.CommonExpression), "filter", got)
        eq(str(got), str(e), "filter")
    elif k == "orderby":
        eq(len(got), len(v), "number of orderings")
        for (e, d), (ge, gd) in zip(v, got):
            eq(gd, -1 if d.strip().lower() == "desc" else 1, "direction")
            eq(str(ge), str(core.CommonExpression.from_str(
                exprs.render(e, exprs.Style()))), "order expression")
    elif k == "expand":
        eq(got, tree_dict(v), "expand")
    elif k == "select":
        eq(got, tree_dict(v[0]), "select")
    elif k in ("top", "skip"):
        eq(got, v, k)
    elif k == "inlinecount":
        eq(got, core.InlineCount.from_str_lower(v.lower()), k)
        eq(core.InlineCount.to_str(got).lower(), v.lower(), k)
    elif k == "skiptoken":
        eq(got, v, k)
    else:
        eq([(r.range.type, r.range.subtype) for r in got],
           [FORMATS[v if "/" in v else v.lower()]], "format")


def check_parse(case, c):
    prefix, root, (path, opt, link, opts), custom, bits = case
    coder = Coder(bits)
    texts = [coder.encode(seg_text(s), PATH_OK) for s in path]
    if opt:
        texts.append(opt)
    if link:
        texts.append(coder.encode(seg_text(link), PATH_OK))
    q = ["$%s=%s" % (k, coder.encode(opt_text(k, v), QUERY_OK))
         for k, v in opts]
    cust = ["%s=%s" % (n, coder.encode(lit(*l), QUERY_OK))
            for n, l in custom]
    # interleave the custom options
    q = [x for i in range(max(len(q), len(cust)))
         for x in q[i:i + 1] + cust[i:i + 1]]
    query = "?" + "&".join(q) if q else ""
    p = "/".join(texts)
    if root == "relative":
        if not texts or ":" in texts[0] or texts[0][:1] == "/":
            root = ""
    s = (p if root == "relative" else root + prefix + "/" + p) + query
    key = "count1" if opt == "$count" and path[-1][1] else opt
    refused = [k for k, v in opts if opt in ("$links", "$metadata", "$batch",
                                             "$count") and
               k not in ALLOWED[key]]
    nt = coder.used or any(k for n, k in path) or opts or opt
    try:
        u = core.ODataURI(s, prefix)
    except core.InvalidSystemQueryOption:
        if refused:
            c.label("option refused")
            c.nontrivial()
            return
        raise
    if refused:
        fail("options accepted that cannot be used", refused, opt, s)
    if nt:
        c.nontrivial()
    c.label(opt or "path")
    if coder.used:
        c.label("encoded")
    if root != "relative":
        eq(u.resource_path, "/" + p, "resource path", s)
    eq(u.path_prefix, prefix, "prefix")
    want = list(path) + ([link] if link else [])
    eq([x[0] for x in u.nav_path], [x[0] for x in want], "names", s)
    for (gn, gk), (n, k) in zip(u.nav_path, want):
        if k is None:
            ok(gk is None, "key found where there is none", n, gk, s)
            continue
        ok(gk is not None, "key missing", n, s)
        eq(sorted(gk), sorted(x[0] for x in k), "key names", s)
        for kn, (t, pl) in k:
            same_literal(gk[kn], t, pl, "key %s of %s in %s" % (kn, n, s))
            c.label("key " + t)
    eq(u.path_option, None if opt is None else getattr(
        core.PathOption, opt[1:]), "path option", s)
    eq(u.links_property, link[0] if link else None, "links property")
    eq(sorted(core.SystemQueryOption.to_str(k) for k in u.sys_query_options),
       sorted(k for k, v in opts), "system query options", s)
    for k, v in opts:
        same_option(k, v, u.sys_query_options[
            getattr(core.SystemQueryOption, k)])
        c.label("$" + k)
    eq(u.query_options, cust, "custom query options", s)
    for n, (t, pl) in custom:
        same_literal(u.get_param_value(n), t, pl, "parameter %s" % n)
    ok(u.get_param_value("absentparam").value is None, "absent parameter")


# -- formatting keys -------------------------------------------------------

def key_dicts():
    return st.one_of(
        lits.map(lambda l: [("", l)]),
        st.lists(st.tuples(idents, lits), min_size=1, max_size=4,
                 unique_by=lambda x: x[0]))


def check_format(case, c):
    items, = case
    d = {}
    for n, (t, p) in items:
        v = ev.make(t, p, True, n or "K")
        d[n] = v
    s = core.ODataURI.format_key_dict(d)
    ok(s.isascii() and not set(s) & set("/?# \"<>{}|\\^`"),
       "key is not fit for a path segment", s)
    for name in ("Set", "S%C3%A9"):
        u = core.ODataURI("/svc/%s%s/Nav?x=1" % (name, s), "/svc")
        eq([x[0] for x in u.nav_path],
           [uri.unescape_data(name).decode("utf-8"), "Nav"], "path")
        k = u.nav_path[0][1]
        ok(k is not None, "no key parsed", s)
        if len(items) == 1:
            eq(list(k), [""], "key names", s)
            same_literal(k[""], items[0][1][0], items[0][1][1], "key in " + s)
        else:
            eq(sorted(k), sorted(n for n, l in items), "key names", s)
            for n, (t, p) in items:
                same_literal(k[n], t, p, "key %s in %s" % (n, s))
    c.label(len(items))
    if len(items) > 1 or items[0][1][0] in ("String", "Binary", "Guid") or (
            items[0][1][0].startswith("Date")):
        c.nontrivial()
    # the query form is an expression equivalent to the key
    names = dict((n or "K", l) for n, l in items)
    q = core.ODataURI.key_dict_to_query(
        dict((n or "K", v) for n, v in d.items()))
    e = core.CommonExpression.from_str(q)
    eq(str(core.CommonExpression.from_str(str(e))), str(e),
       "query for key", names)


# -- ownership -------------------------------------------------------------

def check_prefix(case, c):
    prefix, tail, query = case
    s = prefix[0] + tail + query
    owned = tail == "" or tail[0] == "/"
    u = core.ODataURI(s, prefix[0])
    if owned:
        eq(u.resource_path, tail, "resource path", s, prefix)
    else:
        c.nontrivial()
        ok(u.resource_path is None and not u.nav_path,
           "path taken to be under the prefix", s, prefix, u.resource_path,
           u.nav_path)
    c.label("owned" if owned else "not owned")
    other = core.ODataURI("/zz" + s, prefix[0])
    ok(other.resource_path is None, "path taken to be under the prefix", "/zz" + s,
       prefix)


prefixes = st.tuples(
    st.sampled_from(["/x.svc", "/OData/OData.svc", "/a"]).map(lambda x: (x,)),
    st.one_of(st.sampled_from(["", "/", "/Products", "/Products(1)", "foo",
                               "foo/Products", "2", ".x/Products", "(1)",
                               "/a/b"]),
              st.text("/abX", max_size=5).filter(
                  lambda t: "//" not in t and (not t.endswith("/") or
                                               t == "/"))),
    st.sampled_from(["", "?x=1"]))


# -- malformed -------------------------------------------------------------

BAD_PATHS = [
    "$unknown", "Products/$foo", "Products(1)/$links",
    "$links/Orders", "$links", "Products(1)/$links/$count",
    "Products(1)/$links/$links/Orders", "Products(1)/$links/Orders/Items",
    "Products(1)/$links/Orders/$links/Items",
    "Products/$count/x", "Products/$count/$value", "Products(1)/$value/x",
    "Products(1)/$value/$count", "Products/$count/$links/x",
    "Products/$metadata", "Products/$batch", "Products(1)/Nav/$metadata",
    "$metadata/Products", "$batch/x", "$metadata/$count", "$metadata/$value",
    "$metadata/$metadata", "$batch/$links/x",
    "Products(1,2)", "Products(a=1,2)", "Products(1,b=2)", "Products(a=1,,b=2)",
    "Products(,1)", "Products(datetime'x')", "Products(guid'12')",
    "Products(X'0')", "Products(X'ZZ')", "Products(a=)", "Products(1x)",
    "Products('a)", "Products(a')", "Products('a''')'x)", "Products(a)",
    "Products(1)/Nav('x)", "Products(a='1'2)", "Products(1%202)",
    "Products('a'%20'b')", "Products(99999999999)", "Products(time'x')",
    "Products(1.5.2M)", "Products(-)", "Products(nul)", "Products('%FF')",
    "Products%FF(1)", "%C3%28/x"]
BAD_QUERIES = [
    "$unknown=1", "$=1", "$filter", "$filter=", "$filter=Name%20eq",
    "$filter=(Name%20eq%201", "$filter=Name%20eq%20'a", 
    "$filter=Name%20=%201", "$filter=1%20eq%201)", "$filter=foo(",
    "$filter=length(Name", "$filter=Name%20eq%201,2", "$filter=not",
    "$filter=Name%20eq%20%FF",
    "$orderby=", "$orderby=Name,", "$orderby=Name%20up", "$orderby",
    "$orderby=Name%20asc%20desc", "$orderby=desc,,Name",
    "$top=", "$top=x", "$top=1.5", "$top=1,2", "$top", "$top=1x", "$top=-1",
    "$skip=", "$skip=x", "$skip=0x1", "$skip", "$skip=-1",
    "$inlinecount=", "$inlinecount=some", "$inlinecount=allpages,none",
    "$inlinecount",
    "$expand=", "$expand=A,", "$expand=A//B", "$expand=/A", "$expand=A/",
    "$expand=A%20B", "$expand=(A)", "$expand", "$expand=*", "$expand=A,,B",
    "$select=", "$select=A,", "$select=A//B", "$select=A/", "$select=*/A",
    "$select=A%20B", "$select", "$select=1", "$select=A,,B",
    "$format=yaml", "$format=", "$Top=1", "$FILTER=true"]


def bad_cases():
    out = [("p", x, pre) for x in BAD_PATHS for pre in ("", "/x.svc")]
    out += [("q", x, p, pad) for x in BAD_QUERIES
            for p in ("Products", "Products(1)/Nav", "")
            for pad in ("", "a=1&", "$top=1&" if not
                        x.startswith("$top") else "$skip=1&")]
    bad = [("$links", "Products(1)/$links/Nav"), ("$count", "Products/$count"),
           ("count1", "Products(1)/$count"), ("$metadata", "$metadata"),
           ("$batch", "$batch")]
    vals = {"filter": "true", "orderby": "Name", "expand": "A", "select": "A",
            "top": "1", "skip": "1", "inlinecount": "none", "skiptoken": "x",
            "format": "json"}
    for k, p in bad:
        for o in sorted(OPTS):
            if o not in ALLOWED[k]:
                out.append(("q", "$%s=%s" % (o, vals[o]), p, ""))
    return out


def check_bad(case, c):
    c.nontrivial()
    if case[0] == "p":
        s, prefix = case[2] + "/" + case[1], case[2]
    else:
        s, prefix = "/x.svc/%s?%s%s" % (case[2], case[3], case[1]), "/x.svc"
    c.label(case[0])
    try:
        u = core.ODataURI(s, prefix)
    except (core.ServerError, ValueError):
        return
    fail("malformed URI accepted", s, u.nav_path,
         u.path_option, u.sys_query_options)


fuzz = st.one_of(
    st.tuples(st.sampled_from(BAD_PATHS + ["Products(1)", "A('x')/B(2)"]),
              st.sampled_from(BAD_QUERIES + ["$filter=Name%20eq%20'x'"])),
    st.tuples(st.text("A1'()=,/$%2F4xX.cdlinks -", max_size=14),
              st.text("$filtertopabc=&%20'()1,/ ", max_size=14))).flatmap(
    lambda t: st.tuples(
        st.just(t[0]), st.just(t[1]), st.lists(st.tuples(
            st.integers(0, 30), st.sampled_from(list("'(),=$/%1aX&+ ") + [
                "%", "%2", "%80", "$value", "//", "null", ""])), max_size=3)))


def check_fuzz(case, c):
    p, q, edits = case
    s = "/" + p + "?" + q
    for pos, x in edits:
        pos = 1 + pos % len(s)
        s = s[:pos] + x + s[pos + (not x):]
    try:
        core.ODataURI(s)
        c.label("accepted")
    except (core.ServerError, ValueError, uri.URIException):
        c.label("refused")
        c.nontrivial()


PROPS = [
    Prop("parse", cases(), check_parse, quick=6000, thorough=150000,
         rule="has a key, an option, a path option or an optional "
         "percent-encoding"),
    Prop("format", st.tuples(key_dicts()), check_format, quick=4000,
         thorough=60000, rule="composite key, or one of a quoted type"),
    Prop("prefix", prefixes, check_prefix, quick=600, thorough=6000,
         rule="the prefix is not followed by / or the end of the path"),
    Enum("malformed", bad_cases, check_bad, rule="all: each must be refused"),
    Prop("fuzz", fuzz, check_fuzz, quick=3000, thorough=100000,
         rule="refused"),
]
