"""C29: HTTP header values are parsed and negotiated per RFC 2616."""
import datetime
import string

from hypothesis import strategies as st

from pyslet import iso8601
from pyslet import rfc2396
from pyslet.http import grammar, messages, params

from vlib import Prop, eq, ok, fail, Discard
from . import gens

PROPERTY = "C29"

ALPHA = string.ascii_letters
TOKEN = ALPHA + string.digits + "!#$%&'+-.^_`|"
SEPARATORS = b'()<>@,;:\\"/[]?={} \t'

token = st.one_of(
    st.sampled_from(["a", "b", "B", "x-1", "text", "level", "utf-8", "0",
                     "1.5", "A", "charset", "q1", "*"[:0] + "gzip"]),
    st.text(st.sampled_from(TOKEN), min_size=1, max_size=4))
# names that q is not one of
pname = token.filter(lambda t: t.lower() != "q")
bvalue = st.one_of(
    token.map(lambda t: t.encode()), token.map(lambda t: t.encode()),
    st.binary(max_size=5),
    st.lists(st.sampled_from([b"a", b" ", b"\t", b'"', b"\\", b",", b";",
                              b"=", b"\r", b"\n", b"\r\n ", b"\x7f", b"\xe9",
                              b"(", b")", b"/"]), max_size=5).map(b"".join))
plist = st.lists(st.tuples(pname, bvalue), max_size=3,
                 unique_by=lambda t: t[0].lower())
qvals = st.sampled_from([None, None, 1000, 0, 1, 5, 10, 100, 250, 300, 500,
                         500, 700, 999])
# bits that select the spelling of a value: white space, quoting, case
spell = st.lists(st.integers(0, 7), max_size=12)


class Speller(object):
    """Writes header values in one of their spellings"""

    def __init__(self, bits):
        self.bits = list(bits)
        self.n = 0

    def bit(self, n):
        if not self.bits:
            return 0
        self.n += 1
        return self.bits[self.n % len(self.bits)] % n

    def lws(self):
        """where implied LWS is allowed"""
        return [b"", b"", b"", b" ", b"", b"  ", b"\t", b"\r\n "][self.bit(8)]

    def case(self, s):
        return [s, s, s.upper(), s.lower(), s.title()][self.bit(5)]

    def value(self, v):
        """a parameter value"""
        if v and all(33 <= b < 127 and b not in SEPARATORS for b in v) and \
                self.bit(3):
            return v
        r = b'"'
        for b in v:
            if b in b'"\\' or b == 127 or (b < 32 and b != 9) or (
                    b < 128 and not self.bit(7) and self.bits):
                r += b"\\"
            r += bytes([b])
        return r + b'"'

    def params(self, ps, tight=False, more=b""):
        r = b""
        for n, v in ps:
            w = b"" if tight else None
            r += self.lws() + b";" + self.lws() + self.case(n).encode() + (
                self.lws() if w is None else w) + b"=" + (
                self.lws() if w is None else w) + self.value(v)
        return r

    def q(self, q):
        if q is None:
            return b""
        s = "%.3f" % (q / 1000.0)
        n = self.bit(4)
        if n == 1:
            s = s.rstrip("0")
        elif n == 2:
            s = s.rstrip("0").rstrip(".")
        elif n == 3 and s.endswith("00"):
            s = s[:-2]
        return self.lws() + b";" + self.lws() + (
            b"Q" if self.bit(3) == 2 else b"q") + self.lws() + b"=" + \
            self.lws() + s.encode()

    def join(self, items):
        r = []
        for i in items:
            r.append(self.lws() + i + self.lws())
        return b",".join(r)


def pdict(ps):
    return dict((n.lower(), v) for n, v in ps)


def got_params(d):
    return dict((k, v[1]) for k, v in d.items())


def native(cls, text, how):
    """text is parsed from binary and (ASCII) character strings"""
    f = getattr(cls, how)
    r = f(text)
    if all(b < 128 for b in text):
        s = f(text.decode("ascii"))
        if how == "from_str" and hasattr(r, "sortkey"):
            ok(s == r, "differs for character strings", text)
    return r


def same(a, b, *args):
    """two equal sortable parameters"""
    ok(a == b, "not equal", str(a), str(b), *args)
    ok(not a != b, "!= of equal values", str(a), *args)
    ok(a <= b and a >= b and not a < b and not a > b,
       "ordering of equal values", str(a), *args)
    eq(hash(a), hash(b), "hash of equal values", str(a), *args)


# -- values

values = st.one_of(
    st.tuples(st.just("media"), token, token, plist),
    st.tuples(st.just("media"), token, token, plist),
    st.tuples(st.just("range"), token, token, plist,
              st.integers(0, 3)),
    st.tuples(st.just("te"), token, plist),
    st.tuples(st.just("telist"), st.lists(st.tuples(token, plist),
                                          min_size=1, max_size=3)),
    st.tuples(st.just("chunk"), st.one_of(
        st.integers(0, 20), st.integers(0, 2 ** 40)), plist),
    st.tuples(st.just("version"), st.integers(0, 30), st.integers(0, 300)),
    st.tuples(st.just("etag"), bvalue, st.booleans()),
    st.tuples(st.just("product"), token, st.one_of(st.none(), token)),
    st.tuples(st.just("lang"), st.lists(
        st.text(st.sampled_from(ALPHA + string.digits), min_size=1,
                max_size=8), min_size=1, max_size=4)),
    st.tuples(st.just("accept"), token, token, plist, qvals, plist),
    st.tuples(st.just("token"), token, qvals),
    st.tuples(st.just("crange"), st.one_of(st.none(), st.tuples(
        st.integers(0, 30), st.integers(0, 30))), st.one_of(
            st.none(), st.integers(0, 30))),
    st.tuples(st.just("ranges"), st.lists(token, max_size=3)),
    st.tuples(st.just("allow"), st.lists(token, max_size=4), token),
    st.tuples(st.just("cc"), st.lists(st.tuples(token, st.one_of(
        st.none(), st.integers(0, 10 ** 9),
        token.filter(lambda t: not t.isdigit()),
        st.lists(token, min_size=1, max_size=3).map(tuple))),
        min_size=1, max_size=3, unique_by=lambda t: t[0].lower())),
)


def check_value(case, c):
    v, bits = case
    kind = v[0]
    c.label(kind)
    sp = Speller(bits)
    plain = Speller([])
    if kind in ("media", "range", "te", "chunk"):
        check_simple(v, sp, c)
        return
    if kind == "telist":
        text = sp.join(t.encode() + sp.params(ps if t.lower() != "chunked"
                                              else []) for t, ps in v[1])
        got = params.TransferEncoding.list_from_str(text)
        eq([(t.token, got_params(t.parameters)) for t in got],
           [(t.lower(), pdict(ps) if t.lower() != "chunked" else {})
            for t, ps in v[1]], "transfer encodings", text)
        back = params.TransferEncoding.list_from_str(
            ", ".join(str(t) for t in got)) if ascii_only(v) else got
        eq(len(back), len(got), "transfer encodings reparsed", text)
        for a, b in zip(got, back):
            same(a, b, text)
        c.nontrivial(len(got) > 1)
    elif kind == "version":
        text = sp.lws() + b"HTTP" + sp.lws() + b"/" + sp.lws() + (
            "%i.%i" % v[1:]).encode()
        got = native(params.HTTPVersion, text, "from_str")
        eq((got.major, got.minor), v[1:], "version", text)
        back = params.HTTPVersion.from_str(str(got))
        same(got, back, text)
        eq(str(got), "HTTP/%i.%i" % v[1:], "format")
        eq(got < params.HTTP_1p1, v[1:] < (1, 1), "order", text)
        eq(got > params.HTTP_1p0, v[1:] > (1, 0), "order", text)
        c.nontrivial()
    elif kind == "etag":
        tag, weak = v[1:]
        plain.bits = sp.bits
        text = sp.lws() + (b"W" + sp.lws() + b"/" + sp.lws() if weak
                           else b"") + quoted(sp, tag) + sp.lws()
        got = native(params.EntityTag, text, "from_str")
        eq((got.tag, got.weak), (tag, weak), "entity tag", text)
        same(got, params.EntityTag.from_str(got.to_bytes()), text)
        same(got, params.EntityTag(tag, weak), text)
        ok(isinstance(repr(got), str), "repr")
        c.nontrivial(len(tag) > 1)
    elif kind == "product":
        t, ver = v[1:]
        text = sp.lws() + t.encode() + (
            sp.lws() + b"/" + sp.lws() + ver.encode() if ver else b"")
        got = native(params.ProductToken, text, "from_str")
        eq((got.token, got.version), (t, ver), "product", text)
        same(got, params.ProductToken.from_str(str(got)), text)
        two = params.ProductToken.list_from_str(text + b" x/1 " + str(
            got).encode())
        eq([str(i) for i in two], [str(got), "x/1", str(got)],
           "list of products", text)
        c.nontrivial(ver is not None)
    elif kind == "lang":
        text = "-".join(v[1]).encode()
        got = native(params.LanguageTag, sp.lws() + text + sp.lws(),
                     "from_str")
        eq((got.primary,) + got.subtags, tuple(v[1]), "language", text)
        same(got, params.LanguageTag.from_str(sp.case(str(got))), text)
        low = tuple(t.lower() for t in v[1])
        for i in range(len(low) + 1):
            ok(got.partial_match(low[:i]), "matches its prefix", text, i)
        for other in (low + ("x",), low[:-1] + (low[-1] + "x",),
                      ("zz9",) + low[1:]):
            ok(not got.partial_match(other), "matches", text, other)
        lst = params.LanguageTag.list_from_str(sp.join([text, b"en", text]))
        eq([str(i) for i in lst], [text.decode(), "en", text.decode()],
           "list of languages", text)
        c.nontrivial(len(low) > 1)
    elif kind == "accept":
        t, s, ps, q, ext = v[1:]
        if q is None:
            ext = []
        text = sp.lws() + t.encode() + b"/" + s.encode() + sp.params(
            ps, True) + sp.q(q) + sp.params(ext) + sp.lws()
        got = native(messages.AcceptItem, text, "from_str")
        eq((got.range.type, got.range.subtype, got_params(
            got.range.parameters), got.q, got_params(got.params)),
            (t.lower(), s.lower(), pdict(ps), 1.0 if q is None else
             q / 1000.0, pdict(ext)), "accept item", text)
        back = messages.AcceptItem.from_str(got.to_bytes())
        same(got, back, text)
        eq(got_params(back.params), pdict(ext), "accept extensions", text)
        c.nontrivial(q is not None)
    elif kind == "token":
        t, q = v[1:]
        text = sp.lws() + t.encode() + sp.q(q) + sp.lws()
        for cls in (messages.AcceptToken, messages.AcceptCharsetItem,
                    messages.AcceptEncodingItem):
            got = native(cls, text, "from_str")
            eq((type(got), got.token, got.q),
               (messages.AcceptToken if cls is messages.AcceptToken
                else type(got), t, 1.0 if q is None else q / 1000.0),
               "accept token", text)
            same(got, cls.from_str(str(got)), text)
        c.nontrivial(q is not None)
    elif kind == "crange":
        r, total = v[1:]
        text = b"bytes " + (b"*" if r is None else b"%i-%i" % r) + \
            sp.lws() + b"/" + sp.lws() + (
                b"*" if total is None else b"%i" % total)
        got = native(messages.ContentRange, text, "from_str")
        for g in (got, messages.ContentRange.from_str(str(got)),
                  messages.ContentRange(*((r or (None, None)) + (total,)))):
            eq((g.first_byte, g.last_byte, g.total_len),
               (r or (None, None)) + (total,), "content range", text)
            valid = r is not None and r[0] <= r[1] and (
                total is None or r[1] < total)
            eq(g.is_valid(), valid, "validity", text)
            try:
                n = len(g)
            except ValueError:
                n = None
            eq(n, r[1] - r[0] + 1 if r is not None and r[1] >= r[0]
               else None, "length", text)
        c.nontrivial(r is not None)
    elif kind == "ranges":
        items = [t for t in v[1] if t.lower() != "none"]
        text = sp.join([t.encode() for t in items]) if items else \
            sp.case("none").encode()
        got = native(messages.AcceptRanges, text, "from_str")
        eq(list(got), [t.encode() for t in items], "range units", text)
        eq(len(got), len(items), "length", text)
        same(got, messages.AcceptRanges.from_str(str(got)), text)
        c.nontrivial(len(items) > 1)
    elif kind == "allow":
        text = sp.join([sp.case(t).encode() for t in v[1]])
        got = native(messages.Allow, text, "from_str")
        eq(list(got), [t.upper().encode() for t in v[1]], "methods", text)
        same(got, messages.Allow.from_str(str(got)), text)
        same(got, messages.Allow(*v[1]), text)
        for t in v[1] + [v[2]]:
            eq(got.is_allowed(sp.case(t)),
               t.upper() in [x.upper() for x in v[1]], "is_allowed", t, text)
        c.nontrivial(len(v[1]) > 1)
    elif kind == "cc":
        cc = messages.CacheControl(*[
            d if x is None else (d, x) for d, x in v[1]])
        check_cc(cc, v[1], "built")
        m = messages.Response(messages.Request())
        m.set_cache_control(cc)
        back = m.get_cache_control()
        text = m.get_header("Cache-Control")
        eq(len(back), len(cc), "number of directives", text)
        for d, x in v[1]:
            ok(d in back, "directive lost", d, text)
            y = back[d]
            # numbers and lists may be given as their text
            eq(flat(y), flat(x), "directive", d, text)
        text = sp.join([
            d.encode() + (b"" if x is None else sp.lws() + b"=" + sp.lws() +
                          (quoted(sp, b", ".join(i.encode() for i in x))
                           if isinstance(x, tuple)
                           else sp.value(str(x).encode())))
            for d, x in v[1]])
        back = messages.CacheControl.from_str(text)
        for d, x in v[1]:
            eq(flat(back[d]), flat(x), "directive parsed", d, text)
        c.nontrivial(len(v[1]) > 1)


def flat(x):
    if x is None:
        return None
    if isinstance(x, bytes):
        x = x.decode("iso-8859-1")
    if isinstance(x, (tuple, list)):
        return ",".join(flat(i) for i in x)
    return str(x).replace(", ", ",")


def check_cc(cc, items, *args):
    eq(len(cc), len(items), "number of directives", *args)
    for i, (d, x) in enumerate(items):
        ok(d in cc and d.upper() in cc, "directive missing", d, *args)
        eq(cc[d], x, "directive", d, *args)


def ascii_only(v):
    if isinstance(v, bytes):
        return all(b < 128 for b in v)
    if isinstance(v, (tuple, list)):
        return all(ascii_only(i) for i in v)
    return True


def quoted(sp, v):
    r = b'"'
    for b in v:
        if b in b'"\\' or b == 127 or (b < 32 and b != 9) or (
                b < 128 and sp.bits and not sp.bit(7)):
            r += b"\\"
        r += bytes([b])
    return r + b'"'


def check_simple(v, sp, c):
    kind = v[0]
    ps = v[1 if kind == "x" else 3 if kind in ("media", "range") else 2]
    if kind == "media":
        cls, head = params.MediaType, (v[1].lower(), v[2].lower())
        text = sp.lws() + sp.case(v[1]).encode() + b"/" + sp.case(
            v[2]).encode() + sp.params(ps, True) + sp.lws()
        attr, pattr = ("type", "subtype"), "parameters"
        built = cls(v[1], v[2], dict((n.lower(), (n, x)) for n, x in ps))
    elif kind == "range":
        t, s = v[1:3]
        if v[4] == 1:
            s, ps = "*", []
        elif v[4] == 2:
            t, s, ps = "*", "*", []
        cls, head = messages.MediaRange, (t.lower(), s.lower())
        text = sp.lws() + sp.case(t).encode() + b"/" + sp.case(
            s).encode() + sp.params(ps, True) + sp.lws()
        attr, pattr = ("type", "subtype"), "parameters"
        built = cls(t.lower(), s.lower(), dict((n.lower(), (n, x))
                                               for n, x in ps))
    elif kind == "te":
        if v[1].lower() == "chunked":
            ps = []
        cls, head = params.TransferEncoding, (v[1].lower(),)
        text = sp.lws() + sp.case(v[1]).encode() + sp.params(ps) + sp.lws()
        attr, pattr = ("token",), "parameters"
        built = cls(v[1], dict((n.lower(), (n, x)) for n, x in ps))
    else:
        cls, head = params.Chunk, (v[1],)
        text = sp.lws() + sp.case("%x" % v[1]).encode() + sp.params(ps) + \
            sp.lws()
        attr, pattr = ("size",), "extensions"
        built = cls(v[1], dict((n.lower(), (n, x)) for n, x in ps))
    got = native(cls, text, "from_str")
    eq(tuple(getattr(got, a) for a in attr), head, kind, text)
    eq(got_params(getattr(got, pattr)), pdict(ps), kind + " parameters", text)
    same(got, built, text)
    back = cls.from_str(got.to_bytes())
    same(got, back, text)
    eq(got_params(getattr(back, pattr)), pdict(ps), "parameters reparsed",
       got.to_bytes(), text)
    eq(bytes(got), str(got).encode("iso-8859-1"), "bytes and str", text)
    if kind == "media":
        for n, x in ps:
            eq(got[n.lower()], x, "parameter", n, text)
        if ps:
            # white space around "=" must be refused
            n, x = ps[0]
            for bad in (b" =", b"= "):
                t2 = v[1].encode() + b"/" + v[2].encode() + b";" + \
                    n.encode() + bad + sp.value(x)
                try:
                    got = cls.from_str(t2)
                except ValueError:
                    continue
                fail("white space around = accepted", t2)
    c.nontrivial(bool(ps))


# -- negotiation

ttype = st.sampled_from(["text", "image", "a", "Text"])
tsub = st.sampled_from(["plain", "html", "b", "Plain"])
tparams = st.lists(st.sampled_from(
    [("charset", b"utf-8"), ("level", b"1"), ("level", b"2"),
     ("Charset", b"UTF-8"), ("x", b""), ("x", b"a b")]), max_size=2,
    unique_by=lambda t: t[0].lower())
trange = st.one_of(
    st.tuples(ttype, tsub, tparams), st.tuples(ttype, tsub, tparams),
    st.tuples(ttype, st.just("*"), st.just([])),
    st.just(("*", "*", [])))
accept_cases = st.tuples(
    st.lists(st.tuples(trange, qvals), min_size=1, max_size=6),
    st.lists(st.tuples(ttype, tsub, tparams), max_size=5), spell)


def range_key(r):
    return (r[0].lower(), r[1].lower(), tuple(sorted(
        (n.lower(), v) for n, v in r[2])))


def range_matches(r, m):
    if r[0] == "*":
        return True
    if r[0].lower() != m[0].lower():
        return False
    if r[1] == "*":
        return True
    if r[1].lower() != m[1].lower():
        return False
    have = pdict(m[2])
    return all(have.get(n.lower()) == v for n, v in r[2])


def specificity(r):
    return (r[0] != "*", r[1] != "*", len(r[2]))


def check_accept(case, c):
    items, types, bits = case
    sp = Speller(bits)
    text = sp.join([
        r[0].encode() + b"/" + r[1].encode() + sp.params(r[2], True) +
        sp.q(q) for r, q in items])
    al = messages.AcceptList.from_str(text)
    eq(len(al), len(items), "number of ranges", text)
    again = messages.AcceptList.from_str(str(al))
    mtypes = [params.MediaType(
        t, s, dict((n.lower(), (n, v)) for n, v in ps))
        for t, s, ps in types]
    best, bestq = None, 0
    ambiguous = False
    for m, mt in zip(types, mtypes):
        matches = [(specificity(r), range_key(r),
                    1000 if q is None else q) for r, q in items
                   if range_matches(r, m)]
        if not matches:
            continue
        top = max(x[0] for x in matches)
        qs = {}
        for s, k, q in matches:
            if s == top:
                qs[k] = max(qs.get(k, 0), q)
        if len(set(qs.values())) > 1:
            # several ranges, neither is more specific
            ambiguous = True
            continue
        q = list(qs.values())[0]
        if q > bestq:
            best, bestq = mt, q
    for a in (al, again):
        for one, m in zip(mtypes, types):
            matching = [i for i in a if i.range.match_media_type(one)]
            eq(len(matching), sum(range_matches(r, m) for r, q in items),
               "ranges that match", text, str(one))
        got = a.select_type(mtypes)
        if ambiguous:
            c.label("ambiguous")
            continue
        ok(got is best, "selected", str(got), str(best), text,
           [str(m) for m in mtypes])
    c.nontrivial(len(items) > 1 and best is not None)


atoken = st.sampled_from(["gzip", "GZIP", "compress", "identity", "utf-8",
                          "UTF-8", "iso-8859-1", "ISO-8859-1", "x", "a"])
tokens_cases = st.tuples(
    st.sampled_from(["charset", "encoding", "plain"]),
    st.lists(st.tuples(st.one_of(atoken, atoken, st.just("*")), qvals),
             max_size=5, unique_by=lambda t: t[0].lower()),
    st.lists(atoken, max_size=5), spell)
CLASSES = {"charset": messages.AcceptCharsetList,
           "encoding": messages.AcceptEncodingList,
           "plain": messages.AcceptTokenList}


def check_tokens(case, c):
    kind, items, tokens, bits = case
    sp = Speller(bits)
    text = sp.join([t.encode() + sp.q(q) for t, q in items])
    cls = CLASSES[kind]
    al = cls.from_str(text)
    eq(sorted((i.token, i.q) for i in al),
       sorted((t, 1.0 if q is None else q / 1000.0) for t, q in items),
       "items", text)
    again = cls.from_str(al.to_bytes())
    table = dict((t.lower(), 1000 if q is None else q) for t, q in items)
    best, bestq = None, 0
    for t in tokens:
        q = table.get(t.lower(), table.get("*"))
        if q is None:
            if kind == "charset" and t.lower() == "iso-8859-1":
                q = 1000
            elif kind == "encoding" and t.lower() == "identity":
                # acceptable, less than anything with a quality
                q = 0.5
            else:
                q = 0
        if q > bestq:
            best, bestq = t, q
    for a in (al, again):
        eq(a.select_token(tokens), best, "selected", text, tokens)
    c.nontrivial(len(items) > 1 and best is not None)


ltag = st.sampled_from(["en", "EN", "en-us", "en-US", "en-gb", "fr", "i-x",
                        "en-us-x", "enx", "de"])
lang_cases = st.tuples(
    st.lists(st.tuples(st.one_of(ltag, ltag, st.just("*")), qvals),
             max_size=5, unique_by=lambda t: t[0].lower()),
    st.lists(ltag, max_size=5), spell)


def check_langs(case, c):
    items, tags, bits = case
    sp = Speller(bits)
    text = sp.join([t.encode() + sp.q(q) for t, q in items])
    al = messages.AcceptLanguageList.from_str(text)
    table = dict((t.lower(), 1000 if q is None else q) for t, q in items)
    best, bestq = None, 0
    for t in tags:
        parts = t.lower().split("-")
        q = 0
        for n in range(len(parts), 0, -1):
            if "-".join(parts[:n]) in table:
                q = table["-".join(parts[:n])]
                break
        else:
            q = table.get("*", 0)
        if q > bestq:
            best, bestq = t, q
    for a in (al, messages.AcceptLanguageList.from_str(al.to_bytes())):
        eq(a.select_token(tags), best, "selected", text, tags)
        langs = [params.LanguageTag.from_str(t) for t in tags]
        got = a.select_language(langs)
        eq(None if got is None else str(got), best, "selected language",
           text, tags)
    c.nontrivial(len(items) > 1 and best is not None)


# -- dates

dates = st.tuples(gens.date_tuple(1000, 9999), gens.time_tuple(0),
                  st.integers(-14 * 60, 14 * 60), st.integers(0, 5), spell)
DAYS = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()
MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()


def check_date(case, c):
    (y, mo, d), (h, mi, s, k), zone, wrong, bits = case
    dt = datetime.datetime(y, mo, d, h, mi, s)
    sp = Speller(bits)
    day, mon = DAYS[dt.weekday()], MONTHS[mo - 1]
    rfc1123 = "%s, %02i %s %04i %02i:%02i:%02i GMT" % (
        day[:3], d, mon, y, h, mi, s)
    forms = [rfc1123, "%s %s %2i %02i:%02i:%02i %04i" % (
        day[:3], mon, d, h, mi, s, y)]
    if 1990 <= y < 2090:
        forms.append("%s, %02i-%s-%02i %02i:%02i:%02i GMT" % (
            day, d, mon, y % 100, h, mi, s))
        c.label("rfc850")
    if sp.bit(2):
        forms = [sp.case(f) for f in forms]
    for f in forms:
        got = native(params.FullDate, f.encode(), "from_http_str")
        eq(got.get_calendar_time_point(), (y // 100, y % 100, mo, d, h, mi,
                                           s), "date", f)
        eq(got.get_zone(), (0, 0), "zone", f)
        eq(str(got), rfc1123, "format", f)
    # formatted from any zone
    try:
        local = dt + datetime.timedelta(minutes=zone)
    except OverflowError:
        return
    if local.year < 1000:
        return
    tp = iso8601.TimePoint.from_str(local.strftime(
        "%%04i-%m-%dT%H:%M:%S") % local.year + "%s%02i:%02i" % (
            "-" if zone < 0 else "+", abs(zone) // 60, abs(zone) % 60))
    eq(str(params.FullDate(tp)), rfc1123, "format of a local time", str(tp))
    # another day of the week
    if wrong:
        bad = DAYS[(dt.weekday() + wrong) % 7][:3] + rfc1123[3:]
        try:
            params.FullDate.from_http_str(bad)
        except ValueError:
            pass
        else:
            fail("wrong day of the week accepted", bad)
    c.nontrivial()


bad_dates = st.tuples(
    st.integers(0, 40), st.integers(0, 13), st.integers(0, 9999),
    st.integers(0, 30), st.integers(0, 70), st.integers(0, 70),
    st.sampled_from(DAYS), st.integers(0, 2))


def check_bad_date(case, c):
    d, mo, y, h, mi, s, day, form = case
    mon = (MONTHS + ["Foo", "Mai"])[mo]
    text = [
        "%s, %02i %s %04i %02i:%02i:%02i GMT" % (day[:3], d, mon, y, h, mi,
                                                 s),
        "%s %s %2i %02i:%02i:%02i %04i" % (day[:3], mon, d, h, mi, s, y),
        "%s, %02i-%s-%02i %02i:%02i:%02i GMT" % (day, d, mon, y % 100, h, mi,
                                                 s)][form]
    try:
        got = params.FullDate.from_http_str(text)
    except ValueError:
        got = None
    if form == 2:
        y = y % 100 + (2000 if y % 100 < 90 else 1900)
    try:
        dt = datetime.datetime(y, mo + 1, d, h, mi, min(s, 59))
        ok_date = y > 0 and DAYS[dt.weekday()] == day and mo < 12
    except ValueError:
        ok_date = False
    if s > 60 or h == 24:
        # 24:00:00 and leap seconds are not judged
        if not (h == 24 and mi == s == 0):
            ok_date = False
    elif s == 60:
        return
    if h == 24 or y == 0:
        return
    eq(got is not None, ok_date, "accepted", text)
    c.nontrivial()


# -- messages

junk = st.lists(st.one_of(
    st.sampled_from([b"a", b"text/plain", b"*/*", b"*", b"q=0.5", b";", b",",
                     b"=", b"/", b'"', b"\\", b"(", b")", b" ", b"\t",
                     b"\r\n ", b"\r\n", b"\0", b"\xff", b"\xc3\xa9", b"-",
                     b"bytes", b"0-5", b"gzip", b"chunked", b"1.0", b"HTTP",
                     b"Sun", b"Nov", b"06", b"1994", b"08:49:37", b"GMT",
                     b"max-age", b"W/", b'"x"', b"en-us", b"q", b"none",
                     b"5", b"-1", b"0x1", b"http:", b"//", b"%", b"%zz"]),
    st.binary(max_size=2)), max_size=8).map(b"".join)
PARSERS = [
    (params.HTTPVersion, "from_str"), (params.FullDate, "from_http_str"),
    (params.TransferEncoding, "from_str"),
    (params.TransferEncoding, "list_from_str"), (params.Chunk, "from_str"),
    (params.MediaType, "from_str"), (params.ProductToken, "from_str"),
    (params.ProductToken, "list_from_str"), (params.LanguageTag, "from_str"),
    (params.LanguageTag, "list_from_str"), (params.EntityTag, "from_str"),
    (messages.MediaRange, "from_str"), (messages.AcceptItem, "from_str"),
    (messages.AcceptList, "from_str"), (messages.AcceptToken, "from_str"),
    (messages.AcceptTokenList, "from_str"),
    (messages.AcceptCharsetList, "from_str"),
    (messages.AcceptEncodingList, "from_str"),
    (messages.AcceptLanguageList, "from_str"),
    (messages.AcceptRanges, "from_str"), (messages.Allow, "from_str"),
    (messages.CacheControl, "from_str"), (messages.ContentRange, "from_str")]
GETTERS = [
    ("Allow", "allow"), ("Cache-Control", "cache_control"),
    ("Connection", "connection"), ("Content-Encoding", "content_encoding"),
    ("Content-Language", "content_language"),
    ("Content-Length", "content_length"),
    ("Content-Location", "content_location"), ("Content-MD5", "content_md5"),
    ("Content-Range", "content_range"), ("Content-Type", "content_type"),
    ("Date", "date"), ("Expect", "expect_continue"),
    ("Last-Modified", "last_modified"),
    ("Transfer-Encoding", "transfer_encoding"), ("Upgrade", "upgrade"),
    ("Accept", "accept"), ("Accept-Charset", "accept_charset"),
    ("Accept-Encoding", "accept_encoding"),
    ("Accept-Ranges", "accept_ranges"), ("Age", "age"), ("ETag", "etag"),
    ("Location", "location")]


def refused(f, *args):
    """the result in a list, or None if it was refused as documented"""
    try:
        return [f(*args)]
    except (ValueError, messages.HTTPException, rfc2396.URIException):
        return None


def check_junk(case, c):
    for cls, how in PARSERS:
        got = refused(getattr(cls, how), case)
        if got is None:
            continue
        c.nontrivial()
        c.label(cls.__name__)
        got = got[0]
        if how == "from_str":
            # what was accepted can be written and parsed again
            text = got.to_bytes() if hasattr(got, "to_bytes") else str(got)
            again = cls.from_str(text)
            if hasattr(got, "sortkey"):
                same(got, again, text, case)
    for name, attr in GETTERS:
        for m in (messages.Request(), messages.Response(messages.Request())):
            f = getattr(m, "get_" + attr, None)
            if f is None:
                continue
            m.set_header(name, case)
            refused(f)


def quotes_closed(case, c):
    """Strings and comments that do not end are refused"""
    text, tail = case
    for t in (b'"' + text, b"(" + text):
        try:
            p = grammar.WordParser(b"a " + t)
        except ValueError:
            c.label("refused")
            continue
        # the rest must be closed
        for w in p.words:
            if isinstance(w, bytes) and w[:1] == b'"':
                ok(len(w) > 1 and closed(w), "unterminated string accepted",
                   t, w)
                eq(grammar.quote_string(grammar.decode_quoted_string(w)),
                   grammar.quote_string(unquote(w)), "decoded", w)
                c.nontrivial()
            elif isinstance(w, bytes) and w[:1] == b"(":
                depth = 0
                i = 0
                while i < len(w):
                    ch = w[i:i + 1]
                    if ch == b"\\":
                        i += 1
                    depth += (ch == b"(") - (ch == b")")
                    i += 1
                eq(depth, 0, "unterminated comment accepted", t, w)
                c.nontrivial()


def unquote(w):
    out = bytearray()
    i = 1
    while i < len(w) - 1:
        if w[i] == 92:
            i += 1
        out.append(w[i])
        i += 1
    return bytes(out)


def closed(w):
    i = 1
    while i < len(w):
        if w[i] == 34:
            return i == len(w) - 1
        i += 2 if w[i] == 92 else 1
    return False


strings = st.tuples(st.lists(st.sampled_from(
    [b"a", b'"', b"\\", b"(", b")", b" ", b"\t", b"\r\n ", b"\\\\", b'\\"',
     b"\\)", b"\xe9", b"\x7f", b"\r\n"]), max_size=7).map(b"".join),
    st.booleans())

# -- setting headers of messages

settable = st.one_of(
    st.tuples(st.just("content_type"), token, token, plist),
    st.tuples(st.just("content_length"), st.integers(0, 2 ** 40)),
    st.tuples(st.just("content_md5"), st.binary(min_size=16, max_size=16)),
    st.tuples(st.just("content_encoding"), st.lists(token, max_size=3)),
    st.tuples(st.just("content_language"), st.lists(ltag, max_size=3)),
    st.tuples(st.just("connection"), st.lists(token, max_size=3)),
    st.tuples(st.just("content_range"), st.tuples(
        st.integers(0, 9), st.integers(0, 20)), st.one_of(
            st.none(), st.integers(0, 99))),
    st.tuples(st.just("date"), gens.date_tuple(1000, 9999),
              gens.time_tuple(0)),
    st.tuples(st.just("last_modified"), gens.date_tuple(1000, 9999),
              gens.time_tuple(0)),
    st.tuples(st.just("expect_continue"), st.booleans()),
    st.tuples(st.just("age"), st.integers(0, 2 ** 33)),
    st.tuples(st.just("etag"), bvalue, st.booleans()),
    st.tuples(st.just("upgrade"), st.lists(st.tuples(
        token, st.one_of(st.none(), token)), max_size=3)),
    st.tuples(st.just("transfer_encoding"), st.lists(st.tuples(
        token.filter(lambda t: t.lower() != "chunked"), plist),
        max_size=2), st.booleans()),
    st.tuples(st.just("allow"), st.lists(token, max_size=3)),
    st.tuples(st.just("accept_ranges"), st.lists(
        token.filter(lambda t: t.lower() != "none"), max_size=3)),
    st.tuples(st.just("location"), st.sampled_from(
        ["http://x/a?b=c", "http://x/%C3%A9", "ftp://h/", "mailto:a@b"])),
    st.tuples(st.just("content_location"), st.sampled_from(
        ["http://x/a?b=c", "a/b", "/%C3%A9", "../x"])),
)


def full_date(dt, t):
    return params.FullDate(iso8601.TimePoint.from_str(
        "%04i-%02i-%02iT%02i:%02i:%02iZ" % (dt + t[:3])))


def check_set(case, c):
    for m in (messages.Request(), messages.Response(messages.Request())):
        for v in case:
            set_one(m, v, c)
        # each keeps its last value
        last = dict((v[0], v) for v in case)
        names = [v[0] for v in case]
        for name, v in last.items():
            if hasattr(m, "get_" + name) and not (
                    name == "connection" and "upgrade" in last):
                get_one(m, v, case, "connection" not in
                        names[len(names) - names[::-1].index(name):])
        # removing one doesn't change the others
        for name, v in last.items():
            f = getattr(m, "set_" + name, None)
            if f is None:
                continue
            if name in ("upgrade", "connection", "content_encoding",
                        "content_language"):
                f([])
                ok(not getattr(m, "get_" + name)(), "header not removed",
                   name, v, case)
            elif name == "expect_continue":
                f(False)
                ok(not m.get_expect_continue(), "not removed", case)
            elif name in ("accept_ranges",):
                continue
            else:
                f(None)
                eq(getattr(m, "get_" + name)(), None, "header not removed",
                   name, case)
            for n2, v2 in last.items():
                if n2 == "connection" and "upgrade" in last:
                    continue
                if list(last).index(n2) > list(last).index(name) and \
                        hasattr(m, "get_" + n2):
                    get_one(m, v2, case, False)
    c.nontrivial(len(case) > 1)


def set_one(m, v, c):
    f = getattr(m, "set_" + v[0], None)
    if f is None:
        return
    c.label(v[0])
    name = v[0]
    if name == "content_type":
        f(params.MediaType(v[1], v[2], dict((n.lower(), (n, x))
                                            for n, x in v[3])))
    elif name == "content_language":
        f([params.LanguageTag.from_str(t) for t in v[1]])
    elif name == "content_range":
        f(messages.ContentRange(v[1][0], v[1][1], v[2]))
    elif name in ("date", "last_modified"):
        f(full_date(v[1], v[2]))
    elif name == "etag":
        f(params.EntityTag(v[1], v[2]))
    elif name == "upgrade":
        f([params.ProductToken(t, ver) for t, ver in v[1]])
    elif name == "transfer_encoding":
        f([params.TransferEncoding(t, dict((n.lower(), (n, x))
                                           for n, x in ps))
           for t, ps in v[1]] + [params.TransferEncoding()] * v[2])
    elif name == "allow":
        f(messages.Allow(*v[1]))
    elif name == "accept_ranges":
        f(messages.AcceptRanges(*v[1]))
    elif name in ("location", "content_location"):
        f(rfc2396.URI.from_octets(v[1]))
    else:
        f(v[1])


def get_one(m, v, case, upgrading=True):
    name = v[0]
    got = getattr(m, "get_" + name)()
    args = (name, m.headers, case)
    if name == "content_type":
        eq((got.type.lower(), got.subtype.lower(), got_params(
            got.parameters)), (v[1].lower(), v[2].lower(), pdict(v[3])),
            "header", *args)
    elif name == "content_language":
        eq([str(t) for t in got], v[1], "header", *args)
    elif name == "content_encoding":
        eq(got, [t.lower() for t in v[1]], "header", *args)
    elif name == "connection":
        eq(got, set(t.lower() for t in v[1]), "header", *args)
    elif name == "content_range":
        eq((got.first_byte, got.last_byte, got.total_len), v[1] + (v[2],),
           "header", *args)
    elif name in ("date", "last_modified"):
        ok(got == full_date(v[1], v[2]), "header", str(got), *args)
    elif name == "etag":
        eq((got.tag, got.weak), v[1:], "header", *args)
    elif name == "upgrade":
        eq([(p.token, p.version) for p in got], v[1], "header", *args)
        if v[1] and upgrading:
            ok("upgrade" in m.get_connection(), "connection", *args)
    elif name == "transfer_encoding":
        if not v[1] and not v[2]:
            return
        eq([(t.token, got_params(t.parameters)) for t in got],
           [(t.lower(), pdict(ps)) for t, ps in v[1]] + [
               ("chunked", {})] * v[2], "header", *args)
    elif name == "allow":
        eq(list(got), [t.upper().encode() for t in v[1]], "header", *args)
    elif name == "accept_ranges":
        eq(list(got), [t.encode() for t in v[1]], "header", *args)
    elif name in ("location", "content_location"):
        eq(str(got), v[1], "header", *args)
    else:
        eq(got, v[1], "header", *args)


PROPS = [
    Prop("values", st.tuples(values, spell), check_value, quick=16000,
         rule="the value has parameters or more than one part"),
    Prop("accept", accept_cases, check_accept, quick=5000,
         rule="more than one range and a type selected"),
    Prop("tokens", tokens_cases, check_tokens, quick=5000,
         rule="more than one item and a token selected"),
    Prop("langs", lang_cases, check_langs, quick=4000,
         rule="more than one item and a language selected"),
    Prop("dates", dates, check_date, quick=4000, rule="all"),
    Prop("baddates", bad_dates, check_bad_date, quick=4000,
         rule="the date was judged"),
    Prop("junk", junk, check_junk, quick=2500,
         rule="accepted by at least one of the parsers"),
    Prop("strings", strings, quotes_closed, quick=3000,
         rule="a quoted string or comment was accepted"),
    Prop("set", st.lists(settable, max_size=5), check_set, quick=3000,
         rule="more than one header"),
]
