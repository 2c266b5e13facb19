"""C06: paging partitions a collection without loss or repetition."""
import io
import json
import random
import urllib.parse
import xml.etree.ElementTree as ET

from hypothesis import strategies as st

from pyslet.odata2 import core, server
from pyslet.py2 import to_text

from vlib import Prop, eq, ok, fail
from . import c05
from . import exprs as ex
from . import odm

PROPERTY = "C06"

N = 13
COLS = [p for p in c05.COLS if p[0] in (
    ("I",), ("L",), ("D",), ("B",), ("S",), ("T",), ("U",), ("G",),
    ("C", "V"), ("N", "P"))]
GEN = ex.Gen(COLS, c05.TEXT, c05.UNSUPPORTED + c05.BAD, c05.POOLS)


class Fixed(object):
    """A store with the same entities for all cases"""

    def __init__(self, kind, service=False):
        self.kind = kind
        self.service = service
        self.store = None

    def open(self):
        r = random.Random(5)
        # many ties
        pick = {
            "Int32": [0, 1, 1, 2, -1], "Int64": [0, 2, 2 ** 53 + 1],
            "Double": ["0.0", "1.0", "0.1", "2.25"],
            "Boolean": [True, False],
            "String": ["", "a", "a'b", "A", "b,c", "\u4e2d", "it's"],
            "DateTime": [(2000, 1, 1, 0, 0, 0, None),
                         (2000, 2, 28, 23, 59, 59, 5)],
            "Guid": ["0" * 32, "0123456789abcdef" * 2],
            "Binary": [b"", b"\x00"]}

        def v(t):
            return None if r.random() < .2 else r.choice(pick[t])

        def rel():
            return {"P": v("Int32"), "Q": v("String"), "V": v("Int32")}

        rows = []
        for i in range(N):
            d = dict(("/".join(p), v(t)) for p, t in c05.OWN)
            if i % 3 == 0:
                # too long for a skip token
                d["T"] = "x" * 600 + str(i % 2)
            d["N"] = r.choice([None, 0, 1, 2])
            d["Z"] = None
            d["Y"] = rel()
            d["Ms"] = set(i for i in (0, 1) if r.random() < .7)
            rows.append(d)
        others = [rel() for i in range(3)]
        self.store = odm.Store(c05.SPEC, self.kind)
        self.store.__enter__()
        c05.fill(self.store, rows, others, self.key)
        self.table = dict((self.key(i), c05.values(row, others))
                          for i, row in enumerate(rows))
        self.subsets = {None: list(self.table)}
        for i in (0, 1):
            self.subsets["Os", i] = [
                self.key(j) for j, d in enumerate(rows) if d["N"] == i]
            self.subsets["Ms", i] = [
                self.key(j) for j, d in enumerate(rows) if i in d["Ms"]]
        if self.service:
            self.server = server.Server("http://localhost/x.svc/")
            self.server.set_model(self.store.doc)

    @staticmethod
    def key(i):
        return (i * 5) % 17

    def expected(self, case):
        """the keys selected, in order, or None if not known"""
        nav, filter, orders, bits = case[:4]
        keys = []
        for k in self.subsets[nav]:
            verdict = c05.judge(filter, self.table[k])
            if verdict not in (True, False):
                return None
            if verdict:
                keys.append(k)
        rank = {}
        for k in keys:
            v = dict(self.table[k])
            v["null relation"] = v["null logic"] = True
            try:
                rank[k] = [c05.Order((x is not None, x), d) for x, d in (
                    (ex.evaluate(e, v)[1], d) for e, d in orders)] + [
                        c05.Order((True, k), 1)]
            except ex.Undefined:
                return None
        return sorted(keys, key=lambda k: rank[k])

    def texts(self, case):
        nav, filter, orders, bits = case[:4]
        style = ex.Style(bits)
        text = None if filter is None else ex.render(filter, style)
        otext = None if not orders else ", ".join(
            ex.render(e, style) + (" desc" if d < 0 else "")
            for e, d in orders)
        return text, otext


def common(gen):
    f = st.one_of(st.none(), st.none(), c05.relations(gen))
    nav = st.sampled_from([None] * 8 + [("Os", 0), ("Os", 1), ("Ms", 0),
                           ("Ms", 1)])
    leafs = [gen.leaf(t) for t in ("Int32", "Int64", "Double", "String",
                                   "Boolean", "DateTime", "Guid")]
    props = st.sampled_from([("prop", p, t) for p, t in COLS])
    e = st.one_of(props, props, props, st.one_of(leafs),
                  gen.expr("Int32", 1), gen.expr("String", 1),
                  gen.expr("Boolean", 1))
    o = st.lists(st.tuples(e, st.sampled_from([1, -1])), max_size=3)
    return [nav, f, o, st.integers(0, 2 ** 30)]


def size():
    return st.one_of(st.none(), st.integers(1, 4), st.integers(1, 4),
                     st.integers(1, 16))


def cases(gen):
    return st.tuples(*(common(gen) + [
        size(), st.one_of(st.none(), st.integers(0, 4), st.integers(0, 16)),
        size(), st.sampled_from(["next", "token", "manual", "restart"])]))


def configure(coll, text, otext, bits):
    coll.set_expand(None if bits % 4 else {"N": None},
                    None if bits % 3 else {"S": None})
    if text is not None:
        coll.set_filter(core.CommonExpression.from_str(text))
    if otext is not None:
        coll.set_orderby(core.CommonExpression.orderby_from_str(otext))


class opened(object):
    """the collection of a case"""

    def __init__(self, store, nav):
        self.store = store
        self.nav = nav
        self.todo = []

    def __enter__(self):
        if self.nav is None:
            coll = self.store.open("Ts")
            self.todo.append(coll)
        else:
            base = self.store.open(self.nav[0])
            self.todo.append(base)
            coll = base[self.nav[1]]["Ts"].open()
            self.todo.append(coll)
        return coll

    def __exit__(self, *args):
        while self.todo:
            self.todo.pop().close()


def check(fixed, case, c):
    if fixed.store is None:
        fixed.open()
    nav, filter, orders, bits, top, skip, topmax, mode = case
    want = fixed.expected(case)
    if want is None:
        c.label("not judged")
        return
    text, otext = fixed.texts(case)
    msg = (nav, text, otext, "top=%s skip=%s topmax=%s" % (top, skip, topmax),
           mode)
    with opened(fixed.store, nav) as coll:
        configure(coll, text, otext, bits)
        if topmax is not None:
            try:
                coll.set_topmax(topmax)
            except NotImplementedError:
                return
        want = want[skip or 0:]
        psize = min([x for x in (top, topmax) if x is not None] or [N + 1])
        pages = [want[i:i + psize] for i in range(0, len(want), psize)]
        if len(pages) > 1:
            c.nontrivial()
            c.label(mode, "null or tie" if orders else "key order")
        if mode == "manual":
            # each page in turn by skipping, on the same collection
            for i in range(len(pages) + 1):
                coll.set_page(psize if i % 2 else (top or psize),
                              (skip or 0) + i * psize)
                eq([e.key() for e in coll.iterpage()],
                   pages[i] if i < len(pages) else [], "page %d" % i, *msg)
            return
        if skip is None and bits % 2:
            coll.set_page(top)
        else:
            coll.set_page(top, skip)
        if mode in ("next", "restart"):
            for i, p in enumerate(pages):
                if mode == "restart":
                    # nothing moves without set_next
                    eq([e.key() for e in coll.iterpage()], p,
                       "page %d looked at first" % i, *msg)
                eq([e.key() for e in coll.iterpage(True)], p,
                   "page %d" % i, *msg)
            for i in range(2):
                eq([e.key() for e in coll.iterpage(True)], [],
                   "after the last page", *msg)
            return
        got = [e.key() for e in coll.iterpage()]
        token = coll.next_skiptoken()
    i = 0
    while True:
        eq(got, pages[i] if i < len(pages) else [], "page %d" % i, *msg)
        if len(got) < psize or topmax is None or (
                top is not None and top <= topmax):
            eq(token, None, "no skip token when all of the requested "
               "entities were returned", *(msg + (got,)))
        if i + 1 < len(pages) and topmax is not None and (
                top is None or top > topmax):
            ok(token is not None, "a skip token when there is more", msg)
        if token is None:
            break
        ok(i < len(pages), "skip tokens come to an end", msg)
        i += 1
        token = to_text(token)
        with opened(fixed.store, nav) as coll:
            configure(coll, text, otext, bits)
            coll.set_topmax(topmax)
            # skip is applied after the position the token stands for
            extra = 1 + bits % 3
            coll.set_page(top, extra, token)
            eq([e.key() for e in coll.iterpage()],
               want[i * psize + extra:][:psize],
               "page %d with an additional skip of %d" % (i, extra), *msg)
            if bits % 2:
                coll.set_page(top, skiptoken=token)
            else:
                # as the server does
                coll.set_page(top, None, token)
            got = [e.key() for e in coll.iterpage()]
            token = coll.next_skiptoken()


def walker(kind):
    f = Fixed(kind)
    return lambda case, c: check(f, case, c)


# -- the server's next links ------------------------------------------------

def links_cases(gen):
    return st.tuples(*(common(gen) + [
        st.one_of(st.none(), st.integers(0, 5), st.integers(1, 16)),
        st.one_of(st.none(), st.integers(0, 4), st.integers(0, 16)),
        st.integers(1, 6), st.sampled_from(["json", "atom", "links"])]))


def get(srv, url, accept):
    path, _, query = url.partition("?")
    environ = {
        "REQUEST_METHOD": "GET", "SCRIPT_NAME": "",
        "PATH_INFO": urlunquote(path), "QUERY_STRING": query,
        "SERVER_NAME": "localhost", "SERVER_PORT": "80",
        "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0),
        "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(),
        "wsgi.errors": io.StringIO(), "wsgi.multithread": False,
        "wsgi.multiprocess": False, "wsgi.run_once": False,
        "HTTP_HOST": "localhost", "HTTP_ACCEPT": accept,
        "HTTP_MAXDATASERVICEVERSION": "2.0"}
    result = []
    data = b"".join(srv(environ, lambda s, h, x=None: result.append(s)))
    return result[0], data.decode("utf-8")


def urlunquote(s):
    return urllib.parse.unquote(s, encoding="latin-1")


def quote(s):
    return urllib.parse.quote(s, safe="$='()/,")


ATOM = "{http://www.w3.org/2005/Atom}"
DS = "{http://schemas.microsoft.com/ado/2007/08/dataservices}"
DM = "{http://schemas.microsoft.com/ado/2007/08/dataservices/metadata}"


def number(uri):
    return int(uri.rpartition("(")[2].rstrip(")"))


def parse(fmt, data):
    """keys, next link and count"""
    if fmt != "atom":
        d = json.loads(data)["d"]
        nxt = d.get("__next")
        if nxt is not None:
            nxt = nxt["uri"]
        if fmt == "links":
            keys = [number(x["uri"]) for x in d["results"]]
        else:
            keys = [number(x["__metadata"]["uri"]) for x in d["results"]]
        n = d.get("__count")
        return keys, nxt, None if n is None else int(n)
    root = ET.fromstring(data)
    keys = [number(e.findtext(ATOM + "id"))
            for e in root.findall(ATOM + "entry")]
    nxt = [e.get("href") for e in root.findall(ATOM + "link")
           if e.get("rel") == "next"]
    n = root.findtext(DM + "count")
    return keys, nxt[0] if nxt else None, None if n is None else int(n)


def serve(fixed, case, c):
    if fixed.store is None:
        fixed.open()
    nav, filter, orders, bits, top, skip, topmax, fmt = case
    if fmt == "links":
        # only paging options are allowed with $links
        if nav is None:
            nav = ("Ms", 0)
        filter, orders = None, []
    want = fixed.expected((nav, filter, orders, bits))
    if want is None:
        c.label("not judged")
        return
    text, otext = fixed.texts((nav, filter, orders, bits))
    total = len(want)
    want = want[skip or 0:]
    if top is not None:
        want = want[:top]
    q = []
    if text is not None:
        q.append("$filter=" + quote(text))
    if otext is not None:
        q.append("$orderby=" + quote(otext))
    if top is not None:
        q.append("$top=%d" % top)
    if skip is not None:
        q.append("$skip=%d" % skip)
    if fmt != "links" and bits % 3 == 0:
        q.append("$select=S")
    if fmt != "links" and bits % 4 == 0:
        q.append("$expand=N")
    if bits % 2:
        q.append("$inlinecount=allpages")
    path = "/x.svc/" + ("Ts" if nav is None else "%s(%d)/%sTs" % (
        nav[0], nav[1], "$links/" if fmt == "links" else ""))
    url = path + ("?" + "&".join(q) if q else "")
    accept = "application/atom+xml" if fmt == "atom" else "application/json"
    fixed.server.topmax = topmax
    seen = []
    first = url
    for i in range(N + 3):
        status, data = get(fixed.server, url, accept)
        ok(status.startswith("200"), "status", status, url, data[:300])
        keys, nxt, count = parse(fmt, data)
        if i == 0:
            eq(count, total if bits % 2 else None, "inline count", url)
        if fmt != "links":
            ok(len(keys) <= topmax, "page size", url, topmax)
        seen.extend(keys)
        if nxt is None:
            break
        if len(keys) < topmax:
            fail("next link after a short page", url, nxt)
        c.nontrivial()
        c.label(fmt)
        eq(nxt[:17], "http://localhost/", "next link", nxt)
        url = nxt[16:]
    else:
        fail("next links do not come to an end", first)
    eq(seen, want, "entities found by following next links", first,
       "topmax=%d" % topmax)


def service(kind):
    f = Fixed(kind, True)
    return lambda case, c: serve(f, case, c)


RULE = "more than one page"
PROPS = [
    Prop("sqlds", cases(GEN), walker("sql"), quick=4000, rule=RULE),
    Prop("memds", cases(GEN), walker("mem"), quick=4000, rule=RULE),
    Prop("sqlserver", links_cases(GEN), service("sql"), quick=1500,
         rule="a next link was followed"),
    Prop("memserver", links_cases(GEN), service("mem"), quick=1500,
         rule="a next link was followed"),
]
