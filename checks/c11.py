"""C11: the OData server answers any request history correctly."""
import json
import urllib.parse

from hypothesis import strategies as st

from vlib import Enum, Prop, eq, fail, ok
from . import edmvals as ev
from . import gens, svc

PROPS = None
TEXT = st.one_of(gens.xml_text(5), st.sampled_from(
    ["", "a", " a ", "O'Neil", "\u00e9x", "\u00a3", "<x>&amp;", "\u4e2d\u00e9", "a\nb", "null"]))
KEYS = ["a", "O'Neil", "x/y", "\u00e9", "a b&c?#", "%41", "\u4e2d", "1",
        "A", "k=1,l", "(z)"]
i32 = st.one_of(st.sampled_from([0, 1, 2, -1, 2 ** 31 - 1, -2 ** 31]),
                st.integers(-9, 9))


def mb(s):
    return st.one_of(st.none(), s, s, s)


VALS = {"S": mb(TEXT), "N": mb(i32), "R": TEXT,
        "B": mb(st.binary(max_size=4)),
        "D": mb(ev.datetimes(1, 9999, (0, 1, 3))),
        "L": mb(gens.edge_ints(-2 ** 63, 2 ** 63 - 1)), "F": mb(st.booleans()),
        "V": mb(i32), "Title": mb(TEXT), "X": mb(i32), "Y": mb(TEXT)}
VALS["C"] = st.fixed_dictionaries({"X": VALS["X"], "Y": VALS["Y"]})
TN = [n for n, t, f in svc.TPROPS if n != "ID"]
TYPES = dict((n, t) for ps in (svc.TPROPS, svc.UPROPS, svc.DPROPS,
                               svc.COMPLEX["CT"]) for n, t, f in ps)

full_t = st.fixed_dictionaries(dict((n, VALS[n]) for n in TN))
part_t = st.lists(st.sampled_from(TN), max_size=4, unique=True).flatmap(
    lambda ns: st.fixed_dictionaries(dict((n, VALS[n]) for n in ns)))
# R is not nullable so must be given when replacing
most_t = st.tuples(part_t, VALS["R"]).map(lambda t: dict(t[0], R=t[1]))

ti = st.integers(0, 4)      # 4 is never stored
ui = st.integers(0, 3)      # indexes of the case's keys; 3 is never stored
forms = st.sampled_from(["json", "atom"])
T = lambda *a: st.tuples(*[st.just(x) if isinstance(x, str) else x
                           for x in a])

BAD_BODIES = [
    b"", b"{", b"<", b"[]", b"1", b"null", b'"x"', b"true", b"<a/>", b"<a>",
    b"[1]", b"{]", b"\xff\xfe\x00", b"not a body", b"<?xml?>", b"\x00",
    b'<entry xmlns="http://www.w3.org/2005/Atom"', b'{"N":"x"}', b'{"N":{}}',
    b'{"N":[1]}', b'{"N":2147483648}', b'{"C":1}', b'{"C":null}',
    b'{"D":"yesterday"}', b'{"D":5}', b'{"B":1}', b'{"L":"x"}',
    b'{"F":"maybe"}', b'{"ID":"one"}', b'{"S":{"a":1}}', b'{"S":1}',
    b'{"One":1}', b'{"One":{"__metadata":{}}}', b'{"One":{"__metadata":1}}',
    b'{"One":{"__metadata":{"uri":"Ts(0)"}}}',
    b'{"One":{"__metadata":{"uri":"Us(\'absent\')"}}}',
    b'{"One":{"__metadata":{"uri":"http://elsewhere/Us(\'a\')"}}}',
    b'{"One":{"__metadata":{"uri":"Us"}}}',
    b'{"One":{"__metadata":{"uri":":::"}}}',
    b'{"Many":1}', b'{"Many":[1]}', b'{"Many":{}}',
    b'<d:S xmlns:d="http://schemas.microsoft.com/ado/2007/08/dataservices">',]
CTYPES = [None, "application/json", "application/atom+xml", "application/xml",
          "application/json; charset=utf-8", "application/json; charset=bogus",
          "text/plain", "image/png", "nonsense", "application/xml;charset="]


def t_ops():
    prop = st.sampled_from(TN + ["ID", "C/X", "C/Y"])
    acc = st.sampled_from(["json", "atom", "json1"])
    return st.one_of(
        T("get", ti, acc), T("get", ti, acc), T("getprop", ti, prop, acc),
        T("getvalue", ti, prop),
        T("list", st.sampled_from(["Ts", "Us", "Ds"]), acc,
          st.sampled_from(["", "id", "id desc", "N"]),
          mb(st.integers(0, 4)), mb(st.integers(0, 4)),
          st.sampled_from([0, 1, 2]),
          mb(st.sampled_from(["N eq 1", "N gt 0", "not (N eq 1)", "S eq 'a'",
                              "ID lt 2", "N add 1 gt ID", "C/X ge 0"])),
          mb(st.lists(st.sampled_from(["S", "N", "C", "ID"]), min_size=1,
                      unique=True))),
        T("count", st.sampled_from(["Ts", "Us", "Ds"])),
        T("count1", ti), T("countnav", ti),
        T("post", ti, full_t, forms, mb(ui), st.lists(ui, max_size=2,
                                                      unique=True)),
        T("post", ti, full_t, forms, st.none(), st.just([])),
        T("postu", ui, VALS["V"], forms),
        T("put", ti, most_t, forms), T("merge", ti, part_t, forms),
        T("put", ti, full_t, forms), T("merge", ti, part_t, forms),
        T("putlink", ti, most_t, forms, ui, st.booleans()),
        T("delete", ti), T("deleteu", ui),
        T("putprop", ti, st.sampled_from(["S", "N", "R", "C", "C/X", "D", "L",
                                          "B", "F"]).flatmap(
            lambda n: st.tuples(st.just(n), VALS[n.split("/")[-1]])), forms),
        T("putvalue", ti, st.one_of(
            T("S", TEXT), T("S", st.sampled_from(["\u00e9", "\u00a3\u00ff"])), T("N", i32), T("B", st.binary(max_size=6)),
            T("C/Y", TEXT), T("L", i32)),
          st.sampled_from(["utf-8", "iso-8859-1", "none", "bare"])),
        T("delprop", ti, prop),
        T("nav", ti, st.sampled_from(["One", "Many"]), acc),
        T("navback", ui, st.sampled_from(["Ts", "Back"]), acc),
        T("navkey", ti, ui, acc),
        T("links", ti, st.sampled_from(["One", "Many"]), acc),
        T("linksback", ui, st.sampled_from(["Ts", "Back"]), acc),
        T("addlink", ti, st.sampled_from(["One", "Many"]), ui, forms),
        T("setlink", ti, st.sampled_from(["One", "One", "Many"]), ui, forms),
        T("dellink", ti, st.sampled_from(["One", "Many"]), ui),
        T("poststream", mb(ti), st.binary(max_size=8), mb(TEXT)),
        T("putstream", ti, st.binary(max_size=8)),
        T("getstream", ti), T("deletestream", ti), T("getd", ti, acc),
        T("bad", st.sampled_from(["POST", "PUT", "MERGE"]),
          st.sampled_from(["Ts", "Ts(0)", "Ts(1)", "Ts(0)/N", "Ts(0)/C",
                           "Ts(0)/$links/One", "Ts(0)/$links/Many",
                           "Ts(0)/S/$value", "Us"]),
          st.sampled_from(BAD_BODIES), st.sampled_from(CTYPES)),
        T("fuzz", st.sampled_from(["GET", "PUT", "DELETE", "MERGE", "HEAD",
                                   "OPTIONS", "PATCH", "FOO"]),
          st.sampled_from(FUZZ)))


FUZZ = ["Nope", "Ts(9)", "Ts('a')", "Ts()", "Ts(1,2)", "Ts(X=1)", "Ts(null)",
        "Ts(0)/Nope", "Ts(0)/N/Nope", "Ts(0)/C/Nope", "Ts(0)/C/X/Y",
        "Ts/S", "Ts/0", "Ts(0)/One('a')", "Ts(0)/Many('zz')",
        "Ts(0)/Many(1)", "Ts(0)/One/Nope", "Ts(0)/$value", "Ts/$value",
        "Ts(0)/C/$value", "Ts(0)/N/$count", "Ts(0)/$links/Nope",
        "Ts(0)/$links/N", "Ts/$links/Many", "Ts(0)/One/$links/Nope",
        "$batch", "Ts(9)/N", "Ts(9)/$links/One", "Ds(9)/$value",
        "Ts?$filter=Nope eq 1", "Ts?$filter=N", "Ts?$filter=S add 1 eq 2",
        "Ts?$filter=N eq 'a'", "Ts?$filter=length(N) eq 1",
        "Ts?$filter=substringof(1,S)", "Ts?$orderby=Nope", "Ts?$filter=One",
        "Ts?$orderby=One", "Ts?$orderby=S add 1", "Ts?$filter=not N",
        "Ts?$select=Nope", "Ts?$expand=Nope", "Ts?$expand=N",
        "Ts?$top=-1", "Ts?$skip=x", "Ts?$inlinecount=x", "Ts?$format=yaml", "Ts?$x=1",
        "Ts?$filter=1 div 0 eq 1", "Ts?$filter=year(S) eq 1",
        "Ts?$filter=C eq 1", "Ts?$filter=C/Nope eq 1", "Ts?$filter=Many/V eq 1",
        "Ts(0)?$top=1", "Ts(0)/N?$filter=N eq 1", "Ts(0)/One?$orderby=V",
        "$metadata?$top=1", "Ts(0)/$links/Many?$filter=V eq 1", "Ts%FF",
        "Ts(0)/C?$expand=One", "Ts(0)//N", "//", "Ts(2147483648)",
        "Ts(0)/One?$top=1", "Us('a", "Us('a'')", "Us(a)", "Us(1)",
        "Ds(0)/$value?$top=1", "C.Ts(9)", "Nope.Ts", "C.Nope"]
# GETs which are good requests when the entities they need exist
GOOD = set(["Ts()", "Ts(0)/$links/Many", "Ts?$filter=Nope eq 1"])


@st.composite
def histories(draw):
    keys = draw(st.lists(st.sampled_from(KEYS), min_size=4, max_size=4,
                         unique=True))
    start = draw(st.lists(st.tuples(st.sampled_from([0, 1, 2, 3]), full_t,
                                    st.one_of(st.none(), st.integers(0, 2)),
                                    st.lists(st.integers(0, 2), max_size=3,
                                             unique=True)),
                          max_size=3, unique_by=lambda x: x[0]))
    us = draw(st.lists(mb(i32), min_size=3, max_size=3))
    ops = draw(st.lists(t_ops(), min_size=1, max_size=9))
    return keys, start, us, ops, draw(st.sampled_from([0, 1]))


class Run(object):

    def __init__(self, case, c, kind):
        self.keys, start, us, self.ops, self.mode = case
        self.c = c
        self.kind = kind
        self.m = svc.Model()
        self.s = svc.Service(kind, streams=kind != "mem")
        self.start, self.us = start, us

    def run(self):
        m, s = self.m, self.s
        with s:
            for k, v in zip(self.keys, self.us):
                m.e["Us"][k] = {"K": k, "V": v}
                s.insert("Us", m.e["Us"][k])
            for i, row, one, many in self.start:
                m.e["Ts"][i] = dict(row, ID=i)
                s.insert("Ts", m.e["Ts"][i])
                if one is not None:
                    m.one[i] = self.keys[one]
                    s.link(i, "One", self.keys[one])
                for u in many:
                    m.many.add((i, self.keys[u]))
                    s.link(i, "Many", self.keys[u])
            good = 0
            for op in self.ops:
                self.op = op
                r = getattr(self, "do_" + op[0])(*op[1:])
                self.c.label("%s %s" % (op[0], r.status))
                good += 200 <= r.status < 300
                s.check(m, op)
            if good > 1:
                self.c.nontrivial()

    # -- helpers

    def req(self, method, path, accept=None, form=None, body=None, **headers):
        h = dict((k.replace("_", "-"), v) for k, v in headers.items())
        if accept:
            h["Accept"] = ("application/json" if accept[:4] == "json" else
                           "application/atom+xml, application/xml")
            h["DataServiceVersion"] = "1.0" if accept == "json1" else "2.0"
            h["MaxDataServiceVersion"] = h["DataServiceVersion"]
        if form == "json":
            h["Content-Type"] = "application/json"
            body = body.encode("utf-8")
        elif form == "atom":
            h.setdefault("Content-Type", "application/atom+xml")
            body = body.encode("utf-8")
        r = self.s.request(method, path, h, body, self.mode)
        ok(r.status < 500, "internal error", self.op, r.status, r.body[:300])
        return r

    def want(self, r, *statuses):
        ok(r.status in statuses, "status", r.status, "expected", statuses,
           self.op, r.body[:300])
        return r

    def refused(self, r):
        ok(400 <= r.status < 500, "status of a request that must fail",
           r.status, self.op, r.body[:300])
        return r

    def entity(self, r, accept, es, k, select=None):
        form = "atom" if accept == "atom" else "json"
        got = r.xml() if form == "atom" else r.json()["d"]
        svc.same_entity(es, self.m.e[es][k], got, form, select)
        ct = r.headers["content-type"]
        ok(("json" in ct) == (form == "json"), "content type", ct, accept)
        return got

    def entries(self, r, accept):
        if accept == "atom":
            root = r.xml()
            n = root.find(svc.DM + "count")
            return root.findall(svc.ATOM + "entry"), (
                None if n is None else int(n.text))
        d = r.json()["d"]
        if accept == "json1":
            ok(isinstance(d, list), "version 1 collection", d)
            return d, None
        return d["results"], int(d["__count"]) if "__count" in d else None

    def same_keys(self, r, accept, es, keys, ordered=False, select=None):
        got, n = self.entries(r, accept)
        form = "atom" if accept == "atom" else "json"
        gk = [svc.entry_key(es, g, form) for g in got]
        if ordered:
            eq(gk, keys, "entities in order", self.op)
        else:
            eq(sorted(gk), sorted(keys), "entities", self.op)
        for k, g in zip(gk, got):
            svc.same_entity(es, self.m.e[es][k], g, form, select)
        return n

    def body(self, form, es, row, links=None):
        return (svc.json_body if form == "json" else svc.atom_body)(
            es, row, links)

    def u(self, i):
        return self.keys[i]

    def has(self, i):
        return i in self.m.e["Ts"]

    # -- reading

    def do_get(self, i, accept):
        r = self.req("GET", svc.url("Ts", i), accept)
        if not self.has(i):
            return self.want(r, 404)
        self.want(r, 200)
        self.entity(r, accept, "Ts", i)
        return r

    def lookup(self, i, prop):
        v = self.m.e["Ts"][i]
        for p in prop.split("/"):
            v = v[p]
        return v

    def do_getprop(self, i, prop, accept):
        r = self.req("GET", svc.url("Ts", i) + "/" + prop, accept)
        if not self.has(i):
            return self.want(r, 404)
        self.want(r, 200)
        name = prop.split("/")[-1]
        t, v = TYPES[name], self.lookup(i, prop)
        if accept == "atom":
            root = r.xml()
            eq(root.tag, svc.DS + name, "element")
            svc.same_xml(t, v, root)
        else:
            d = r.json()["d"]
            if accept == "json":
                d = d["results"]
            svc.same_json(t, v, d[name])
        return r

    def do_getvalue(self, i, prop):
        r = self.req("GET", svc.url("Ts", i) + "/" + prop + "/$value")
        if not self.has(i):
            return self.want(r, 404)
        name = prop.split("/")[-1]
        t, v = TYPES[name], self.lookup(i, prop)
        if name == "C":
            return self.refused(r)
        if v is None:
            return self.want(r, 404)
        self.want(r, 200)
        if t == "Binary":
            eq(r.body, v, "raw value")
        elif t == "DateTime":
            def norm(x):
                return x.rstrip("0").rstrip(".") if "." in x else x
            eq(norm(r.text()), norm(svc.iso(v)), "raw date")
        else:
            eq(r.text(), svc.lit(t, v), "raw value", t)
        return r

    def do_list(self, es, accept, order, top, skip, count, filt, select):
        if es != "Ts":
            filt = select = None
            if order == "N":
                order = ""
        if self.kind == "sql" and filt and filt.startswith("not"):
            filt = "N eq 1"     # SQL collections don't support not
        key = svc.KEY[es]
        o = []
        if order:
            o.append("$orderby=" + svc.q(order.replace("id", key)))
        if top is not None:
            o.append("$top=%d" % top)
        if skip is not None:
            o.append("$skip=%d" % skip)
        if count:
            o.append("$inlinecount=" + ("allpages" if count == 1 else "none"))
        if filt:
            o.append("$filter=" + svc.q(filt))
        if select:
            o.append("$select=" + ",".join([key] + [
                x for x in select if x != key]))
        r = self.req("GET", svc.url(es) + ("?" + "&".join(o) if o else ""),
                     accept)
        rows = self.m.e[es]
        if any(self.judge(filt, row) is None for row in rows.values()):
            # arithmetic overflow
            return self.want(r, 200, 400)
        self.want(r, 200)
        ks = [k for k in rows if self.judge(filt, rows[k])]
        total = len(ks)
        ks.sort()
        if order == "id desc":
            ks.reverse()
        elif order == "N":
            ks.sort(key=lambda k: (rows[k]["N"] is not None,
                                   rows[k]["N"] or 0))
        paged = top is not None or skip is not None
        if skip:
            ks = ks[skip:]
        if top is not None:
            ks = ks[:top]
        ordered = order in ("id", "id desc") or (paged and not order)
        if order == "N" and paged:
            got, n = self.entries(r, accept)
            eq(len(got), len(ks), "size of page", self.op)
        else:
            n = self.same_keys(r, accept, es, ks, ordered,
                               select and [key] + select)
        if accept != "json1":
            eq(n, total if count == 1 else None, "count", self.op)
        return r

    def judge(self, filt, row):
        n = row.get("N")
        if not filt:
            return True
        if filt == "N eq 1":
            return n == 1
        if filt == "N gt 0":
            return n is not None and n > 0
        if filt == "not (N eq 1)":
            return n != 1
        if filt == "S eq 'a'":
            return row["S"] == "a"
        if filt == "ID lt 2":
            return row["ID"] < 2
        if filt == "C/X ge 0":
            return row["C"]["X"] is not None and row["C"]["X"] >= 0
        if n == 2 ** 31 - 1:
            # overflows
            return None
        return n is not None and n + 1 > row["ID"]

    def do_count(self, es):
        r = self.want(self.req("GET", svc.url(es) + "/$count"), 200)
        eq(r.text(), str(len(self.m.e[es])), "count")
        return r

    def do_count1(self, i):
        r = self.req("GET", svc.url("Ts", i) + "/$count")
        if not self.has(i):
            return self.want(r, 404)
        eq(self.want(r, 200).text(), "1", "count")
        return r

    def do_countnav(self, i):
        r = self.req("GET", svc.url("Ts", i) + "/Many/$count")
        if not self.has(i):
            return self.want(r, 404)
        eq(self.want(r, 200).text(),
           str(len(self.m.linked("Ts", i, "Many")[1])), "count")
        return r

    def navigate(self, es, k, nav, accept):
        r = self.req("GET", svc.url(es, k) + "/" + nav, accept)
        if k not in self.m.e[es]:
            return self.want(r, 404)
        ts, ks = self.m.linked(es, k, nav)
        if nav == "One":
            if not ks:
                return self.want(r, 404)
            self.want(r, 200)
            self.entity(r, accept, ts, ks[0])
        else:
            self.want(r, 200)
            self.same_keys(r, accept, ts, ks)
        return r

    def do_nav(self, i, nav, accept):
        return self.navigate("Ts", i, nav, accept)

    def do_navback(self, i, nav, accept):
        return self.navigate("Us", self.u(i), nav, accept)

    def do_navkey(self, i, u, accept):
        u = self.u(u)
        r = self.req("GET", svc.url("Ts", i) + "/Many" +
                     svc.key_path("Us", u), accept)
        if (i, u) not in self.m.many:
            return self.want(r, 404)
        self.want(r, 200)
        self.entity(r, accept, "Us", u)
        return r

    def get_links(self, es, k, nav, accept):
        r = self.req("GET", svc.url(es, k) + "/$links/" + nav, accept)
        if k not in self.m.e[es]:
            return self.want(r, 404)
        ts, ks = self.m.linked(es, k, nav)
        if nav == "One" and not ks:
            return self.want(r, 404)
        self.want(r, 200)
        if accept == "atom":
            root = r.xml()
            if nav == "One":
                eq(root.tag, svc.DS + "uri", "element")
                got = [root.text]
            else:
                eq(root.tag, svc.DS + "links", "element")
                got = [u.text for u in root.findall(svc.DS + "uri")]
        else:
            d = r.json()["d"]
            if nav != "One" and accept == "json":
                d = d["results"]
            got = [x["uri"] for x in (d if nav != "One" else [d])]
        # each link leads to its entity
        found = []
        for href in got:
            r2 = self.req("GET", svc.rel_href(href), "json")
            self.want(r2, 200)
            found.append(r2.json()["d"][svc.KEY[ts]])
        eq(sorted(found), sorted(ks), "links", self.op)
        return r

    def do_links(self, i, nav, accept):
        return self.get_links("Ts", i, nav, accept)

    def do_linksback(self, i, nav, accept):
        return self.get_links("Us", self.u(i), nav, accept)

    # -- writing

    def follow(self, r, es, k):
        r2 = self.want(self.req("GET", svc.rel_href(r.headers["location"]),
                                "json"), 200)
        eq(r2.json()["d"][svc.KEY[es]], k, "entity located")

    def do_post(self, i, row, form, one, many):
        links = {}
        if one is not None:
            links["One"] = svc.ROOT + svc.url("Us", self.u(one))[7:]
        if many:
            links["Many"] = [svc.ROOT + svc.url("Us", self.u(x))[7:]
                             for x in many]
        row = dict(row, ID=i)
        r = self.req("POST", svc.url("Ts"), form, form,
                     self.body(form, "Ts", row, links))
        used = [self.u(x) for x in many + ([] if one is None else [one])]
        if self.has(i) or any(u not in self.m.e["Us"] for u in used):
            return self.refused(r)
        self.want(r, 201)
        self.m.e["Ts"][i] = row
        if one is not None:
            self.m.one[i] = self.u(one)
        self.m.many |= set((i, self.u(x)) for x in many)
        self.entity(r, form, "Ts", i)
        self.follow(r, "Ts", i)
        return r

    def do_postu(self, i, v, form):
        row = {"K": self.u(i), "V": v}
        r = self.req("POST", svc.url("Us"), form, form,
                     self.body(form, "Us", row))
        if self.u(i) in self.m.e["Us"]:
            return self.refused(r)
        self.want(r, 201)
        self.m.e["Us"][self.u(i)] = row
        self.entity(r, form, "Us", self.u(i))
        self.follow(r, "Us", self.u(i))
        return r

    def do_put(self, i, row, form, method="PUT"):
        r = self.req(method, svc.url("Ts", i), None, form,
                     self.body(form, "Ts", row))
        if not self.has(i):
            return self.want(r, 404)
        self.want(r, 204)
        old = self.m.e["Ts"][i]
        new = dict(svc.EMPTY if method == "PUT" else old, ID=i)
        new.update(row)
        self.m.e["Ts"][i] = new
        return r

    def do_merge(self, i, row, form):
        return self.do_put(i, row, form, "MERGE")

    def do_putlink(self, i, row, form, u, merge):
        method = "MERGE" if merge else "PUT"
        u = self.u(u)
        r = self.req(method, svc.url("Ts", i), None, form, self.body(
            form, "Ts", row, {"One": svc.ROOT + svc.url("Us", u)[7:]}))
        if not self.has(i):
            return self.want(r, 404)
        if u not in self.m.e["Us"]:
            return self.refused(r)
        self.want(r, 204)
        new = dict(self.m.e["Ts"][i] if merge else svc.EMPTY, ID=i)
        new.update(row)
        self.m.e["Ts"][i] = new
        self.m.one[i] = u
        return r

    def remove(self, es, k):
        r = self.req("DELETE", svc.url(es, k))
        if k not in self.m.e[es]:
            return self.want(r, 404)
        self.want(r, 204)
        self.m.delete(es, k)
        return r

    def do_delete(self, i):
        return self.remove("Ts", i)

    def do_deleteu(self, i):
        return self.remove("Us", self.u(i))

    def assign(self, i, prop, v):
        row = self.m.e["Ts"][i] = dict(self.m.e["Ts"][i])
        ps = prop.split("/")
        if len(ps) == 2:
            row["C"] = dict(row["C"])
            row = row["C"]
        row[ps[-1]] = v

    def do_putprop(self, i, pv, form):
        prop, v = pv
        name = prop.split("/")[-1]
        t = TYPES[name]
        if form == "json":
            body = json.dumps({name: svc.to_json(t, v)})
        else:
            body = svc.xml_prop(name, t, v, True)
        r = self.req("PUT", svc.url("Ts", i) + "/" + prop, None, form, body)
        if not self.has(i):
            return self.want(r, 404)
        self.want(r, 204)
        self.assign(i, prop, v)
        return r

    def do_putvalue(self, i, pv, charset):
        prop, v = pv
        h = {}
        if isinstance(v, bytes):
            body = v
            if charset != "none":
                h["Content_Type"] = "application/octet-stream"
        else:
            v2 = str(v)
            if charset != "utf-8":
                # default for text
                v2 = v2.encode("latin-1", "ignore").decode("latin-1")
            if isinstance(v, str):
                v = v2
            body = v2.encode("utf-8" if charset == "utf-8" else "latin-1")
            if charset == "bare":
                h["Content_Type"] = "text/plain"
            elif charset != "none":
                h["Content_Type"] = "text/plain; charset=" + charset
        r = self.req("PUT", svc.url("Ts", i) + "/" + prop + "/$value",
                     body=body, **h)
        if not self.has(i):
            return self.want(r, 404)
        if self.lookup(i, prop) is None:
            # there is no value to replace
            return self.want(r, 404)
        self.want(r, 204)
        self.assign(i, prop, v)
        return r

    def do_delprop(self, i, prop):
        r = self.req("DELETE", svc.url("Ts", i) + "/" + prop)
        if not self.has(i):
            return self.want(r, 404)
        if prop in ("ID", "R", "C"):
            return self.refused(r)
        self.want(r, 204)
        self.assign(i, prop, None)
        return r

    def link_body(self, form, u):
        href = svc.ROOT + svc.url("Us", u)[7:]
        if form == "json":
            return json.dumps({"uri": href})
        return '<uri xmlns="%s">%s</uri>' % (svc.DS[1:-1], svc.esc(href))

    def do_addlink(self, i, nav, u, form):
        u = self.u(u)
        r = self.req("POST", svc.url("Ts", i) + "/$links/" + nav, None, form,
                     self.link_body(form, u), Content_Type="application/xml"
                     if form == "atom" else "application/json")
        if not self.has(i):
            return self.want(r, 404)
        if u not in self.m.e["Us"] or (nav == "One" and i in self.m.one):
            return self.refused(r)
        if (i, u) in self.m.many and nav == "Many":
            # a link which exists may be refused
            return self.want(r, 204, 403)
        self.want(r, 204)
        if nav == "One":
            self.m.one[i] = u
        else:
            self.m.many.add((i, u))
        return r

    def do_setlink(self, i, nav, u, form):
        u = self.u(u)
        r = self.req("PUT", svc.url("Ts", i) + "/$links/" + nav, None, form,
                     self.link_body(form, u), Content_Type="application/xml"
                     if form == "atom" else "application/json")
        if not self.has(i):
            return self.want(r, 404)
        if u not in self.m.e["Us"] or nav == "Many":
            return self.refused(r)
        self.want(r, 204)
        self.m.one[i] = u
        return r

    def do_dellink(self, i, nav, u):
        u = self.u(u)
        r = self.req("DELETE", svc.url("Ts", i) + "/$links/" + nav + (
            svc.key_path("Us", u) if nav == "Many" else ""))
        if nav == "One":
            if i not in self.m.one:
                return self.want(r, 404)
            self.want(r, 204)
            del self.m.one[i]
        else:
            if (i, u) not in self.m.many:
                return self.want(r, 404)
            self.want(r, 204)
            self.m.many.discard((i, u))
        return r

    # -- media

    def do_poststream(self, i, data, title):
        h = {"Content_Type": "image/png"}
        if i is not None:
            h["Slug"] = "(%d)" % i
        r = self.req("POST", svc.url("Ds"), "json", body=data, **h)
        self.want(r, 201)
        k = r.json()["d"]["ID"]
        ok(k not in self.m.e["Ds"], "stream replaced another", k, self.op)
        if i is not None and i not in self.m.e["Ds"]:
            eq(k, i, "key suggested by the slug")
        self.m.e["Ds"][k] = {"ID": k, "Title": None}
        self.m.streams[k] = ("image/png", data)
        self.follow(r, "Ds", k)
        return r

    def do_putstream(self, i, data):
        r = self.req("PUT", svc.url("Ds", i) + "/$value", body=data,
                     Content_Type="text/x-y")
        if i not in self.m.e["Ds"]:
            return self.want(r, 404)
        self.want(r, 204)
        self.m.streams[i] = ("text/x-y", data)
        return r

    def do_getstream(self, i):
        r = self.req("GET", svc.url("Ds", i) + "/$value")
        if i not in self.m.e["Ds"]:
            return self.want(r, 404)
        self.want(r, 200)
        t, data = self.m.streams[i]
        eq(r.body, data, "stream")
        eq(r.headers["content-type"], t, "stream type")
        return r

    def do_deletestream(self, i):
        return self.remove("Ds", i)

    def do_getd(self, i, accept):
        r = self.req("GET", svc.url("Ds", i), accept)
        if i not in self.m.e["Ds"]:
            return self.want(r, 404)
        self.want(r, 200)
        got = self.entity(r, accept, "Ds", i)
        if accept == "atom":
            src = got.find(svc.ATOM + "content").get("src")
        else:
            src = got["__metadata"]["media_src"]
        r2 = self.want(self.req("GET", svc.rel_href(src)), 200)
        eq(r2.body, self.m.streams[i][1], "stream")
        return r

    # -- not well formed

    def do_bad(self, method, path, body, ctype):
        h = {} if ctype is None else {"Content_Type": ctype}
        r = self.req(method, "/x.svc/" + path, body=body, **h)
        if method == "PUT" and path == "Ts(0)/S/$value" or (
                200 <= r.status < 300):
            # a value that happens to be good: adopt what was stored
            self.c.label("bad accepted")
            self.adopt()
        return r

    def do_fuzz(self, method, path):
        path, _, query = path.partition("?")
        r = self.req(method, "/x.svc/" + path.replace(" ", "%20") + (
            "?" + svc.q(query, "$='()/,&:-") if query else ""))
        if method in ("GET", "HEAD"):
            return r
        if 200 <= r.status < 300:
            self.c.label("fuzz accepted " + method)
            self.adopt()
        return r

    def adopt(self):
        """take over a change whose outcome is not judged"""
        got = self.s.dump()
        m = self.m
        for es in ("Ts", "Us", "Ds"):
            want = dict((k, svc.odm.expect_value(
                r, svc.PROPS[es], svc.COMPLEX)) for k, r in m.e[es].items())
            if want != got.e[es]:
                raise Stop
        m.one, m.many, m.streams = got.one, got.many, got.streams


class Stop(Exception):
    pass


def checker(kind):
    def check(case, c):
        try:
            Run(case, c, kind).run()
        except Stop:
            c.label("stopped")
    return check


# -- requests that must be refused -----------------------------------------

def fixed_cases():
    ok_if = {
        "Ts()": 200, "Ts(null)": None, "$batch": 404}
    out = []
    for f in FUZZ:
        want = ok_if.get(f, 4)
        if want is not None and f not in ("//",):
            out.append(("GET", f, None, None, want))
    for f in ["", "$metadata", "Ts", "Ts(0)", "Ts(0)/N", "Ts(0)/C", "Us",
              "Ts(0)/One", "Ts(0)/Many", "Ts(0)/$links/Many",
              "Ts(0)/$links/One", "Ts/$count", "Ts(0)/S/$value",
              "Ts?$select=N", "Ts?$expand=One,Many", "Ts(0)?$expand=One",
              "Us?$expand=Ts/Many", "Ts(0)/N?$format=json", "Ts?$format=atom",
              "Ts?$orderby=One/V", "Ts?$filter=One/V eq 1",
              "Ts(0)/Many?$filter=V eq 1", "Ts(0)/Many?$top=1&$skip=0"]:
        out.append(("GET", f, None, None, 200))
    for b in BAD_BODIES:
        if b in (b'{"S":1}', b'{"C":null}', b'{"Many":{}}',
                 b'{"S":{"a":1}}'):
            continue
        for ct in ("application/json", "application/atom+xml", None):
            out.append(("POST", "Ts", ct, b, 4))
    for f in ["Ts", "Us", "Ts(0)/Many"]:
        for mth in ("PUT", "MERGE", "DELETE", "FOO"):
            out.append((mth, f, "application/json", b'{"S":"x"}', 4))
    for f in ["Ts(0)", "Ts(0)/N", "Ts(0)/C", "Ts(0)/S/$value"]:
        out.append(("POST", f, "application/json", b'{"N":5}', 4))
        out.append(("FOO", f, "application/json", b'{"N":5}', 4))
    for f in ["Ts(0)/$links/Many", "Ts(0)/$links/One"]:
        for b in [b'{"uri":"Ts(0)"}', b'{"uri":"Us(\'absent\')"}', b'{}',
                  b'{"uri":1}', b'{"uri":""}', b'{"uri":"Us"}', b"[]", b"1",
                  b'{"uri":"http://elsewhere.example/Us(\'a\')"}',
                  b'{"uri":"Ts(0)/N"}', b'{"uri":":::"}', b"<a/>",
                  b'{"uri":"Us(%27a%27)/Nope"}', b'{"uri":"%%"}']:
            for mth in ("POST", "PUT"):
                out.append((mth, f, None, b, 4))
    for a in ["image/png", "text/html", "application/pdf;q=0.5"]:
        for f in ["Ts", "Ts(0)", "Ts(0)/N", "Ts/$count", "Ts(0)/S/$value",
                  "$metadata", "", "Ts(0)/$links/Many", "Ts(0)/$links/One"]:
            out.append(("ACCEPT " + a, f, None, None, 406))
    for v in ["3.0", "2.1", "9.9", "x", "", "3"]:
        out.append(("VERSION " + v, "Ts", None, None,
                    4 if v[:1] in "3289" and v else None))
    return out


def check_fixed(case, c):
    method, path, ctype, body, want = case
    c.nontrivial()
    with svc.Service() as s:
        m = svc.Model()
        m.e["Us"]["a"] = {"K": "a", "V": 1}
        m.e["Ts"][0] = {"ID": 0, "S": "s", "N": 1, "C": {"X": 1, "Y": "y"},
                        "B": b"b", "D": None, "L": 5, "R": "r", "F": True}
        for es in ("Us", "Ts"):
            for row in m.e[es].values():
                s.insert(es, row)
        s.link(0, "One", "a")
        s.link(0, "Many", "a")
        m.one[0] = "a"
        m.many.add((0, "a"))
        h = {}
        if ctype:
            h["Content-Type"] = ctype
        if method.startswith("ACCEPT"):
            h["Accept"] = method[7:]
            method = "GET"
        elif method.startswith("VERSION"):
            h["DataServiceVersion"] = method[8:]
            method = "GET"
        p, _, query = path.partition("?")
        r = s.request(method, "/x.svc/" + p.replace(" ", "%20") + (
            "?" + svc.q(query, "$='()/,&:-") if query else ""), h, body)
        c.label(r.status)
        ok(r.status < 500, "internal error", r.status, r.body[:300])
        if want == 4:
            ok(400 <= r.status < 500, "accepted", r.status, r.body[:300])
        elif want:
            eq(r.status, want, "status", r.body[:300])
        if r.status >= 400:
            s.check(m, case)


PROPS = [
    Prop("mem", histories(), checker("mem"), quick=1500, thorough=40000,
         rule="a history of requests, against a model; non-trivial: two "
         "succeed"),
    Prop("sql", histories(), checker("sql"), quick=500, thorough=10000,
         rule="the same with the service's data in SQLite"),
    Enum("single", fixed_cases, check_fixed, rule="single requests, each of "
         "a known outcome"),
]
