"""An OData service driven in process, with bodies written and responses read
independently of pyslet."""
import base64
import binascii
import calendar
import io
import json
import re
import urllib.parse
from xml.etree import ElementTree as ET

from pyslet.odata2 import server

from vlib import eq, fail, ok
from . import odm, edmvals as ev

ROOT = "http://localhost/x.svc/"
ATOM = "{http://www.w3.org/2005/Atom}"
DS = "{http://schemas.microsoft.com/ado/2007/08/dataservices}"
DM = "{http://schemas.microsoft.com/ado/2007/08/dataservices/metadata}"
REL = "http://schemas.microsoft.com/ado/2007/08/dataservices/related/"

NN = {"Nullable": "false"}
COMPLEX = {"CT": [("X", "Int32", {}), ("Y", "String", {})]}
TPROPS = [("ID", "Int32", NN), ("S", "String", {}), ("N", "Int32", {}),
          ("C", "CT", NN), ("B", "Binary", {}),
          ("D", "DateTime", {"Precision": "3"}), ("L", "Int64", {}),
          ("R", "String", NN), ("F", "Boolean", {})]
UPROPS = [("K", "String", NN), ("V", "Int32", {})]
DPROPS = [("ID", "Int32", NN), ("Title", "String", {})]
PROPS = {"Ts": TPROPS, "Us": UPROPS, "Ds": DPROPS}
KEY = {"Ts": "ID", "Us": "K", "Ds": "ID"}
SPEC = dict(
    types={"T": dict(props=TPROPS, keys=["ID"]),
           "U": dict(props=UPROPS, keys=["K"]),
           "D": dict(props=DPROPS, keys=["ID"], stream=True)},
    complex=COMPLEX, sets={"Ts": "T", "Us": "U", "Ds": "D"},
    assocs=[{"name": "A1", "ends": [("Ts", "*", "T1", "One"),
                                    ("Us", "0..1", "U1", "Ts")]},
            {"name": "A2", "ends": [("Ts", "*", "T2", "Many"),
                                    ("Us", "*", "U2", "Back")]}])
EMPTY = {"S": None, "N": None, "C": {"X": None, "Y": None}, "B": None,
         "D": None, "L": None, "R": None, "F": None}


# -- the reference model ---------------------------------------------------

class Model(object):
    """Entities as payload dictionaries; links as sets of pairs"""

    def __init__(self):
        self.e = {"Ts": {}, "Us": {}, "Ds": {}}
        self.one = {}
        self.many = set()
        self.streams = {}

    def delete(self, es, k):
        del self.e[es][k]
        if es == "Ts":
            self.one.pop(k, None)
            self.many = set(p for p in self.many if p[0] != k)
        elif es == "Us":
            self.one = dict(p for p in self.one.items() if p[1] != k)
            self.many = set(p for p in self.many if p[1] != k)
        else:
            self.streams.pop(k, None)

    def linked(self, es, k, nav):
        """the keys linked, and their set"""
        if nav == "One":
            return "Us", [self.one[k]] if k in self.one else []
        if nav == "Many":
            return "Us", [u for t, u in self.many if t == k]
        if nav == "Ts":
            return "Ts", [t for t, u in self.one.items() if u == k]
        return "Ts", [t for t, u in self.many if u == k]


NAVS = {"Ts": ["One", "Many"], "Us": ["Ts", "Back"], "Ds": []}


class Service(object):

    def __init__(self, kind="mem", streams=False):
        self.store = odm.Store(SPEC, kind, streams)

    def __enter__(self):
        self.store.__enter__()
        self.server = server.Server(ROOT)
        self.server.set_model(self.store.doc)
        return self

    def __exit__(self, *args):
        return self.store.__exit__(*args)

    def insert(self, es, row):
        with self.store.open(es) as coll:
            e = coll.new_entity()
            odm.set_value(e, PROPS[es], COMPLEX, row)
            if es == "Ds":
                e[KEY[es]].set_from_value(row[KEY[es]])
            coll.insert_entity(e)

    def link(self, k, nav, u):
        with self.store.open("Ts") as coll, self.store.open("Us") as us:
            with coll[k][nav].open() as sub:
                sub[u] = us[u]

    def dump(self):
        """The service's data, read directly from the store"""
        out = Model()
        for es in ("Ts", "Us", "Ds"):
            with self.store.open(es) as coll:
                for k, e in coll.items():
                    out.e[es][k] = odm.get_value(e, PROPS[es], COMPLEX)
                    if es == "Ts":
                        with e["One"].open() as sub:
                            one = list(sub)
                        ok(len(one) < 2, "several entities linked", k, one)
                        if one:
                            out.one[k] = one[0]
                        with e["Many"].open() as sub:
                            out.many |= set((k, u) for u in sub)
                    elif es == "Ds":
                        b = io.BytesIO()
                        info = coll.read_stream(k, b)
                        out.streams[k] = (str(info.type) if info.type else
                                          None, b.getvalue())
        return out

    def check(self, model, what):
        got = self.dump()
        for es in ("Ts", "Us", "Ds"):
            eq(sorted(got.e[es]), sorted(model.e[es]), "keys stored", es,
               what)
            for k, row in model.e[es].items():
                want = odm.expect_value(row, PROPS[es], COMPLEX)
                eq(got.e[es][k], want, "entity stored", es, k, what)
        eq(got.one, model.one, "single links stored", what)
        eq(got.many, model.many, "links stored", what)
        for k, v in model.streams.items():
            eq(got.streams[k], v, "stream stored", k, what)

    def request(self, method, path, headers=None, body=None, mode=0):
        return request(self.server, method, path, headers, body, mode)


class Response(object):

    def __init__(self, status, headers, body):
        self.status = int(status.split()[0])
        self.headers = dict((k.lower(), v) for k, v in headers)
        self.body = body
        n = [v for k, v in headers if k.lower() == "content-length"]
        if n and body:
            eq(int(n[0]), len(body), "Content-Length")

    def text(self):
        return self.body.decode("utf-8")

    def json(self):
        try:
            return json.loads(self.text())
        except ValueError:
            fail("response is not JSON", self.body)

    def xml(self):
        try:
            return ET.fromstring(self.body)
        except ET.ParseError as e:
            fail("response is not XML", self.body, e)


def environ(method, path, query, headers, body, mode=0):
    """mode 0: PATH_INFO as PEP 3333 has it; 1: as characters, which is what
    pyslet's own server passes"""
    environ = {
        "REQUEST_METHOD": method, "SCRIPT_NAME": "",
        "PATH_INFO": urllib.parse.unquote(
            path, encoding="utf-8" if mode else "latin-1"),
        "QUERY_STRING": query,
        "SERVER_NAME": "localhost", "SERVER_PORT": "80",
        "SERVER_PROTOCOL": "HTTP/1.1", "wsgi.version": (1, 0),
        "wsgi.url_scheme": "http", "wsgi.input": io.BytesIO(body or b""),
        "wsgi.errors": io.StringIO(), "wsgi.multithread": False,
        "wsgi.multiprocess": False, "wsgi.run_once": False,
        "HTTP_HOST": "localhost"}
    if body is not None:
        environ["CONTENT_LENGTH"] = str(len(body))
    for k, v in headers:
        k = k.upper().replace("-", "_")
        environ[k if k.startswith("CONTENT_") else "HTTP_" + k] = v
    return environ


def request(srv, method, path, headers=None, body=None, mode=0):
    path, _, query = path.partition("?")
    env = environ(method, path, query, list((headers or {}).items()), body,
                  mode)
    result = []
    chunks = list(srv(env, lambda s, h, x=None: result.append((s, h))))
    for x in chunks:
        ok(isinstance(x, bytes), "response data is not bytes", x)
    eq(len(result), 1, "calls of start_response")
    return Response(result[0][0], result[0][1], b"".join(chunks))


# -- writing ---------------------------------------------------------------

def q(s, safe="$='()/,:-"):
    return urllib.parse.quote(s, safe=safe)


def key_path(es, k):
    if es == "Us":
        return "('%s')" % q(k.replace("'", "''"), "':-")
    return "(%d)" % k


def url(es, k=None):
    return "/x.svc/" + es + ("" if k is None else key_path(es, k))


def ticks(p):
    (y, mo, d), (h, m, s, k), n = p
    return (calendar.timegm((y, mo, d, h, m, s, 0, 0, 0)) * 1000 +
            k * 10 ** (3 - n))


def iso(p):
    (y, mo, d), (h, m, s, k), n = p
    s = "%04d-%02d-%02dT%02d:%02d:%02d" % (y, mo, d, h, m, s)
    return s + ".%0*d" % (n, k) if n else s


def to_json(t, p):
    if t in COMPLEX:
        return dict((n, to_json(tt, p[n])) for n, tt, f in COMPLEX[t]
                    if n in p)
    if p is None:
        return None
    if t == "Binary":
        return base64.b64encode(p).decode("ascii")
    if t == "DateTime":
        return "/Date(%d)/" % ticks(p)
    if t == "Int64":
        return str(p)
    return p


def json_body(es, row, links=None):
    o = dict((n, to_json(t, row[n])) for n, t, f in PROPS[es] if n in row)
    for nav, href in (links or {}).items():
        if isinstance(href, list):
            o[nav] = [{"__metadata": {"uri": h}} for h in href]
        else:
            o[nav] = {"__metadata": {"uri": href}}
    return json.dumps(o)


def esc(s):
    return "".join(
        "&#%d;" % ord(c) if c in "<>&\"'\r\n\t" else c for c in s)


def lit(t, p):
    if t == "Binary":
        # Edm.Binary literals are hex in Atom for pyslet (see C08)
        return binascii.hexlify(p).decode("ascii").upper()
    if t == "DateTime":
        return iso(p)
    if t == "Boolean":
        return "true" if p else "false"
    return str(p)


def xml_prop(n, t, p, top=False):
    ns = (' xmlns:d="%s" xmlns:m="%s"' % (DS[1:-1], DM[1:-1])) if top else ""
    if t in COMPLEX:
        return '<d:%s%s>%s</d:%s>' % (n, ns, "".join(
            xml_prop(x, tt, p[x]) for x, tt, f in COMPLEX[t] if x in p), n)
    if p is None:
        return '<d:%s%s m:null="true"/>' % (n, ns)
    return "<d:%s%s>%s</d:%s>" % (n, ns, esc(lit(t, p)), n)


def atom_body(es, row, links=None):
    o = ['<?xml version="1.0" encoding="utf-8"?><entry xmlns="%s" '
         'xmlns:d="%s" xmlns:m="%s">' % (ATOM[1:-1], DS[1:-1], DM[1:-1])]
    for nav, href in (links or {}).items():
        for h in href if isinstance(href, list) else [href]:
            o.append('<link rel="%s" href="%s"/>' % (REL + nav, esc(h)))
    o.append('<content type="application/xml"><m:properties>')
    for n, t, f in PROPS[es]:
        if n in row:
            o.append(xml_prop(n, t, row[n]))
    o.append("</m:properties></content></entry>")
    return "".join(o)


# -- reading ---------------------------------------------------------------

def same_json(t, p, got, *what):
    if t in COMPLEX:
        ok(isinstance(got, dict), "complex value is", got, *what)
        for n, tt, f in COMPLEX[t]:
            same_json(tt, p[n], got.get(n), n, *what)
        return
    eq(got, to_json(t, p), "JSON value", t, *what)


def same_xml(t, p, el, *what):
    ok(el is not None, "missing element", *what)
    if t in COMPLEX:
        for n, tt, f in COMPLEX[t]:
            same_xml(tt, p[n], el.find(DS + n), n, *what)
        return
    null = el.get(DM + "null") == "true"
    if p is None or null:
        eq(null, p is None, "null", t, *what)
        return
    got = el.text or ""
    if t == "DateTime":
        m = re.match(r"^([^.]*)(?:\.(\d+))?$", got)
        got = m.group(1) + "." + (m.group(2) or "").ljust(3, "0")
        want = iso(p)
        want = want.split(".")[0] + "." + (want.split(".") + [""])[1].ljust(
            3, "0")
        eq(got, want, "XML date", *what)
    elif t == "Binary":
        # Edm.Binary in XML is base64 or hex
        ok(got.upper() == lit(t, p) or
           got == base64.b64encode(p).decode("ascii"), "XML binary", got, p)
    else:
        eq(got, lit(t, p), "XML value", t, *what)


def same_entity(es, row, got, form, select=None):
    for n, t, f in PROPS[es]:
        if select and n not in select:
            continue
        if form == "json":
            ok(n in got, "property missing", n)
            same_json(t, row[n], got[n], n)
        else:
            same_xml(t, row[n], got.find(".//" + DM + "properties/" + DS + n),
                     n)


def entry_key(es, got, form):
    n = KEY[es]
    if form == "json":
        return got[n]
    k = got.find(".//" + DM + "properties/" + DS + n).text or ""
    return k if es == "Us" else int(k)


def rel_href(href):
    """URI reference to path, which the service must resolve"""
    href = urllib.parse.urljoin(ROOT, href)
    ok(href.startswith(ROOT), "URI outside the service", href)
    return href[len(ROOT) - len("/x.svc/"):]
