"""C12: data accessed through the OData client equals the server's."""
import io

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet.odata2 import client, core, server
from pyslet.odata2 import csdl as edm
from pyslet.http import params

from vlib import Prop, eq, ok, fail
from . import c05
from . import c06
from . import c11
from . import edmvals as ev
from . import fakenet
from . import gens
from . import odm
from . import svc

PROPERTY = "C12"
ROOT = "http://localhost/x.svc/"


# -- the service at the other end of the connection -------------------------

class App(object):
    """answers requests with the WSGI application"""

    def __init__(self, app, mode=0):
        self.app = app
        # bit 0: chunked responses; bit 1: close after each response
        self.mode = mode
        self.log = []

    def connection(self, host, port):
        eq((host, port), ("localhost", 80), "address connected to")
        return fakenet.Peer(self)

    def handle(self, peer, method, target, headers, body):
        path, _, query = target.partition("?")
        environ = svc.environ(method, path, query, headers, body)
        result = []
        self.log.append((method, target))
        data = b"".join(self.app(
            environ, lambda s, h, x=None: result.append((s, h))))
        status, hdrs = result[0]
        o = ["HTTP/1.1 " + status]
        empty = method == "HEAD" or status[:3] in ("204", "304")
        hdrs = list(hdrs)
        if self.mode & 1 and not empty:
            hdrs = [h for h in hdrs if h[0].lower() != "content-length"]
            hdrs.append(("Transfer-Encoding", "chunked"))
            n = len(data) // 2
            body = b"".join(b"%x\r\n%s\r\n" % (len(x), x)
                            for x in (data[:n], data[n:]) if x) + b"0\r\n\r\n"
        else:
            if not empty and not any(
                    h[0].lower() == "content-length" for h in hdrs):
                hdrs.append(("Content-Length", str(len(data))))
            body = data
        if self.mode & 2:
            hdrs.append(("Connection", "close"))
        o += ["%s: %s" % h for h in hdrs]
        peer.out += "\r\n".join(o).encode("latin-1") + b"\r\n\r\n"
        if not empty:
            peer.out += body
        if self.mode & 2:
            peer.eof = True


class Remote(object):
    """A store and the OData client for it"""

    def __init__(self, store, mode=0, frag=0):
        self.store = store
        self.kind = store.kind
        self.server = server.Server(ROOT)
        self.server.set_model(store.doc)
        self.app = App(self.server, mode)
        self.net = fakenet.Net(self.app, frag)
        self.client = self.net.client(client.Client)
        self.client.load_service(ROOT)

    def es(self, name):
        return self.client.feeds[name]

    def open(self, name):
        return self.es(name).open()


# -- histories on twin stores ------------------------------------------------

NN = {"Nullable": "false"}
COMPLEX = svc.COMPLEX
PROPS_OF = dict(
    svc.PROPS, Us=svc.UPROPS,
    Vs=[("ID", "Int32", NN), ("V", "String", {})],
    Ws=[("G", "Guid", NN), ("P", "Int16", NN), ("V", "Double", {})])
KEYS_OF = {"Ts": ["ID"], "Us": ["K"], "Ds": ["ID"], "Vs": ["ID"],
           "Ws": ["G", "P"]}
SPEC = dict(
    types=dict((n[0], dict(props=PROPS_OF[n], keys=KEYS_OF[n],
                           stream=n == "Ds")) for n in PROPS_OF),
    complex=COMPLEX, sets=dict((n, n[0]) for n in PROPS_OF),
    assocs=[{"name": "A1", "ends": [("Ts", "*", "T1", "One"),
                                    ("Us", "0..1", "U1", "Ts")]},
            {"name": "A2", "ends": [("Ts", "*", "T2", "Many"),
                                    ("Us", "*", "U2", "Back")]},
            {"name": "A3", "ends": [("Vs", "*", "V3", "Owner"),
                                    ("Us", "1", "U3", "Vs")]},
            {"name": "A4", "ends": [("Ws", "0..1", "W4", "T"),
                                    ("Ts", "1", "T4", "W")]},
            {"name": "A5", "ends": [("Ds", "*", "D5", None),
                                    ("Us", "*", "U5", "Ds")]}])
# {entity set: {navigation property: (target set, collection)}}
NAVS = {"Ts": {"One": ("Us", False), "Many": ("Us", True),
               "W": ("Ws", False)},
        "Us": {"Ts": ("Ts", True), "Back": ("Ts", True), "Vs": ("Vs", True),
               "Ds": ("Ds", True)},
        "Vs": {"Owner": ("Us", False)},
        "Ws": {"T": ("Ts", False)}, "Ds": {}}
ES = list(NAVS)
# navigation properties which must be bound on insert
REQUIRED = {"Vs": "Owner", "Ws": "T"}
TEXT = c11.TEXT
GUIDS = ["0" * 32, "0123456789abcdef" * 2, "f" * 32]
KEYPOOL = {"Ts": [0, 1, -5, 2147483647], "Vs": [0, 7, -1, 10],
           "Ds": [0, 3, 12, -2], "Ws": [(GUIDS[0], 0), (GUIDS[0], -1),
                                        (GUIDS[1], 0), (GUIDS[2], 7)]}


def mb(s):
    return st.one_of(st.none(), s)


VALS = dict(c11.VALS)
ROWS = {
    "Ts": c11.full_t,
    "Us": st.fixed_dictionaries({"V": mb(gens.edge_ints(-2 ** 31,
                                                        2 ** 31 - 1))}),
    "Vs": st.fixed_dictionaries({"V": mb(TEXT)}),
    "Ws": st.fixed_dictionaries({"V": mb(st.sampled_from(
        ["0.0", "1.5", "-2.25", "1e+300", "5e-324", "-0.1"]))}),
    "Ds": st.fixed_dictionaries({"Title": mb(TEXT)})}
ki = st.integers(0, 11)
sets = st.sampled_from(ES + ["Ts", "Us"])


def J(*a):
    return st.tuples(*[st.just(x) if isinstance(x, str) else x for x in a])


def of_set(f):
    return sets.flatmap(f)


def nav_of(es):
    return st.sampled_from(sorted(NAVS[es]))


linking = sets.filter(lambda s: NAVS[s]).flatmap(
    lambda es: J(st.just(es), ki, nav_of(es)))


@st.composite
def selects(draw, es):
    """(expand, select) with at most two levels"""
    expand = select = None
    navs = sorted(NAVS[es])
    if navs and draw(st.booleans()):
        expand = {}
        for n in draw(st.lists(st.sampled_from(navs), min_size=1,
                               unique=True)):
            expand[n] = None
            t = NAVS[es][n][0]
            if NAVS[t] and draw(st.integers(0, 3)) == 0:
                expand[n] = {draw(st.sampled_from(sorted(NAVS[t]))): None}
    if draw(st.booleans()):
        select = dict((n, None) for n in draw(st.lists(st.sampled_from(
            [p[0] for p in PROPS_OF[es]]), min_size=1, max_size=3,
            unique=True)))
        for n in expand or {}:
            select[n] = None
    return expand, select


FILTERS = {
    "Ts": ["N gt 3", "S eq 'a'", "C/X lt 2", "length(S) gt 1",
           "startswith(S,'a')", "F", "One/K eq 'O''Neil'", "L add 1 gt 5",
           "substringof('&',R)", "R ne S", "N eq null", "One/V gt 0",
           "ID ge 0 and ID lt 5", "S eq '\u4e2d?#%+ '",
           "D gt datetime'2000-01-01T00:00:00'", "ID mod 2 eq 1",
           "-ID lt 0 or F"],
    "Us": ["V gt 3", "K eq 'a'", "length(K) eq 1", "K gt 'b'",
           "K eq 'x/y'"],
    "Vs": ["V eq 'a'", "Owner/K eq 'a'", "ID lt 5", "V ne null"],
    "Ws": ["P eq 0", "V gt 1.0d", "T/ID lt 2",
           "G eq guid'00000000-0000-0000-0000-000000000000'"],
    "Ds": ["ID gt 0", "Title eq null"]}
ORDERS = {
    "Ts": ["S,ID desc", "N desc,ID", "ID", "C/Y,ID", "length(R),ID"],
    "Us": ["V,K", "K desc"], "Vs": ["V desc,ID", "Owner/K,ID"],
    "Ws": ["G,P desc", "V,G,P"], "Ds": ["Title,ID"]}


@st.composite
def options(draw, es):
    f = draw(st.one_of(st.none(), st.sampled_from(FILTERS[es])))
    o = draw(st.one_of(st.none(), st.sampled_from(ORDERS[es])))
    e, s = draw(selects(es))
    return f, o, e, s


@st.composite
def links(draw, es, update=False):
    """{nav: [("bind", key) or ("new", key, row)]} """
    out = {}
    for n, (t, many) in sorted(NAVS[es].items()):
        need = REQUIRED.get(es) == n
        if not need and draw(st.integers(0, 3)):
            continue
        items = []
        for i in range(draw(st.integers(1, 2)) if many else 1):
            # updates that insert the entity a single-valued property is to
            # be linked to: direct stores refuse if there is a link
            if t not in ("Ds", "Vs", "Ws") and (
                    many or not update) and draw(st.integers(0, 3)) == 0:
                items.append(("new", draw(ki), draw(ROWS[t])))
            else:
                items.append(("bind", draw(ki)))
        out[n] = items
    return out


blob = st.binary(max_size=40)
mtype = st.sampled_from(["text/plain", "application/octet-stream",
                         "image/png"])
ops = st.one_of(
    of_set(lambda es: J("insert", st.just(es), ki, ROWS[es], links(es))
           ).filter(lambda o: o[1] != "Ds"),
    of_set(lambda es: J("insert", st.just(es), ki, ROWS[es], links(es))
           ).filter(lambda o: o[1] != "Ds"),
    of_set(lambda es: J("insert", st.just(es), ki, ROWS[es], links(es))
           ).filter(lambda o: o[1] != "Ds"),
    of_set(lambda es: J("get", st.just(es), ki, options(es))),
    of_set(lambda es: J("list", st.just(es), options(es))),
    of_set(lambda es: J("pages", st.just(es), options(es),
                        mb(st.integers(1, 3)), mb(st.integers(0, 2)))),
    of_set(lambda es: J("update", st.just(es), ki, ROWS[es],
                        mb(st.lists(st.sampled_from(
                            [p[0] for p in PROPS_OF[es]]), min_size=1,
                            max_size=3, unique=True)),
                        st.booleans(), st.one_of(st.just({}), links(es, True)))),
    of_set(lambda es: J("delete", st.just(es), ki)),
    linking.flatmap(lambda l: J("link", st.just(l), ki)),
    linking.flatmap(lambda l: J("link", st.just(l), ki)),
    linking.flatmap(lambda l: J("replace", st.just(l), ki)),
    linking.flatmap(lambda l: J("unlink", st.just(l), ki)),
    linking.flatmap(lambda l: J("clear", st.just(l))),
    linking.filter(lambda l: NAVS[l[0]][l[2]][0] != "Ds").flatmap(
        lambda l: J("navinsert", st.just(l), ki,
                                ROWS[NAVS[l[0]][l[2]][0]])),
    linking.flatmap(lambda l: J("nav", st.just(l),
                                options(NAVS[l[0]][l[2]][0]), ki)),
    J("newstream", ki, blob, mtype),
    J("setstream", ki, blob, mtype),
    J("getstream", ki, st.booleans()),
)


@st.composite
def histories(draw):
    ukeys = draw(st.lists(st.one_of(TEXT, st.sampled_from(c11.KEYS)),
                          min_size=4, max_size=4, unique=True))
    start = []
    for es in ("Us", "Us", "Ts", "Ts", "Vs", "Ws"):
        start.append(("insert", es, draw(ki), draw(ROWS[es]),
                      {REQUIRED[es]: [("bind", draw(ki))]}
                      if es in REQUIRED else {}))
    return (ukeys, start, draw(st.lists(ops, min_size=1, max_size=8)),
            draw(st.integers(0, 3)), draw(st.sampled_from([0, 0, 1, 2, 3])),
            draw(st.sampled_from([None, None, 1, 2])))


class Side(object):
    """performs operations on one of the twins"""

    def __init__(self, opener, ukeys, topmax=None):
        # topmax: the server's limit on the size of a page
        self.open = opener
        self.topmax = topmax
        self.sized = True
        self.keys = dict((es, ()) for es in ES)
        self.ukeys = ukeys

    def key(self, es, i, new=False):
        """the i-th key, preferably of an entity there is or is not"""
        there = [j for j in range(4) if repr(self.pool(es, j)) in self.keys[
            es]]
        if new:
            there = [j for j in range(4) if j not in there]
        if there and i % 6:
            return self.pool(es, there[i % len(there)])
        return self.pool(es, i % 4)

    def pool(self, es, i):
        if es == "Us":
            return self.ukeys[i]
        k = KEYPOOL[es][i]
        if es == "Ws":
            return (ev.to_python("Guid", k[0]), k[1])
        return k

    def fill(self, e, es, row):
        odm.set_value(e, [p for p in PROPS_OF[es] if p[0] in row], COMPLEX,
                      row)

    def canon(self, e, es, expand=None, select=None):
        props = PROPS_OF[es]
        if select is not None:
            props = [p for p in props
                     if p[0] in select or p[0] in KEYS_OF[es]]
        out = {"": odm.get_value(e, props, COMPLEX), "exists": e.exists}
        for n, sub in (expand or {}).items():
            t, many = NAVS[es][n]
            ok(e[n].isExpanded, "expanded navigation property", es, n)
            ok(many == e[n].isCollection, "isCollection", es, n)
            with e[n].open() as coll:
                out[n] = sorted((self.canon(x, t, sub)
                                 for x in coll.itervalues()), key=repr)
                eq(len(coll), len(out[n]), "size of an expanded collection")
        return out

    def setup(self, coll, opts, model=None):
        f, o, e, s = opts
        coll.set_expand(deep(e), deep(s))
        if f is not None:
            coll.set_filter(core.CommonExpression.from_str(f))
        if o is not None:
            coll.set_orderby(core.CommonExpression.orderby_from_str(o))

    def listing(self, coll, es, opts):
        out = [self.canon(x, es, opts[2], opts[3])
               for x in coll.itervalues()]
        n = len(coll)
        keys = [repr(k) for k in coll]
        if opts[1] is None:
            out.sort(key=repr)
            keys.sort()
        return n, out, keys

    def bind(self, e, es, links):
        for n, items in sorted(links.items()):
            t, many = NAVS[es][n]
            for item in items:
                k = self.key(t, item[1])
                with self.open(t) as coll:
                    if item[0] == "bind":
                        e[n].bind_entity(coll[k])
                    else:
                        x = coll.new_entity()
                        x.set_key(self.key(t, item[1], True))
                        self.fill(x, t, item[2])
                        e[n].bind_entity(x)

    def nav(self, l):
        es, i, n = l
        with self.open(es) as coll:
            return coll[self.key(es, i)][n].open()

    def run(self, op):
        name = op[0]
        return getattr(self, "do_" + name)(*op[1:])

    def do_insert(self, es, i, row, links):
        with self.open(es) as coll:
            e = coll.new_entity()
            e.set_key(self.key(es, i, True))
            self.fill(e, es, row)
            self.bind(e, es, links)
            coll.insert_entity(e)
            if i % 4 == 1:
                # the new entity is up to date with the store
                coll.update_entity(e)
            return self.canon(e, es)

    def do_get(self, es, i, opts):
        with self.open(es) as coll:
            self.setup(coll, opts)
            k = self.key(es, i)
            there = k in coll
            try:
                e = coll[k]
            except KeyError:
                ok(not there, "key in collection but not found", es, k)
                raise
            ok(there, "key found but not in collection", es, k)
            return self.canon(e, es, opts[2], opts[3])

    def do_list(self, es, opts):
        with self.open(es) as coll:
            self.setup(coll, opts)
            return self.listing(coll, es, opts)

    def do_pages(self, es, opts, top, skip):
        with self.open(es) as coll:
            self.setup(coll, opts)
            coll.set_orderby(core.CommonExpression.orderby_from_str(
                opts[1] or ",".join(KEYS_OF[es])))
            if self.topmax:
                top = min(top or self.topmax, self.topmax)
            coll.set_page(top, skip)
            return [self.canon(x, es, opts[2], opts[3])
                    for x in coll.iterpage()]

    def do_update(self, es, i, row, select, merge, links):
        with self.open(es) as coll:
            e = coll[self.key(es, i)]
            if select is not None:
                e.expand(None, dict((n, None) for n in list(select) +
                                    KEYS_OF[es]))
                row = dict((n, row[n]) for n in row if n in select)
            self.fill(e, es, row)
            self.bind(e, es, links)
            coll.update_entity(e, merge)

    def do_delete(self, es, i):
        with self.open(es) as coll:
            del coll[self.key(es, i)]

    def do_link(self, l, i):
        t = NAVS[l[0]][l[2]][0]
        with self.open(t) as ts, self.nav(l) as coll:
            k = self.key(t, i)
            coll[k] = ts[k]

    def do_replace(self, l, i):
        t = NAVS[l[0]][l[2]][0]
        with self.open(t) as ts, self.nav(l) as coll:
            coll.replace(ts[self.key(t, i)])

    def do_unlink(self, l, i):
        t = NAVS[l[0]][l[2]][0]
        with self.nav(l) as coll:
            k = self.key(t, i)
            if not NAVS[l[0]][l[2]][1] and k not in coll:
                # the client can't tell what it deletes
                raise KeyError(k)
            del coll[k]

    def do_clear(self, l):
        with self.nav(l) as coll:
            coll.clear()

    def do_navinsert(self, l, i, row):
        t = NAVS[l[0]][l[2]][0]
        with self.nav(l) as coll:
            e = coll.new_entity()
            e.set_key(self.key(t, i, True))
            self.fill(e, t, row)
            coll.insert_entity(e)
            return self.canon(e, t)

    def do_nav(self, l, opts, i):
        t, many = NAVS[l[0]][l[2]]
        with self.nav(l) as coll:
            self.setup(coll, opts)
            out = self.listing(coll, t, opts)
            k = self.key(t, i)
            try:
                one = self.canon(coll[k], t, opts[2], opts[3])
                ok(k in coll, "key found but not in collection", l, k)
            except KeyError:
                one = None
                ok(k not in coll, "key in collection but not found", l, k)
            return out, one

    def do_newstream(self, i, data, mt):
        with self.open("Ds") as coll:
            info = core.StreamInfo(type=params.MediaType.from_str(mt),
                                   size=len(data))
            k = self.key("Ds", i, True)
            if k in coll:
                # a new stream would be given a random key
                return
            e = coll.new_stream(io.BytesIO(data), sinfo=info, key=k)
            return self.canon(e, "Ds")

    def do_setstream(self, i, data, mt):
        with self.open("Ds") as coll:
            info = core.StreamInfo(type=params.MediaType.from_str(mt),
                                   size=len(data))
            coll.update_stream(io.BytesIO(data), self.key("Ds", i),
                               sinfo=info)

    def do_getstream(self, i, gen):
        with self.open("Ds") as coll:
            k = self.key("Ds", i)
            if k not in coll:
                raise KeyError(k)
            if gen:
                info, g = coll.read_stream_close(k)
                data = b"".join(g)
            else:
                b = io.BytesIO()
                info = coll.read_stream(k, b)
                data = b.getvalue()
            if not self.sized:
                info.size = len(data)
            return str(info.type) if data else None, info.size, data


def deep(d):
    return None if d is None else dict((k, deep(v)) for k, v in d.items())


def dump(opener):
    """everything in a store"""
    out = {}
    for es in ES:
        with opener(es) as coll:
            for k, e in coll.items():
                r = odm.get_value(e, PROPS_OF[es], COMPLEX)
                for n in NAVS[es]:
                    with e[n].open() as sub:
                        r["->" + n] = sorted(map(repr, sub))
                if es == "Ds":
                    b = io.BytesIO()
                    info = coll.read_stream(k, b)
                    r["stream"] = (str(info.type) if b.getvalue() else None,
                                   b.getvalue())
                out[es, repr(k)] = r
    return out


def outcome(side, op):
    try:
        return "ok", side.run(op)
    except KeyError as e:
        return "KeyError", e
    except (edm.ConstraintError, edm.EDMError) as e:
        return "constraint", e
    except NotImplementedError as e:
        return "not implemented", e
    except client.UnexpectedHTTPResponse as e:
        if str(e).startswith("405"):
            return "not implemented", e
        raise


def check(kind):
    def f(case, c):
        ukeys, start, ops, mode, frag, topmax = case
        with odm.Store(SPEC, kind, True) as a, \
                odm.Store(SPEC, kind, True) as b:
            remote = Remote(b, mode, frag)
            remote.server.topmax = topmax or 100
            direct = Side(a.open, ukeys, topmax)
            far = Side(remote.open, ukeys)
            # chunked responses don't give the size
            far.sized = not mode & 1
            before = {}
            for j, op in enumerate(start + ops):
                msg = (j, op)
                x = outcome(direct, op)
                c.label(op[0])
                y = outcome(far, op)
                log = remote.app.log
                remote.app.log = []
                da, db = dump(a.open), dump(b.open)
                for es in ES:
                    direct.keys[es] = far.keys[es] = [
                        k[1] for k in da if k[0] == es]
                if x[0] == "ok":
                    if j >= len(start):
                        c.nontrivial()
                    eq(y[0], "ok", "outcome through the client", y, log, *msg)
                    eq(y[1], x[1], "result through the client", log, *msg)
                    eq(db, da, "data after the operation", log, *msg)
                    before = da
                    continue
                c.label(op[0] + " refused")
                ok(y[0] != "ok" or db == da, "refused operation is accepted "
                   "through the client and leaves other data", x, log, *msg)
                if y[0] == "ok" and op[0] in ("link", "replace"):
                    # the link was there already
                    continue
                if y[0] == "ok":
                    eq("accepted through the client", x, log, *msg)
                if da != before or db != before:
                    # documented: not all operations are transactions
                    c.label("partly performed")
                    return
                if op[0] in ("get", "list", "nav", "pages", "getstream",
                             "delete") and x[0] != y[0]:
                    fail("refused differently through the client", x, y, log,
                         *msg)
    return f


# -- queries -------------------------------------------------------------------

QUERIES = st.tuples(c06.cases(c06.GEN), st.one_of(
    c05.filters(c06.GEN), st.none())).map(
        lambda x: x[0] if x[1] is None else x[0][:1] + x[1:] + x[0][2:])


def queries(kind):
    fixed = c06.Fixed(kind)
    state = {}

    def f(case, c):
        if fixed.store is None:
            fixed.open()
            fixed.store.kind = kind
            state["remote"] = Remote(fixed.store)
        want = fixed.expected(case)
        if want is None:
            c.label("not judged")
            return
        nav, filter, orders, bits, top, skip, topmax, mode = case
        remote = state["remote"]
        remote.server.topmax = topmax or 100
        remote.app.log = log = []
        text, otext = fixed.texts(case)
        msg = (nav, text, otext, top, skip, topmax, log)
        expand = None if bits % 4 else {"N": None}
        select = None if bits % 3 else dict(
            (n, None) for n in ["S", "I"][:1 + bits % 2] + ["K", "N"])
        with c06.opened(remote, nav) as far, \
                c06.opened(fixed.store, nav) as near:
            for coll in (far, near):
                coll.set_expand(deep(expand), deep(select))
                if text is not None:
                    coll.set_filter(core.CommonExpression.from_str(text))
                if otext is not None:
                    coll.set_orderby(core.CommonExpression.orderby_from_str(
                        otext))
            try:
                n = len(near)
                entities = dict(near)
            except NotImplementedError:
                # not supported by the store
                return
            if 0 < len(want) < len(fixed.table):
                c.nontrivial()
            if want:
                c.label("filter" if text else "all",
                        "ordered" if otext else "unordered")
            eq(n, len(want), "len of the collection", *msg)
            eq(len(far), len(want), "len through the client", *msg)
            got = list(far.itervalues())
            keys = [e.key() for e in got]
            if otext is None:
                eq(sorted(keys), sorted(want), "keys through the client",
                   *msg)
            else:
                eq(keys, want, "keys in order through the client", *msg)
            for e in got:
                x = entities[e.key()]
                eq(snapshot(e), snapshot(x), "entity through the client",
                   *msg)
            k = fixed.key(bits % c06.N)
            eq(k in far, k in want, "membership through the client", k, *msg)
            if k in want:
                eq(snapshot(far[k]), snapshot(entities[k]),
                   "entity by key through the client", k, *msg)
            else:
                try:
                    fail("entity that does not match the filter", k,
                         far[k], *msg)
                except KeyError:
                    pass
            size = min([x for x in (top, topmax) if x] or [100])
            far.set_page(top or None, skip)
            rest = want[skip or 0:]
            i = 0
            while i < len(rest):
                page = [e.key() for e in far.iterpage(True)]
                if otext is None and not i and size >= len(rest) and \
                        not skip and not top:
                    # no order was asked for
                    page.sort()
                    rest.sort()
                eq(page, rest[i:i + size], "page of %i through the client" %
                   size, i, *msg)
                i += size
            eq([e.key() for e in far.iterpage(True)], [],
               "page after the last through the client", *msg)
    return f


def snapshot(e):
    out = {}
    for n, v in e.data_items():
        if not e.is_selected(n):
            continue
        if isinstance(v, edm.Complex):
            out[n] = repr([(m, x.value) for m, x in v.iteritems()])
        elif isinstance(v, edm.DateTimeValue) and v:
            # no Precision is declared: whole seconds
            out[n] = str(v.value)[:19]
        else:
            out[n] = repr(v.value)
    for n, v in e.navigation_items():
        if v.isExpanded:
            with v.open() as coll:
                out[n] = sorted(repr(x) for x in coll)
    return out


PROPS = [
    Prop("sqlqueries", QUERIES, queries("sql"), quick=600,
         rule="some but not all entities are selected"),
    Prop("memqueries", QUERIES, queries("mem"), quick=600,
         rule="some but not all entities are selected"),
    Prop("mem", histories(), check("mem"), quick=480,
         rule="an operation after the initial ones succeeded on both sides"),
    Prop("sql", histories(), check("sql"), quick=240,
         rule="an operation after the initial ones succeeded on both sides"),
]
