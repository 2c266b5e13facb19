"""C05: SQL-backed filters and orderings agree with in-process evaluation."""
import operator
import random

from hypothesis import strategies as st

from pyslet.odata2 import core

from vlib import Prop, eq, ok, fail, Discard
from . import exprs as ex
from . import odm

PROPERTY = "C05"

# (path, type) of everything an expression over Ts can refer to
COLS = [(("I",), "Int32"), (("L",), "Int64"), (("D",), "Double"),
         (("B",), "Boolean"), (("S",), "String"), (("T",), "String"),
         (("U",), "DateTime"), (("G",), "Guid"), (("X",), "Binary"),
         (("C", "V"), "Int32"), (("C", "W"), "String"),
         (("N", "P"), "Int32"), (("N", "Q"), "String"),
         (("Y", "P"), "Int32"), (("Z", "P"), "Int32"), (("Z", "Q"), "String"),
         (("N", "C", "V"), "Int32")]
OWN = [p for p in COLS if p[0][0] not in "NYZ"]
OPROPS = [("K", "Int32", {"Nullable": "false"}), ("P", "Int32", {}),
          ("Q", "String", {}), ("C", "CT", {"Nullable": "false"})]
SPEC = dict(
    types={
        "T": dict(props=[("K", "Int32", {"Nullable": "false"})] +
                  [(p[0], t, {}) for p, t in OWN if len(p) == 1] +
                  [("C", "CT", {"Nullable": "false"})], keys=["K"]),
        "O": dict(props=OPROPS, keys=["K"]),
        "V": dict(props=OPROPS, keys=["K"]),
        "W": dict(props=OPROPS, keys=["K"]),
        "M": dict(props=[("K", "Int32", {"Nullable": "false"})],
                  keys=["K"])},
    complex={"CT": [("V", "Int32", {}), ("W", "String", {})]},
    sets={"Ts": "T", "Os": "O", "Vs": "V", "Ws": "W", "Ms": "M"},
    assocs=[
        # the foreign key is in Ts
        dict(name="AN", ends=[("Ts", "*", "r0", "N"),
                              ("Os", "0..1", "r1", "Ts")]),
        # the foreign key is in Vs
        dict(name="AZ", ends=[("Ts", "1", "r0", "Z"),
                              ("Vs", "0..1", "r1", "T")]),
        # a table of its own
        dict(name="AY", ends=[("Ts", "1", "r0", "Y"),
                              ("Ws", "1", "r1", "T")]),
        dict(name="AM", ends=[("Ts", "*", "r0", "Ms"),
                              ("Ms", "*", "r1", "Ts")])])

# case is left alone by both Python and SQLite for these
TEXT = st.one_of(st.text("abAB%_' \u4e2d\U0001f600", max_size=4),
                 st.sampled_from(["abc", "ABC", "a%", "%a", "a_", "ab", "b"]))
UNSUPPORTED = ("not", "neg", "mod", "isof", "cast", "replace", "round",
               "floor", "ceiling")
# not comparable in SQLite, see the known findings
BAD = ("type:Decimal", "type:Single", "type:DateTimeOffset")
# few enough values for stored values and literals to coincide
POOLS = {
    "Int32": st.one_of(st.integers(-2, 4), st.integers(-2, 4),
                       st.integers(-100, 100)),
    "Int64": st.one_of(st.integers(-2, 4), ex.lit_payload("Int64", TEXT)),
    "Double": st.one_of(st.sampled_from(["0.0", "1.0", "-1.5", "2.25"]),
                        ex.lit_payload("Double", TEXT)),
    "DateTime": st.one_of(
        st.sampled_from([(2000, 1, 1, 0, 0, 0, None),
                         (2000, 2, 28, 23, 59, 59, 5),
                         (1999, 12, 28, 12, 30, 1, None)]),
        ex.lit_payload("DateTime", TEXT))}
GEN = ex.Gen(COLS, TEXT, UNSUPPORTED + BAD, POOLS)
WIDE = ex.Gen(COLS, TEXT, BAD, POOLS)


def payload(t):
    p = POOLS.get(t) or ex.lit_payload(t, TEXT)
    return st.one_of(st.none(), p, p, p)


def prop(t):
    return st.tuples(st.just("prop"), st.sampled_from(
        [p for p, pt in COLS if pt == t]), st.just(t))


def relations(gen):
    """filters which look at the entity"""
    out = []
    for t in ("Int32", "Int64", "Double", "String", "DateTime", "Guid",
              "Binary"):
        ops = ["eq", "ne", "lt", "gt", "le", "ge"]
        out.append(gen.bin(ops[:2] if t == "Binary" else ops, prop(t),
                           gen.leaf(t)))
    for t, n in [("Int32", "Int64"), ("Int32", "Int32"), ("Double", "Int32")]:
        # one side computed
        out.append(gen.bin(ops, gen.bin(["add", "sub", "mul"], prop(t),
                                        gen.leaf(n)), gen.leaf(n)))
    # grouping of three numbers
    n = st.one_of(prop("Int32"), gen.leaf("Int32"))
    ar = ["add", "sub", "mul"]
    out.append(gen.bin(ops, gen.bin(ar, n, gen.bin(ar, n, n)),
                       gen.leaf("Int32")))
    out.append(gen.bin(ops, gen.leaf("Int32"),
                       gen.bin(ar, gen.bin(ar, n, n), n)))
    x = st.one_of(prop("Double"), gen.leaf("Double"))
    out.append(gen.bin(ops, gen.bin(["mul", "div"], x,
                                    gen.bin(["mul", "div"], x, x)),
                       gen.leaf("Double")))
    s = prop("String")
    out.append(gen.bin(ops, gen.call("substring", s, gen.leaf("Int32")),
                       gen.leaf("String")))
    out.append(gen.bin(ops, gen.call("concat", s, gen.leaf("String")),
                       gen.leaf("String")))
    out.append(gen.bin(ops[:2], gen.bin(["eq", "ne", "lt"], prop("Int32"),
                                        gen.leaf("Int32")),
                       gen.leaf("Boolean")))
    out.extend(gen.call(f, s, gen.leaf("String")) for f in (
        "startswith", "endswith"))
    out.append(gen.call("substringof", gen.leaf("String"), s))
    out.append(gen.bin(ops, gen.call("indexof", s, gen.leaf("String")),
                       gen.leaf("Int32")))
    out.append(prop("Boolean"))
    return st.one_of(out)


def filters(gen):
    r = relations(gen)
    two = gen.bin(["and", "or"], r, r)
    return st.one_of(st.none(), r, r, two, gen.bin(["and", "or"], two, r),
                     gen.bin(["and", "or"], r, two),
                     gen.expr("Boolean", 1),
                     gen.expr("Boolean", 2), gen.expr("Boolean", 3))


def related():
    return st.fixed_dictionaries({"P": payload("Int32"),
                                  "Q": payload("String"),
                                  "V": payload("Int32")})


def entity():
    d = dict(("/".join(p), payload(t)) for p, t in OWN)
    d["N"] = st.one_of(st.none(), st.integers(0, 2))
    d["Z"] = st.one_of(st.none(), related())
    d["Y"] = related()
    d["Ms"] = st.sets(st.integers(0, 1))
    return st.fixed_dictionaries(d)


def orders(gen):
    kinds = ["Int32", "Int64", "Double", "String", "Boolean", "DateTime",
             "Guid"]
    return st.lists(st.tuples(
        st.one_of([gen.leaf(t) if t in ("DateTime", "Guid") else
                   gen.expr(t, d) for t in kinds for d in (0, 1)]),
        st.sampled_from([1, -1])), max_size=3)


def queries(gen):
    return st.tuples(filters(gen), orders(gen), st.integers(0, 2 ** 30))


def cases(gen):
    q = queries(gen)
    return st.tuples(
        st.lists(entity(), min_size=2, max_size=6),
        st.lists(related(), min_size=3, max_size=3),
        st.lists(q, min_size=1, max_size=8))


def setv(e, p, t, v):
    for n in p[:-1]:
        e = e[n]
    e[p[-1]].set_from_value(ex.to_python(t, v))


def set_related(e, k, r):
    e["K"].set_from_value(k)
    e["P"].set_from_value(r["P"])
    e["Q"].set_from_value(r["Q"])
    e["C"]["V"].set_from_value(r["V"])


def row_key(i):
    # keys are not in the order of insertion
    return (i * 5) % 7


def fill(store, rows, others, key=row_key):
    with store.open("Os") as os, store.open("Ms") as ms, \
            store.open("Ts") as ts, store.open("Ws") as ws, \
            store.open("Vs") as vs:
        for i, r in enumerate(others):
            e = os.new_entity()
            set_related(e, i, r)
            os.insert_entity(e)
        for i in range(2):
            e = ms.new_entity()
            e["K"].set_from_value(i)
            ms.insert_entity(e)
        for i, row in enumerate(rows):
            e = ts.new_entity()
            k = key(i)
            e["K"].set_from_value(k)
            for p, t in OWN:
                setv(e, p, t, row["/".join(p)])
            if row["N"] is not None:
                e["N"].bind_entity(row["N"])
            w = ws.new_entity()
            set_related(w, k + 50, row["Y"])
            e["Y"].bind_entity(w)
            if row["Z"] is not None:
                v = vs.new_entity()
                set_related(v, k + 100, row["Z"])
                e["Z"].bind_entity(v)
            for m in sorted(row["Ms"]):
                e["Ms"].bind_entity(m)
            ts.insert_entity(e)


def values(row, others):
    r = {}
    for p, t in COLS:
        if len(p) == 1 or p[0] == "C":
            v = row["/".join(p)]
        else:
            o = row[p[0]]
            if p[0] == "N" and o is not None:
                o = others[o]
            v = None if o is None else o[p[-1]]
        r[p] = (t, ex.py(t, v))
    return r


def uses(e, found):
    if isinstance(e, tuple):
        if e[:1] == ("bin",) or e[:1] == ("call",):
            found.add(e[1])
        elif e and e[0] in ("neg", "not", "isof", "cast"):
            found.add(e[0])
        for x in e:
            uses(x, found)
    return found


class Order(object):
    """a sort key which reverses"""

    def __init__(self, key, dir):
        self.key = key
        self.dir = dir

    def __lt__(self, other):
        return self.key < other.key if self.dir > 0 else other.key < self.key

    def __eq__(self, other):
        return self.key == other.key


def check(kind):
    def f(case, c):
        rows, others, queries = case
        table = {}
        for i, row in enumerate(rows):
            table[row_key(i)] = values(row, others)
        with odm.Store(SPEC, kind) as store:
            fill(store, rows, others)
            with store.open("Ts") as coll:
                for q in queries:
                    query(kind, coll, table, q, c)
            # through navigation
            subsets = []
            with store.open("Os") as os:
                for e in os.values():
                    subsets.append((e, "Ts", [
                        k for k, r in zip(table, rows)
                        if r["N"] == e.key()]))
            with store.open("Ms") as ms:
                for e in ms.values():
                    subsets.append((e, "Ts", [
                        k for k, r in zip(table, rows)
                        if e.key() in r["Ms"]]))
            for e, n, keys in subsets:
                with e[n].open() as nav:
                    sub = dict((k, table[k]) for k in keys)
                    for q in queries[:3]:
                        query(kind, nav, sub, q, c, True)
    return f


class Fixed(object):
    """a store with the same entities for all cases"""

    def __init__(self, kind):
        self.kind = kind
        self.store = None

    def open(self):
        r = random.Random(11)
        pick = {
            "Int32": [0, 1, 2, 3, -1, -2, 7, 50], "Int64": [0, 1, 2, -3, 4],
            "Double": ["0.0", "1.0", "-1.5", "2.25", "4.0"],
            "Boolean": [True, False],
            "String": ["", "a", "ab", "abc", "ABC", "a%", "b'", "Ab",
                       "\U0001f600b", " a ", "ba"],
            "DateTime": [(2000, 1, 1, 0, 0, 0, None),
                         (2000, 2, 28, 23, 59, 59, 5),
                         (1999, 12, 28, 12, 30, 1, None)],
            "Guid": ["0" * 32, "f" * 32, "0123456789abcdef" * 2],
            "Binary": [b"", b"\x00", b"\xde\xad"]}

        def v(t):
            return None if r.random() < .15 else r.choice(pick[t])

        def rel():
            return {"P": v("Int32"), "Q": v("String"), "V": v("Int32")}

        rows = []
        for i in range(7):
            d = dict(("/".join(p), v(t)) for p, t in OWN)
            d["N"] = r.choice([None, 0, 1, 2])
            d["Z"] = r.choice([None, rel(), rel()])
            d["Y"] = rel()
            d["Ms"] = set(i for i in (0, 1) if r.random() < .5)
            rows.append(d)
        others = [rel() for i in range(3)]
        self.store = odm.Store(SPEC, self.kind)
        self.store.__enter__()
        fill(self.store, rows, others)
        self.table = dict((row_key(i), values(row, others))
                          for i, row in enumerate(rows))
        self.rows = rows

    def check(self, case, c):
        if self.store is None:
            self.open()
        q, n = case
        if n is None:
            with self.store.open("Ts") as coll:
                query(self.kind, coll, self.table, q, c)
            return
        name, key = n
        with self.store.open(name) as coll:
            keys = [k for k, r in zip(self.table, self.rows) if (
                r["N"] == key if name == "Os" else key in r["Ms"])]
            with coll[key]["Ts"].open() as nav:
                query(self.kind, nav, dict((k, self.table[k]) for k in keys),
                      q, c, True)


def single(gen):
    return st.tuples(queries(gen), st.sampled_from(
        [None, None, None, ("Os", 0), ("Os", 1), ("Ms", 0), ("Ms", 1)]))


def judge(filter, vals):
    """True, False or None if not known; or the string "error" """
    if filter is None:
        return True
    vals = dict(vals)
    vals["null logic"] = True
    try:
        return bool(ex.evaluate(filter, vals)[1])
    except ex.Error:
        return "error"
    except ex.Undefined:
        return None


def query(kind, coll, table, q, c, nav=False):
    filter, orders, bits = q
    style = ex.Style(bits)
    text = None if filter is None else ex.render(filter, style)
    otext = [ex.render(e, style) for e, d in orders]
    found = uses(filter, set())
    for e, d in orders:
        uses(e, found)
    unsupported = kind == "sql" and found & set(UNSUPPORTED)
    verdict = dict((k, judge(filter, v)) for k, v in table.items())
    if kind == "mem" and any(v in (None, "error") for v in verdict.values()):
        # evaluation may fail for all
        c.label("not judged")
        return
    keys = {}
    for k, v in table.items():
        v = dict(v)
        v["null relation"] = v["null logic"] = True
        try:
            keys[k] = []
            for e, d in orders:
                x = ex.evaluate(e, v)[1]
                keys[k].append(Order((x is not None, x), d))
        except ex.Undefined:
            if kind == "mem":
                c.label("not judged")
                return
            keys = None
            break
    msg = (text, otext)
    where = "through navigation " if nav else ""
    try:
        coll.set_expand(None, None if bits % 3 else {"S": None})
        coll.set_filter(None if text is None else
                        core.CommonExpression.from_str(text))
        coll.set_orderby(None if not orders else
                         core.CommonExpression.orderby_from_str(", ".join(
                             t + (" desc" if d < 0 else
                                  " asc" if bits % 2 else "")
                             for t, (e, d) in zip(otext, orders))))
        got = [e.key() for e in coll.itervalues()]
    except NotImplementedError:
        if not unsupported:
            fail(where + "query refused", *msg)
        c.label("not implemented")
        coll.set_filter(None)
        coll.set_orderby(None)
        return
    eq(len(got), len(set(got)), where + "entities once each", *msg)
    sure = True
    for k, v in verdict.items():
        if v in (True, False):
            eq(k in got, v, where + "selected by the filter", msg,
               dict((p, x[1]) for p, x in table[k].items()))
        else:
            sure = False
    eq(set(got) - set(verdict), set(), where + "entities", *msg)
    eq(len(coll), len(got), where + "length with a filter", *msg)
    if True:
        for k in table:
            eq(k in coll, k in got, where + "membership with a filter", msg,
               k)
    if filter is not None and sure:
        n = sum(v is True for v in verdict.values())
        if 0 < n < len(verdict):
            c.nontrivial()
            for x in found:
                c.label(x)
    if keys is not None and orders:
        for a, b in zip(got, got[1:]):
            if keys[a] == keys[b]:
                if kind == "sql":
                    ok(a < b, where + "ties ordered by key", msg, got)
            else:
                ok(keys[a] < keys[b], where + "order", msg, got,
                   [[o.key[1] for o in keys[k]] for k in got])
        if len(got) > 2:
            c.nontrivial()
            c.label("ordered")


# -- types which SQLite keeps as text ---------------------------------------

TSPEC = dict(
    types={"T": dict(props=[("K", "Int32", {"Nullable": "false"}),
                            ("Decimal", "Decimal", {"Precision": "10",
                                                    "Scale": "3"}),
                            ("DateTimeOffset", "DateTimeOffset", {})],
                     keys=["K"])},
    sets={"Ts": "T"}, complex={}, assocs=[])
OPS = ["eq", "ne", "lt", "gt", "le", "ge"]


def text_cases():
    return st.one_of([st.tuples(st.just(t), v, st.sampled_from(OPS), v) for
                      t, v in (("Decimal", ex.lit_payload("Decimal", TEXT)),
                               ("DateTimeOffset", ex.lit_payload(
                                   "DateTimeOffset", TEXT)))])


def text_form(t, v):
    """as stored by SQLite"""
    if t == "Decimal":
        return str(ex.py(t, v))
    z = "Z" if not v[7] else "%s%02i%02i" % (
        ("+" if v[7] > 0 else "-",) + divmod(abs(v[7]), 60))
    return ("%04i%02i%02iT%02i%02i%02i" % v[:6] + ".%06i" % (
        100000 * (v[6] or 0)) + z).ljust(27)


def text_known(case):
    """the texts do not compare in the way that the values do"""
    t, stored, op, lit = case
    f = getattr(operator, op)
    return f(text_form(t, stored), text_form(t, lit)) != f(
        ex.py(t, stored), ex.py(t, lit))


def text_check(case, c):
    t, stored, op, lit = case
    expected = getattr(operator, op)(ex.py(t, stored), ex.py(t, lit))
    with odm.Store(TSPEC, "sql") as store:
        with store.open("Ts") as coll:
            e = coll.new_entity()
            e["K"].set_from_value(1)
            e[t].set_from_value(ex.to_python(t, stored))
            coll.insert_entity(e)
            text = ex.render(("bin", op, ("prop", (t,), t),
                              ("lit", t, lit)), ex.Style(0))
            coll.set_filter(core.CommonExpression.from_str(text))
            got = [e.key() for e in coll.itervalues()]
            c.nontrivial()
            c.label("%s %s %s" % (t, op, expected))
            eq(bool(got), expected, "selected by the filter", text,
               text_form(t, stored))


RULE = ("a filter chose some but not all of the entities or more than two "
        "entities were ordered")
PROPS = [
    Prop("sqlds", cases(GEN), check("sql"), quick=700, rule=RULE),
    Prop("memds", cases(GEN), check("mem"), quick=300, rule=RULE),
    Prop("sqlfixed", single(GEN), Fixed("sql").check, quick=6000, rule=RULE),
    Prop("memfixed", single(GEN), Fixed("mem").check, quick=3000, rule=RULE),
    Prop("text", text_cases(), text_check, quick=300, known=text_known,
         rule="always"),
    Prop("wide", cases(WIDE), check("sql"), quick=200, rule=RULE),
]
