"""C01: OData entity stores behave like a keyed collection of entities."""
from hypothesis import strategies as st

from pyslet.odata2 import csdl as edm
from pyslet.py2 import to_text

from vlib import Prop, eq, ok, fail, raises
from . import gens, odm, edmvals as ev

PROPERTY = "C01"

KEYTYPES = ["Int32", "Int64", "String", "Guid", "DateTime", "Byte", "Int16",
            "SByte", "Boolean", "Binary"]
DEFAULTABLE = ["Int32", "String", "Boolean", "Double", "Guid", "Int64"]

COMPLEX = {"CT": [("X", "Int32", {}), ("Y", "String", {}),
                  ("Z", "CT2", {"Nullable": "false"})],
           "CT2": [("W", "Double", {}), ("V", "DateTime", {}),
                   ("X", "Binary", {})]}


def val(t):
    """payload of a data property"""
    if t == "CT":
        return st.fixed_dictionaries({"X": mb("Int32"), "Y": mb("String"),
                                      "Z": val("CT2")})
    if t == "CT2":
        return st.fixed_dictionaries({"W": mb("Double"), "V": mb("DateTime"),
                                      "X": mb("Binary")})
    return mb(t)


def some(t):
    if t == "Double":
        return ev.doubles(nonfinite=False)
    if t == "Single":
        return ev.singles(nonfinite=False)
    return ev.payload(t, text=gens.any_text(8), nonfinite=False)


def mb(t):
    return st.one_of(st.none(), some(t), some(t), some(t))


def key_val(t):
    if t == "DateTime":
        # fractions of a second are binary floats and so make poor keys
        return ev.datetimes(1, 9999, (0,))
    if t == "String":
        return st.one_of(gens.text(6), st.sampled_from(
            ["", "a", "A", "a ", "'", "\u00e9"]))
    return some(t)


@st.composite
def cases(draw):
    nkeys = draw(st.sampled_from([1, 1, 2, 3]))
    ktypes = [draw(st.sampled_from(KEYTYPES)) for i in range(nkeys)]
    dtypes = draw(st.lists(st.sampled_from(ev.TYPES + ["CT", "CT2"]),
                           min_size=1, max_size=5))
    props = [("K%d" % i, t, {"Nullable": "false"})
             for i, t in enumerate(ktypes)]
    for i, t in enumerate(dtypes):
        facets = {}
        if t in odm.ev.TYPES:
            if t in DEFAULTABLE and draw(st.booleans()):
                facets = {"DefaultValue": draw(some(t).filter(
                    lambda p: p == p and xmlsafe(p)))}
        else:
            facets = {"Nullable": "false"}
        props.append(("D%d" % i, t, facets))
    perm = draw(st.permutations(list(range(len(props)))))
    kperm = draw(st.permutations(list(range(nkeys))))
    props = [props[i] for i in perm]
    keys = ["K%d" % i for i in kperm]
    types = dict((p[0], p[1]) for p in props)
    kt = [types[k] for k in keys]
    pool = draw(st.lists(st.tuples(*[key_val(t) for t in kt]),
                         min_size=2, max_size=4))
    data = [p[0] for p in props if p[0] not in keys]
    values = st.fixed_dictionaries(dict((n, val(types[n])) for n in data))
    ki = st.integers(0, len(pool) - 1)
    sel = st.one_of(st.none(), st.lists(
        st.sampled_from(data), min_size=1, max_size=3, unique=True), st.lists(
        st.sampled_from(data), min_size=1, unique=True))
    op = st.one_of(
        st.tuples(st.just("insert"), ki, values),
        st.tuples(st.just("insert"), ki, values),
        st.tuples(st.just("insert"), ki, values, sel),
        st.tuples(st.just("update"), ki, values, sel, st.booleans(),
                  st.sampled_from(["coll", "commit"])),
        st.tuples(st.just("update"), ki, values, sel, st.booleans(),
                  st.sampled_from(["coll", "commit"])),
        st.tuples(st.just("stale"), ki, values),
        st.tuples(st.just("delete"), ki, st.sampled_from(["coll", "entity"])),
        st.tuples(st.just("reinsert"), ki),
        st.tuples(st.just("setitem"), ki),
        st.tuples(st.just("auto"), values),
        st.tuples(st.just("copy"), ki, ki),
        st.tuples(st.just("select"), sel),
        st.tuples(st.just("clear")))
    ops = draw(st.lists(op, min_size=1, max_size=10))
    ops = [("insert", i, draw(values))
           for i in range(draw(st.integers(0, 2)))] + ops
    return dict(props=props, keys=keys, pool=pool, ops=ops)


def xmlsafe(p):
    return not isinstance(p, str) or all(
        c >= " " and c not in "\ufffe\uffff" for c in p) and p.strip() == p \
        and "  " not in p


def build(case):
    props = []
    for n, t, f in case["props"]:
        f = dict(f)
        if "DefaultValue" in f:
            f["DefaultValue"] = to_text(ev.make(t, f["DefaultValue"]))
        props.append((n, t, f))
    return dict(types={"T": dict(props=props, keys=case["keys"])},
                complex=COMPLEX, sets={"Ts": "T"})


def same(t, a, b):
    if t in COMPLEX:
        return all(same(tt, a[n], b[n]) for n, tt, f in COMPLEX[t])
    if a == b:
        return True
    if a is None or b is None:
        return False
    if t == "Time":
        return a[:2] == b[:2] and abs(a[2] - b[2]) < 1.1e-6 and a[3] == b[3]
    if t in ("DateTime", "DateTimeOffset"):
        return a[:2] == b[:2] and abs(a[2] - b[2]) < 1.1e-6 and a[3] == b[3]
    return False


class Harness(object):

    def __init__(self, case, store, c):
        self.case = case
        self.store = store
        self.c = c
        self.props = case["props"]
        self.types = dict((p[0], p[1]) for p in self.props)
        self.defaults = dict((p[0], p[2].get("DefaultValue"))
                             for p in self.props)
        self.keys = case["keys"]
        self.kt = [self.types[k] for k in self.keys]
        self.data = [p[0] for p in self.props if p[0] not in self.keys]
        self.model = {}
        # a collection object kept open throughout the history
        self.coll = store.open("Ts")

    def pykey(self, i):
        k = tuple(ev.to_python(t, p)
                  for t, p in zip(self.kt, self.case["pool"][i]))
        return k[0] if len(k) == 1 else k

    def mkey(self, i):
        return tuple(ev.expect(t, p)
                     for t, p in zip(self.kt, self.case["pool"][i]))

    def present(self, i):
        there = [j for j in range(len(self.case["pool"]))
                 if self.mkey(j) in self.model]
        return there[i % len(there)] if there else i

    def canon_key(self, key):
        if len(self.kt) == 1:
            key = (key,)
        return tuple(ev.canon(t, v) for t, v in zip(self.kt, key))

    def expect(self, values):
        return dict((n, self.expect1(n, values.get(n))) for n in self.data)

    def expect1(self, n, v):
        t = self.types[n]
        if t in COMPLEX:
            return odm.expect_value(v or {}, COMPLEX[t], COMPLEX)
        return ev.expect(t, v)

    def got(self, e):
        r = {}
        for n in self.data:
            t = self.types[n]
            if t in COMPLEX:
                r[n] = odm.get_value(e[n], COMPLEX[t], COMPLEX)
            else:
                r[n] = ev.canon(t, e[n].value)
        return r

    def set(self, e, values, names=None):
        odm.set_value(e, [p for p in self.props if p[0] in self.data and
                          (names is None or p[0] in names)], COMPLEX, values)

    def check_entity(self, e, mk, msg, sel=None):
        ok(e.exists, "entity read from a collection exists", msg)
        eq(self.canon_key(e.key()), mk, "key of the entity read", msg)
        g = self.got(e)
        for n in self.data:
            if sel is None or n in sel:
                x = self.model[mk][n]
                ok(same(self.types[n], g[n], x), "property value read back",
                   msg, n, self.types[n], g[n], x)
            else:
                eq(g[n], self.expect1(n, None), "unselected property is null",
                   msg, n)

    def check_state(self, msg):
        with self.store.open("Ts") as fresh:
            for name, coll in (("fresh", fresh), ("held", self.coll)):
                m = "%s (%s collection)" % (msg, name)
                eq(len(coll), len(self.model), "length", m)
                seen = [self.canon_key(k) for k in coll]
                eq(len(seen), len(set(seen)), "keys iterated once each", m)
                eq(set(seen), set(self.model), "keys held", m)
                for i in range(len(self.case["pool"])):
                    mk = self.mkey(i)
                    eq(self.pykey(i) in coll, mk in self.model,
                       "membership", m, mk)
                    e = coll.get(self.pykey(i), None)
                    if mk in self.model:
                        ok(e is not None, "get finds the entity", m, mk)
                        self.check_entity(e, mk, m)
                    else:
                        ok(e is None, "get of an absent key", m, mk)
                        ok(raises(KeyError, coll.__getitem__,
                                  self.pykey(i)) is not None,
                           "absent key raises KeyError", m, mk)
                for e in coll.itervalues():
                    self.check_entity(e, self.canon_key(e.key()), m)
                n = 0
                for k, e in coll.items():
                    eq(self.canon_key(k), self.canon_key(e.key()),
                       "items pairs key and entity", m)
                    n += 1
                eq(n, len(self.model), "number of items", m)

    def op(self, op):
        name = op[0]
        self.c.label("op:" + name)
        coll = self.coll
        if name == "insert":
            key, mk = self.pykey(op[1]), self.mkey(op[1])
            e = coll.new_entity()
            e.set_key(key)
            sel = op[3] if len(op) > 3 else None
            self.set(e, op[2])
            if sel is not None:
                e.expand(None, dict((n, None) for n in list(sel) + self.keys))
            if mk in self.model:
                self.c.label("duplicate")
                self.c.nontrivial()
                ok(raises(edm.ConstraintError, coll.insert_entity, e)
                   is not None, "duplicate key is refused", mk)
                ok(not e.exists, "refused entity does not exist")
            else:
                coll.insert_entity(e)
                ok(e.exists, "inserted entity exists")
                eq(self.canon_key(e.key()), mk, "key after insert")
                self.model[mk] = self.expect(op[2])
                if sel is not None:
                    self.c.label("insert with a select rule")
                    for n in self.data:
                        if n not in sel:
                            self.model[mk][n] = self.expect1(
                                n, self.defaults[n])
        elif name == "update":
            # prefer an entity which exists
            i = self.present(op[1])
            mk = self.mkey(i)
            values, sel, merge, how = op[2:]
            if mk not in self.model:
                return
            self.c.nontrivial()
            self.c.label("merge" if merge else "replace")
            e = coll[self.pykey(i)]
            if sel is not None:
                s = dict((n, None) for n in sel)
                e.expand(None, s)
                # values of properties which are not selected are ignored
                self.set(e, values)
            else:
                self.set(e, values)
            if how == "commit" and merge:
                e.commit()
            else:
                coll.update_entity(e, merge)
            x = self.expect(values)
            for n in self.data:
                if sel is None or n in sel:
                    self.model[mk][n] = x[n]
                elif not merge:
                    self.model[mk][n] = self.expect1(n, self.defaults[n])
        elif name == "stale":
            mk = self.mkey(op[1])
            if mk not in self.model:
                return
            self.c.nontrivial()
            e = coll[self.pykey(op[1])]
            del coll[self.pykey(op[1])]
            del self.model[mk]
            self.set(e, op[2])
            ok(raises(KeyError, coll.update_entity, e) is not None,
               "updating a deleted entity raises KeyError", mk)
        elif name == "delete":
            mk = self.mkey(op[1])
            if mk in self.model:
                self.c.nontrivial()
                if op[2] == "coll":
                    del coll[self.pykey(op[1])]
                else:
                    e = coll[self.pykey(op[1])]
                    e.delete()
                    ok(not e.exists, "deleted entity no longer exists")
                del self.model[mk]
            else:
                ok(raises(KeyError, coll.__delitem__, self.pykey(op[1]))
                   is not None, "deleting an absent key raises KeyError", mk)
        elif name == "reinsert":
            mk = self.mkey(op[1])
            if mk in self.model:
                e = coll[self.pykey(op[1])]
                ok(raises(edm.EDMError, coll.insert_entity, e)
                   is not None, "inserting an existing entity is refused")
        elif name == "setitem":
            mk = self.mkey(op[1])
            if mk in self.model:
                e = coll[self.pykey(op[1])]
                coll[self.pykey(op[1])] = e
            else:
                e = coll.new_entity()
                e.set_key(self.pykey(op[1]))
                ok(raises(KeyError, coll.__setitem__, self.pykey(op[1]), e)
                   is not None, "assignment cannot insert", mk)
        elif name == "auto":
            if not set(self.kt) <= set(["Int32", "Int64", "String"]):
                return
            e = coll.new_entity()
            self.set(e, op[1])
            coll.insert_entity(e)
            ok(e.exists, "entity with automatic key exists")
            mk = self.canon_key(e.key())
            ok(mk not in self.model, "automatic key is unused", mk)
            self.model[mk] = self.expect(op[1])
        elif name == "copy":
            src, dst = self.mkey(op[1]), self.mkey(op[2])
            if src not in self.model or dst in self.model:
                return
            e = coll.copy_entity(coll[self.pykey(op[1])])
            ok(not e.exists, "a copied entity does not exist yet")
            e.set_key(self.pykey(op[2]))
            coll.insert_entity(e)
            self.c.nontrivial()
            self.model[dst] = dict(self.model[src])
        elif name == "select":
            sel = op[1]
            if sel is None:
                return
            with self.store.open("Ts") as c2:
                c2.set_expand(None, dict((n, None) for n in sel))
                n = 0
                for e in c2.itervalues():
                    self.check_entity(e, self.canon_key(e.key()), "select",
                                      sel)
                    n += 1
                eq(n, len(self.model), "entities with a select rule")
                for i in range(len(self.case["pool"])):
                    mk = self.mkey(i)
                    if mk in self.model:
                        self.check_entity(c2[self.pykey(i)], mk, "select",
                                          sel)
        elif name == "clear":
            if self.store.kind == "mem":
                # documented: iteration works on a copy of the keys
                for k in coll:
                    del coll[k]
            else:
                for k in list(coll):
                    del coll[k]
            self.model.clear()

    def close(self):
        self.coll.close()


def check(kind):
    def f(case, c):
        with odm.Store(build(case), kind) as store:
            h = Harness(case, store, c)
            try:
                for i, op in enumerate(case["ops"]):
                    h.op(op)
                    h.check_state("after op %d %s" % (i, op[0]))
            finally:
                h.close()
            # a newly opened collection sees the same
    return f


RULE = ("a duplicate insert was attempted or an entity was updated, deleted "
        "or copied")
PROPS = [
    Prop("memds", cases(), check("mem"), quick=1300, rule=RULE),
    Prop("sqlds", cases(), check("sql"), quick=1300, rule=RULE),
]
