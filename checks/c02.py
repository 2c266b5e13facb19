"""C02: associations stay symmetric and honour their multiplicity."""
import itertools

from hypothesis import strategies as st

from pyslet.odata2 import csdl as edm
from pyslet.odata2 import sqlds

from vlib import Prop, eq, ok, fail, raises
from . import odm

PROPERTY = "C02"

MULT = ["1", "0..1", "*"]
REFUSED = (edm.EDMError, KeyError, sqlds.SQLError)


def assoc_strategy(name, a, b, sql):
    combos = [(x, y) for x in MULT for y in MULT
              if not (sql and x == y == "0..1")]
    return st.tuples(st.sampled_from(combos),
                     st.sampled_from(["both", "both", "both", "first",
                                      "second"])).map(
        lambda t: dict(name=name, ends=[
            (a, t[0][0], name + "_r0",
             None if t[1] == "second" else name + "_n0"),
            (b, t[0][1], name + "_r1",
             None if t[1] == "first" else name + "_n1")]))


def sensible(assocs):
    """No entity set with two required associations that it has no
    navigation property for: pyslet documents that it relaxes the
    multiplicities of such a model"""
    n = {}
    for a in assocs:
        for j in (0, 1):
            if a["ends"][j][3] is None and a["ends"][1 - j][1] == "1":
                s = a["ends"][j][0]
                n[s] = n.get(s, 0) + 1
    return all(v < 2 for v in n.values())


def cases(sql):
    ints = st.integers(0, 999)
    choice = st.tuples(st.sampled_from(
        ["none", "none", "free", "any", "new", "new", "free", "absent",
         "key", "two"]), ints)
    binds = st.lists(choice, min_size=4, max_size=4)
    op = st.one_of(
        st.tuples(st.just("insert"), ints, ints, binds, st.booleans()),
        st.tuples(st.just("insert"), ints, ints, binds, st.just(True)),
        st.tuples(st.just("update"), ints, ints, binds, st.just(False)),
        st.tuples(st.sampled_from(
            ["link", "link", "replace", "unlink", "clear", "navinsert"]),
            ints, ints, ints, binds),
        st.tuples(st.sampled_from(
            ["link", "link", "replace", "unlink", "unlink"]),
            ints, ints, ints, binds),
        st.tuples(st.just("delete"), ints, ints))
    return st.tuples(
        st.one_of(
            assoc_strategy("X", "As", "Bs", sql).map(lambda a: [a]),
            st.tuples(assoc_strategy("X", "As", "Bs", sql),
                      assoc_strategy("Y", "As", "Bs", sql)).map(list),
            st.tuples(assoc_strategy("X", "As", "Bs", sql),
                      assoc_strategy("Y", "Bs", "Cs", sql)).map(list),
            assoc_strategy("X", "As", "As", sql).map(lambda a: [a])).filter(
                sensible),
        st.one_of(              # initial inserts
            st.integers(0, 3).map(lambda n: [[("none", 0)] * 4] * n),
            st.lists(st.lists(st.tuples(
                st.sampled_from(["free", "free", "none", "new"]), ints),
                min_size=4, max_size=4), min_size=3, max_size=7)),
        st.lists(op, min_size=1, max_size=12),
        st.booleans())


def spec_of(assocs, compound):
    sets = sorted(set(e[0] for a in assocs for e in a["ends"]))
    types = {}
    for s in sets:
        if s == "Bs" and compound:
            types["T" + s] = dict(
                props=[("D", "Int32", {}),
                       ("K2", "String", {"Nullable": "false"}),
                       ("K1", "Int32", {"Nullable": "false"})],
                keys=["K1", "K2"])
        else:
            types["T" + s] = dict(
                props=[("K", "Int32", {"Nullable": "false"}),
                       ("D", "Int32", {})], keys=["K"])
    return dict(types=types, sets=dict((s, "T" + s) for s in sets),
                assocs=assocs)


class Refuse(Exception):
    """The operation breaks a constraint"""


class Model(object):
    """entities: set name -> set of keys; links: association index ->
    set of (key at end 0, key at end 1)"""

    def __init__(self, assocs):
        self.assocs = assocs
        self.entities = {}
        for a in assocs:
            for e in a["ends"]:
                self.entities[e[0]] = set()
        self.links = [set() for a in assocs]
        # navs of each set: (nav name or None, assoc index, my end)
        self.ends = dict((s, []) for s in self.entities)
        for i, a in enumerate(assocs):
            for j in (0, 1):
                s, m, r, n = a["ends"][j]
                self.ends[s].append((n, i, j))

    def copy(self):
        m = Model(self.assocs)
        m.entities = dict((k, set(v)) for k, v in self.entities.items())
        m.links = [set(v) for v in self.links]
        return m

    def mult(self, i, j):
        return self.assocs[i]["ends"][j][1]

    def set_of(self, i, j):
        return self.assocs[i]["ends"][j][0]

    def linked(self, i, j, key):
        """keys linked to key, which is at end j of association i"""
        return set(p[1 - j] for p in self.links[i] if p[j] == key)

    def pair(self, j, mine, other):
        return (mine, other) if j == 0 else (other, mine)

    def add_link(self, i, j, mine, other):
        p = self.pair(j, mine, other)
        if p in self.links[i]:
            return
        self.links[i].add(p)

    def valid(self):
        """all multiplicities honoured"""
        for i, a in enumerate(self.assocs):
            for j in (0, 1):
                # every entity at end j has as many links as end 1-j says
                m = self.mult(i, 1 - j)
                for k in self.entities[self.set_of(i, j)]:
                    n = len(self.linked(i, j, k))
                    if m == "1" and n != 1 or m == "0..1" and n > 1:
                        return False
            for p in self.links[i]:
                for j in (0, 1):
                    if p[j] not in self.entities[self.set_of(i, j)]:
                        return False
        return True

    def delete(self, s, key):
        """cascading delete; raises Refuse; sets self.unsure if one is
        allowed to refuse"""
        self._delete(s, key, set())

    def _delete(self, s, key, deleting):
        if (s, key) in deleting or key not in self.entities[s]:
            return
        deleting.add((s, key))
        for n, i, j in self.ends[s]:
            others = self.linked(i, j, key)
            os = self.set_of(i, 1 - j)
            if self.mult(i, j) == "1":
                # they require us
                for k in sorted(others, key=repr):
                    if (os, k) in deleting:
                        continue
                    if n is None:
                        raise Refuse
                    self._delete(os, k, deleting)
        self.entities[s].discard(key)
        for n, i, j in self.ends[s]:
            self.links[i] = set(p for p in self.links[i] if p[j] != key)


class Run(object):

    def __init__(self, case, store, c):
        self.assocs, self.init, self.ops, self.compound = case
        self.store = store
        self.c = c
        self.model = Model(self.assocs)
        self.counter = itertools.count(1)

    # keys in the model are plain values: int or (int, str)
    def fresh_key(self, s):
        n = next(self.counter)
        if s == "Bs" and self.compound:
            # every part of the key is shared with other entities
            return (n // 2, "k%d'" % (n % 2))
        return n

    def pick(self, seq, r):
        seq = sorted(seq, key=repr)
        return seq[r % len(seq)] if seq else None

    def new_entity(self, s, key):
        with self.store.open(s) as coll:
            e = coll.new_entity()
        e.set_key(key)
        e["D"].set_from_value(7)
        return e

    def fetch(self, s, key):
        with self.store.open(s) as coll:
            return coll[key]

    # bindings ----------------------------------------------------------

    def bind(self, m, e, s, key, binds, force, existing, depth=0,
             from_end=None):
        """Binds entity e (not yet existing unless existing) and updates the
        model m as success would; returns False if m cannot describe it.
        Returns a flag: True if the outcome is certain"""
        certain = True
        bound = set()
        bi = iter(binds)
        for n, i, j in self.model.ends[s]:
            what, r = next(bi)
            if (i, j) == from_end:
                continue
            if n is None:
                continue
            os = m.set_of(i, 1 - j)
            many = m.mult(i, 1 - j) == "*"
            if what == "none" and force and m.mult(i, 1 - j) == "1":
                what = "new"
            targets = []
            pool = self.model.entities[os]
            free = [k for k in pool
                    if m.mult(i, j) == "*" or not m.linked(i, 1 - j, k)]
            if what in ("free", "key") and not free and force and \
                    m.mult(i, 1 - j) == "1":
                what = "new"
            if what == "none":
                continue
            elif what == "free":
                k = self.pick(free, r)
                if k is None:
                    continue
                targets.append(("entity", k))
            elif what == "key":
                k = self.pick(free, r)
                if k is None:
                    continue
                targets.append(("key", k))
            elif what == "any":
                k = self.pick(pool, r)
                if k is None:
                    continue
                targets.append(("key" if r % 2 else "entity", k))
            elif what == "new":
                targets.append(("new", self.fresh_key(os)))
            elif what == "absent":
                targets.append(("absent", self.fresh_key(os)))
            elif what == "two":
                k = self.pick(free, r)
                if k is not None:
                    targets.append(("entity", k))
                targets.append(("absent" if r % 3 == 0 else "new",
                                self.fresh_key(os)))
            if existing and targets:
                # an update which binds both ends of a self-association may
                # be contradictory
                if i in bound:
                    continue
                bound.add(i)
            if not many:
                # binding again overrides
                targets = targets[-1:]
            for kind, k in targets:
                self.c.label("bind " + kind)
                if kind == "new":
                    e2 = self.new_entity(os, k)
                    if depth < 1:
                        certain = self.bind(
                            m, e2, os, k, [("none", 0)] * 4, force, False,
                            depth + 1, (i, 1 - j)) and certain
                    m.entities[os].add(k)
                    e[n].bind_entity(e2)
                elif kind == "entity":
                    e[n].bind_entity(self.fetch(os, k))
                else:
                    e[n].bind_entity(k)
                if kind == "absent":
                    m.bad = True
                old = m.linked(i, j, key)
                if existing and not many and old and old != set([k]):
                    if kind == "new" or m.mult(i, j) == "1":
                        # may be refused as it is not a plain replacement
                        certain = False
                    if m.mult(i, j) == "1":
                        # would remove a required link
                        m.bad = True
                    for o in old:
                        m.links[i].discard(m.pair(j, key, o))
                if existing and k in old:
                    certain = False
                m.add_link(i, j, key, k)
        return certain

    def required_ok(self, m, s):
        """False if an entity can't be created as a required association
        has no navigation property here"""
        for n, i, j in m.ends[s]:
            if n is None and m.mult(i, 1 - j) == "1":
                return False
        return True

    # operations ----------------------------------------------------------

    def attempt(self, name, f, m, certain):
        """Runs f which should take the store to model m (None for must
        refuse)"""
        good = m is not None and not getattr(m, "bad", False) and m.valid()
        try:
            f()
        except REFUSED as e:
            if good and certain:
                fail("a legal operation was refused", name, type(e), str(e))
            self.c.label("refused:" + name)
            self.c.nontrivial()
            return
        if not good:
            fail("an operation which breaks a constraint was accepted", name)
        self.c.label("done:" + name)
        if name != "insert":
            self.c.nontrivial()
        m.bad = False
        self.model = m

    def do(self, op):
        name = op[0]
        m = self.model.copy()
        m.bad = False
        sets = sorted(m.entities)
        if name in ("insert", "update"):
            s = sets[op[1] % len(sets)]
            if name == "insert":
                key = self.fresh_key(s)
                if op[2] % 10 == 0 and m.entities[s]:
                    key = self.pick(m.entities[s], op[2])
                    m.bad = True
                e = self.new_entity(s, key)
                if not self.required_ok(m, s):
                    m.bad = True
            else:
                key = self.pick(m.entities[s], op[2])
                if key is None:
                    return
                e = self.fetch(s, key)
            m.entities[s].add(key)
            certain = self.bind(m, e, s, key, op[3], op[4],
                                name == "update")
            if name == "update":
                e["D"].set_from_value(8)

            def f():
                if name == "insert":
                    with self.store.open(s) as coll:
                        coll.insert_entity(e)
                    ok(e.exists, "inserted entity exists")
                else:
                    e.commit()
            self.attempt(name, f, m, certain)
            return
        if name == "delete":
            s = sets[op[1] % len(sets)]
            key = self.pick(m.entities[s], op[2])
            if key is None:
                return
            try:
                m.delete(s, key)
            except Refuse:
                m.bad = True
            # an SQL store refuses without looking for links if there is no
            # navigation property for a possible cascade
            certain = not any(n is None and m.mult(i, j) == "1"
                              for ss in sets
                              for n, i, j in m.ends[ss])

            def f():
                with self.store.open(s) as coll:
                    del coll[key]
            self.attempt(name, f, m, certain)
            return
        # operations on a navigation collection
        navs = [(s, n, i, j) for s in sets for n, i, j in m.ends[s] if n]
        s, n, i, j = navs[op[1] % len(navs)]
        key = self.pick(m.entities[s], op[2])
        if key is None:
            return
        os = m.set_of(i, 1 - j)
        e = self.fetch(s, key)
        links = m.linked(i, j, key)
        if name in ("link", "replace", "unlink"):
            pool = m.entities[os]
            if name == "unlink" and links and op[3] % 4:
                pool = links
            if name != "unlink" and op[3] % 2:
                free = [k for k in pool if not m.linked(i, 1 - j, k)]
                pool = free or pool
            k = self.pick(pool, op[3])
            if k is None:
                return
            t = self.fetch(os, k)
        certain = True
        if name == "link":
            if k in links:
                certain = False
            m.add_link(i, j, key, k)

            def f():
                with e[n].open() as coll:
                    coll[k] = t
        elif name == "replace":
            if links == set([k]):
                certain = False
            elif links and m.mult(i, j) == "1":
                m.bad = True
            for o in links:
                m.links[i].discard(m.pair(j, key, o))
            m.add_link(i, j, key, k)

            def f():
                with e[n].open() as coll:
                    coll.replace(t)
        elif name == "unlink":
            if k not in links:
                m.bad = True
            m.links[i].discard(m.pair(j, key, k))

            def f():
                with e[n].open() as coll:
                    del coll[k]
        elif name == "clear":
            for o in links:
                m.links[i].discard(m.pair(j, key, o))
            certain = bool(links)
            if m.mult(i, 1 - j) == "1" or m.mult(i, j) == "1":
                certain = False

            def f():
                with e[n].open() as coll:
                    coll.clear()
        elif name == "navinsert":
            k = self.fresh_key(os)
            if op[3] % 7 == 0 and m.entities[os]:
                k = self.pick(m.entities[os], op[3])
                m.bad = True
            t = self.new_entity(os, k)
            m.entities[os].add(k)
            certain = self.bind(m, t, os, k, op[4], True, False, 0,
                                (i, 1 - j))
            if not all(nn is not None or (ii, jj) == (i, 1 - j) or
                       m.mult(ii, 1 - jj) != "1"
                       for nn, ii, jj in m.ends[os]):
                m.bad = True
            m.add_link(i, j, key, k)

            def f():
                with e[n].open() as coll:
                    coll.insert_entity(t)
        self.attempt(name, f, m, certain)

    def check_state(self, msg):
        m = self.model
        for s in sorted(m.entities):
            with self.store.open(s) as coll:
                eq(set(coll), m.entities[s], "keys of the entity set",
                   msg, s)
                eq(len(coll), len(m.entities[s]), "length", msg, s)
                for e in coll.values():
                    for n, i, j in m.ends[s]:
                        if n is None:
                            continue
                        x = m.linked(i, j, e.key())
                        w = "%s[%r].%s" % (s, e.key(), n)
                        with e[n].open() as nav:
                            keys = list(nav)
                            eq(len(keys), len(set(keys)),
                               "linked keys once each", msg, w)
                            eq(set(keys), x, "linked keys", msg, w)
                            eq(len(nav), len(x), "number of links", msg, w)
                            for k in m.entities[m.set_of(i, 1 - j)]:
                                eq(k in nav, k in x, "membership of link",
                                   msg, w, k)
                                t = nav.get(k, None)
                                eq(t is not None, k in x, "get through "
                                   "navigation", msg, w, k)
                                if t is not None:
                                    eq(t.key(), k, "key of linked entity")
                        if m.mult(i, 1 - j) != "*":
                            t = e[n].get_entity()
                            eq(None if t is None else t.key(),
                               list(x)[0] if x else None,
                               "single linked entity", msg, w)
                exp = dict((n, None) for n, i, j in m.ends[s] if n)
                if exp:
                    coll.set_expand(exp)
                    for e in coll.values():
                        for n, i, j in m.ends[s]:
                            if n is None:
                                continue
                            ok(e[n].isExpanded, "expanded on request")
                            with e[n].open() as nav:
                                eq(set(k for k in nav),
                                   m.linked(i, j, e.key()),
                                   "expanded links", msg)

    def run(self):
        sets = sorted(self.model.entities)
        for r, binds in enumerate(self.init):
            self.do(("insert", r, 1, binds, True))
        self.check_state("initially")
        for x, op in enumerate(self.ops):
            self.do(op)
            self.check_state("after op %d %s" % (x, op[0]))


def check(kind):
    def f(case, c):
        spec = spec_of(case[0], case[3])
        for a in case[0]:
            c.label("%s-%s" % tuple(sorted(e[1] for e in a["ends"])))
        with odm.Store(spec, kind) as store:
            Run(case, store, c).run()
    return f


RULE = ("an operation was refused, or links or entities were changed by "
        "something other than an insert")
PROPS = [
    Prop("memds", cases(False), check("mem"), quick=1500, rule=RULE),
    Prop("sqlds", cases(True), check("sql"), quick=1500, rule=RULE),
]
