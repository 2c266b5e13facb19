"""C09: entities survive Atom and JSON serialisation."""
import io
import json

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet.http import params
from pyslet.odata2 import core
from pyslet.odata2 import csdl as edm

from vlib import Prop, eq, fail, ok
from . import edmvals as ev
from . import gens, odm

ROOT = "http://host.example/x.svc/"
FR = {"Precision": "3"}
COMPLEX = {"CT": [("X", "Int32", {}), ("Y", "String", {}),
                  ("Z", "CT2", {"Nullable": "false"})],
           "CT2": [("W", "Double", {}), ("V", "DateTime", FR),
                   ("X", "Binary", {})]}
KEYTYPES = ["Int32", "Int64", "String", "Guid", "DateTime", "Byte", "Int16",
            "Boolean", "Binary"]
DATES = ("DateTime", "DateTimeOffset", "Time")

XTEXT = gens.xml_text(8)
JTEXT = gens.any_text(8)


def some(t, text):
    return ev.payload(t, text=text, ndps=(0, 1, 3))


def val(t, text):
    if t in COMPLEX:
        return st.fixed_dictionaries(dict(
            (n, val(tt, text)) for n, tt, f in COMPLEX[t]))
    s = some(t, text)
    return st.one_of(st.none(), s, s, s)


def key_val(t):
    if t == "DateTime":
        return ev.datetimes(1, 9999, (0,))
    if t == "String":
        return st.one_of(gens.xml_text(6), st.sampled_from(
            ["", "a b", "a/b", "O'Neil", "%41", "\u00e9", "a&b", "a?b#c"]))
    return some(t, XTEXT)


def prop_def(n, t, key=False):
    f = {}
    if key or t in COMPLEX:
        f["Nullable"] = "false"
    if t in DATES:
        f.update(FR)
    return n, t, f


UPROPS = [("K", "Int32", {"Nullable": "false"}), ("S", "String", {})]
ASSOCS = [
    {"name": "A1", "ends": [("Ts", "*", "TT", "One"),
                            ("Us", "0..1", "UU", None)]},
    {"name": "A2", "ends": [("Ts", "*", "TM", "Many"),
                            ("Us", "*", "UM", "Back")]}]


@st.composite
def specs(draw, stream=False):
    nkeys = draw(st.sampled_from([1, 1, 2]))
    ktypes = [draw(st.sampled_from(KEYTYPES)) for i in range(nkeys)]
    dtypes = draw(st.lists(st.sampled_from(ev.TYPES + ["CT", "CT2"]),
                           min_size=1, max_size=5))
    props = [prop_def("K%d" % i, t, True) for i, t in enumerate(ktypes)]
    props += [prop_def("D%d" % i, t) for i, t in enumerate(dtypes)]
    perm = draw(st.permutations(list(range(len(props)))))
    return {"props": [props[i] for i in perm],
            "keys": ["K%d" % i for i in range(nkeys)], "stream": stream}


def rows(spec, text):
    return st.fixed_dictionaries(dict(
        (n, key_val(t) if n in spec["keys"] else val(t, text))
        for n, t, f in spec["props"]))


def build(spec, kind="mem"):
    s = dict(types={"T": spec, "U": dict(props=UPROPS, keys=["K"])},
             complex=COMPLEX, sets={"Ts": "T", "Us": "U"}, assocs=ASSOCS)
    store = odm.Store(s, kind)
    store.doc.set_base(ROOT)
    # locations depend on the base
    for es in ("Ts", "Us"):
        store.es(es).set_location()
    return store


def through_atom(entity, fresh, resolver=None, for_update=False):
    doc = core.Document(root=core.Entry)
    doc.root.set_value(entity, for_update)
    data = str(doc).encode("utf-8")
    doc2 = core.Document()
    doc2.read(src=data)
    ok(isinstance(doc2.root, core.Entry), "root is not an entry", data)
    doc2.root.get_value(fresh, resolver, for_update)
    return doc2.root


def through_json(entity, fresh, resolver=None, for_update=False, version=2):
    s = "".join(entity.generate_entity_type_in_json(for_update, version))
    try:
        obj = json.loads(s)
    except ValueError as e:
        fail("not JSON", s, e)
    fresh.set_from_json_object(obj, resolver, for_update)
    return obj


def key_literal(spec, row):
    types = dict((p[0], p[1]) for p in spec["props"])
    return [(k, types[k], row[k]) for k in spec["keys"]]


def check_location(href, spec, row):
    """href must be the URI of the entity: judged by the parser, which C10
    covers"""
    u = core.ODataURI(href, "/x.svc")
    ok(href.startswith(ROOT), "location not under the service root", href)
    (name, k), = u.nav_path
    eq(name, "Ts", "entity set in location", href)
    for kn, t, p in key_literal(spec, row):
        v = k[kn] if len(spec["keys"]) > 1 else k[""]
        got = ev.canon(t if t not in ("Byte", "Int16") else "Int32", v.value)
        eq(got, ev.expect(t, p), "key in location", href)


def same_values(spec, e, row, what, skip=()):
    got = odm.get_value(e, spec["props"], COMPLEX)
    want = odm.expect_value(row, spec["props"], COMPLEX)
    for n, t, f in spec["props"]:
        if n not in skip:
            eq(got[n], want[n], what + " property", n, t)


def labels(spec, row, c):
    for n, t, f in spec["props"]:
        c.label(t if row[n] is not None else "null")


# -- single entities -------------------------------------------------------

@st.composite
def entry_cases(draw):
    form = draw(st.sampled_from(["atom", "json"]))
    spec = draw(specs())
    row = draw(rows(spec, XTEXT if form == "atom" else JTEXT))
    sel = draw(st.one_of(st.none(), st.none(), st.lists(
        st.sampled_from([p[0] for p in spec["props"]]), min_size=1,
        max_size=3, unique=True)))
    return form, spec, row, sel, draw(st.booleans())


def check_entry(case, c):
    form, spec, row, sel, stored = case
    labels(spec, row, c)
    c.label(form)
    if len(spec["props"]) > 2 and any(
            row[n] is not None for n, t, f in spec["props"]
            if n not in spec["keys"]):
        c.nontrivial()
    with build(spec) as store, store.open("Ts") as coll:
        e = coll.new_entity()
        odm.set_value(e, spec["props"], COMPLEX, row)
        if stored:
            coll.insert_entity(e)
            key = e.key()
            if sel:
                coll.set_expand(None, dict((s, None) for s in sel))
            e = coll[key]
        else:
            sel = None
        fresh = coll.new_entity()
        fresh.exists = stored
        # not initially null, so that nulls have to be read
        for n, t, f in spec["props"]:
            if t == "String":
                fresh[n].set_from_value("previous")
        out = []
        if form == "atom":
            root = through_atom(e, fresh)
            eq(root.etag, None, "etag of an untracked entity")
            (cat,) = root.Category
            eq((cat.term, str(cat.scheme)), ("M.T", core.ODATA_SCHEME),
               "category")
            check_location(root.AtomId.get_value(), spec, row)
            rels = dict((l.rel, str(l.href)) for l in root.Link)
            if stored:
                check_location(rels.pop("edit"), spec, row)
                for nav in ("One", "Many"):
                    href = rels.pop(core.ODATA_RELATED + nav)
                    ok(href.endswith("/" + nav), "link", href)
                    check_location(href[:-len(nav) - 1], spec, row)
            eq(rels, {}, "links")
            present = set(root._properties)
        else:
            obj = through_json(e, fresh)
            meta = obj.pop("__metadata")
            check_location(meta["uri"], spec, row)
            eq(meta["type"], "M.T", "type")
            eq(sorted(meta), ["type", "uri"], "metadata")
            for nav in ("One", "Many"):
                link = obj.pop(nav, None)
                if stored and not sel:
                    href = link["__deferred"]["uri"]
                    ok(href.endswith("/" + nav), "link", href)
                    check_location(href[:-len(nav) - 1], spec, row)
                else:
                    ok(link is None, "unexpected link", link)
            present = set(obj)
        if sel:
            c.label("select")
            # only what is selected; keys may be included
            ok(set(sel) <= present <= set(sel) | set(spec["keys"]),
               "properties present with a selection", sorted(present), sel)
            for n, t, f in spec["props"]:
                if n in sel:
                    pass
                elif n not in spec["keys"] and t not in COMPLEX:
                    eq(fresh[n].value, None, "unselected property", n)
            same_values(spec, fresh, row, "selected", [
                p[0] for p in spec["props"] if p[0] not in sel])
        else:
            eq(sorted(present), sorted(p[0] for p in spec["props"]),
               "properties")
            same_values(spec, fresh, row, form)


# -- links -----------------------------------------------------------------

utext = st.one_of(st.none(), XTEXT)
binding = st.one_of(
    st.tuples(st.just("entity"), st.integers(0, 2)),
    st.tuples(st.just("key"), st.integers(0, 2)),
    st.tuples(st.just("new"), st.integers(10, 12), utext))


@st.composite
def link_cases(draw):
    form = draw(st.sampled_from(["atom", "json"]))
    spec = draw(specs())
    return (form, spec, draw(rows(spec, XTEXT)),
            draw(st.one_of(st.none(), binding)),
            draw(st.lists(binding, max_size=4, unique_by=lambda b: b[1])),
            draw(st.sampled_from(["insert", "insert", "update"])))


def check_links(case, c):
    form, spec, row, one, many, action = case
    c.label(form + " " + action)
    with build(spec) as store:
        with store.open("Us") as us:
            for i in range(3):
                u = us.new_entity()
                u["K"].set_from_value(i)
                u["S"].set_from_value("u%d" % i)
                us.insert_entity(u)
        asked = []

        def resolver(href):
            s = str(href)
            asked.append(s)
            ok(s.startswith(ROOT), "resolving", s)
            (name, k), = core.ODataURI(href, "/x.svc").nav_path
            eq(name, "Us", "set of a link", s)
            with store.open("Us") as us:
                return us[k[""].value]

        def bind(e, nav, b):
            c.label(b[0])
            if b[0] == "key":
                e[nav].bind_entity(b[1])
                return
            with store.open("Us") as us:
                if b[0] == "entity":
                    t = us[b[1]]
                else:
                    t = us.new_entity()
                    t["K"].set_from_value(b[1])
                    t["S"].set_from_value(b[2])
            e[nav].bind_entity(t)

        def describe(bs):
            out = []
            for b in bs:
                ok(isinstance(b, core.Entity), "binding is", b)
                out.append((b["K"].value, b["S"].value, bool(b.exists)))
            return sorted(out, key=lambda x: x[0])

        def wanted(bs):
            return sorted(((b[1], b[2], False) if b[0] == "new" else
                           (b[1], "u%d" % b[1], True) for b in bs),
                          key=lambda x: x[0])

        with store.open("Ts") as coll:
            e = coll.new_entity()
            odm.set_value(e, spec["props"], COMPLEX, row)
            fresh = coll.new_entity()
            if action == "update":
                coll.insert_entity(e)
                key = e.key()
                e = coll[key]
                fresh = coll[key]
                if one and one[0] == "new":
                    one = ("entity", one[1] - 10)
                many = []
            if one:
                bind(e, "One", one)
            for b in many:
                bind(e, "Many", b)
            if one or many:
                c.nontrivial()
            if form == "atom":
                root = through_atom(e, fresh, resolver, action == "update")
            else:
                through_json(e, fresh, resolver, action == "update")
            same_values(spec, fresh, row, form)
            eq(describe(fresh["One"].bindings), wanted([one] if one else []),
               "single link", form, action)
            eq(describe(fresh["Many"].bindings), wanted(many), "links", form,
               action)
            eq(len(asked), len([b for b in [one] + many if b and
                                b[0] != "new"]), "links resolved")


# -- expanded entities and collections -------------------------------------

@st.composite
def coll_cases(draw):
    form = draw(st.sampled_from(["atom", "json1", "json2"]))
    spec = draw(specs())
    rs = draw(st.lists(rows(spec, XTEXT), max_size=4, unique_by=lambda r: repr(
        [r[k] for k in spec["keys"]])))
    us = draw(st.lists(utext, max_size=4))
    links = [(draw(st.one_of(st.none(), st.integers(0, 9))),
              draw(st.lists(st.integers(0, 9), max_size=3, unique=True)))
             for r in rs]
    return (form, spec, rs, us, links,
            draw(st.lists(st.sampled_from(["One", "Many"]), max_size=2,
                          unique=True)),
            draw(st.one_of(st.none(), st.integers(1, 4))), draw(st.booleans()))


def read_json_entity(coll, obj):
    fresh = coll.new_entity()
    fresh.exists = True
    fresh.set_from_json_object(obj)
    return fresh


def check_coll(case, c):
    form, spec, rs, texts, links, expand, page, count = case
    c.label(form)
    version = 1 if form == "json1" else 2
    with build(spec) as store:
        with store.open("Us") as us:
            for i, s in enumerate(texts):
                u = us.new_entity()
                u["K"].set_from_value(i)
                u["S"].set_from_value(s)
                us.insert_entity(u)
        with store.open("Ts") as coll:
            want = {}
            for r, (one, many) in zip(rs, links):
                e = coll.new_entity()
                odm.set_value(e, spec["props"], COMPLEX, r)
                if texts:
                    many = sorted(set(m % len(texts) for m in many))
                    if one is not None:
                        one %= len(texts)
                        e["One"].bind_entity(one)
                    for m in many:
                        e["Many"].bind_entity(m)
                else:
                    one, many = None, []
                try:
                    coll.insert_entity(e)
                except edm.ConstraintError:
                    # different payloads may be equal keys
                    c.label("duplicate")
                    return
                want[e.key()] = (r, one, many)
            order = list(coll)
            coll.set_expand(dict((x, None) for x in expand))
            coll.set_inlinecount(count)
            coll.set_page(None)
            if page:
                coll.set_topmax(page)
            keys = [e.key() for e in coll.iterpage()]
            eq(len(keys), min(page or len(order), len(order)), "page size")
            ok(set(keys) <= set(order), "page", keys, order)
            if expand:
                c.label("expand")
            if len(keys) > 1 or expand:
                c.nontrivial()
            if form == "atom":
                doc = core.Document(root=core.Feed(None, coll))
                data = str(doc).encode("utf-8")
                doc2 = core.Document()
                doc2.read(src=data)
                feed = doc2.root
                got = []
                for entry in feed.find_children_depth_first(
                        core.Entry, sub_match=False):
                    e = coll.new_entity()
                    e.exists = True
                    entry.get_value(e)
                    got.append((e, entry))
                eq(feed.AtomId.get_value(), ROOT + "Ts", "feed id")
                n = feed.Count.get_value() if feed.Count is not None else None
                nxt = [l for l in feed.Link if l.rel == "next"]
            else:
                s = "".join(coll.generate_entity_set_in_json(version))
                obj = json.loads(s)
                n, nxt = None, []
                if version == 2:
                    n = obj.get("__count")
                    nxt = [obj["__next"]] if "__next" in obj else []
                    obj = obj["results"]
                got = [(read_json_entity(coll, o), o) for o in obj]
            eq([e.key() for e, x in got], keys, "entities in order", form)
            if version == 2:
                eq(n, len(order) if count else None, "count")
                eq(len(nxt), 1 if len(keys) < len(order) else 0, "next link")
            for e, x in got:
                r, one, many = want[e.key()]
                # the store's order
                with coll[e.key()]["Many"].open() as sub:
                    listed = [v["K"].value for v in sub.values()]
                same_values(spec, e, r, form)
                for nav, ks in (("One", [] if one is None else [one]),
                                ("Many", many)):
                    subs = [(k, texts[k]) for k in ks]
                    if form == "atom":
                        eq(bool(e[nav].isExpanded), nav in expand,
                           "expanded", nav)
                        if e[nav].isExpanded:
                            if nav == "Many":
                                with e[nav].open() as sub:
                                    eq([v["K"].value for v in sub.values()],
                                       listed, "order of expansion")
                            with e[nav].open() as sub:
                                eq(sorted((v["K"].value, v["S"].value)
                                          for v in sub.itervalues()),
                                   sorted(subs), "expansion of", nav)
                    else:
                        o = x[nav]
                        if nav not in expand:
                            eq(list(o), ["__deferred"], "deferred", nav)
                            continue
                        if nav == "One":
                            eq(o is None, not ks, "null expansion")
                            o = [] if o is None else [o]
                        elif version == 2:
                            o = o["results"]
                        if nav == "Many":
                            eq([v["K"] for v in o], listed,
                               "order of expansion")
                        eq(sorted((v["K"], v["S"]) for v in o), sorted(subs),
                           "expansion of", nav)


# -- media link entries and feed customisation -----------------------------

PATHS = ["SyndicationTitle", "SyndicationSummary", "SyndicationRights",
         "SyndicationAuthorName", "SyndicationAuthorEmail",
         "SyndicationContributorName", "w", "x/y", "x/z"]
words = st.lists(st.text("ab<&>'\"\u00e9\u4e2d0-]", min_size=1, max_size=4),
                 min_size=1, max_size=3).map(" ".join)
mtypes = st.sampled_from(["text/plain", "image/png", "application/x-y.z",
                          "text/plain; charset=utf-8"])


def special_cases():
    custom = st.lists(st.sampled_from(PATHS), min_size=1, max_size=3,
                      unique=True).flatmap(lambda ps: st.tuples(*[
                          st.tuples(st.just(p), st.booleans(), words)
                          for p in ps]))
    return st.tuples(st.booleans(), st.one_of(custom, st.just(())),
                     key_val("Int32"), utext, mtypes,
                     st.binary(max_size=5))


def check_special(case, c):
    stream, custom, key, text, mtype, data = case
    if not stream and not custom:
        c.label("plain")
        return
    c.nontrivial()
    props = [("K", "Int32", {"Nullable": "false"}), ("S", "String", {})]
    row = {"K": key, "S": text}
    for i, (path, keep, value) in enumerate(custom):
        f = {"m:FC_TargetPath": path,
             "m:FC_KeepInContent": "true" if keep else "false"}
        if path[0] in "wx":
            f.update({"m:FC_NsUri": "http://example.com/ns",
                      "m:FC_NsPrefix": "ex"})
        props.append(("F%d" % i, "String", f))
        row["F%d" % i] = value
        c.label("%s %s" % (path, "kept" if keep else "moved"))
    spec = {"props": props, "keys": ["K"], "stream": stream}
    with build(spec) as store, store.open("Ts") as coll:
        if stream:
            c.label("stream")
            e = coll.new_stream(
                io.BytesIO(data), key=key, sinfo=core.StreamInfo(
                    type=params.MediaType.from_str(mtype)))
            odm.set_value(e, props, COMPLEX, row)
            coll.update_entity(e)
            e = coll[key]
        else:
            e = coll.new_entity()
            odm.set_value(e, props, COMPLEX, row)
            coll.insert_entity(e)
        fresh = coll.new_entity()
        fresh.exists = True
        root = through_atom(e, fresh)
        same_values(spec, fresh, row, "atom")
        inside = set(root._properties)
        eq(sorted(inside), sorted(["K", "S"] + [
            "F%d" % i for i, x in enumerate(custom) if x[1]]),
           "properties in the content")
        if stream:
            ok(root.Properties is not None and root.Content is not None and
               root.Content.Properties is None, "place of the properties")
            src = str(root.Content.get_attribute("src"))
            ok(src.endswith("/$value"), "content source", src)
            check_location(src[:-7], spec, row)
            eq(params.MediaType.from_str(str(root.Content.type)),
               params.MediaType.from_str(mtype), "content type")
            (href,) = [str(l.href) for l in root.Link
                       if l.rel == "edit-media"]
            eq(href, src, "edit-media link")
        titles = [x[2] for x in custom if x[0] == "SyndicationTitle"]
        if titles:
            eq(root.Title.get_value(), titles[0], "title")
        fresh = coll.new_entity()
        fresh.exists = True
        obj = through_json(e, fresh)
        same_values(spec, fresh, row, "json")
        if stream:
            m = obj["__metadata"]
            check_location(m["media_src"][:-7], spec, row)
            eq(params.MediaType.from_str(m["content_type"]),
               params.MediaType.from_str(mtype), "content type")


PROPS = [
    Prop("entry", entry_cases(), check_entry, quick=1600, thorough=40000,
         rule="an entity type of 1 or 2 keys and 1 to 5 properties of any "
         "type; non-trivial: some property is not null"),
    Prop("links", link_cases(), check_links, quick=900, thorough=20000,
         rule="new entities bound to existing and new entities, updates of "
         "single links; non-trivial: something is bound"),
    Prop("collection", coll_cases(), check_coll, quick=900, thorough=20000,
         rule="collections with paging, counts and expansion; non-trivial: "
         "two entities or an expansion"),
    Prop("special", special_cases(), check_special, quick=800, thorough=15000,
         rule="media link entries and feed customisation"),
]
