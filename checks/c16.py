"""C16: serialised XML documents parse back to the same document.

Trees are built through the API, serialised in every supported way and read
back both by expat (an independent parser) and by pyslet; namespace
declarations are also parsed and compared with expat's.
"""
import io
from xml.parsers import expat

from hypothesis import strategies as st

from vlib import Prop, eq, ok

from pyslet.xml import structures as xml
from pyslet.xml import namespace as xns

XMLNS = "http://www.w3.org/XML/1998/namespace"
SPACES = " \t\r\n"


# ------------------------------------------------------------------ generators

NAMES = ["a", "b", "c-d", "_e.f", "\xe9", "A"]
NSS = ["http://a/", "urn:b", "http://c/?x&y='\"<"]

piece = st.sampled_from(
    ["t", "T u", "\xe9", "\u4e00", "\U00010000", "&", "<", ">", "]]>", "'",
     '"', "&amp;", "&#65;", "]]", "--", "\ufffd", "\x85", "\x7f", "\u2028",
     "\ue000", "<a>", "x", " ", "\t", "\n", "\r", "\r\n", "  ", "\x9f"])
text = st.lists(piece, max_size=4).map("".join)
spacing = st.sampled_from([None, None, None, None, "preserve", "default"])


@st.composite
def trees(draw, ns=False, depth=3, root=True):
    """(name, attrs, kids, space, prefixes)"""
    name = draw(st.sampled_from(NAMES))
    if ns:
        name = (draw(st.sampled_from(NSS + [None])), name)
        aname = st.tuples(st.sampled_from(NSS + [None, None]),
                          st.sampled_from(NAMES))
    else:
        aname = st.sampled_from(NAMES + ["x:y", "xml:lang"])
    attrs = draw(st.dictionaries(aname, text, max_size=3))
    kids = []
    if depth > 0:
        for k in draw(st.lists(st.integers(0, 3), max_size=4)):
            if k <= 1:
                kids.append(draw(text) or "t")
            else:
                kids.append(draw(trees(ns, depth - 1, False)))
    prefixes = []
    if ns and draw(st.integers(0, 2)) == 0:
        prefixes = draw(st.lists(st.tuples(
            st.sampled_from(["", "p", "q", "ns1", None]),
            st.sampled_from(NSS)), max_size=2))
    return (name, sorted(attrs.items(), key=repr), kids, draw(spacing),
            prefixes)


# ------------------------------------------------------------------- reference

def collapse(kids):
    """a canonical form: the amount of white space does not matter, nor does
    white space at either end of the content or between child elements"""
    out = []
    for k in kids:
        if isinstance(k, str):
            s = "".join(" " if c in SPACES else c for c in k)
            while "  " in s:
                s = s.replace("  ", " ")
            out.append(s)
        else:
            out.append(k)
    if out and isinstance(out[0], str):
        out[0] = out[0].lstrip(" ")
    if out and isinstance(out[-1], str):
        out[-1] = out[-1].rstrip(" ")
    return [k for k in out if k not in ("", " ")]


def merge(kids):
    out = []
    for k in kids:
        if isinstance(k, str):
            if not k:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += k
                continue
        out.append(k)
    return out


def canon(node, space_name, policy=None):
    """node is (name, {attrs}, kids)"""
    name, attrs, kids = node
    policy = attrs.get(space_name, policy)
    kids = merge([k if isinstance(k, str) else canon(k, space_name, policy)
                  for k in kids])
    if policy != "preserve":
        kids = collapse(kids)
    return (name, dict(attrs), kids)


def expected(tree, ns):
    name, attrs, kids, space, prefixes = tree
    attrs = dict(attrs)
    if space:
        attrs[(XMLNS, "space") if ns else "xml:space"] = space
    return (name, attrs, [k if isinstance(k, str) else expected(k, ns)
                          for k in kids])


def by_expat(data, ns=False):
    p = expat.ParserCreate(namespace_separator="\x1f" if ns else None)
    top = []
    stack = [(None, None, top)]

    def expand(n):
        if not ns:
            return n
        if "\x1f" in n:
            return tuple(n.split("\x1f"))
        return (None, n)

    def start(n, attrs):
        e = (expand(n), {expand(a): v for a, v in attrs.items()}, [])
        stack[-1][2].append(e)
        stack.append(e)

    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = lambda s: stack[-1][2].append(s)
    p.Parse(data, True)
    return top[0]


# --------------------------------------------------------------------- running

def build(tree, parent, cls, ns):
    name, attrs, kids, space, prefixes = tree
    e = parent.add_child(cls, name)
    for k, v in attrs:
        if ns and k[0] is None:
            k = k[1]
        e.set_attribute(k, v)
    if space:
        e.set_space(space)
    for prefix, uri in prefixes:
        try:
            e.make_prefix(uri, prefix)
        except ValueError:
            # already declared
            ok(prefix is not None and prefix in [
                p for p, u in prefixes], "make_prefix", tree)
    for k in kids:
        if isinstance(k, str):
            e.add_data(k)
        else:
            build(k, e, cls, ns)
    e.content_changed()
    return e


def tree_of(e, ns):
    attrs = {}
    for k, v in e.get_attributes().items():
        if ns and isinstance(k, tuple) and k[0] == xns.NO_NAMESPACE:
            k = (None, k[1])
        attrs[k] = v
    return (e.get_xmlname(), attrs, [
        str(k) if isinstance(k, str) else tree_of(k, ns)
        for k in e.get_children()])


def outputs(doc):
    """the document in each serialisation"""
    yield "str", str(doc).encode("utf-8")
    yield "bytes", bytes(doc)
    b = io.BytesIO()
    doc.write_xml(b, escape_function=xml.escape_char_data7)
    yield "ascii", b.getvalue()
    b = io.BytesIO()
    doc.write_xml(b, tab="")
    yield "compact", b.getvalue()
    b = io.BytesIO()
    doc.write_xml(b, tab="   ")
    yield "indented", b.getvalue()


def check_tree(ns):
    doc_class = xns.NSDocument if ns else xml.Document
    cls = xns.NSElement if ns else xml.Element
    space_name = (XMLNS, "space") if ns else "xml:space"

    def check(case, c):
        doc = doc_class()
        build(case, doc, cls, ns)
        want = canon(expected(case, ns), space_name)
        eq(canon(tree_of(doc.root, ns), space_name), want, "the tree built",
           case)
        first = {}
        for how, data in outputs(doc):
            first[how] = data
            if how == "ascii":
                head, _, rest = data.partition(b">")
                ok(all(ch < 128 for ch in rest) or any(
                    n in data.decode("utf-8") for n in "\xe9"),
                   "non-ASCII output", case)
            try:
                got = by_expat(data, ns)
            except expat.ExpatError as err:
                ok(False, "not well-formed", how, data, str(err))
            eq(canon(got, space_name), want, "expat", how, data)
            for src in (data, data.decode("utf-8")):
                doc2 = doc_class()
                with xml.XMLEntity(src) as e:
                    doc2.read_from_entity(e)
                eq(canon(tree_of(doc2.root, ns), space_name), want, "pyslet",
                   how, data)
            ok(doc2.root == doc.root, "reparsed elements differ", how, data)
        for how, data in outputs(doc):
            eq(data, first[how], "not deterministic", how)
        # a copy
        e = doc.root.deepcopy()
        # (the copy of the root has no namespace declarations to inherit)
        got = by_expat(str(e).encode("utf-8"), ns)
        eq(canon(got, space_name)[1:], want[1:], "deepcopy", str(e))
        # parts of the document
        todo = [(doc.root, expected(case, ns), None)]
        while todo:
            e, x, policy = todo.pop()
            w = x[1].get(space_name, policy)
            got = by_expat(str(e).encode("utf-8"), ns)
            eq(canon(got, space_name, policy),
               canon(x, space_name, policy), "element", str(e))
            subs = [k for k in merge(x[2]) if not isinstance(k, str)]
            todo.extend(zip([k for k in e.get_children()
                             if not isinstance(k, str)], subs, [w] * 99))
        c.nontrivial(bool(case[1] or case[2]))
        c.label("nested" if any(not isinstance(k, str) for k in case[2])
                else "flat")

    return check


# ------------------------------------------------------------ namespace parsing

@st.composite
def ns_documents(draw):
    def pick(*x):
        return draw(st.sampled_from(x))

    def qname(attr=False):
        return pick("", "", "p:", "q:", "xml:" if attr else "p:", "z:"
                    if draw(st.integers(0, 9)) == 0 else "") + pick("a", "b")

    def element(depth):
        n = qname()
        s = "<" + n
        seen = set()
        for i in range(draw(st.integers(0, 3))):
            a = pick("xmlns", "xmlns:p", "xmlns:q", "x", "y")
            if a in "xy":
                a = qname(True)
                v = pick("1", "2")
            else:
                v = pick("u:1", "u:2", "u:3", "" if a == "xmlns" else "u:1")
            if a not in seen:
                seen.add(a)
                s += " %s='%s'" % (a, v)
        if depth <= 0:
            return s + "/>"
        return s + ">" + "".join(
            element(depth - 1) for i in range(draw(st.integers(0, 2)))
        ) + "</" + n + ">"

    s = element(3)
    i = s.index(">")
    if draw(st.integers(0, 3)):
        # mostly declared
        j = i - 1 if s[i - 1] == "/" else i
        head = s[:j]
        for p in ("p", "q"):
            if "xmlns:%s=" % p not in head:
                s = s[:j] + " xmlns:%s='u:%s'" % (p, p) + s[j:]
                j += len(" xmlns:%s='u:%s'" % (p, p))
    return s


def check_ns(text, c):
    try:
        want = by_expat(text.encode("utf-8"), True)
    except expat.ExpatError:
        want = None
    doc = xns.NSDocument()
    try:
        with xml.XMLEntity(text) as e:
            doc.read_from_entity(e)
    except xml.XMLError:
        ok(want is None, "a well-formed document was refused", text)
        c.label("refused")
        return
    if want is None:
        c.label("namespace error")
        return
    c.nontrivial()
    eq(tree_of(doc.root, True), want, "expanded names", text)
    got = by_expat(bytes(doc), True)
    eq(canon(got, ""), canon(want, ""), "written", text, bytes(doc))


# --------------------------------------------------------------- mapped classes

def bool_in(s):
    return {"true": True, "false": False}[s]


def bool_out(b):
    return "true" if b else "false"


class Leaf(xml.Element):
    XMLNAME = "leaf"
    XMLATTR_p = "plain"
    XMLATTR_n = ("num", int, str)
    XMLATTR_b = ("flag", bool_in, bool_out)
    XMLATTR_l = ("items", int, str, list)
    XMLATTR_d = ("words", None, None, dict)


class Box(xml.Element):
    XMLNAME = "box"
    XMLCONTENT = xml.ElementContent
    XMLATTR_p = "plain"
    XMLATTR_n = ("num", int, str)

    def __init__(self, parent):
        super(Box, self).__init__(parent)
        self.Leaf = []
        self.Box = []

    def get_children(self):
        for k in self.Leaf:
            yield k
        for k in self.Box:
            yield k


class MapDoc(xml.Document):
    @classmethod
    def get_element_class(cls, name):
        return {"leaf": Leaf, "box": Box}.get(name, xml.Element)


word = st.sampled_from(["x", "\xe9", "a&b", "<", "'"])
leaves = st.fixed_dictionaries({}, optional={
    "plain": text, "num": st.integers(-3, 10 ** 12), "flag": st.booleans(),
    "items": st.lists(st.integers(-2, 5), max_size=3),
    "words": st.dictionaries(word, st.integers(1, 3), max_size=3),
    "": text})


@st.composite
def boxes(draw, depth=2):
    return (draw(st.fixed_dictionaries({}, optional={
        "plain": text, "num": st.integers(-3, 99)})),
        draw(st.lists(leaves, max_size=2)),
        draw(st.lists(boxes(depth - 1), max_size=2)) if depth else [])


def fill(case, box):
    attrs, ls, bs = case
    for k, v in attrs.items():
        setattr(box, k, v)
    for l in ls:
        e = box.add_child(Leaf)
        for k, v in l.items():
            if k:
                setattr(e, k, v)
            else:
                e.set_value(v)
    for b in bs:
        fill(b, box.add_child(Box))


def squeeze(s):
    return " ".join(w for w in "".join(
        " " if ch in SPACES else ch for ch in s).split(" ") if w)


def used(attrs):
    """an empty list or dictionary is the same as no value"""
    return {k: v for k, v in attrs.items() if v not in ([], {}, None)}


def read_box(box):
    """the values of the elements, read from Python attributes"""
    return (used({k: getattr(box, k) for k in ("plain", "num")}),
            [dict(used({k: getattr(e, k) for k in
                        ("plain", "num", "flag", "items", "words")}),
                  **{"": squeeze(e.get_value())}) for e in box.Leaf],
            [read_box(b) for b in box.Box])


def tidy(case):
    attrs, ls, bs = case
    return (used(attrs), [dict(used(l), **{"": squeeze(l.get("", ""))})
                          for l in ls], [tidy(b) for b in bs])


def check_mapped(case, c):
    doc = MapDoc(root=Box)
    fill(case, doc.root)
    want = tidy(case)
    eq(read_box(doc.root), want, "values set", case)
    for how, data in outputs(doc):
        doc2 = MapDoc()
        with xml.XMLEntity(data) as e:
            doc2.read_from_entity(e)
        ok(isinstance(doc2.root, Box), "class", data)
        eq(read_box(doc2.root), want, "values", how, data)
        ok(doc2.root == doc.root, "elements differ", data)
        try:
            by_expat(data)
        except expat.ExpatError as err:
            ok(False, "not well-formed", how, data, str(err))
    c.nontrivial(bool(case[1] or case[2]))


RULE = "a tree with attributes or content"

PROPS = [
    Prop("plain", trees(), check_tree(False), quick=1500, thorough=40000,
         rule=RULE),
    Prop("namespaces", trees(True), check_tree(True), quick=1500,
         thorough=40000, rule=RULE),
    Prop("nsparse", ns_documents(), check_ns, quick=6000, thorough=100000,
         rule="a document expat accepts"),
    Prop("mapped", boxes(), check_mapped, quick=1500, thorough=30000,
         rule="a box with children"),
]
