"""C17: DTD validation decides validity as XML 1.0 defines it."""
import os
import re
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import Discard, Prop, eq, ok

from pyslet import rfc2396 as uri
from pyslet.xml import parser as xparser
from pyslet.xml import structures as xml

NAMES = "abcdef"
ATTRS = ["x", "y", "z", "k"]
OCC = ["", "", "?", "*", "+"]
# name, literal entity value, (replacement) kind
ENTITIES = {
    "w": (" ", "space"), "w2": ("&#32;&#10;", "space"),
    "cs": ("&#38;#32;", "data"), "t": ("text", "data"), "n": ("", "nothing")}
UNPARSED = {"u1": "n1", "u2": "n2", "u3": "n1"}

NAME = re.compile(r"[A-Za-z_:][A-Za-z0-9._:-]*\Z")
NMTOKEN = re.compile(r"[A-Za-z0-9._:-]+\Z")


# ----------------------------------------------------------------- content
# models: ("n", name, occ) | ("seq", [model...], occ) | ("alt", ...)

@st.composite
def models(draw, names, depth=2):
    occ = draw(st.sampled_from(OCC))
    if depth == 0 or draw(st.integers(0, 2)) == 0:
        return ("n", draw(st.sampled_from(names)), occ)
    kind = draw(st.sampled_from(["seq", "alt"]))
    n = draw(st.integers(2 if kind == "alt" else 1, 3))
    return (kind, [draw(models(names, depth - 1)) for i in range(n)], occ)


def outer(m):
    """the outermost particle of an element's content is a group"""
    return ("seq", [m], "") if m[0] == "n" else m


def model_text(m, sp=""):
    if m[0] == "n":
        return m[1] + m[2]
    sep = sp + ("," if m[0] == "seq" else "|") + sp
    return "(" + sp + sep.join(model_text(x, sp) for x in m[1]) + sp + \
        ")" + m[2]


def glushkov(m):
    """(names of positions, first, last, follow pairs, nullable)"""
    positions = []
    follow = set()

    def go(m):
        if m[0] == "n":
            positions.append(m[1])
            p = {len(positions) - 1}
            first, last, null = p, p, False
        elif m[0] == "seq":
            first, last, null = set(), set(), True
            for x in m[1]:
                f, l, n = go(x)
                follow.update((a, b) for a in last for b in f)
                first = first | f if null else first
                last = last | l if n else l
                null = null and n
        else:
            first, last, null = set(), set(), False
            for x in m[1]:
                f, l, n = go(x)
                first, last, null = first | f, last | l, null or n
        if m[2] in ("*", "+"):
            follow.update((a, b) for a in last for b in first)
        return first, last, null or m[2] in ("?", "*")

    first, last, null = go(m)
    return positions, first, last, follow, null


def accepts(m, word):
    positions, first, last, follow, null = glushkov(m)
    if not word:
        return null
    state = {p for p in first if positions[p] == word[0]}
    for w in word[1:]:
        state = {b for a, b in follow if a in state and positions[b] == w}
    return bool(state & last)


def deterministic(m):
    positions, first, last, follow, null = glushkov(m)
    sets = [first] + [{b for a, b in follow if a == p}
                      for p in range(len(positions))]
    return all(len({positions[p] for p in s}) == len(s) for s in sets)


def sample(draw, m, rich):
    """a word of the model's language"""
    lo = 0 if m[2] in ("?", "*") else 1
    hi = 1 if m[2] in ("", "?") or not rich else 3
    n = lo if lo == hi or not rich else draw(st.integers(lo, hi))
    out = []
    for i in range(n):
        if m[0] == "n":
            out.append(m[1])
        elif m[0] == "seq":
            for x in m[1]:
                out += sample(draw, x, rich)
        else:
            out += sample(draw, m[1][draw(st.integers(0, len(m[1]) - 1))],
                          rich)
    return out


# -------------------------------------------------------------- attributes

TYPES = ["CDATA", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN",
         "NMTOKENS", "(p|q|r)", "(p | 1 |-.)", "NOTATION (n1|n2)",
         "NOTATION (n1)"]
BAD_TYPES = ["(p|q|p)", "NOTATION (n1|n1)", "NOTATION (n1|n9)"]

values = {
    "CDATA": st.text("ab 1\n-\t", max_size=4),
    "IDREF": st.sampled_from(["i1", "i2"]),
    "IDREFS": st.sampled_from(["i1", "i1 i2", "i2 i1 i2"]),
    "ENTITY": st.sampled_from(["u1", "u2", "u3"]),
    "ENTITIES": st.sampled_from(["u1", "u1 u2", "u3  u1"]),
    "NMTOKEN": st.sampled_from(["1", "a", "-x", ".", "a:b"]),
    "NMTOKENS": st.sampled_from(["1", "a b", "-x . 1"]),
    "ID": st.sampled_from(["i1", "i2", "i3", "i4", "i5", "i6"]),
}
bad_values = st.sampled_from(
    ["", " ", "1", "-", "a b", "zz", "t", "u9", "i9", "p", "q", "n1", "n2",
     "a&#10;b", "a&#32;b", "&#32;a", "a,b", "(a)", "1x", "\xd7"])
bad_lists = {
    "ENTITIES": st.sampled_from(["u1 u9", "u1 t", "u2 u1 w", "u9 u1"]),
    "IDREFS": st.sampled_from(["i1 i9", "i9 i1", "i1 1"]),
    "NMTOKENS": st.sampled_from(["a (", "( a", "a&#10;b c"]),
    "ENTITY": st.sampled_from(["u9", "t", "u1 u2", "lt"]),
    "IDREF": st.sampled_from(["i9", "i1 i1", "-"]),
    "NMTOKEN": st.sampled_from(["a b", "(", "a,b"]),
}


def value_for(draw, t, odd):
    if odd:
        return draw(bad_lists.get(t, bad_values)
                    if draw(st.booleans()) else bad_values)
    if "(" in t:
        v = draw(st.sampled_from(
            re.split(r"\s*\|\s*", t[t.index("(") + 1:-1])))
    else:
        v = draw(values[t])
    if t != "CDATA" and draw(st.integers(0, 5)) == 0:
        v = draw(st.sampled_from([" ", "  ", "\n", "&#32;"])) + \
            v.replace(" ", "   ") + draw(st.sampled_from(["", " ", "\t"]))
    return v


def normalised(raw, t):
    """the value of an attribute literal, by section 3.3.3"""
    v = re.sub(r"[ \t\r\n]", " ", raw)
    v = re.sub(r"&#([0-9]+);", lambda m: chr(int(m.group(1))), v)
    if t != "CDATA":
        v = " ".join(w for w in v.split(" ") if w)
    return v


def syntactic(v, t):
    if t == "CDATA":
        return True
    if "(" in t:
        return v in re.split(r"\s*\|\s*", t[t.index("(") + 1:-1])
    words = v.split(" ") if t[-1] == "S" and t != "CDATA" else [v]
    if t == "ENTITIES" or t == "IDREFS":
        return all(NAME.match(w) for w in words)
    if t.startswith("NMTOKEN"):
        return all(NMTOKEN.match(w) for w in words)
    return bool(NAME.match(v))


# ---------------------------------------------------------------- documents

@st.composite
def dtds(draw, level):
    """list of declarations (kind, …, place)"""
    def rare(n):
        return level & 1 and draw(st.integers(0, n)) == n

    mode = draw(st.sampled_from(["int", "int", "int", "ext", "pe", "any"]))

    def place():
        return mode if mode != "any" else draw(
            st.sampled_from(["int", "ext", "pe"]))

    names = NAMES[:draw(st.integers(2, 6))]
    decls = []
    for i, name in enumerate(names):
        later = list(names[i + 1:])
        pool = later * 3 + list(names) if later else list(names)
        kind = draw(st.sampled_from(
            ["MODEL", "MODEL", "MODEL", "MIXED", "ANY", "EMPTY"]
            if i < len(names) - 1 else ["EMPTY", "MIXED", "ANY", "TEXT"]))
        if kind == "MODEL":
            m = outer(draw(models(pool, draw(st.integers(1, 3)))))
            d = ("MODEL", m, draw(st.sampled_from(["", "", " "])))
        elif kind == "MIXED":
            d = ("MIXED", draw(st.lists(
                st.sampled_from(pool), max_size=3,
                unique=not rare(5))))
        elif kind == "TEXT":
            d = ("MIXED", [])
        else:
            d = (kind, )
        if rare(20):
            continue
        decls.append(("element", name, d, place()))
        if rare(20):
            decls.append(("element", name, ("ANY", ), place()))
    for name in names:
        if draw(st.booleans()):
            continue
        atts = []
        had_id = had_notation = False
        for i in range(draw(st.integers(1, 3))):
            t = draw(st.sampled_from(TYPES))
            odd = rare(15)
            if odd:
                t = draw(st.sampled_from(BAD_TYPES + ["ID"]))
            elif t == "ID":
                if had_id:
                    continue
            elif t[0] == "N" and "(" in t:
                if had_notation or ("element", name, ("EMPTY", )) in [
                        d[:3] for d in decls]:
                    continue
            had_id = had_id or t == "ID"
            had_notation = had_notation or t[:4] == "NOTA"
            presence = draw(st.sampled_from(
                ["#REQUIRED", "#IMPLIED"] + (
                    [] if t == "ID" and not odd else
                    ["#FIXED", "", "", "#IMPLIED"])))
            default = value_for(draw, t, rare(15)) \
                if presence in ("#FIXED", "") else None
            atts.append((ATTRS[i], t, presence, default))
            if draw(st.integers(0, 9)) == 0:
                # ignored
                a = draw(st.sampled_from(atts))
                atts.append(draw(st.sampled_from(
                    [(a[0], "CDATA" if a[1] in BAD_TYPES else a[1],
                      "#IMPLIED", None),
                     (a[0], "CDATA", "#FIXED", "zzz"),
                     (a[0], "ID", "#REQUIRED", None)])))
        if atts:
            cut = draw(st.integers(0, len(atts)))
            for part in (atts[:cut], atts[cut:]):
                if part:
                    decls.append(("attlist", name, part, place()))
    for n in ("n1", "n2"):
        if not rare(30):
            decls.append(("notation", n, place()))
        if rare(60):
            decls.append(("notation", n, place()))
    if draw(st.integers(0, 3)) == 0:
        decls = draw(st.permutations(decls))
    return decls


class Dtd(object):

    """What the declarations mean"""

    def __init__(self, decls):
        # the internal subset is processed first
        self.decls = [d for d in decls if d[-1] != "ext"] + \
            [d for d in decls if d[-1] == "ext"]
        self.errors = []
        self.unclear = False
        self.elements = {}
        self.attlists = {}
        self.notations = set()
        self.external = set()
        for d in self.decls:
            outside = d[-1] != "int"
            if d[0] == "element":
                if d[1] in self.elements:
                    self.errors.append("Unique Element Type Declaration")
                else:
                    self.elements[d[1]] = d[2]
                    if outside:
                        self.external.add(d[1])
                if d[2][0] == "MIXED" and len(set(d[2][1])) < len(d[2][1]):
                    self.errors.append("No Duplicate Types")
            elif d[0] == "notation":
                if d[1] in self.notations:
                    self.errors.append("Unique Notation Name")
                self.notations.add(d[1])
            else:
                alist = self.attlists.setdefault(d[1], {})
                for name, t, presence, default in d[2]:
                    if name in alist:
                        # ignored, whether faults in it matter isn't clear
                        self.unclear |= t in BAD_TYPES or (
                            default is not None and (
                                t == "ID" or not syntactic(
                                    normalised(default, t), t)))
                        continue
                    alist[name] = (t, presence, None if default is None else
                                   normalised(default, t), outside)
        for name, alist in self.attlists.items():
            for t, presence, default, outside in alist.values():
                if t == "ID" and default is not None:
                    self.errors.append("ID Attribute Default")
                if default is not None and not syntactic(default, t):
                    self.errors.append("Attribute Default Legal")
                if "(" in t:
                    tokens = re.split(r"\s*\|\s*", t[t.index("(") + 1:-1])
                    if len(set(tokens)) < len(tokens):
                        self.errors.append("No Duplicate Tokens")
                    if t[0] == "N":
                        if not set(tokens) <= self.notations:
                            self.errors.append("Notation Attributes")
                        if self.elements.get(name) == ("EMPTY", ):
                            self.errors.append(
                                "No Notation on Empty Element")
            types = [a[0] for a in alist.values()]
            if types.count("ID") > 1:
                self.errors.append("One ID per Element Type")
            if len([t for t in types if t[:4] == "NOTA"]) > 1:
                self.errors.append("One Notation per Element Type")
        for n in UNPARSED.values():
            if n not in self.notations:
                self.errors.append("Notation Declared")


@st.composite
def documents(draw):
    level = draw(st.sampled_from([0, 1, 2, 2, 2, 3]))

    def rare(n):
        return level & 2 and draw(st.integers(0, n)) == n

    decls = draw(dtds(level))
    dtd = Dtd(decls)
    names = sorted(dtd.elements) or ["a"]
    root = draw(st.sampled_from([names[0]] * 12 + names))
    doctype = root if not rare(19) else draw(
        st.sampled_from(NAMES))
    ids = []
    budget = [14]

    def attributes(name):
        attrs = []
        for a, (t, presence, default, outside) in sorted(
                dtd.attlists.get(name, {}).items()):
            give = not rare(15) if presence == "#REQUIRED" else \
                draw(st.booleans())
            if not give:
                continue
            if presence == "#FIXED" and not rare(7):
                v = default.replace("\n", "&#10;")
            elif t == "ID" and not rare(7):
                v = "i%i" % (len(ids) + 1)
                ids.append(v)
            else:
                v = value_for(draw, t, rare(12))
            attrs.append((a, v))
        if rare(30):
            extra = draw(st.sampled_from(ATTRS))
            if extra not in [a for a, v in attrs]:
                attrs.append((extra, "1"))
        return attrs

    def element(name, depth):
        budget[0] -= 1
        d = dtd.elements.get(name, ("EMPTY", ))
        attrs = attributes(name)
        rich = depth < 3 and budget[0] > 0
        kids = []
        if d[0] == "MODEL":
            if depth < 7 and budget[0] > -20:
                kids = sample(draw, d[1], rich)
        elif d[0] == "MIXED":
            if rich and d[1]:
                kids = draw(st.lists(st.sampled_from(d[1]), max_size=3))
        elif d[0] == "ANY":
            if rich:
                kids = draw(st.lists(st.sampled_from(names), max_size=2))
        # change the list of children now and then
        if rare(20):
            k = draw(st.integers(0, 2))
            i = draw(st.integers(0, len(kids)))
            if k == 0:
                kids.insert(i, draw(st.sampled_from(NAMES)))
            elif k == 1:
                del kids[i:i + 1]
            elif len(kids) > 1:
                kids = kids[1:] + kids[:1]
        kids = [element(k, depth + 1) for k in kids]
        # white space, comments and data
        if draw(st.integers(0, 2)) == 0:
            if d[0] in ("MIXED", "ANY"):
                extras = ["text", " ", "<!--c-->", "<?p i?>", "<![CDATA[<]]>",
                          "&t;", "&w;", "&#65;", "&lt;", "&cs;", "&n;"]
            elif d[0] == "MODEL":
                extras = [" ", "\n", "<!--c-->", "<?p i?>", "&w;", "&w2;",
                          "\t "]
                if rare(5):
                    extras = ["x", "&#32;", "&cs;", "<![CDATA[ ]]>", "&t;",
                              "&amp;"]
            elif rare(5):
                extras = [" ", "<!--c-->", "<?p i?>", "x", "&w;", "&n;",
                          "<![CDATA[]]>", "&#32;"]
            else:
                extras = []
            if extras:
                for i in range(draw(st.integers(1, 2))):
                    kids.insert(draw(st.integers(0, len(kids))),
                                draw(st.sampled_from(extras)))
        return (name, attrs, kids, draw(st.booleans()))

    def resolve(e):
        name, attrs, kids, empty_tag = e
        result = []
        for a, v in attrs:
            t = dtd.attlists.get(name, {}).get(a, ("CDATA", ))[0]
            if t == "IDREF" and not rare(10):
                v = draw(st.sampled_from(ids))
            elif t == "IDREFS" and not rare(10):
                v = " ".join(draw(st.lists(
                    st.sampled_from(ids), min_size=1, max_size=3)))
            result.append((a, v))
        return (name, result, [k if isinstance(k, str) else resolve(k)
                               for k in kids], empty_tag)

    tree = element(root, 0)
    if ids:
        tree = resolve(tree)
    return (decls, doctype, tree, draw(st.sampled_from([None, None, "no",
                                                        "yes"])))


FOCUS = [("a%i" % i, t, "#IMPLIED", None) for i, t in enumerate(TYPES[:-1])]


@st.composite
def attribute_cases(draw):
    """a few attributes of fixed types"""
    focus = [a[:2] + draw(st.sampled_from([a[2:], a[2:], ("#FIXED", {
        "NMTOKENS": " a  b", "IDREFS": "i1 i2", "ENTITIES": "u2 u1",
        "CDATA": " c d "}.get(a[1], "u1"))]))
        if "(" not in a[1] and a[1] != "ID" and draw(st.integers(0, 9)) == 5
        else a for a in FOCUS]
    decls = [("element", "r", ("ANY", ), "int"),
             ("element", "e", ("ANY", ), "int"),
             ("attlist", "e", focus, draw(st.sampled_from(["int", "pe"]))),
             ("notation", "n1", "int"), ("notation", "n2", "int")]
    kids = []
    for i in range(draw(st.integers(1, 3))):
        attrs = []
        for a, t, presence, default in draw(st.lists(
                st.sampled_from(focus), min_size=1, max_size=2,
                unique=True)):
            attrs.append((a, value_for(draw, t, draw(st.integers(0, 3)) == 3)))
        kids.append(("e", attrs, [], True))
    if draw(st.booleans()):
        kids += [("e", [("a1", v)], [], True) for v in ("i1", "i2")]
    return (decls, "r", ("r", [], kids, False),
            draw(st.sampled_from([None, "yes"])))


# -------------------------------------------------------------------- oracle

def judge(dtd, tree, standalone, doctype):
    """the constraints violated and the attributes of each element"""
    errors = list(dtd.errors)
    ids = []
    refs = []
    trees = []

    def element(e):
        name, attrs, kids, empty_tag = e
        d = dtd.elements.get(name)
        result = {}
        alist = dtd.attlists.get(name, {})
        for a, raw in attrs:
            if a in alist:
                t, presence, default, outside = alist[a]
                v = normalised(raw, t)
                if standalone and outside and v != normalised(raw, "CDATA"):
                    errors.append("Standalone (normalisation)")
            else:
                v = normalised(raw, "CDATA")
                errors.append("Attribute Value Type")
            result[a] = v
        for a, (t, presence, default, outside) in alist.items():
            if a not in result:
                if presence == "#REQUIRED":
                    errors.append("Required Attribute")
                elif default is not None:
                    result[a] = default
                    if standalone and outside:
                        errors.append("Standalone (default)")
            if a in result:
                v = result[a]
                if presence == "#FIXED" and v != default:
                    errors.append("Fixed Attribute Default")
                if not syntactic(v, t):
                    errors.append("Attribute Value Type (%s)" % t)
                elif t == "ID":
                    ids.append(v)
                elif t in ("IDREF", "IDREFS"):
                    refs.extend(v.split(" "))
                elif t in ("ENTITY", "ENTITIES"):
                    for w in v.split(" "):
                        if w not in UNPARSED:
                            errors.append("Entity Name")
        trees.append((name, result))
        if d is None:
            errors.append("Element Valid (undeclared)")
        elif d[0] == "EMPTY":
            if kids:
                errors.append("Element Valid (EMPTY)")
        elif d[0] == "MODEL":
            word = "".join(k[0] for k in kids if isinstance(k, tuple))
            if not accepts(d[1], word):
                errors.append("Element Valid (model)")
            for k in kids:
                if isinstance(k, str) and k[:2] not in ("<!", "<?"):
                    if k[0] == "&":
                        kind = ENTITIES.get(k[1:-1], (None, "data"))[1]
                    else:
                        kind = "data" if k.strip() else "space"
                    if kind == "data":
                        errors.append("Element Valid (data)")
                    elif standalone and kind == "space" and \
                            name in dtd.external:
                        errors.append("Standalone (white space)")
                elif isinstance(k, str) and k[:3] == "<![":
                    errors.append("Element Valid (CDATA)")
        elif d[0] == "MIXED":
            for k in kids:
                if isinstance(k, tuple) and k[0] not in d[1]:
                    errors.append("Element Valid (mixed)")
        for k in kids:
            if isinstance(k, tuple):
                element(k)

    element(tree)
    if tree[0] != doctype:
        errors.append("Root Element Type")
    if len(set(ids)) < len(ids):
        errors.append("ID (unique)")
    if not set(refs) <= set(ids):
        errors.append("IDREF")
    return errors, trees


def quote(v):
    return '"%s"' % v.replace('"', "&#34;")


def decl_text(d):
    if d[0] == "element":
        c = d[2]
        if c[0] == "MODEL":
            spec = model_text(c[1], c[2])
        elif c[0] == "MIXED":
            spec = "(#PCDATA" + "".join("|" + n for n in c[1]) + (
                ")*" if c[1] else ")")
        else:
            spec = c[0]
        return "<!ELEMENT %s %s>" % (d[1], spec)
    elif d[0] == "notation":
        return '<!NOTATION %s SYSTEM "%s">' % (d[1], d[1])
    else:
        return "<!ATTLIST %s%s>" % (d[1], "".join(
            "\n %s %s %s%s" % (name, t, presence, "" if default is None else
                               (" " if presence else "") + quote(default))
            for name, t, presence, default in d[2]))


def element_text(e):
    name, attrs, kids, empty_tag = e
    s = name + "".join(" %s=%s" % (a, quote(v)) for a, v in attrs)
    if empty_tag and not kids:
        return "<%s/>" % s
    return "<%s>%s</%s>" % (s, "".join(
        k if isinstance(k, str) else element_text(k) for k in kids), name)


def source(case):
    """(document, external subset)"""
    decls, doctype, tree, standalone = case
    subset = []
    ext = []
    n = 0
    for d in decls:
        t = decl_text(d)
        if d[-1] == "ext":
            ext.append(t)
        elif d[-1] == "pe":
            n += 1
            subset.append('<!ENTITY %% pe%i "%s">%%pe%i;' % (
                n, t.replace("&", "&#38;").replace("%", "&#37;").replace(
                    '"', "&#34;"), n))
        else:
            subset.append(t)
    for name, (value, kind) in sorted(ENTITIES.items()):
        subset.append('<!ENTITY %s "%s">' % (name, value))
    for name, notation in sorted(UNPARSED.items()):
        subset.append('<!ENTITY %s SYSTEM "x" NDATA %s>' % (name, notation))
    return ('<?xml version="1.0"%s?>\n<!DOCTYPE %s%s [\n%s\n]>\n%s' % (
        "" if standalone is None else " standalone='%s'" % standalone,
        doctype, ' SYSTEM "ext.dtd"' if ext else "", "\n".join(subset),
        element_text(tree)), "\n".join(ext))


def parse(doc_text, ext, validate=True, **flags):
    tmp = tempfile.mkdtemp() if ext and validate else None
    try:
        if tmp:
            with open(os.path.join(tmp, "ext.dtd"), "w",
                      encoding="utf-8") as f:
                f.write(ext)
            path = os.path.join(tmp, "doc.xml")
            with open(path, "wb") as f:
                f.write(doc_text.encode("utf-8"))
            e = xml.XMLEntity(uri.URI.from_path(path))
        else:
            e = xml.XMLEntity(doc_text.encode("utf-8"))
        doc = xml.Document()
        p = xparser.XMLParser(e)
        p.check_validity = validate
        for k, v in flags.items():
            setattr(p, k, v)
        p.parse_document(doc)
        return p, doc
    finally:
        if tmp:
            shutil.rmtree(tmp)


def attributes_of(doc):
    out = []

    def go(e):
        out.append((e.get_xmlname(), dict(e.get_attributes())))
        for k in e.get_children():
            if not isinstance(k, str):
                go(k)
    go(doc.root)
    return out


def check_document(case, c):
    decls, doctype, tree, standalone = case
    dtd = Dtd(decls)
    if dtd.unclear:
        raise Discard()
    errors, trees = judge(dtd, tree, standalone == "yes", doctype)
    text, ext = source(case)
    p, doc = parse(text, ext)
    eq(p.valid, not errors, "valid", errors[:4],
       [str(e)[:200] for e in p.nonFatalErrors][:4], text, ext)
    eq(bool(p.nonFatalErrors), bool(errors), "errors", errors[:4], text, ext)
    eq(attributes_of(doc), trees, "attributes", text, ext)
    c.nontrivial(len(trees) > 2 or bool(errors))
    c.label("valid" if not errors else
            errors[0] if len(set(errors)) == 1 else "several")
    # validity errors made fatal
    try:
        parse(text, ext, raiseValidityErrors=True)
        ok(not errors, "not raised", errors[:4], text, ext)
    except xml.XMLValidityError as e:
        ok(errors, "raised", str(e), text, ext)


def check_unvalidated(case, c):
    decls, doctype, tree, standalone = case
    decls = [d for d in decls if d[-1] == "int"]
    dtd = Dtd(decls)
    errors, trees = judge(dtd, tree, False, doctype)
    text, ext = source((decls, doctype, tree, standalone))
    p, doc = parse(text, ext, validate=False)
    eq(p.valid, None, "valid", text)
    eq(attributes_of(doc), trees, "attributes", text)
    c.nontrivial(any(t[1] for t in trees))


model_case = st.tuples(
    models(list("abc"), 3).map(outer),
    st.lists(st.text("abc", max_size=6), min_size=4, max_size=10))


@st.composite
def model_cases(draw):
    m = outer(draw(models(list("abc"), 3)))
    words = []
    for i in range(draw(st.integers(2, 5))):
        w = "".join(sample(draw, m, True))[:12]
        words.append(w)
        i = draw(st.integers(0, len(w)))
        words.append(w[:i] + draw(st.sampled_from(
            ["", "a", "b", "c"])) + w[i + draw(st.integers(0, 1)):])
    return (m, words)


def check_model(case, c):
    m, words = case
    spec = model_text(m)
    text = "<!DOCTYPE r [<!ELEMENT r ANY><!ELEMENT m %s>%s]>\n" % (
        spec, "".join("<!ELEMENT %s EMPTY>" % n for n in "abc"))
    yes = no = 0
    for i, w in enumerate(words):
        body = "".join("<%s/>" % ch for ch in w)
        if not w and i % 2:
            body = "<r><m/></r>"
        else:
            body = "<r><m>%s</m></r>" % body
        p, doc = parse(text + body, None, checkCompatibility=i == 0)
        want = accepts(m, w)
        eq(p.valid, want, "valid", spec, w)
        yes += want
        no += not want
        if i == 0:
            found = any("Deterministic" in str(e) for e in p.nonFatalErrors)
            eq(found, not deterministic(m), "deterministic", spec)
    c.nontrivial(yes and no)
    c.label("deterministic" if deterministic(m) else "nondeterministic")


# --------------------------------------------- nesting of parameter entities

@st.composite
def nestings(draw):
    """tokens of an external subset and ranges of them put in entities"""
    tokens = []     # text, nesting groups
    groups = [0]

    def put(text, *ids):
        tokens.append((text, ids))

    def new():
        groups[0] += 1
        return groups[0]

    def particle(m):
        if m[0] == "n":
            put(m[1] + m[2])
            return
        g = new()
        put("(", g)
        for i, x in enumerate(m[1]):
            if i:
                put("," if m[0] == "seq" else "|")
            particle(x)
        put(")" + m[2], g)

    def element(name, m):
        d = new()
        put("<!ELEMENT", d)
        put(name)
        if isinstance(m, str):
            put(m)
        elif m[0] == "MIXED":
            g = new()
            put("(", g)
            put("#PCDATA")
            for n in m[1]:
                put("|")
                put(n)
            put(")*", g)
        else:
            particle(m)
        put(">", d)

    def attlist():
        d = new()
        put("<!ATTLIST", d)
        for t in ("r", "x", "(", "p", "|", "q", ")", '"p"', "y", "CDATA",
                  "#IMPLIED"):
            put(t)
        put(">", d)

    m = draw(st.one_of(models(list("ab"), 2).map(outer), st.tuples(
        st.just("MIXED"), st.sampled_from([[], ["a"], ["a", "b"]]))))
    parts = draw(st.lists(st.sampled_from(
        ["a", "b", "att", "r", "ignore"]), max_size=2)) + ["r"]
    done = set()
    for part in parts + ["a", "b"]:
        if part in done:
            continue
        done.add(part)
        cond = draw(st.sampled_from([None, None, None, "INCLUDE"]))
        if cond:
            g = new()
            put("<![", g)
            put(cond)
            put("[", g)
        if part == "att":
            attlist()
        elif part == "ignore":
            h = new()
            put("<![", h)
            put("IGNORE")
            put("[<!ELEMENT r ANY>]]>", h)
        elif part == "r":
            element("r", m)
        else:
            element(part, "EMPTY")
        if cond:
            put("]]>", g)
    n = len(tokens)
    ranges = []
    for k in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, n - 1))
        j = draw(st.one_of(st.integers(i + 1, min(n, i + 5)),
                           st.integers(i + 1, n)))
        if draw(st.integers(0, 2)):
            # extend it until it nests
            while True:
                inside = [g for t, ids in tokens[i:j] for g in ids]
                out = [x for x, (t, ids) in enumerate(tokens)
                       if not i <= x < j and set(ids) & set(inside)]
                if not out:
                    break
                i, j = min(out + [i]), max(out + [j - 1]) + 1
        if all(j <= a or b <= i or (a <= i and j <= b) or (i <= a and b <= j)
               for a, b in ranges) and (i, j) not in ranges:
            ranges.append((i, j))
    if m[0] == "MIXED":
        word = "".join(draw(st.lists(st.sampled_from(m[1]), max_size=3))
                       if m[1] else [])
    else:
        word = "".join(sample(draw, m, True))[:40]
    return (tokens, sorted(ranges, key=lambda r: (r[0], -r[1])), word,
            m if m[0] == "MIXED" else None)


def check_nesting(case, c):
    tokens, ranges, word, mixed = case
    entities = []

    def text(i, j, inside):
        out = []
        while i < j:
            for k, (a, b) in enumerate(ranges):
                if a == i and b <= j and k not in inside:
                    name = "p%i" % len(entities)
                    entities.append(None)
                    entities[int(name[1:])] = text(a, b, inside + [k])
                    out.append("%" + name + ";")
                    i = b
                    break
            else:
                out.append(tokens[i][0])
                i += 1
        return " ".join(out)

    subset = text(0, len(tokens), [])
    proper = True
    for i, j in ranges:
        inside = {g for t, ids in tokens[i:j] for g in ids}
        outside = {g for t, ids in tokens[:i] + tokens[j:] for g in ids}
        if inside & outside:
            proper = False
    doc_text = '<!DOCTYPE r SYSTEM "ext.dtd" [%s]>\n<r>%s</r>' % (
        "".join('<!ENTITY %% p%i "%s">' % (
            k, t.replace("%", "&#37;").replace('"', "&#34;"))
            for k, t in enumerate(entities)),
        "".join("<%s/>" % w for w in word))
    try:
        p, doc = parse(doc_text, subset)
        valid = p.valid
        errors = [str(e) for e in p.nonFatalErrors]
    except xparser.XMLFatalError as e:
        valid = False
        errors = ["fatal: " + str(e)]
    eq(valid, proper, "valid", errors[:3], subset, doc_text)
    c.nontrivial()
    c.label("proper" if proper else "improper" if errors and
            errors[0][:5] != "fatal" else "not well formed")


PROPS = [
    Prop("nesting", nestings(), check_nesting, quick=2500, thorough=50000,
         rule="every case has a parameter entity reference"),
    Prop("documents", documents(), check_document, quick=5000,
         thorough=80000, rule="three elements or more, or invalid"),
    Prop("attributes", attribute_cases(), check_document, quick=4000,
         thorough=80000, rule="three elements or more, or invalid"),
    Prop("models", model_cases(), check_model, quick=1500, thorough=60000,
         rule="some words in and some words not in the language"),
    Prop("unvalidated", documents(), check_unvalidated, quick=500,
         thorough=10000, rule="some element has attributes"),
]
