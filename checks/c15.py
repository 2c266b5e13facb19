"""C15: the (non-validating) XML parser accepts exactly well-formed documents
and reports the right tree.

Differential: expat.  Documents are generated from the grammar of XML 1.0
(with internal DTD subsets: general and parameter entities, attribute lists,
notations) and then edited at random places.
"""
import re
from xml.parsers import expat

from hypothesis import strategies as st

from vlib import Prop, Violation, eq, ok, fail

from pyslet.xml import parser
from pyslet.xml import structures as xml


# ------------------------------------------------------------------ generator

NAMES = ["a", "b", "c", "d", "_x", "x:y", "a.b-c", "\xe9t", "A"]
ATTRS = ["a", "b", "id", "x:y", "n", "xml:lang", "xml:space"]
PLAIN = ["t", "T u", " ", "\n", "\r\n", "\t", "\r", "]]", ">", "'", '"',
         "\xe9", "\u4e00", "\U00010000", "%", "%;", "x;", "-", "--", "?"]
REFS = ["&lt;", "&amp;", "&gt;", "&apos;", "&quot;", "&#65;", "&#x41;",
        "&#10;", "&#13;", "&#9;", "&#32;", "&#xe9;", "&#x10FFFF;", "&#x7f;"]
ENTITIES = ["e0", "e1", "e2", "e3"]
SPACE = ["", "", "", " ", "\n", "\t ", "\r\n"]
REQS = [" ", " ", " ", "\n", "  ", "\r\n\t"]


@st.composite
def documents(draw):
    out = []
    add = out.append

    def pick(x):
        return draw(st.sampled_from(x))

    def num(a, b):
        return draw(st.integers(a, b))

    def comment():
        add("<!--" + "".join(draw(st.lists(st.sampled_from(
            ["x", " ", "-x", "<", "&", "&x;", "]]>", "\n", ">"]),
            max_size=3))) + ("--->" if num(0, 39) == 0 else "-->"))

    def pi():
        t = pick(["p", "xm", "x-l", "xmlx", "p:q"])
        d = "".join(draw(st.lists(st.sampled_from(
            ["x", " ", "?", "<", "&", "\r\n", ">", "'"]), max_size=3)))
        if d:
            d = pick(REQS) + d
        add("<?" + t + d + "?>")

    def misc():
        for i in range(num(-2, 2)):
            k = num(0, 2)
            if k == 0:
                add(pick(REQS))
            elif k == 1:
                comment()
            else:
                pi()

    def avalue(ents, names=False):
        q = pick(["'", '"'])
        if names:
            v = "".join(draw(st.lists(st.sampled_from(
                ["t", "u", " ", "  ", "\n", "&#32;", "&#10;", "&e0;"]),
                max_size=5)))
        else:
            v = "".join(draw(st.lists(st.sampled_from(
                [x for x in PLAIN if x not in "'\""] + REFS +
                ["&%s;" % e for e in ents] * 3 + ["'" if q == '"' else '"']),
                max_size=4)))
        return q + v + q

    def evalue(ents):
        q = pick(["'", '"'])
        v = "".join(draw(st.lists(st.sampled_from(
            ["t", " ", "\r\n", "\n", "&#60;", "&#38;#60;", "&#38;", "&lt;",
             "&amp;", "&#37;", "<b>t</b>", "<a/>", "<a x=%sv%s/>" % (
                 ("'", "'") if q == '"' else ('"', '"')),
             "<![CDATA[&x;]]>", "<!--c-->", "<?p q?>", "&#13;", "&#10;",
             "]]", "]]&gt;", "\xe9", "'" if q == '"' else '"', "&#x27;",
             "&#34;"] + ["&%s;" % e for e in ents] * 4), max_size=4)))
        return q + v + q

    def cp(depth):
        k = num(0, 3 if depth else 0)
        if k <= 1:
            s = pick(NAMES)
        else:
            sep = "," if k == 2 else "|"
            items = [cp(depth - 1) for i in range(num(1 if k == 2 else 2,
                                                      3))]
            s = "(" + pick(SPACE) + (pick(SPACE) + sep + pick(SPACE)).join(
                items) + pick(SPACE) + ")"
        return s + pick(["", "", "?", "*", "+"])

    def model():
        k = num(0, 3)
        if k == 0:
            return pick(["EMPTY", "ANY"])
        elif k == 1:
            ns = draw(st.lists(st.sampled_from(NAMES), max_size=3,
                               unique=True))
            if not ns:
                return "(" + pick(SPACE) + "#PCDATA" + pick(SPACE) + ")" + \
                    pick(["", "*"])
            return "(" + pick(SPACE) + "#PCDATA" + pick(SPACE) + "|" + \
                pick(SPACE) + "|".join(ns) + pick(SPACE) + ")*"
        else:
            return "(" + pick(SPACE) + (pick(SPACE) + pick([",", "|"]) +
                                        pick(SPACE)).join(
                [cp(2) for i in range(2)]) + pick(SPACE) + ")" + \
                pick(["", "?", "*", "+"])

    def attlist():
        s = "<!ATTLIST" + pick(REQS) + pick(NAMES)
        for i in range(num(0, 2)):
            s += pick(REQS) + pick(ATTRS) + pick(REQS)
            k = num(0, 8)
            toks = k > 1
            if k <= 1:
                s += "CDATA"
            elif k == 2:
                s += pick(["ID", "IDREF", "ENTITY", "ENTITIES", "IDREFS"])
            elif k <= 5:
                s += pick(["NMTOKEN", "NMTOKENS"])
            elif k <= 7:
                s += "(" + pick(SPACE) + "t" + pick(SPACE) + "|" + \
                    pick(SPACE) + "u" + pick(SPACE) + ")"
            else:
                s += "NOTATION" + pick(REQS) + "(n1)"
            s += pick(REQS)
            d = num(0, 4)
            if d == 0:
                s += "#IMPLIED"
            elif d == 1:
                s += "#REQUIRED"
            else:
                if d == 2:
                    s += "#FIXED" + pick(REQS)
                s += avalue(known, toks)
        return s + pick(SPACE) + ">"

    def external():
        q = pick(["'", '"'])
        if num(0, 1):
            return "SYSTEM" + pick(REQS) + q + pick(
                ["", "x.dtd", "a b", "\xe9", "x&y;"]) + q
        return "PUBLIC" + pick(REQS) + q + pick(
            ["-//X//EN", "a", "", "a  b\n", "(+)"]) + q + pick(REQS) + \
            q + "x" + q

    def decl():
        k = num(0, 11)
        if k <= 3:
            left = [e for e in ENTITIES if e not in known]
            if known and num(0, 3) == 0:
                # the first declaration is binding
                left = known
            e = pick(left or ENTITIES)
            s = "<!ENTITY" + pick(REQS) + e + pick(REQS) + \
                evalue(known) + pick(SPACE) + ">"
            if e not in known:
                known.append(e)
            return s
        elif k <= 6:
            return attlist()
        elif k == 7:
            return "<!ELEMENT" + pick(REQS) + pick(NAMES) + pick(REQS) + \
                model() + pick(SPACE) + ">"
        elif k == 8:
            return "<!NOTATION" + pick(REQS) + pick(["n1", "n2"]) + \
                pick(REQS) + (external() if num(0, 1) else
                              "PUBLIC 'p'") + pick(SPACE) + ">"
        elif k == 9:
            s = "<!ENTITY" + pick(REQS) + pick(["x1", "x2"]) + pick(REQS) + \
                external()
            if num(0, 1):
                s += pick(REQS) + "NDATA" + pick(REQS) + "n1"
            return s + pick(SPACE) + ">"
        elif k == 10:
            n = len(out)
            pick((comment, pi))()
            s = "".join(out[n:])
            del out[n:]
            return s
        else:
            return pick(REQS)

    def content(depth, ents):
        for i in range(num(0, 4)):
            k = num(0, 11)
            if k <= 1:
                add(pick(PLAIN))
            elif k == 2:
                add(pick(REFS))
            elif k <= 5 and ents:
                add("&%s;" % pick(ents))
            elif k == 6:
                add("<![CDATA[" + "".join(draw(st.lists(st.sampled_from(
                    ["x", "<", "&", "]", "]]", ">", "&x;", "\r\n", "<a>"]),
                    max_size=4))).replace("]]>", "]>") + "]]>")
            elif k == 7:
                comment()
            elif k == 8:
                pi()
            else:
                element(depth - 1, ents)

    def element(depth, ents):
        name = pick(NAMES)
        add("<" + name)
        for a in draw(st.lists(st.sampled_from(ATTRS), max_size=3,
                               unique=True)):
            add(pick(REQS) + a + pick(SPACE) + "=" + pick(SPACE) +
                avalue(ents, a in ("n", "id")))
        add(pick(SPACE))
        if depth <= 0 or num(0, 3) == 0:
            add("/>")
        else:
            add(">")
            content(depth, ents)
            add("</" + name + pick(SPACE) + ">")

    if num(0, 2) == 0:
        q = pick(["'", '"'])
        s = "<?xml" + pick(REQS) + "version" + pick(SPACE) + "=" + \
            pick(SPACE) + q + "1.0" + q
        if num(0, 1):
            s += pick(REQS) + "encoding=" + q + "utf-8" + q
        if num(0, 2) == 0:
            s += pick(REQS) + "standalone=" + q + pick(["yes", "no"]) + q
        add(s + pick(SPACE) + "?>")
    misc()
    known = []
    root = pick(NAMES)
    if num(0, 3):
        add("<!DOCTYPE" + pick(REQS) + root + pick(SPACE))
        add("[")
        pes = []
        for i in range(num(0, 5)):
            d = decl()
            if num(0, 5) == 0 and "'" not in d and "%" not in d and \
                    "&" not in d:
                pe = "p%i" % len(pes)
                pes.append(pe)
                add("<!ENTITY % " + pe + " '" + d + "'>")
                add("%" + pe + ";")
            else:
                add(d)
            add(pick(SPACE))
        add("]" + pick(SPACE) + ">")
        misc()
    else:
        known = []
    element(3, known)
    misc()
    text = "".join(out)
    edits = []
    for i in range(pick([0, 0, 1, 1, 1, 2, 3])):
        edits.append((num(0, 3), draw(st.integers(0, 1 << 16)),
                      num(1, 4), pick(BITS)))
    return text, edits, draw(st.booleans())


BITS = ["<", ">", "&", ";", "'", '"', "/", "=", "]", "]]>", "[", "-", "--",
        "-->", "!", "?", "?>", "<!", "<?", "</", "/>", "%", "#", "&#", "&#0;",
        "&#x1;", "&#xFFFE;", "&#xD800;", "&#x110000;", "\x01", "\x0b",
        "\ufffe", "\x7f", "\x85", " ", "\n", "\r", "a", "b", "1", ".", ":",
        "(", ")", "|", ",", "*", "+", "<a", "</a>", "<b/>", "<!--", "<![",
        "<![CDATA[", "&e0;", "&e1;", "&zz;", "&x1;", "%p0;", "%zz;",
        "<?xml ?>", "<?xml version='1.0'?>", "<?XML x?>", "#PCDATA",
        " a='1'", " b='<'", "<!ENTITY e0 'x'>", "<!ENTITY e1 'y'>", "<!ENTITY e0 '&e1;'>",
        "<!ENTITY e1 '&e0;'>", "<!ENTITY e0 '<a>'>", "<!ENTITY e0 '</a>'>",
        "<!ENTITY % p0 ' '>", "<!ATTLIST a n NMTOKENS ' t  u '>",
        "<![INCLUDE[", "<![IGNORE[", "<!DOCTYPE a>", "<!ELEMENT a EMPTY>",
        "\xe9", "\xb7", "\u0300", "&#38;"]


def edited(text, edits):
    for op, pos, n, bit in edits:
        p = pos % (len(text) + 1)
        if op == 0:
            text = text[:p] + bit + text[p:]
        elif op == 1:
            text = text[:p] + text[p + n:]
        elif op == 2:
            text = text[:p] + bit + text[p + n:]
        else:
            text = text[:p] + text[p + n:p + 2 * n] + text[p:p + n] + \
                text[p + 2 * n:]
    return text


# --------------------------------------------------------------------- oracle

class Skip(Exception):
    pass


def oracle(text):
    """The tree expat reports or None if it is not well-formed"""
    p = expat.ParserCreate()
    p.SetParamEntityParsing(expat.XML_PARAM_ENTITY_PARSING_ALWAYS)
    p.buffer_text = False
    top = []
    stack = [("", {}, top)]

    def start(name, attrs):
        e = (name, dict(attrs), [])
        stack[-1][2].append(e)
        stack.append(e)

    def end(name):
        stack.pop()

    def data(s):
        c = stack[-1][2]
        if c and isinstance(c[-1], str):
            c[-1] += s
        else:
            c.append(s)

    def pi(target, s):
        stack[-1][2].append(("?", target, s))

    def external(context, base, system, public):
        raise Skip

    def skipped(name, is_pe):
        raise Skip

    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = data
    p.ProcessingInstructionHandler = pi
    p.ExternalEntityRefHandler = external
    p.SkippedEntityHandler = skipped
    dtd = []

    def doctype(name, sysid, pubid, internal):
        dtd.append(1)
        if sysid is not None or pubid is not None:
            raise Skip

    def end_doctype():
        del dtd[:]

    p.StartDoctypeDeclHandler = doctype
    p.EndDoctypeDeclHandler = end_doctype
    try:
        p.Parse(text, True)
    except expat.ExpatError as e:
        return None, str(e)
    return top, None


# ------------------------------------------------------------------ test side

class Rec(xml.Element):

    """keeps a log of everything reported"""

    def __init__(self, parent, name=None):
        super(Rec, self).__init__(parent, name)
        self.log = []

    def add_data(self, data):
        self.log.append(data)
        super(Rec, self).add_data(data)

    def add_child(self, child_class, name=None):
        child = super(Rec, self).add_child(child_class, name)
        self.log.append(child)
        return child

    def processing_instruction(self, target, instruction=''):
        self.log.append(("?", target, instruction))


class RecDoc(xml.Document):

    def __init__(self, **kws):
        super(RecDoc, self).__init__(**kws)
        self.log = []

    @classmethod
    def get_element_class(cls, name):
        return Rec

    def add_child(self, child_class, name=None):
        child = super(RecDoc, self).add_child(child_class, name)
        self.log.append(child)
        return child

    def processing_instruction(self, target, instruction=''):
        self.log.append(("?", target, instruction))


def tree_of(node, use_log=True):
    kids = []
    for c in (node.log if use_log else node.get_children()):
        if isinstance(c, xml.Node):
            kids.append((c.get_xmlname(), dict(c.get_attributes()),
                         tree_of(c, use_log)))
        else:
            kids.append(c)
    return kids


def merge(kids, pis=True):
    """joins text, optionally without processing instructions"""
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            elif k:
                out.append(k)
        elif k[0] == "?":
            if pis:
                out.append(k)
        else:
            out.append((k[0], k[1], merge(k[2], pis)))
    return out


def parse(text, as_bytes, validate=False):
    e = xml.XMLEntity(text.encode("utf-8") if as_bytes else text)
    p = parser.XMLParser(e)
    p.check_validity = validate
    doc = RecDoc()
    p.parse_document(doc)
    return doc


ENCODING = re.compile(
    r"<\?xml\s+version\s*=\s*(?:'[^']*'|\"[^\"]*\")\s+"
    r"encoding\s*=\s*(['\"])(.*?)\1")


def check_document(case, c):
    text, edits, as_bytes = case
    text = edited(text, edits)
    try:
        text.encode("utf-8")
        want, why = oracle(text)
    except (Skip, UnicodeEncodeError):
        c.label("skipped")
        return
    declared = re.match(r"<\?xml\s+version\s*=\s*(['\"])(.*?)\1", text)
    if declared and declared.group(2) != "1.0":
        # expat accepts any version
        want = None if want is None else False
    declared = ENCODING.match(text)
    if declared and declared.group(2).lower() != "utf-8":
        # expat is told that documents are encoded in UTF-8
        want = None if want is None else False
    for validate in (True, False):
        if not validate and "%" in text:
            # only a validating parser reads parameter entities
            continue
        try:
            doc = parse(text, as_bytes, validate)
        except xml.XMLError as e:
            ok(not want, "a well-formed document was refused", text,
               validate, str(e))
            c.label("refused")
            c.nontrivial()
            continue
        ok(want is not None, "accepted a document that is not well-formed",
           text, validate, why)
        if want is False:
            continue
        got = merge(tree_of(doc))
        eq(got, merge(want), "tree", text, validate)
        eq(merge(tree_of(doc, False)), merge(want, False), "children", text,
           validate)
        c.label("accepted")
        c.nontrivial()


RULE = "a document not using external entities"
PIECES = ["t", "]]", "]", ">", "&lt;", "&#38;", "&#60;", "&amp;", "<a/>",
          "<b >", "<!--c-->", "<?p q?>", "<?p?>", "<![CDATA[x]]>",
          "<![CDATA[]]]>", "<c a='v'/>", "<d x='&lt;' y = 'z'>", "<b>",
          "<b>", "</>", "</>", "</>", "'"]


def quoted(s):
    for c in "&%'\r":
        s = s.replace(c, "&#%i;" % ord(c))
    return "'" + s + "'"


def nested(case):
    """a document in which parts of the content are moved to entities"""
    pieces, cuts = case
    out = []
    stack = []
    for p in pieces:
        if p == "</>":
            if stack:
                out.append("</%s>" % stack.pop())
            continue
        if p[0] == "<" and p[1].isalpha() and p[-2] != "/":
            stack.append(p[1])
        out.append(p)
    while stack:
        out.append("</%s>" % stack.pop())
    text = "".join(out)
    decls = []
    for i, (a, n) in enumerate(cuts):
        a %= len(text) + 1
        decls.append("<!ENTITY e%i %s>" % (i, quoted(text[a:a + n])))
        text = text[:a] + "&e%i;" % i + text[a + n:]
    return "<!DOCTYPE r [" + "".join(decls) + "]><r>" + text + "</r>"


def check_nested(case, c):
    check_document((nested(case), [], False), c)


PROPS = [
    Prop("nesting", st.tuples(
        st.lists(st.sampled_from(PIECES), min_size=1, max_size=6),
        st.lists(st.tuples(st.integers(0, 60), st.integers(0, 12)),
                 min_size=1, max_size=3)),
        check_nested, quick=5000, thorough=100000, rule=RULE),
    Prop("document", documents(), check_document, quick=12000,
         thorough=300000, rule=RULE),
]
