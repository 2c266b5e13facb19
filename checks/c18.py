"""C18: XML entities decode identically in every supported encoding."""
import codecs
import io
import os
import shutil
import tempfile

from hypothesis import strategies as st

from vlib import Prop, eq, ok

from pyslet import rfc2396 as uri
from pyslet.http import params
from pyslet.xml import parser as xparser
from pyslet.xml import structures as xml

from checks.c16 import by_expat, tree_of

# declared name, codec, byte order mark, can be parsed without a declaration
ENCODINGS = [
    ("UTF-8", "utf-8", b"", True),
    ("UTF-8", "utf-8", codecs.BOM_UTF8, True),
    ("utf-8", "utf-8", b"", True),
    ("UTF-16", "utf-16-le", codecs.BOM_UTF16_LE, True),
    ("UTF-16", "utf-16-be", codecs.BOM_UTF16_BE, True),
    ("utf-16", "utf-16-le", codecs.BOM_UTF16_LE, True),
    ("UTF-16LE", "utf-16-le", b"", False),
    ("UTF-16BE", "utf-16-be", b"", False),
    ("ISO-10646-UCS-2", "utf-16-be", codecs.BOM_UTF16_BE, True),
    ("ISO-10646-UCS-4", "utf-32-be", codecs.BOM_UTF32_BE, True),
    ("UTF-32", "utf-32-le", codecs.BOM_UTF32_LE, True),
    ("UTF-32", "utf-32-be", b"", False),
    ("UTF-32", "utf-32-le", b"", False),
    ("US-ASCII", "ascii", b"", False),
    ("ISO-8859-1", "iso-8859-1", b"", False),
    ("iso-8859-1", "iso-8859-1", b"", False),
    ("ISO-8859-2", "iso-8859-2", b"", False),
    ("ISO-8859-7", "iso-8859-7", b"", False),
    ("ISO-8859-15", "iso-8859-15", b"", False),
    ("windows-1252", "cp1252", b"", False),
    ("KOI8-R", "koi8-r", b"", False),
    ("Shift_JIS", "shift_jis", b"", False),
    ("EUC-JP", "euc-jp", b"", False),
    ("ISO-2022-JP", "iso-2022-jp", b"", False),
    ("Big5", "big5", b"", False),
    ("cn-big5", "big5", b"", False),
    ("GB2312", "gb2312", b"", False),
    ("CN-GB2312", "gb2312", b"", False),
    ("GB18030", "gb18030", b"", False),
    ("EUC-KR", "euc-kr", b"", False),
    ("IBM500", "cp500", b"", False),
    ("ebcdic-cp-be", "cp500", b"", False),
]

CHARS = ["a", "b", "Z", "0", " ", "\t", "\n", "\r", "\r\n", "\r\r\n", "\n\r",
         "]", "&lt;", "&#233;", "\xe9", "\xa0", "\x85", "\u20ac", "\u0416",
         "\u03b1", "\u4e00", "\u4e2d", "\u3042", "\uff71", "\u2028", "\ufeff",
         "\U00010000", "\U0001f600", "\u0141", "\ud55c", "'", "\x7f",
         "\u597d", "\ufffd"]


def fits(text, codec):
    try:
        return text.encode(codec).decode(codec) == text
    except UnicodeError:
        return False


CHARS_OF = {e[1]: [c for c in CHARS if fits(c, e[1])] for e in ENCODINGS}
NAMES_OF = {e[1]: [c for c in ("r", "e", "\xe9", "\u4e00", "\u0416", "a\u3042")
                   if fits(c, e[1])] for e in ENCODINGS}

chunks = st.sampled_from([1, 2, 3, 5, 16, io.DEFAULT_BUFFER_SIZE])


@st.composite
def texts(draw, codec, max_size=12):
    t = draw(st.lists(st.sampled_from(CHARS_OF[codec]), max_size=max_size))
    if draw(st.integers(0, 15)) == 0:
        t = t + ["xy "] * draw(st.integers(0, 9)) * draw(
            st.sampled_from([1, 100, 1000])) + t
    return "".join(t)


@st.composite
def bodies(draw, codec):
    """a document, without its declaration"""
    name = draw(st.sampled_from(NAMES_OF[codec]))
    t = lambda: draw(texts(codec))
    pre = draw(st.sampled_from(["", "\n", "<!--x-->\r\n", " <?p i?>",
                                "<!DOCTYPE %s>\r" % name]))
    return pre + "<%s a=\"%s\">%s<%s/>%s</%s>%s" % (
        name, t(), t(), draw(st.sampled_from(NAMES_OF[codec])), t(), name,
        draw(st.sampled_from(["", "", "\n", "\r\n<!--\x41-->"])))


@st.composite
def documents(draw):
    label, codec, bom, alone = draw(st.sampled_from(ENCODINGS))
    if draw(st.integers(0, 40)) == 0:
        codec = bom = None
        return (label, codec, bom, True, draw(bodies("ascii")), "none",
                "bytes", 16, None)
    body = draw(bodies(codec))
    how = draw(st.sampled_from(
        ["auto", "auto", "auto", "protocol", "http", "file", "path"]))
    declared = not alone or draw(st.booleans())
    if how in ("protocol", "http") and draw(st.booleans()):
        declared = False
    damage = None
    if draw(st.integers(0, 3)) == 0:
        damage = (draw(st.sampled_from(["cut", "insert", "change"])),
                  draw(st.integers(0, 200)),
                  bytes([draw(st.sampled_from(
                      [0, 0x41, 0x80, 0xc3, 0xd8, 0xdc, 0xed, 0xfe, 0xff,
                       0xa0, 0x1b, 0x81]))]))
    return (label, codec, bom, declared, body, how, "bytes", draw(chunks),
            damage)


class FakeResponse(object):
    def __init__(self, data, ctype):
        self.request = self
        self.url = uri.URI.from_octets("http://example.com/doc.xml")
        self.res_body = data
        self.ctype = ctype

    def get_content_type(self):
        return params.MediaType.from_str(self.ctype)


def entity(data, how, label, codec, tmp):
    if how == "protocol":
        label = codec
        if data[:4] in (codecs.BOM_UTF32_LE, codecs.BOM_UTF32_BE):
            label = "utf-32"
        elif data[:2] in (codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE):
            label = "utf-16"
        return xml.XMLEntity(data, encoding=label)
    elif how == "http":
        e = xml.XMLEntity()
        e.open_http_response(FakeResponse(
            data, "application/xml; charset=" + codec), None)
        return e
    elif how == "file":
        return xml.XMLEntity(io.BytesIO(data))
    elif how == "path":
        path = os.path.join(tmp, "doc.xml")
        with open(path, "wb") as f:
            f.write(data)
        return xml.XMLEntity(uri.URI.from_path(path))
    else:
        return xml.XMLEntity(data)


def parse(make):
    """(tree or None) - None if there was an XML error"""
    doc = xml.Document()
    try:
        with make() as e:
            doc.read_from_entity(e)
    except xml.XMLError as err:
        return None
    return tree_of(doc.root, False)


class Chunked(object):
    def __init__(self, size):
        self.size = size

    def __enter__(self):
        self.old = xml.XMLEntity.chunk_size
        xml.XMLEntity.chunk_size = self.size

    def __exit__(self, *args):
        xml.XMLEntity.chunk_size = self.old


def merged(tree):
    name, attrs, kids = tree
    out = []
    for k in kids:
        if isinstance(k, str):
            if out and isinstance(out[-1], str):
                out[-1] += k
            else:
                out.append(k)
        else:
            out.append(merged(k))
    return (name, dict(attrs), out)


def check_document(case, c):
    label, codec, bom, declared, body, how, kind, chunk, damage = case
    if codec is None:
        return check_unknown(label, body, c)
    decl = ""
    if declared:
        decl = "<?xml version=\"1.0\" encoding='%s'?>" % label
    text = decl + body
    if how in ("protocol", "http") and bom and codec != "utf-8" and \
            how == "http":
        # charset=utf-16-le and so on come without a byte order mark
        bom = b""
    data = bom + text.encode(codec)
    eq(data[len(bom):].decode(codec), text, "codec")
    if damage:
        what, pos, byte = damage
        # not in the part used to detect the encoding
        floor = len(bom + (text[:len(decl)] if decl else text[:4]).encode(
            codec))
        if codec == "iso-2022-jp":
            floor = len(decl or text[:4])
        pos = floor + pos % (len(data) - floor + 1)
        if what == "cut":
            data = data[:pos]
        elif what == "insert":
            data = data[:pos] + byte + data[pos:]
        else:
            data = data[:pos] + byte + data[pos + 1:]
        try:
            text = data[len(bom):].decode(codec)
        except UnicodeError:
            text = None
    tmp = tempfile.mkdtemp() if how == "path" else None
    try:
        with Chunked(chunk):
            got = parse(lambda: entity(data, how, label, codec, tmp))
    finally:
        if tmp:
            shutil.rmtree(tmp)
    if text is None:
        ok(got is None, "undecodable input was accepted", codec, data, got)
        c.nontrivial()
        c.label("undecodable")
        return
    want = parse(lambda: xml.XMLEntity(text))
    if damage is None:
        eq(merged(want), merged(by_expat(body.encode("utf-8"))), "as text",
           text)
    elif want is None:
        ok(got is None, "accepted in bytes only", codec, data)
        c.label("damaged")
        return
    ok(got is not None, "refused in bytes only", codec, how, data)
    eq(got, want, "tree", codec, how, data)
    c.nontrivial(codec != "utf-8" or not body.isascii())
    c.label(how)


def check_unknown(label, body, c):
    """an encoding that is not known, or not the one used"""
    for name in ("x-unknown", "rot13", "hex", "base64", "zlib", "bz2",
                 "undefined", "utf-16", "UTF-16BE", "utf-32", "quopri",
                 "ISO-10646-UCS-2", "ISO-10646-UCS-4"):
        data = ("<?xml version='1.0' encoding='%s'?>%s" % (name, body)
                ).encode("ascii")
        eq(parse(lambda: xml.XMLEntity(data)), None, "wrong encoding", name,
           data)
        for i in (len(data), data.index(b"?>"), data.index(b"?>") + 1):
            parse(lambda: xml.XMLEntity(data[:i]))
    for name in ("UTF-8", "US-ASCII", "ISO-8859-1"):
        for enc in ("utf-16", "utf-32"):
            data = ("<?xml version='1.0' encoding='%s'?>%s" % (name, body)
                    ).encode(enc)
            eq(parse(lambda: xml.XMLEntity(data)), None, "wrong encoding",
               name, data)
    c.nontrivial()
    c.label("wrong encoding")


# ------------------------------------------------------------------- positions

def reference_walk(text):
    """(char, line, position) of each character"""
    text = text.replace("\r\n", "\n").replace("\r", "\n")
    line, pos = 1, 0
    out = []
    for ch in text:
        pos += 1
        if ch == "\n":
            line, pos = line + 1, 0
        out.append((ch, line, pos))
    return out


@st.composite
def walks(draw):
    label, codec, bom, alone = draw(st.sampled_from(ENCODINGS))
    return (codec, bom, draw(texts(codec)).replace("\ufeff", "x"),
            draw(st.sampled_from(["bytes", "str", "file", "text file"])),
            draw(chunks), draw(st.integers(0, 12)), draw(st.booleans()))


def walk(e, n=None):
    out = []
    while e.the_char is not None and (n is None or len(out) < n):
        out.append((e.the_char, e.line_num, e.line_pos))
        eq(e.get_position_str(), "Line %i.%i" % (e.line_num, e.line_pos),
           "position")
        e.next_char()
    return out


def check_walk(case, c):
    codec, bom, text, kind, chunk, n, keep = case
    want = reference_walk(text)
    with Chunked(chunk):
        if kind == "str":
            e = xml.XMLEntity(text)
        elif kind == "text file":
            e = xml.XMLEntity(io.StringIO(text, newline=""))
        else:
            data = text.encode(codec)
            src = data if kind == "bytes" else io.BytesIO(data)
            if bom == codecs.BOM_UTF8:
                data = bom + data
                src = data if kind == "bytes" else io.BytesIO(data)
                e = xml.XMLEntity(src, encoding="utf-8")
            elif bom:
                data = bom + data
                if len(text.encode("utf-16-be")) < 4 and codec[:6] == "utf-16":
                    # may look like UTF-32
                    return
                src = data if kind == "bytes" else io.BytesIO(data)
                e = xml.XMLEntity(src)
            else:
                e = xml.XMLEntity(src, encoding=codec)
        if keep:
            e.keep_encoding()
        eq(walk(e, n), want[:n], "characters", kind, codec, text)
        e.reset()
        eq(walk(e), want, "characters, after a reset", kind, codec, text)
        e.reset()
        eq(walk(e), want, "characters, after another reset", kind, codec,
           text)
        e.close()
    c.nontrivial(any(ch in text for ch in "\r\n"))
    c.label(kind)


# ----------------------------------------------------------- external entities

@st.composite
def externals(draw):
    ents = []
    for i in range(draw(st.integers(1, 3))):
        label, codec, bom, alone = draw(st.sampled_from(ENCODINGS))
        t = draw(texts(codec)) + draw(st.sampled_from(
            ["", "<%s/>" % draw(st.sampled_from(NAMES_OF[codec])),
             "<x y='1'>\r\n</x>"])) + draw(texts(codec))
        declared = not alone or draw(st.booleans())
        version = draw(st.sampled_from(["", " version='1.0'"]))
        if not declared and codec != "utf-8" and not bom:
            declared = True
        if not declared and not bom:
            # would be a byte order mark
            t = t.lstrip("\ufeff")
        ents.append((label, codec, bom, declared, version, t))
    return (ents, draw(st.lists(st.integers(0, len(ents) - 1), max_size=4)),
            draw(st.booleans()), draw(chunks))


def check_external(case, c):
    ents, refs, subset, chunk = case
    decls = "".join("<!ENTITY e%i SYSTEM 'e%i.ent'>\r\n" % (i, i)
                    for i in range(len(ents)))
    body = "<r>" + "".join("[&e%i;]" % i for i in refs) + "</r>"
    inline = "<r>" + "".join("[%s]" % ents[i][5] for i in refs) + "</r>"
    tmp = tempfile.mkdtemp()
    try:
        for i, (label, codec, bom, declared, version, t) in enumerate(ents):
            if declared:
                t = "<?xml%s encoding=\"%s\" ?>" % (version, label) + t
            with open(os.path.join(tmp, "e%i.ent" % i), "wb") as f:
                f.write(bom + t.encode(codec))
        text = "<!DOCTYPE r [%s]>" % decls + body
        path = os.path.join(tmp, "doc.xml")
        with open(path, "wb") as f:
            f.write(text.encode("ascii"))
        with Chunked(chunk):
            got = parse(lambda: xml.XMLEntity(uri.URI.from_path(path)))
    finally:
        shutil.rmtree(tmp)
    want = merged(by_expat(inline.encode("utf-8")))
    ok(got is not None, "refused", case)
    eq(merged(got), want, "tree", case)
    c.nontrivial(any(not ents[i][5].isascii() for i in refs))


RULE = "an encoding other than UTF-8 or a document not in ASCII"

PROPS = [
    Prop("documents", documents(), check_document, quick=6000,
         thorough=200000, rule=RULE),
    Prop("walk", walks(), check_walk, quick=3000, thorough=60000,
         rule="text with line ends"),
    Prop("external", externals(), check_external, quick=2000, thorough=40000,
         rule="a reference to an entity not in ASCII"),
]
