"""C20: XML Schema regular expressions."""
import random
import unicodedata

from hypothesis import strategies as st

from pyslet.xml import xsdatatypes as xsi

from vlib import Enum, Prop, eq, fail, ok, raises

PROPERTY = "C20"

# Targets use only characters whose properties have not changed since
# Unicode 3.2 and whose XML name properties are the same in every edition
UNIVERSE = list("abcxyzABZ019 -_.:^$\\|?*+(){}[]&~,#\t\n\r") + [
    "\x0b", "\xa0", "\xe9", "\xd7", "\xb7", "\u4e2d", "\u03b1", "\u0660",
    "\u0301", "\u20ac", "\U0001d11e", "\xab", "\u2028", "\u01c5", "\u2160",
    "\u0903", "\u02b0", "\xad", "\ue000", "\u0488", "\u203f", "\xa8"]
UNIVERSE = [ch for ch in UNIVERSE if unicodedata.category(ch) ==
            unicodedata.ucd_3_2_0.category(ch)]
NAME_START = set("abcxyzABZ_:\xe9\u4e2d\u03b1")
NAME = NAME_START | set("019-.\xb7\u0660\u0301\u0903")
# whether these are name characters depends on the edition
NAME_UNSETTLED = set("\u01c5\u2160\u02b0\u0488\u203f\U0001d11e\ue000\u20ac")

CATS = ["L", "Lu", "Ll", "Lt", "Lm", "Lo", "M", "Mn", "Mc", "Me", "N", "Nd",
        "Nl", "No", "P", "Pc", "Pd", "Ps", "Pe", "Pi", "Pf", "Po", "Z", "Zs",
        "Zl", "Zp", "S", "Sm", "Sc", "Sk", "So", "C", "Cc", "Cf", "Co", "Cn"]
BLOCKS = [("BasicLatin", 0, 0x7F), ("Latin-1Supplement", 0x80, 0xFF),
          ("LatinExtended-B", 0x180, 0x24F), ("Arabic", 0x600, 0x6FF),
          ("CJKUnifiedIdeographs", 0x4E00, 0x9FFF),
          ("CurrencySymbols", 0x20A0, 0x20CF),
          ("GeneralPunctuation", 0x2000, 0x206F)]
ESCAPABLE = set("\\|.-^?*+{}()[]")
MUST_ESCAPE = set(".\\?*+{}()[]|")
CTRL = {"\n": "\\n", "\r": "\\r", "\t": "\\t"}


# --- meaning of classes

def multi(k, ch):
    u = k.lower()
    if u == "s":
        r = ch in " \t\n\r"
    elif u == "i":
        r = ch in NAME_START
    elif u == "c":
        r = ch in NAME
    elif u == "d":
        r = unicodedata.category(ch) == "Nd"
    else:
        r = unicodedata.category(ch)[0] not in "PZC"
    return r if k == u else not r


def in_item(item, ch):
    k = item[0]
    if k == "c":
        return ch == item[1]
    elif k == "r":
        return item[1] <= ch <= item[2]
    elif k == "m":
        return multi(item[1], ch)
    elif k == "p":
        return unicodedata.category(ch).startswith(item[1]) != item[2]
    elif k == "b":
        n, a, z = BLOCKS[item[1]]
        return (a <= ord(ch) <= z) != item[2]
    elif k == "any":
        return ch not in "\n\r"


def in_class(cls, ch):
    neg, items, sub = cls
    r = any(in_item(i, ch) for i in items)
    if neg:
        r = not r
    return r and not (sub is not None and in_class(sub, ch))


# --- matcher: sets of end positions

def ends(node, s, starts):
    k = node[0]
    if not starts:
        return set()
    if k == "chr":
        return {i + 1 for i in starts if i < len(s) and s[i] == node[1]}
    elif k == "item":
        return {i + 1 for i in starts if i < len(s) and in_item(
            node[1], s[i])}
    elif k == "cls":
        return {i + 1 for i in starts if i < len(s) and in_class(
            node[1], s[i])}
    elif k == "seq":
        for n in node[1]:
            starts = ends(n, s, starts)
        return starts
    elif k == "alt":
        out = set()
        for n in node[1]:
            out |= ends(n, s, starts)
        return out
    elif k == "rep":
        n, m = node[2], node[3]
        for i in range(n):
            starts = ends(node[1], s, starts)
        out = set(starts)
        if m is None:
            new = set(starts)
            while new:
                new = ends(node[1], s, new) - out
                out |= new
        else:
            for i in range(m - n):
                starts = ends(node[1], s, starts)
                out |= starts
        return out


def matches(node, s):
    return len(s) in ends(node, s, {0})


# --- writing patterns

def w_char(ch, rnd):
    if ch in MUST_ESCAPE or (ch in ESCAPABLE and rnd.random() < 0.3):
        return "\\" + ch
    if ch in CTRL and rnd.random() < 0.5:
        return CTRL[ch]
    return ch


def w_cchar(ch, rnd):
    if ch in "\\[]-^" or (ch in ESCAPABLE and rnd.random() < 0.3):
        return "\\" + ch
    if ch in CTRL and rnd.random() < 0.5:
        return CTRL[ch]
    return ch


def w_item(item, rnd, in_set):
    k = item[0]
    if k == "c":
        return w_cchar(item[1], rnd)
    elif k == "r":
        return w_cchar(item[1], rnd) + "-" + w_cchar(item[2], rnd)
    elif k == "m":
        return "\\" + item[1]
    elif k == "p":
        return "\\%s{%s}" % ("P" if item[2] else "p", item[1])
    elif k == "b":
        return "\\%s{Is%s}" % ("P" if item[2] else "p", BLOCKS[item[1]][0])
    elif k == "any":
        return "."


def w_class(cls, rnd):
    neg, items, sub = cls
    items = list(items)
    # a literal hyphen may be written bare first or last
    lead = tail = ""
    if ("c", "-") in items and rnd.random() < 0.5 and len(items) > 1:
        items = [i for i in items if i != ("c", "-")]
        if not items:
            items = [("c", "-")]
        elif rnd.random() < 0.5:
            lead = "-"
        else:
            tail = "-"
    parts = []
    for n, i in enumerate(items):
        t = w_item(i, rnd, True)
        # a caret needs escaping only at the start
        if t == "\\^" and n and rnd.random() < 0.5:
            t = "^"
        parts.append(t)
    return "[%s%s%s%s%s]" % (
        "^" if neg else "", lead, "".join(parts), tail,
        "" if sub is None else "-" + w_class(sub, rnd))


def w_quant(n, m, rnd):
    forms = []
    if m is None:
        forms.append("{%i,}" % n)
        if n == 0:
            forms.append("*")
        if n == 1:
            forms.append("+")
    else:
        forms.append("{%i,%i}" % (n, m))
        if n == m:
            forms.append("{%i}" % n)
        if (n, m) == (0, 1):
            forms.append("?")
    return rnd.choice(forms)


def write(node, rnd):
    k = node[0]
    if k == "chr":
        return w_char(node[1], rnd)
    elif k == "item":
        return w_item(node[1], rnd, False)
    elif k == "cls":
        return w_class(node[1], rnd)
    elif k == "seq":
        return "".join(
            "(%s)" % write(n, rnd) if n[0] == "alt" else write(n, rnd)
            for n in node[1])
    elif k == "alt":
        return "|".join(write(n, rnd) for n in node[1])
    elif k == "rep":
        t = write(node[1], rnd)
        if node[1][0] in ("seq", "alt", "rep") or rnd.random() < 0.15:
            t = "(%s)" % t
        return t + w_quant(node[2], node[3], rnd)


def pick(f, rnd):
    u = [ch for ch in UNIVERSE if f(ch)]
    return rnd.choice(u) if u else None


def sample(node, rnd):
    """a string which probably matches"""
    k = node[0]
    if k == "chr":
        return node[1]
    elif k == "item":
        return pick(lambda ch: in_item(node[1], ch), rnd) or ""
    elif k == "cls":
        return pick(lambda ch: in_class(node[1], ch), rnd) or ""
    elif k == "seq":
        return "".join(sample(n, rnd) for n in node[1])
    elif k == "alt":
        return sample(rnd.choice(node[1]), rnd)
    elif k == "rep":
        n, m = node[2], node[3]
        r = rnd.randint(n, n + 2 if m is None else m)
        return "".join(sample(node[1], rnd) for i in range(r))


# --- generators

chars = st.sampled_from(UNIVERSE)


def items():
    def rng(t):
        return ("r", min(t), max(t))
    return st.one_of(
        st.tuples(st.just("c"), st.one_of(chars, st.sampled_from("-^]\\ab"))),
        st.tuples(chars, chars).map(rng),
        st.tuples(st.sampled_from("abcxyz"), st.sampled_from(
            "abcxyz")).map(rng),
        st.tuples(st.just("m"), st.sampled_from("sSiIcCdDwW")),
        st.tuples(st.just("p"), st.sampled_from(CATS), st.booleans()),
        st.tuples(st.just("b"), st.integers(0, len(BLOCKS) - 1),
                  st.booleans()))


def classes(depth=2):
    sub = st.none()
    if depth:
        sub = st.one_of(st.none(), st.none(), classes(depth - 1))
    return st.tuples(st.booleans(), st.lists(
        items(), min_size=1, max_size=3).map(tuple), sub)


def atoms():
    return st.one_of(
        st.tuples(st.just("chr"), st.one_of(chars, st.sampled_from("ab"),
                                            st.sampled_from("ab"))),
        st.tuples(st.just("cls"), classes()),
        st.tuples(st.just("item"), st.one_of(
            items().filter(lambda i: i[0] in "mpb"), st.just(("any",)))))


QUANT = st.sampled_from([(0, 1), (0, None), (1, None), (0, 2), (1, 2), (2, 2),
                         (0, 0), (1, 1), (2, None), (2, 3), (1, 3), (3, 3)])


def nodes(depth=3, rep=2):
    if depth == 0:
        return atoms()
    sub = nodes(depth - 1, rep)
    alts = [atoms(),
            st.tuples(st.just("seq"), st.lists(sub, max_size=4)),
            st.tuples(st.just("alt"), st.lists(sub, min_size=1, max_size=3))]
    if rep:
        alts.append(st.tuples(nodes(depth - 1, rep - 1), QUANT).map(
            lambda t: ("rep", t[0], t[1][0], t[1][1])))
    return st.one_of(alts)


def mentions_name(node):
    return "'i'" in repr(node) or "'I'" in repr(node) or \
        "'c')" in repr(node) or "'C'" in repr(node)


def check_match(case, c):
    node, seeds, extra = case
    rnd = random.Random(seeds[0])
    text = write(node, rnd)
    try:
        r = xsi.RegularExpression(text)
    except xsi.RegularExpressionError as e:
        fail("legal expression refused: %s" % e, text)
    eq(str(r), text, "source kept")
    unsettled = mentions_name(node)
    targets = set(["", "a", "ab", "\n", extra])
    for sd in seeds[1:]:
        rnd = random.Random(sd)
        s = sample(node, rnd)
        targets.add(s)
        # near misses
        if s:
            i = rnd.randrange(len(s))
            targets.add(s[:i] + s[i + 1:])
            targets.add(s[:i] + rnd.choice(UNIVERSE) + s[i + 1:])
            targets.add(s[:i] + s[i] + s[i:])
        targets.add(s + rnd.choice(UNIVERSE))
        targets.add(s + "\n")
    good = 0
    n = 0
    for s in sorted(targets):
        if len(s) > 9 or (unsettled and set(s) & NAME_UNSETTLED):
            continue
        want = matches(node, s)
        good += want
        n += 1
        eq(r.match(s), want, "match", text, s)
    c.nontrivial(good > 0 and good < n)
    c.label("has match" if good else "none")


def check_class(case, c):
    cls, seed = case
    rnd = random.Random(seed)
    text = w_class(cls, rnd)
    r = xsi.RegularExpression(text)
    unsettled = mentions_name(cls)
    n = 0
    for ch in UNIVERSE:
        if unsettled and ch in NAME_UNSETTLED:
            continue
        want = in_class(cls, ch)
        n += want
        eq(r.match(ch), want, "class", text, ch)
    c.nontrivial(0 < n < len(UNIVERSE))
    # building one expression must not disturb another
    for k, cat in (("Lu", "B"), ("Nd", "1"), ("P", "."), ("Ll", "z")):
        eq(xsi.RegularExpression("\\p{%s}" % k).match(cat), True,
           "category after use", k, text)
        eq(xsi.RegularExpression("\\P{%s}" % k).match(cat), False,
           "category complement after use", k, text)


BAD = ["(", ")", "a**", "a{2}{3}", "a+?", "a{3,2}", "a{,3}", "a{x}", "a{1",
       "[z-a]", "[]", "[^]", "\\q", "\\p{Xx}", "\\p{IsNope}", "\\p{Lu",
       "\\pL", "(a", "a)", "[a", "[a-\\d]", "[\\d-z]", "(*a)", "(|+)", "(?a)",
       "[a-c-e]", "[a[b]]", "\\$", "\\1", "(?:a)", "a{}", "a{-1}", "\\b",
       "\\x41", "[a-z&&[b]", "]", "}", "{", "a{1,2,3}", "[--z]", "[a-b-]c]"]


def check_bad(case, c):
    pre, bad, post, seed = case
    rnd = random.Random(seed)
    text = "(%s)%s%s" % (write(pre, rnd), BAD[bad], write(post, rnd))
    if BAD[bad] in ("a{1", "[a", "\\p{Lu", "[a-z&&[b]"):
        text = "(%s)%s" % (write(pre, rnd), BAD[bad])
    c.nontrivial()
    e = raises(xsi.RegularExpressionError, xsi.RegularExpression, text)
    ok(e is not None, "illegal expression accepted", text)


def check_any(case, c):
    """anything either compiles or raises the documented error"""
    e = raises(xsi.RegularExpressionError, xsi.RegularExpression, case)
    c.nontrivial(e is None and len(case) > 2)


seed = st.integers(0, 10 ** 6)
PROPS = [
    Prop("matching", st.tuples(nodes(), st.lists(seed, min_size=4, max_size=6),
                               st.text(chars, max_size=4)),
         check_match, quick=5000, thorough=100000,
         rule="some targets match and some do not"),
    Prop("character classes", st.tuples(classes(), seed), check_class,
         quick=2000, thorough=40000,
         rule="the class holds part of the universe"),
    Prop("illegal expressions", st.tuples(
        nodes(1), st.integers(0, len(BAD) - 1), nodes(1), seed), check_bad,
         quick=1500, thorough=20000, rule="always"),
    Prop("arbitrary text", st.text(st.sampled_from(
        list("ab\\pLuIs{}[]()^-|*+?.,01dDwc")), max_size=12), check_any,
         quick=4000, thorough=80000,
         rule="the text is a legal expression of more than two characters"),
]
