"""C21: character classes are sets of characters."""
import functools
import re
import sys
import unicodedata
import warnings

from hypothesis import strategies as st

from pyslet import unicode5 as u5
from pyslet.py2 import to_text

from vlib import Enum, Prop, eq, fail, ok, raises

PROPERTY = "C21"
MAXU = sys.maxunicode
warnings.simplefilter("ignore", FutureWarning)

CLUSTERS = [
    (0, 0x10), (0x28, 0x30), (0x5A, 0x62), (0xFA, 0x106), (0x1FE, 0x203),
    (0xD7FC, 0xD803), (0xDFFD, 0xE002), (0xFFFC, 0x10003),
    (0x10FFF0, 0x10FFFF)]


def codes():
    """A code point, clustered so that ranges touch"""
    return st.one_of(
        st.integers(0, len(CLUSTERS) - 1).flatmap(
            lambda i: st.integers(*CLUSTERS[i])),
        st.sampled_from([ord(c) for c in "^-[]\\\b\t\n\v\f\r\a&|~.$_"]),
        st.integers(0x57, 0x66), st.integers(0xFC, 0x104),
        st.integers(0, MAXU))


def ops(depth=1):
    leaf = [
        st.tuples(st.just("+c"), codes()),
        st.tuples(st.just("-c"), codes()),
        st.tuples(st.just("+r"), codes(), codes()),
        st.tuples(st.just("-r"), codes(), codes()),
        st.tuples(st.just("+s"), codes(), st.integers(0, 4)),
        st.tuples(st.just("-s"), codes(), st.integers(0, 4)),
        st.tuples(st.just("neg")),
        st.tuples(st.just("test"), codes()),
    ]
    if depth:
        sub = ops(depth - 1)
        leaf += [st.tuples(st.just("+k"), sub), st.tuples(st.just("-k"), sub),
                 st.tuples(st.just("copy"), sub)]
    return st.lists(st.one_of(leaf), max_size=9 if depth else 5)


class Model(object):
    """A set of code points as sorted disjoint non-adjacent [a, z] pairs
    computed by boundary sweeping, not by the incremental merging under
    test."""

    def __init__(self, spans=()):
        self.spans = list(spans)

    @staticmethod
    def combine(x, y, f):
        pts = set([0])
        for a, z in x.spans + y.spans:
            pts.add(a)
            pts.add(z + 1)
        pts = sorted(p for p in pts if p <= MAXU)
        res = []
        for i, p in enumerate(pts):
            if f(x.has(p), y.has(p)):
                end = pts[i + 1] - 1 if i + 1 < len(pts) else MAXU
                if res and res[-1][1] == p - 1:
                    res[-1][1] = end
                else:
                    res.append([p, end])
        return Model([tuple(r) for r in res])

    def has(self, p):
        return any(a <= p <= z for a, z in self.spans)

    def add(self, a, z):
        return Model.combine(self, Model([(min(a, z), max(a, z))]),
                             lambda p, q: p or q)

    def sub(self, a, z):
        return Model.combine(self, Model([(min(a, z), max(a, z))]),
                             lambda p, q: p and not q)

    def union(self, o):
        return Model.combine(self, o, lambda p, q: p or q)

    def minus(self, o):
        return Model.combine(self, o, lambda p, q: p and not q)

    def neg(self):
        return Model.combine(self, Model(), lambda p, q: not p)

    def probes(self):
        out = {0, 1, MAXU, MAXU - 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x5C, 0x5D,
               0x5E, 0x2D}
        for a, z in self.spans:
            out.update([a - 1, a, a + 1, (a + z) // 2, z - 1, z, z + 1])
        return sorted(p for p in out if 0 <= p <= MAXU)


def shape(cc):
    return [(ord(a), ord(z)) for a, z in cc.ranges]


def apply_ops(cc, m, oplist, c):
    for op in oplist:
        k = op[0]
        if k == "+c":
            cc.add_char(chr(op[1]))
            m = m.add(op[1], op[1])
        elif k == "-c":
            cc.subtract_char(chr(op[1]))
            m = m.sub(op[1], op[1])
        elif k in ("+r", "-r", "+s", "-s"):
            a = op[1]
            z = op[2] if k[1] == "r" else min(MAXU, a + op[2])
            if k[0] == "+":
                cc.add_range(chr(a), chr(z))
                m = m.add(a, z)
            else:
                cc.subtract_range(chr(a), chr(z))
                m = m.sub(a, z)
        elif k == "neg":
            r = cc.negate()
            ok(r is cc, "negate returns itself")
            m = m.neg()
        elif k == "test":
            eq(bool(cc.test(chr(op[1]))), m.has(op[1]),
               "test between operations", op[1])
        elif k in ("+k", "-k"):
            o, om = apply_ops(u5.CharClass(), Model(), op[1], c)
            before = shape(o)
            if k == "+k":
                cc.add_class(o)
                m = m.union(om)
            else:
                cc.subtract_class(o)
                m = m.minus(om)
            eq(shape(o), before, "operand unchanged")
            # later changes to the operand must not matter
            o.subtract_range(chr(0), chr(MAXU))
        elif k == "copy":
            # a modified copy leaves the original alone
            k2 = u5.CharClass(cc)
            apply_ops(k2, m, op[1], c)
        eq(shape(cc), m.spans, "ranges after %s" % k, op)
    return cc, m


def check_ops(case, c):
    cc, m = apply_ops(u5.CharClass(), Model(), case, c)
    c.nontrivial(len(m.spans) >= 2)
    c.label("spans:%i" % min(len(m.spans), 5))
    probes = m.probes()
    for p in probes:
        want = m.has(p)
        eq(bool(cc.test(chr(p))), want, "test", p)
        eq(bool(cc.test_slow(chr(p))), want, "test_slow", p)
    eq(bool(cc.test(None)), False, "test None")
    # equality and repr
    fresh = u5.CharClass(*[(chr(a), chr(z)) for a, z in reversed(m.spans)])
    ok(fresh == cc, "equal however built")
    again = eval(repr(cc), {"CharClass": u5.CharClass})
    ok(again == cc, "repr evaluates to an equal class", repr(cc))
    # regular expression forms
    s = to_text(cc)
    try:
        r = re.compile(s)
        r2 = re.compile("[%s]" % cc.format_re()) if m.spans else None
        r3 = re.compile("(%s)*" % s)
    except re.error as e:
        fail("regular expression does not compile: %s" % e, s, m.spans)
    for p in probes:
        want = m.has(p)
        eq(bool(r.fullmatch(chr(p))), want, "str(class) as a regex", s, p)
        if r2 is not None:
            eq(bool(r2.fullmatch(chr(p))), want, "format_re()", p, m.spans)
    body = "".join(chr(p) for p in probes if m.has(p))
    ok(r3.fullmatch(body) is not None, "class repeated in a regex", s)


def check_strings(case, c):
    """constructor forms"""
    parts = []
    m = Model()
    for p in case:
        if p[0] == "str":
            parts.append("".join(chr(x) for x in p[1]))
            for x in p[1]:
                m = m.add(x, x)
        else:
            a, z = p[1]
            parts.append((chr(a), chr(z)) if p[0] == "tuple"
                         else [chr(a), chr(z)])
            m = m.add(a, z)
    c.nontrivial(len(parts) > 1)
    cc = u5.CharClass(*parts)
    eq(shape(cc), m.spans, "constructed class", parts)
    # adding in any order gives the same class
    eq(shape(u5.CharClass(*reversed(parts))), m.spans, "order immaterial")
    # union with negation is everything, double negation identity
    n = u5.CharClass(cc).negate()
    eq(shape(n), m.neg().spans, "negation")
    eq(shape(u5.CharClass(n, cc)), [(0, MAXU)], "class and its complement")
    eq(shape(n.negate()), m.spans, "double negation")
    n = u5.CharClass(cc)
    n.subtract_class(cc)
    eq(shape(n), [], "class minus itself")


# --- Unicode data

OLD = unicodedata.ucd_3_2_0


@functools.lru_cache(None)
def majors():
    d = {}
    u5.CharClass.ucd_category("Lu")
    for k in u5.UCDCategories:
        if len(k) == 2:
            d.setdefault(k[0], []).append(k)
    return d


def settled_category(p):
    """The category of a character which has not changed since Unicode 3.2"""
    ch = chr(p)
    a, b = OLD.category(ch), unicodedata.category(ch)
    return a if a == b and a != "Cn" else None


def check_category(case, c):
    lo, n = case
    hit = 0
    for p in range(lo, min(lo + n, MAXU + 1)):
        ch = chr(p)
        found = [k for ks in majors().values() for k in ks
                 if u5.CharClass.ucd_category(k).test(ch)]
        eq(len(found), 1, "exactly one general category", hex(p), found)
        major = [k for k in majors()
                 if u5.CharClass.ucd_category(k).test(ch)]
        eq(major, [found[0][0]], "major category", hex(p))
        want = settled_category(p)
        if want:
            hit += 1
            eq(found[0], want, "category", hex(p))
    c.nontrivial(hit > 0)
    c.label("settled" if hit else "unsettled")


BLOCKS = [
    ("Basic Latin", 0x0, 0x7F), ("Latin-1 Supplement", 0x80, 0xFF),
    ("Latin Extended-A", 0x100, 0x17F), ("Latin Extended-B", 0x180, 0x24F),
    ("IPA Extensions", 0x250, 0x2AF), ("Cyrillic", 0x400, 0x4FF),
    ("Armenian", 0x530, 0x58F), ("Hebrew", 0x590, 0x5FF),
    ("Arabic", 0x600, 0x6FF), ("Devanagari", 0x900, 0x97F),
    ("Thai", 0xE00, 0xE7F), ("Tibetan", 0xF00, 0xFFF),
    ("Georgian", 0x10A0, 0x10FF), ("Hangul Jamo", 0x1100, 0x11FF),
    ("Greek Extended", 0x1F00, 0x1FFF),
    ("General Punctuation", 0x2000, 0x206F),
    ("Currency Symbols", 0x20A0, 0x20CF), ("Arrows", 0x2190, 0x21FF),
    ("Mathematical Operators", 0x2200, 0x22FF),
    ("Box Drawing", 0x2500, 0x257F), ("Dingbats", 0x2700, 0x27BF),
    ("Hiragana", 0x3040, 0x309F), ("Katakana", 0x30A0, 0x30FF),
    ("CJK Unified Ideographs", 0x4E00, 0x9FFF),
    ("Hangul Syllables", 0xAC00, 0xD7AF),
    ("Private Use Area", 0xE000, 0xF8FF),
    ("CJK Compatibility Ideographs", 0xF900, 0xFAFF),
    ("Arabic Presentation Forms-A", 0xFB50, 0xFDFF),
    ("Halfwidth and Fullwidth Forms", 0xFF00, 0xFFEF),
    ("Specials", 0xFFF0, 0xFFFF), ("Old Italic", 0x10300, 0x1032F),
    ("Musical Symbols", 0x1D100, 0x1D1FF),
    ("Mathematical Alphanumeric Symbols", 0x1D400, 0x1D7FF)]


def check_block(case, c):
    i, style = case
    name, a, z = BLOCKS[i]
    alias = "".join(
        {0: ch, 1: ch.upper(), 2: ch.lower(),
         3: "" if ch in " -" else ch, 4: "_" if ch in " -" else ch,
         5: ch + ("-" if ch.isalpha() else "")}[s]
        for ch, s in zip(name, (style * (len(name) // len(style) + 1))))
    c.nontrivial(alias != name)
    eq(shape(u5.CharClass.ucd_block(alias)), [(a, z)], "block", alias)
    ok(raises(KeyError, lambda: u5.CharClass.ucd_block(alias + "zzz"))
       is not None, "unknown block", alias)


CAT_STARTS = list(range(0, 0x3000, 64)) + [
    0x4DB0, 0x9FA0, 0xA480, 0xABF0, 0xAC00, 0xD790, 0xD7F0, 0xDFF0, 0xF8F0,
    0xFB00, 0xFE00, 0xFEF0, 0xFFC0, 0x10300, 0x1D100, 0x1D400, 0x1D7C0,
    0x1FFF0, 0x2A6D0, 0x2F800, 0xE0000, 0xEFFF0, 0xFFFE0, 0x10FFC0]

PROPS = [
    Prop("set operations", ops(2), check_ops, quick=4000, thorough=80000,
         rule="the class has two or more ranges"),
    Prop("construction", st.lists(st.one_of(
        st.tuples(st.just("str"), st.lists(codes(), max_size=6)),
        st.tuples(st.sampled_from(["tuple", "list"]),
                  st.tuples(codes(), codes()))), max_size=5), check_strings,
         quick=2500, thorough=40000, rule="several constructor arguments"),
    Enum("general categories", lambda: [(s, 64) for s in CAT_STARTS],
         check_category,
         thorough_cases=lambda: [(s, 256) for s in range(0, MAXU + 1, 256)],
         rule="holds characters whose category is settled since Unicode 3.2"),
    Prop("blocks", st.tuples(
        st.integers(0, len(BLOCKS) - 1),
        st.lists(st.integers(0, 5), min_size=1, max_size=7)), check_block,
         quick=400, thorough=4000, rule="the name is written differently"),
]
