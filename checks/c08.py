"""C08: EDM simple values survive every textual encoding."""
import decimal
import json
import re

from hypothesis import strategies as st

from pyslet import rfc2396 as uri
from pyslet.odata2 import core, csdl as edm
from pyslet.py2 import to_text

from vlib import Prop, eq, ok, fail, raises, Violation
from . import gens, edmvals as ev

PROPERTY = "C08"


def typed(text=None, **kw):
    return st.sampled_from(ev.TYPES).flatmap(lambda t: st.tuples(
        st.just(t), ev.payload(t, text=text, **kw)))


def classify(case, c):
    t, p = case
    c.label("type:" + t)
    c.nontrivial(p not in (0, b"", "", False, None))


def check_literal(case, c):
    t, p = case
    classify(case, c)
    v = ev.make(t, p)
    eq(ev.canon(t, v.value), ev.expect(t, p), "value as set", t)
    s = to_text(v)
    w = edm.EDMValue.from_property(v.p_def)
    w.set_from_literal(s)
    eq(ev.canon(t, w.value), ev.expect(t, p), "literal round trip", t, s)
    if t not in ("Double", "Single", "Time", "DateTime", "DateTimeOffset"):
        ok(v == w and not (v != w), "reparsed value compares equal", t, s)


def check_uri(case, c):
    t, p = case
    classify(case, c)
    for with_def in (True, False):
        v = ev.make(t, p, with_def)
        for query in (True, False):
            s = core.uri_literal_to_str(v, query)
            ok(re.match(r"^[!-~]*$", s), "URI literal is not URI-safe", s)
            ok("#" not in s and " " not in s and '"' not in s and
               "<" not in s, "URI literal contains an excluded char", s)
            if query:
                ok("&" not in s, "URI literal breaks query option", s)
            else:
                ok("/" not in s and "?" not in s,
                   "URI literal breaks path segment", s)
            w = core.uri_literal_from_str(s)
            # the small integer types share Int32's literal form
            eq(w.type_code, ev.CODE[
                "Int32" if t in ("Byte", "SByte", "Int16") else t],
               "URI literal type", t, s)
            eq(ev.canon(t, w.value),
               ev.expect(t, p),
               "URI literal round trip", t, s)


def check_json(case, c):
    t, p = case
    if p is None:
        c.label("null")
        c.nontrivial()
    else:
        classify(case, c)
    v = ev.make(t, p)
    s = core.simple_value_to_json_str(v)
    obj = json.loads(s)
    w = edm.EDMValue.from_property(v.p_def)
    # not null initially so that null has to be read
    core.simple_value_from_json(w, obj)
    ndp = 3 if t in ("DateTime", "DateTimeOffset") else None
    eq(ev.canon(t, w.value), ev.expect(t, p, ndp), "JSON round trip", t, s)
    # and as a property of an object
    s2 = core.simple_property_to_json_v1(v)
    w2 = edm.EDMValue.from_property(v.p_def)
    core.simple_property_from_json(w2, json.loads(s2))
    eq(ev.canon(t, w2.value), ev.expect(t, p, ndp), "JSON property", t, s2)


def check_atom(case, c):
    t, p = case
    if p is None:
        c.label("null")
        c.nontrivial()
    else:
        classify(case, c)
    v = ev.make(t, p, with_def=False)
    v.p_def = ev.p_def(t, "P", ev.ndp_of(t, p))
    doc = core.Document(root=core.Property)
    doc.root.set_xmlname((core.ODATA_DATASERVICES_NAMESPACE, "P"))
    doc.root.set_value(v)
    data = str(doc).encode("utf-8")
    doc2 = core.Document()
    doc2.read(src=data)
    ok(isinstance(doc2.root, core.Property), "root is not a Property")
    w = edm.EDMValue.from_property(v.p_def)
    w = doc2.root.get_value(w)
    eq(ev.canon(t, w.value), ev.expect(t, p), "Atom property round trip",
       t, data)


# -- malformed and out of range literals -----------------------------------

INTS = ["Byte", "SByte", "Int16", "Int32", "Int64"]


def ref_int(t, s):
    pat = {"Byte": r"\d+", "SByte": r"-?\d+", "Int16": r"-?\d+",
           "Int32": r"-?\d{1,10}", "Int64": r"-?\d{1,19}"}[t]
    if not re.fullmatch(pat, s, re.ASCII):
        return None
    v = int(s)
    lo, hi = ev.RANGES[t]
    return v if lo <= v <= hi else None


def ref_decimal(s):
    m = re.fullmatch(r"-?(\d*)(\.(\d+))?", s, re.ASCII)
    if not m:
        return None
    l, r = m.group(1), m.group(3) or ""
    if len(l) > 29 or len(r) > 29 or not (l or r):
        return None
    return decimal.Decimal(s)


def ref_guid(s):
    h = "[0-9A-Fa-f]"
    if re.fullmatch("%s{8}-%s{4}-%s{4}-%s{4}-%s{12}" % (h, h, h, h, h), s):
        return s.replace("-", "").lower()


def ref_bool(s):
    return {"true": True, "false": False}.get(s.lower())


def ref_binary(s):
    if re.fullmatch(r"([0-9A-Fa-f]{2})*", s):
        return bytes.fromhex(s)


def near_miss(t):
    """literals which are correct, slightly broken or random"""
    if t in INTS:
        lo, hi = ev.RANGES[t]
        return st.one_of(
            st.integers(lo * 2 - 5, hi * 2 + 5).map(str),
            st.sampled_from([str(lo), str(lo - 1), str(hi), str(hi + 1),
                             "-0", "", "-", "--1", "+1", "1.0", "1e1", "1E0",
                             "inf", "nan", "-inf", "1 ", " 1", "0x1", "1L",
                             "00", "000000000000001", "\u0661"]),
            st.text("0123456789-+.eE", max_size=12))
    if t == "Decimal":
        return st.one_of(
            ev.decimals(29, 29, 58),
            st.sampled_from(["", "-", ".", "-.", "1.", ".5", "-.5", "1e5",
                             "1.5E2", "inf", "nan", "+1", "1,5", "1M",
                             "9" * 29, "9" * 30, "0." + "1" * 29,
                             "0." + "1" * 30, "9" * 29 + "." + "9" * 29]),
            st.text("0123456789-+.eE", max_size=12))
    if t == "Guid":
        g = "01234567-89ab-cdef-0123-456789ABCDEF"
        return st.one_of(
            st.uuids().map(str), st.uuids().map(lambda u: str(u).upper()),
            st.tuples(st.integers(0, 35), st.sampled_from(
                list("g-0 Z{}") + [""])).map(
                    lambda x: g[:x[0]] + x[1] + g[x[0] + 1:]),
            st.sampled_from([g, "{%s}" % g, g + "0", g[:-1], ""]))
    if t == "Boolean":
        return st.sampled_from(["true", "false", "TRUE", "False", "1", "0",
                                "", "tru", "truee", " true", "null", "yes",
                                "tRuE", "falsetrue"])
    if t == "Binary":
        return st.one_of(
            st.binary(max_size=6).map(lambda b: b.hex()),
            st.binary(max_size=6).map(lambda b: b.hex().upper()),
            st.text("0123456789abcdefABCDEFgx ", max_size=7))


def miss_cases():
    return st.sampled_from(INTS + ["Decimal", "Guid", "Boolean",
                                   "Binary"]).flatmap(
        lambda t: st.tuples(st.just(t), near_miss(t)))


def check_reject(case, c):
    t, s = case
    c.label("type:" + t)
    if t in INTS:
        ref = ref_int(t, s)
    elif t == "Decimal":
        ref = ref_decimal(s)
    elif t == "Guid":
        ref = ref_guid(s)
    elif t == "Boolean":
        ref = ref_bool(s)
    else:
        ref = ref_binary(s)
    v = edm.EDMValue.from_type(ev.CODE[t])
    try:
        v.set_from_literal(s)
        got = v.value
    except ValueError:
        got = None
    c.label("accept" if ref is not None else "reject")
    c.nontrivial(len(s) > 1)
    if t == "Guid" and got is not None:
        got = got.hex
    if ref is None:
        ok(got is None, "malformed or out of range literal accepted", t, s,
           got)
    else:
        ok(got is not None, "valid literal refused", t, s)
        eq(got, ref, "literal decoded", t, s)


# -- coercion from python values --------------------------------------------

def coerce_cases():
    num = st.one_of(
        st.integers(-2 ** 70, 2 ** 70), st.integers(-300, 300),
        st.sampled_from([lo + d for lo, hi in ev.RANGES.values()
                         for d in (-1, 0, 1)] +
                        [hi + d for lo, hi in ev.RANGES.values()
                         for d in (-1, 0, 1)])).map(lambda i: ("int", str(i)))
    flt = st.floats(-1e20, 1e20).map(lambda f: ("float", repr(f)))
    half = st.sampled_from(sorted(set(
        b + d for r in ev.RANGES.values() for b in r
        for d in (-0.5, 0.5) if abs(b) < 2 ** 50))).map(
            lambda f: ("float", repr(f)))
    dec = ev.decimals(20, 5).map(lambda s: ("dec", s))
    return st.tuples(st.sampled_from(INTS), st.one_of(num, flt, half, dec))


def check_coerce(case, c):
    t, (kind, s) = case
    x = {"int": int, "float": float, "dec": decimal.Decimal}[kind](s)
    lo, hi = ev.RANGES[t]
    v = edm.EDMValue.from_type(ev.CODE[t])
    c.label(kind, t)
    c.nontrivial(x != 0)
    try:
        v.set_from_value(x)
        got = v.value
    except ValueError:
        got = None
    if lo <= x <= hi:
        eq(got, int(x), "numeric value set (truncated toward zero)", t, x)
    else:
        ok(got is None, "out of range value accepted", t, x, got)


PROPS = [
    Prop("literal", typed(), check_literal, quick=12000,
         rule="one value of one of the 15 EDM simple types set, formatted as "
         "its literal and parsed back; non-trivial: the value is not the "
         "type's zero/empty value"),
    Prop("uri_literal", typed(), check_uri, quick=8000,
         rule="the same through the percent-encoded URI literal form, with "
         "and without a property definition, for query and path use"),
    Prop("json", st.one_of(typed(gens.any_text(), ndps=(0, 1, 3)), st.tuples(
        st.sampled_from(ev.TYPES), st.none())), check_json, quick=12000,
        rule="the same through JSON; nulls included (millisecond precision "
        "for dates, which is all the encoding carries)"),
    Prop("atom", st.one_of(typed(), st.tuples(
        st.sampled_from(ev.TYPES), st.none())), check_atom, quick=4000,
        rule="the same through a serialised and reparsed Atom property "
        "element; nulls included"),
    Prop("grammar", miss_cases(), check_reject, quick=12000,
         rule="valid, nearly valid and random literals against a reference "
         "grammar per type; non-trivial: longer than one character"),
    Prop("coerce", coerce_cases(), check_coerce, quick=8000,
         rule="python ints, floats and Decimals at and around each integer "
         "type's range; non-trivial: not zero"),
]
