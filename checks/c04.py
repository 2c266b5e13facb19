"""C04: OData expressions parse and evaluate as OData defines."""
import decimal

from hypothesis import strategies as st

from pyslet.odata2 import core
from pyslet.odata2 import csdl as edm
from pyslet.py2 import to_text

from vlib import Prop, eq, ok, fail
from . import edmvals as ev
from . import exprs as X
from . import odm

PROPERTY = "C04"

# property names which begin like (or are) the keywords of literals
NAMES = {
    "Boolean": ["true1", "B"], "Byte": ["Byte"], "Int16": ["notI"],
    "Int32": ["I", "nullable", "time"], "Int64": ["L64", "eqL"],
    "Decimal": ["Dec", "guid"], "Double": ["D", "dD"],
    "Single": ["F", "Single"],
    "String": ["S", "X", "orS", "binary", "andrew"],
    "DateTime": ["datetime", "DT"], "DateTimeOffset": ["DTO"],
    "Guid": ["G"], "Binary": ["Bin"]}

SCALARS = [(n, t) for t, ns in sorted(NAMES.items()) for n in ns]
CPROPS = [("CI", "Int32"), ("CS", "String"), ("notC", "Double")]
SPEC = dict(
    types={
        "TE": dict(props=[("K", "Int32", {"Nullable": "false"})] +
                   [(n, t, {}) for n, t in SCALARS] + [("Cx", "CT", {})],
                   keys=["K"]),
        "TO": dict(props=[("K", "Int32", {"Nullable": "false"}),
                          ("OI", "Int32", {}), ("OS", "String", {}),
                          ("OC", "CT", {})], keys=["K"])},
    complex={"CT": [(n, t, {}) for n, t in CPROPS]},
    sets={"Es": "TE", "Os": "TO"},
    assocs=[dict(name="A", ends=[("Es", "*", "e", "One"),
                                 ("Os", "0..1", "o", None)])])
PATHS = ([((n,), t) for n, t in SCALARS] +
         [(("Cx", n), t) for n, t in CPROPS] +
         [(("One", "OI"), "Int32"), (("One", "OS"), "String"),
          (("One", "OC", "CI"), "Int32")])
GEN = X.Gen(PATHS)
TYPES = ["Boolean", "Boolean", "Boolean", "Int32", "Int64", "Decimal",
         "Double", "Single", "String"]

STORE = odm.Store(SPEC, "mem")


def values_strategy(text):
    return st.fixed_dictionaries(dict(
        ("/".join(p), st.one_of(st.none(), X.lit_payload(t, text),
                                X.lit_payload(t, text)))
        for p, t in PATHS))


CASE = st.tuples(
    st.sampled_from(TYPES).flatmap(lambda t: GEN.expr(t, 3)),
    values_strategy(st.text("aAbB' ", max_size=4)),
    st.integers(0, 2 ** 30), st.booleans(), st.booleans())


def make_entity(values, linked):
    with STORE.open("Os") as coll:
        o = coll.new_entity()
        o.set_key(1)
        if 1 in coll:
            del coll[1]
        for n in ("OI", "OS"):
            o[n].set_from_value(values["One/" + n])
        o["OC"]["CI"].set_from_value(values["One/OC/CI"])
        coll.insert_entity(o)
    with STORE.open("Es") as coll:
        if 1 in coll:
            del coll[1]
        e = coll.new_entity()
        e.set_key(1)
        for n, t in SCALARS:
            p = edm.Property(None)
            e[n].set_from_value(X.to_python(t, values[n]))
        for n, t in CPROPS:
            e["Cx"][n].set_from_value(X.to_python(t, values["Cx/" + n]))
        if linked:
            e["One"].bind_entity(1)
        coll.insert_entity(e)
        return coll[1]


def canon(t, v):
    """comparable form of the python value of a pyslet SimpleValue"""
    if v is None:
        return None
    if t in X.DATES:
        h, m, s = v.time.get_time()
        c, y, mo, d = v.date.get_calendar_day()
        import datetime
        return datetime.datetime(
            c * 100 + y, mo, d, h, m) + datetime.timedelta(
            seconds=float(s)) - datetime.timedelta(
            minutes=(v.time.get_zone_offset() or 0)
            if t == "DateTimeOffset" else 0)
    if t == "Guid":
        return v.hex
    if t in ("Double", "Single"):
        return float(v)
    if t == "Binary":
        return bytes(v)
    return v


def dump(e):
    """structure of a parsed expression"""
    if isinstance(e, core.LiteralExpression):
        v = e.value
        return ("lit", v.type_code, to_text(v) if v else None)
    if isinstance(e, core.PropertyExpression):
        return ("prop", e.name)
    if isinstance(e, core.CallExpression):
        return ("call", e.method, [dump(x) for x in e.operands])
    return (type(e).__name__, e.operator, [dump(x) for x in e.operands])


TNAME = dict((v, k) for k, v in ev.CODE.items())


def has_ops(e):
    n = 0
    if e[0] in ("bin", "neg", "not", "call", "isof", "cast"):
        n = 1
    for x in e[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                n += sum(has_ops(y) for y in x)
            elif x and x[0] in ("bin", "neg", "not", "call", "isof", "cast",
                                "lit", "prop"):
                n += has_ops(x)
    return n


def oracle(expr, values, linked):
    props = {}
    for p, t in PATHS:
        v = values["/".join(p)]
        if p[0] == "One" and not linked:
            # an absent entity gives an untyped null
            props[p] = (None, None)
        else:
            props[p] = (t, X.py(t, v))
    try:
        return X.evaluate(expr, props)
    except decimal.DecimalException:
        raise X.Undefined


def check(case, c):
    expr, values, bits, use_params, linked = case
    params = {} if use_params else None
    text = X.render(expr, X.Style(bits, params))
    if params is not None:
        pyparams = {}
        for n, (t, p) in params.items():
            v = edm.EDMValue.from_type(ev.CODE[t])
            v.set_from_value(X.to_python(t, p))
            pyparams[n] = v
        parsed = core.CommonExpression.from_str(text, pyparams)
    else:
        parsed = core.CommonExpression.from_str(text)
    entity = make_entity(values, linked)
    n = has_ops(expr)
    for w in ("div", "mod", "not ", "(", "-", "/", ":p"):
        if w in text:
            c.label(w)
    try:
        t, v = oracle(expr, values, linked)
        defined = True
    except X.Undefined as e:
        defined = False
        c.label("undefined")
        must_fail = isinstance(e, X.Error)
    try:
        r = parsed.evaluate(entity)
        err = None
    except (core.EvaluationError, ValueError) as e:
        err = e
    if not defined:
        if must_fail and err is None:
            fail("evaluation should fail", text, to_text(r))
        return
    if err is not None:
        fail("evaluation failed", text, type(err).__name__, str(err))
    if n >= 2:
        c.nontrivial()
    if v is not None or t is not None:
        if v is not None:
            eq(TNAME.get(r.type_code), t, "type of the value", text)
        eq(canon(t, r.value), v, "value", text,
           dict((k, x) for k, x in values.items() if x is not None))
        if v is not None:
            eq(type(r.value) is bool, t == "Boolean", "python type", text)
    else:
        ok(not r, "null expected", text)
    # formatting
    out = to_text(parsed)
    try:
        again = core.CommonExpression.from_str(out)
    except ValueError as e:
        fail("formatted expression does not parse", text, out, str(e))
    r2 = again.evaluate(entity)
    eq(canon(t, r2.value), v, "value of the formatted expression", text, out)
    if v is not None:
        eq(TNAME.get(r2.type_code), t, "type of the formatted expression",
           text, out)
    eq(dump(again), dump(parsed), "structure of the formatted expression",
       text, out)
    eq(to_text(again), out, "formatting is stable", text)


# -- malformed -------------------------------------------------------------

BAD = [" and", ")", " eq", " add", "'", " 5", " x y", ",", "(", " not",
       " or or 1", "/", " eq eq 2", " xx 3"]


def bad_check(case, c):
    expr, bits, how, where = case
    text = X.render(expr, X.Style(bits))
    kind = where % 4
    if kind == 0:
        bad = ["(", "and ", "eq 2", "or ", ",", "add ", ")", "/"][
            how % 8] + text
        c.label("prefix")
    elif kind == 1 and "(" in text:
        i = text.rindex(")")
        if "'" in text:
            return
        bad = text[:i] + text[i + 1:]
        c.label("unclosed")
    else:
        bad = text + BAD[how % len(BAD)]
        c.label("suffix")
    c.nontrivial()
    try:
        r = core.CommonExpression.from_str(bad)
    except ValueError:
        return
    fail("malformed expression accepted", bad, to_text(r))


# -- orderby ---------------------------------------------------------------

def orderby_check(case, c):
    items, bits = case
    style = X.Style(bits)
    text = []
    exp = []
    for expr, d in items:
        t = X.render(expr, style)
        exp.append((t, -1 if d == "desc" else 1))
        text.append(t + (" " + d if d else ""))
    text = (", " if bits & 1 else ",").join(text)
    got = core.CommonExpression.orderby_from_str(text)
    eq(len(got), len(exp), "number of order by items", text)
    for (e, d), (t, d2) in zip(got, exp):
        eq(d, d2, "direction", text)
        eq(dump(e), dump(core.CommonExpression.from_str(t)),
           "order by expression", text)
    out = core.CommonExpression.orderby_to_str(got)
    again = core.CommonExpression.orderby_from_str(out)
    eq(len(again), len(got), "number of items after formatting", text, out)
    eq([(dump(e), d) for e, d in again], [(dump(e), d) for e, d in got],
       "order by after formatting", text, out)
    if len(items) > 1:
        c.nontrivial()


# -- precedence --------------------------------------------------------------

def tree(depth):
    leaf = st.one_of(
        st.sampled_from([("prop", ("a",), None), ("prop", ("b", "c"), None),
                         ("lit", "Int32", 5), ("lit", None, None),
                         ("lit", "String", "x and y")]))
    if not depth:
        return leaf
    d = tree(depth - 1)
    b = st.tuples(st.just("bin"), st.sampled_from(sorted(X.PREC)), d, d)
    return st.one_of(leaf, b, b, b, b,
                     st.tuples(st.sampled_from(["neg", "not"]), d),
                     st.tuples(st.just("call"), st.just("concat"),
                               st.tuples(d, d)),
                     st.tuples(st.sampled_from(["isof", "cast"]), d,
                               st.just("Edm.Int32")))


def full(e):
    """fully bracketed text"""
    k = e[0]
    if k == "bin":
        return "(%s) %s (%s)" % (full(e[2]), e[1], full(e[3]))
    if k == "neg":
        return "-(%s)" % full(e[1])
    if k == "not":
        return "not (%s)" % full(e[1])
    if k == "call":
        return "%s(%s)" % (e[1], ",".join("(%s)" % full(x) for x in e[2]))
    if k in ("isof", "cast"):
        return "%s((%s),'%s')" % (k, full(e[1]), e[2])
    return X.render(e, X.Style(0))


def precedence_check(case, c):
    expr, bits = case
    a = X.render(expr, X.Style(bits))
    b = full(expr)
    x = core.CommonExpression.from_str(a)
    y = core.CommonExpression.from_str(b)
    eq(dump(x), dump(y), "structure with and without optional brackets", a,
       b)
    eq(dump(core.CommonExpression.from_str(to_text(x))), dump(x),
       "structure after formatting", a, to_text(x))
    if has_ops(expr) > 1:
        c.nontrivial()


# -- single functions and operators on literals ------------------------------

def lit(t, s=None):
    return st.tuples(st.just("lit"), st.just(t),
                     s if s is not None else X.lit_payload(t, TEXT))


TEXT = st.text("abAB' é", min_size=2, max_size=8)
SMALL = lit("Int32", st.integers(0, 5))
SUB = lit("String", st.text("abAB' é", max_size=2))
STR = lit("String")


def function_case():
    def call(n, *args):
        return st.tuples(st.just("call"), st.just(n), st.tuples(*args))
    out = [call("substring", STR, SMALL), call("substring", STR, SMALL,
                                               SMALL),
           call("indexof", STR, SUB), call("replace", STR, SUB, SUB),
           call("startswith", STR, SUB), call("endswith", STR, SUB),
           call("substringof", SUB, STR), call("concat", STR, STR),
           call("length", STR), call("tolower", STR), call("toupper", STR),
           call("trim", STR)]
    # make it likely that the second string is part of the first
    for n in ("indexof", "startswith", "endswith", "substringof", "replace"):
        def mk(t, n=n):
            s, i, j, r = t
            sub = s[i:i + j] if n != "endswith" else s[-j:]
            a = [("lit", "String", s), ("lit", "String", sub)]
            if n == "substringof":
                a.reverse()
            if n == "replace":
                a.append(("lit", "String", r))
            return ("call", n, tuple(a))
        out.append(st.tuples(TEXT, st.integers(0, 4), st.integers(1, 3),
                             TEXT).map(mk))
    for n in ("year", "month", "day", "hour", "minute", "second"):
        out.append(call(n, lit("DateTime")))
    for n in ("round", "floor", "ceiling"):
        for t in ("Decimal", "Double", "Single", "Int32"):
            out.append(call(n, lit(t)))
    nums = ["Int32", "Int64", "Decimal", "Double", "Single"]
    anynum = st.one_of([lit(t) for t in nums])
    out.append(st.tuples(st.just("bin"), st.sampled_from(
        ["add", "sub", "mul", "div", "mod"]), anynum, anynum))
    out.append(out[-1])
    out.append(out[-1])
    for t in nums + ["String", "Guid", "DateTime", "DateTimeOffset"]:
        out.append(st.tuples(st.just("bin"), st.sampled_from(
            ["eq", "ne", "lt", "le", "gt", "ge"]), lit(t), lit(t)))
    out.append(st.tuples(st.just("bin"), st.sampled_from(["and", "or"]),
                         lit("Boolean"), lit("Boolean")))
    return st.one_of(out)


def function_check(expr, c):
    text = X.render(expr, X.Style(0))
    c.label(expr[1])
    parsed = core.CommonExpression.from_str(text)
    try:
        t, v = oracle(expr, dict(("/".join(p), None) for p, t in PATHS),
                      False)
    except X.Error:
        try:
            r = parsed.evaluate(None)
        except (core.EvaluationError, ValueError):
            return
        fail("evaluation should fail", text, to_text(r))
    except X.Undefined:
        return
    c.nontrivial()
    r = parsed.evaluate(None)
    eq(TNAME.get(r.type_code), t, "type of the value", text)
    eq(canon(t, r.value), v, "value", text)


PROPS = [
    Prop("functions", function_case(), function_check, quick=5000,
         rule="the value is defined"),
    Prop("precedence", st.tuples(tree(3), st.integers(0, 2 ** 30)),
         precedence_check, quick=5000,
         rule="at least two operators or functions"),
    Prop("evaluate", CASE, check, quick=6000,
         rule="the expression has at least two operators or functions and a "
         "defined value"),
    Prop("malformed", st.tuples(
        st.sampled_from(TYPES).flatmap(lambda t: GEN.expr(t, 2)),
        st.integers(0, 2 ** 30), st.integers(0, 99), st.integers(0, 3)),
        bad_check, quick=2500, rule="text was damaged"),
    Prop("orderby", st.tuples(
        st.lists(st.tuples(
            st.sampled_from(TYPES).flatmap(lambda t: GEN.expr(t, 2)),
            st.sampled_from(["", "asc", "desc"])), min_size=1, max_size=4),
        st.integers(0, 2 ** 30)), orderby_check, quick=1500,
        rule="at least two items"),
]
