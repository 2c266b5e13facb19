"""OData common expressions as plain data: generation, rendering as text and
an independent evaluator, shared by C04 and C05.

An expression is a tuple:
  ("lit", type or None, payload)  ("prop", path, type)  ("bin", op, l, r)
  ("neg", x)  ("not", x)  ("call", name, args)  ("isof"|"cast", x, type name)
The payload of a DateTime is (y, m, d, H, M, S, tenths or None), of a
DateTimeOffset the same plus the zone in minutes, of a Decimal a string, of a
Guid 32 hex digits.
"""
import datetime
import decimal
import math
import operator
import struct
import uuid

from hypothesis import strategies as st

from pyslet import iso8601 as iso

PREC = {"or": 2, "and": 3, "eq": 4, "ne": 4, "lt": 5, "gt": 5, "le": 5,
        "ge": 5, "add": 6, "sub": 6, "mul": 7, "div": 7, "mod": 7}
NUMERIC = ["Double", "Single", "Decimal", "Int64", "Int32", "Int16", "Byte"]
ARITH = ("Double", "Single", "Decimal", "Int64", "Int32")
RANGE = {"Int32": 2 ** 31, "Int64": 2 ** 63, "Int16": 2 ** 15}
DATES = ("DateTime", "DateTimeOffset")


class Undefined(Exception):
    """OData does not say what the value is (or says it is an error)"""


class Error(Undefined):
    """evaluation must fail"""


# -- values ----------------------------------------------------------------

def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        raise Undefined


def py(t, p):
    """The oracle's value for a payload"""
    if p is None:
        return None
    if t == "Decimal":
        return decimal.Decimal(p)
    if t in ("Double", "Single"):
        return float(p)
    if t in DATES:
        d = datetime.datetime(*p[:6]) + datetime.timedelta(
            microseconds=100000 * (p[6] or 0))
        if t == "DateTimeOffset":
            d -= datetime.timedelta(minutes=p[7])
        return d
    return p


def to_python(t, p):
    """The python value to hand to pyslet"""
    if p is None:
        return None
    if t == "Decimal":
        return decimal.Decimal(p)
    if t in ("Double", "Single"):
        return float(p)
    if t == "Guid":
        return uuid.UUID(hex=p)
    if t in DATES:
        kw = {}
        if t == "DateTimeOffset":
            z = p[7]
            kw = dict(zdirection=(z > 0) - (z < 0), zhour=abs(z) // 60,
                      zminute=abs(z) % 60)
        sec = p[5] if p[6] is None else float("%d.%d" % (p[5], p[6]))
        return iso.TimePoint(
            date=iso.Date(century=p[0] // 100, year=p[0] % 100, month=p[1],
                          day=p[2]),
            time=iso.Time(hour=p[3], minute=p[4], second=sec, **kw))
    return p


def lit_text(t, p):
    if p is None:
        return "null"
    if t == "String":
        return "'%s'" % p.replace("'", "''")
    if t == "Boolean":
        return "true" if p else "false"
    if t in ("Int32",):
        return str(p)
    if t == "Int64":
        return "%dL" % p
    if t == "Decimal":
        return p + "M"
    if t in ("Double", "Single"):
        return repr(float(p)).rstrip("0") + "0" + (
            "D" if t == "Double" else "F")
    if t == "Guid":
        return "guid'%s'" % uuid.UUID(hex=p)
    if t == "Binary":
        return "X'%s'" % p.hex().upper()
    if t in DATES:
        s = "%04d-%02d-%02dT%02d:%02d:%02d" % p[:6]
        if p[6] is not None:
            s += ".%d" % p[6]
        if t == "DateTimeOffset":
            z = p[7]
            s += "Z" if z == 0 else "%s%02d:%02d" % (
                "+" if z > 0 else "-", abs(z) // 60, abs(z) % 60)
            return "datetimeoffset'%s'" % s
        return "datetime'%s'" % s
    raise KeyError(t)


# -- rendering -------------------------------------------------------------

class Style(object):
    """Decides optional brackets and white space, and makes some literals
    parameters"""

    def __init__(self, bits=0, params=None):
        self.bits = bits
        self.params = params

    def flip(self, n):
        if not self.bits:
            return False
        # a simple deterministic stream of choices
        self.bits = (self.bits * 1103515245 + 12345) & 0x7fffffff
        return (self.bits >> 8) % n == 0


def render(e, style, prec=0):
    k = e[0]
    if k == "lit":
        if style.params is not None and e[1] and style.flip(3):
            name = "p%d" % len(style.params)
            style.params[name] = (e[1], e[2])
            s = ":" + name
        else:
            s = lit_text(e[1], e[2])
        p = 10
    elif k == "prop":
        s = "/".join(e[1])
        p = 10
    elif k == "bin":
        p = PREC[e[1]]
        ws = "  " if style.flip(5) else " "
        s = (render(e[2], style, p) + ws + e[1] + " " +
             render(e[3], style, p + 1))
    elif k == "neg":
        p = 8
        x = render(e[1], style, p)
        if e[1][0] == "lit" and x[0] not in "(:n":
            x = "(%s)" % x
        s = "-" + x
    elif k == "not":
        p = 8
        s = "not " + render(e[1], style, p)
    elif k == "call":
        p = 10
        sep = " , " if style.flip(4) else ","
        s = "%s(%s)" % (e[1], sep.join(render(a, style) for a in e[2]))
    else:
        p = 10
        s = "%s(%s,%s)" % (k, render(e[1], style), lit_text("String", e[2]))
    if p < prec:
        s = "(%s)" % s
    elif style.flip(6):
        s = "( %s )" % s
    return s


# -- evaluation ------------------------------------------------------------

def promote(a, b):
    if a == b or b is None:
        return a
    if a is None:
        return b
    if a not in NUMERIC or b not in NUMERIC:
        raise Error("types")
    for t in NUMERIC:
        if t in (a, b):
            return t


def conv(v, frm, to):
    if v is None or frm == to:
        return v
    if to in ("Double", "Single"):
        r = float(v)
        if to == "Single" and f32(r) != r or isinstance(v, int) and r != v:
            raise Undefined
        return r
    if to == "Decimal":
        return decimal.Decimal(v)
    return v


def check_range(t, v):
    if v is None:
        return v
    if t in RANGE and not -RANGE[t] <= v < RANGE[t]:
        raise Undefined("overflow")
    if t in ("Double", "Single"):
        if v != v or v in (math.inf, -math.inf):
            raise Undefined("overflow")
        if t == "Single" and f32(v) != v:
            raise Undefined("inexact")
    if t == "Decimal":
        if abs(v) >= 10 ** 28 or v and abs(v) < decimal.Decimal("1e-20"):
            raise Undefined("range")
    return v


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, t, x, y):
    if x is None or y is None:
        return None
    if op == "add":
        return x + y
    if op == "sub":
        return x - y
    if op == "mul":
        return x * y
    if y == 0:
        raise Error("division by zero") if t not in (
            "Double", "Single") else Undefined("division by zero")
    if t in ("Int32", "Int64"):
        q = tdiv(x, y)
        return q if op == "div" else x - q * y
    if op == "div":
        return x / y
    if t == "Decimal":
        return x % y
    return math.fmod(x, y)


REL = {"lt": operator.lt, "gt": operator.gt, "le": operator.le,
       "ge": operator.ge}


def evaluate(e, props):
    """Returns (type name or None, value); props maps paths to (type, value)
    """
    k = e[0]
    if k == "lit":
        return (e[1] if e[2] is not None else None), py(e[1], e[2])
    if k == "prop":
        return props[e[1]]
    if k == "neg":
        t, v = evaluate(e[1], props)
        t = {"Byte": "Int32", "Int16": "Int32", "Single": "Double",
             None: "Int32"}.get(t, t)
        if t not in ARITH:
            raise Error
        return t, check_range(t, None if v is None else 0 - v)
    if k == "not":
        t, v = evaluate(e[1], props)
        if t not in (None, "Boolean"):
            raise Error
        return "Boolean", (None if v is None else not v)
    if k == "bin":
        op = e[1]
        lt, lv = evaluate(e[2], props)
        rt, rv = evaluate(e[3], props)
        t = promote(lt, rt)
        if op in ("and", "or"):
            if t not in (None, "Boolean"):
                raise Error
            if lv is None or rv is None:
                if "null logic" in props:
                    raise Undefined
                return "Boolean", False
            return "Boolean", ((lv and rv) if op == "and" else (lv or rv))
        if op in ("add", "sub", "mul", "div", "mod"):
            if t is None:
                return "Int32", None
            if t not in ARITH:
                raise Undefined
            return t, check_range(
                t, arith(op, t, conv(lv, lt, t), conv(rv, rt, t)))
        if t in ("Boolean", "Byte", "Int16"):
            # need not be supported
            raise Undefined
        if op in REL and t == "Binary":
            raise Undefined
        lv, rv = conv(lv, lt, t), conv(rv, rt, t)
        if op in ("eq", "ne"):
            r = (lv is None) == (rv is None) and lv == rv
            return "Boolean", r if op == "eq" else not r
        if lv is None or rv is None:
            if "null relation" in props:
                raise Undefined
            return "Boolean", False
        return "Boolean", REL[op](lv, rv)
    if k == "call":
        return call(e[1], [evaluate(a, props) for a in e[2]])
    t, v = evaluate(e[1], props)
    want = e[2][4:]
    if k == "isof":
        if v is None:
            return "Boolean", False
        try:
            return "Boolean", promote(want, t) == want
        except Error:
            return "Boolean", False
    if v is None:
        return want, None
    if promote(want, t) != want:
        raise Error
    return want, check_range(want, conv(v, t, want))


def call(name, args):
    types = [t for t, v in args]
    vals = [v for t, v in args]
    null = any(v is None for v in vals)
    if name in ("round", "floor", "ceiling"):
        t, v = args[0]
        if t == "Byte":
            raise Undefined
        rt = "Double" if t in ("Double", "Single") else "Decimal"
        if v is None:
            return rt, None
        v = conv(v, t, rt)
        if rt == "Decimal":
            m = {"round": decimal.ROUND_HALF_UP, "floor":
                 decimal.ROUND_FLOOR, "ceiling": decimal.ROUND_CEILING}[name]
            return rt, v.to_integral(m)
        if name == "round":
            return rt, float(round(v))
        return rt, float(math.floor(v) if name == "floor" else math.ceil(v))
    if name in ("year", "month", "day", "hour", "minute", "second"):
        return "Int32", None if null else getattr(vals[0], name)
    if name == "length":
        return "Int32", None if null else len(vals[0])
    if name in ("startswith", "endswith", "substringof"):
        if null:
            return "Boolean", None
        a, b = vals
        if name == "substringof":
            return "Boolean", a in b
        return "Boolean", (a.startswith(b) if name == "startswith" else
                           a.endswith(b))
    if name == "indexof":
        return "Int32", None if null else vals[0].find(vals[1])
    if name == "substring":
        if null:
            if vals[0] is not None and vals[1] is not None:
                raise Undefined     # the length is null
            return "String", None
        if vals[1] < 0 or len(vals) == 3 and vals[2] < 0:
            raise Undefined
        s = vals[0][vals[1]:]
        return "String", s if len(vals) == 2 else s[:vals[2]]
    if null:
        return "String", None
    if name == "replace":
        if not vals[1]:
            raise Undefined
        return "String", vals[0].replace(vals[1], vals[2])
    if name == "concat":
        return "String", vals[0] + vals[1]
    return "String", {"tolower": str.lower, "toupper": str.upper,
                      "trim": str.strip}[name](vals[0])


# -- generation ------------------------------------------------------------

def lit_payload(t, text):
    if t == "String":
        return text
    if t == "Boolean":
        return st.booleans()
    if t in ("Int32", "Byte", "Int16"):
        lo = 0 if t == "Byte" else -9
        return st.one_of(st.integers(lo, 9), st.integers(lo, 9),
                         st.integers(0, 100))
    if t == "Int64":
        return st.one_of(st.integers(-9, 9), st.integers(-9, 9),
                         st.sampled_from([2 ** 53 + 1, -2 ** 53 - 1,
                                          10 ** 17 + 1]))
    if t == "Decimal":
        return st.one_of(
            st.tuples(st.integers(-60, 60), st.integers(0, 2)).map(
                lambda p: str(decimal.Decimal(p[0]).scaleb(-p[1]))),
            st.integers(-8, 7).map(lambda i: "%d.5" % i))
    if t in ("Double", "Single"):
        return st.integers(-40, 40).map(lambda i: repr(i / 4.0))
    if t == "Guid":
        return st.sampled_from(["0" * 32, "f" * 32, "1" * 32,
                                "0123456789abcdef0123456789abcdef"])
    if t == "Binary":
        return st.sampled_from([b"", b"\x00", b"\xde\xad", b"'"])
    if t in DATES:
        base = st.tuples(
            st.sampled_from([1, 1999, 2000, 2013]),
            st.sampled_from([1, 2, 12]), st.sampled_from([1, 2, 28]),
            st.sampled_from([0, 9, 12, 23]), st.sampled_from([0, 30, 59]),
            st.sampled_from([0, 1, 59]), st.sampled_from([None, None, 5]))
        if t == "DateTime":
            return base
        return st.tuples(base, st.sampled_from([0, 60, -60, 330, -1])).map(
            lambda p: (max(p[0][0], 2),) + p[0][1:] + (p[1],))
    raise KeyError(t)


class Gen(object):
    """Strategies for typed expressions.

    props: list of (path, type); text: strategy for string literals; opts:
    functions and operators not to generate; pools: strategies for the
    literals of given types"""

    def __init__(self, props, text=None, exclude=(), pools=None):
        self.props = props
        self.pools = pools or {}
        self.text = text or st.one_of(
            st.text("aAbBé'%_ ", max_size=5),
            st.sampled_from(["abc", "ABC", "a and b", "it''s", "ab"]))
        self.exclude = set(exclude)
        self.cache = {}

    def leaf(self, t):
        pool = self.pools.get(t) or lit_payload(t, self.text)
        out = [st.tuples(st.just("lit"), st.just(t), pool)] if (
            t not in ("Byte", "Int16")) else []
        ps = [p for p, pt in self.props if pt == t]
        if ps:
            out.append(st.tuples(st.just("prop"), st.sampled_from(ps),
                                 st.just(t)))
            out.append(out[-1])
        if "null" not in self.exclude:
            out.extend(out)
            out.append(st.just(("lit", None, None)))
        return st.one_of(out)

    def has(self, t):
        return t not in ("Byte", "Int16") or any(
            pt == t for p, pt in self.props)

    def expr(self, t, depth):
        k = (t, depth)
        if k not in self.cache:
            self.cache[k] = self._expr(t, depth)
        return self.cache[k]

    def numeric(self, depth):
        ts = [t for t in NUMERIC if self.has(t) and
              "type:" + t not in self.exclude]
        return st.one_of([self.expr(t, depth) for t in ts])

    def bin(self, ops, l, r):
        ops = [o for o in ops if o not in self.exclude]
        return st.tuples(st.just("bin"), st.sampled_from(ops), l, r)

    def call(self, name, *args):
        if name in self.exclude:
            return None
        return st.tuples(st.just("call"), st.just(name), st.tuples(*args))

    def _expr(self, t, depth):
        leaf = self.leaf(t)
        if depth <= 0 or t in ("Byte", "Int16", "Guid", "Binary") + DATES:
            return leaf
        d = depth - 1
        out = []
        if t == "Boolean":
            b = self.expr("Boolean", d)
            n = self.numeric(d)
            s = self.expr("String", d)
            rel = ["eq", "ne", "lt", "gt", "le", "ge"]
            cmp = [self.bin(rel, n, n), self.bin(rel, n, n),
                   self.bin(rel, s, s)]
            for x in DATES + ("Guid",):
                if "type:" + x not in self.exclude:
                    cmp.append(self.bin(rel, self.leaf(x), self.leaf(x)))
            if "type:Binary" not in self.exclude:
                cmp.append(self.bin(["eq", "ne"], self.leaf("Binary"),
                                    self.leaf("Binary")))
            cmp = st.one_of(cmp)
            out = [cmp, cmp, cmp,
                   self.bin(["and", "or"], b, b), self.bin(["and", "or"], b,
                                                           b),
                   None if "not" in self.exclude else
                   st.tuples(st.just("not"), b),
                   self.call("startswith", s, s), self.call("endswith", s, s),
                   self.call("substringof", s, s)]
            if "isof" not in self.exclude:
                out.append(st.tuples(
                    st.just("isof"), n, st.sampled_from(
                        ["Edm." + x for x in ARITH])))
        elif t == "String":
            s = self.expr("String", d)
            i = self.expr("Int32", min(d, 1))
            small = st.tuples(st.just("lit"), st.just("Int32"),
                              st.integers(0, 4))
            i = st.one_of(small, small, i)
            out = [self.call("concat", s, s), self.call("replace", s, s, s),
                   self.call("tolower", s), self.call("toupper", s),
                   self.call("trim", s), self.call("substring", s, i),
                   self.call("substring", s, i, i)]
        else:
            me = self.expr(t, d)
            less = NUMERIC[NUMERIC.index(t):]
            other = st.one_of([self.expr(x, d) for x in less
                               if self.has(x) and
                               "type:" + x not in self.exclude])
            ops = ["add", "sub", "mul", "div", "mod"]
            arith = [o for o in ops if o not in self.exclude]
            if arith:
                out = [self.bin(arith, me, other), self.bin(arith, other, me),
                       self.bin(arith, me, me)]
            if "neg" not in self.exclude:
                out.append(st.tuples(
                    st.just("neg"),
                    me if t != "Single" else self.leaf("Int32")))
            if "cast" not in self.exclude:
                out.append(st.tuples(st.just("cast"), other,
                                     st.just("Edm." + t)))
            if t == "Int32":
                s = self.expr("String", d)
                out.append(self.call("length", s))
                out.append(self.call("indexof", s, s))
                if "type:DateTime" not in self.exclude:
                    dt = self.leaf("DateTime")
                    out.extend(self.call(f, dt) for f in (
                        "year", "month", "day", "hour", "minute", "second"))
            if t in ("Double", "Decimal"):
                for f in ("round", "floor", "ceiling"):
                    out.append(self.call(f, me))
                    out.append(self.call(f, self.leaf(t)))
        out = [o for o in out if o is not None]
        if not out:
            return leaf
        return st.one_of([leaf] + out + out)
