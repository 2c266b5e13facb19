"""C42: QTI values and variables hold only values of their type.

values: any python object or text offered to a value of every base type is
accepted exactly when it is a value of the type (a table written from the
documentation), text forms read back as the same value.  containers: random
histories of assignments, copies and edits of ordered, multiple and record
containers against lists, counters and dictionaries.  declarations: items
with generated declarations are read, written and read again; defaults,
correct responses and the variables of a session are those declared and are
independent of each other.  mappings: mapping, areaMapping, matchTable and
interpolationTable against direct computation."""

import math
from collections import Counter
from fractions import Fraction
from io import BytesIO
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from vlib import Prop, eq, ok, fail

from pyslet.qtiv2 import core, variables, xml as qtixml
from pyslet.rfc2396 import URI

from checks.c43 import (
    BASES, BT, CARDS, CD, IDS, NS, VALUES, close, inside, isnan, literal,
    read, view)

SV = variables.SingleValue


def raises(exc, fn, msg):
    try:
        got = fn()
    except exc:
        return
    fail('%s: %r' % (msg, got))


# --- single values

INT_TEXT = {'0': 0, '-7': -7, '+3': 3, '0012': 12, '2147483647': 2147483647,
            '-2147483648': -2147483648}
FLOAT_TEXT = {'1.5': 1.5, '-0.25': -0.25, '1E3': 1000.0, '2e-1': 0.2,
              'INF': math.inf, '-INF': -math.inf, '0': 0.0, '17': 17.0,
              '.5': 0.5, '-7': -7.0, '0012': 12.0, '+3': 3.0}
BOOL_TEXT = {'true': True, 'false': False, '1': True, '0': False}
NAMES = IDS + ['_x', 'é', 'a.b-c']
TEXTS = (list(INT_TEXT) + list(FLOAT_TEXT) + list(BOOL_TEXT) + NAMES +
         ['A B', 'B A', 'A A', 'A  B', '3 4', '-1 0', '1 2 3', 'A B C', '1a',
          'x:y', '', 'TRUE', 'yes', '1,5', '2147483648', '-2147483649',
          '0x10', 'http://example.com/a', 'a/b', '1.0', 'inf', 'nan', 'A 1',
          '1 2147483648', '1 x', '--1', '1e', 'e1', '\u0663', '\u0661 2',
          '1_0', '1 1_0'])


def is_name(s):
    return s in NAMES or s in ('true', 'false', 'TRUE', 'yes', 'INF', 'e1',
                               'inf', 'nan', '\u0663')


URI_CHARS = ('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
             "-_.~/!*'()")


def accepts(base, v):
    """('value', v), ('error',) or ('open',)"""
    no = ('error',)
    if v is None:
        return ('value', None)
    text = isinstance(v, str)
    if base == 'boolean':
        if isinstance(v, (bool, int)):
            return ('value', bool(v))
        if text and v in BOOL_TEXT:
            return ('value', BOOL_TEXT[v])
        return no
    if base in ('float', 'duration'):
        if isinstance(v, float):
            return ('value', v)
        if text:
            if v in FLOAT_TEXT:
                return ('value', FLOAT_TEXT[v])
            if v in INT_TEXT:
                return ('value', float(INT_TEXT[v]))
            if v in ('inf', 'nan'):
                # capitals are optional
                return ('open',)
            try:
                if v[:1] in '0123456789-+.' and v.isascii() and \
                        '_' not in v and v:
                    return ('value', float(v))
            except ValueError:
                pass
        return no
    if base == 'integer':
        if isinstance(v, bool):
            return ('open',)
        if isinstance(v, int):
            return ('value', v) if -2147483648 <= v <= 2147483647 else no
        if text:
            if v in INT_TEXT:
                return ('value', INT_TEXT[v])
            if v in ('17', '1', '0'):
                return ('value', int(v))
        return no
    if base == 'identifier':
        return ('value', v) if text and is_name(v) else no
    if base in ('pair', 'directedPair'):
        if text:
            parts = v.split()
            if len(parts) == 2 and all(map(is_name, parts)):
                v = parts
            else:
                return no
        if isinstance(v, (list, tuple)):
            if len(v) != 2 or not all(isinstance(x, str) for x in v):
                return no
            if not all(map(is_name, v)):
                # left to the caller, except that pairs are checked
                return ('open',) if base == 'directedPair' else no
            return ('value', tuple(sorted(v)) if base == 'pair'
                    else tuple(v))
        return no
    if base == 'point':
        if text:
            parts = v.split()
            try:
                if not v.isascii() or '_' in v:
                    return no
                v = [int(x) for x in parts]
            except ValueError:
                return no
        if isinstance(v, (list, tuple)):
            if len(v) != 2:
                return no
            if any(isinstance(x, bool) for x in v):
                return ('open',)
            if all(isinstance(x, int) and -2147483648 <= x <= 2147483647
                   for x in v):
                return ('value', tuple(v))
        return no
    if base == 'string':
        return ('value', v or None) if text else no
    # uri
    if text:
        if v and all(
                ch in URI_CHARS for ch in v.replace('http:', '')):
            return ('value', v)
        return ('open',)
    return no


ints = st.one_of(st.integers(-10, 10), st.sampled_from(
    [2147483647, 2147483648, -2147483648, -2147483649, 10 ** 20]),
    st.integers(-2147483648, 2147483647))
objects = st.one_of(
    st.none(), st.booleans(), ints, st.floats(), st.sampled_from(TEXTS),
    st.sampled_from(TEXTS), st.sampled_from([b'abc', b'', object, {}, set()]),
    st.lists(st.one_of(ints, st.sampled_from(NAMES + ['1a', 'a b'])),
             max_size=3),
    st.tuples(st.sampled_from(NAMES + ['9']), st.sampled_from(NAMES)),
    st.tuples(ints, ints), st.tuples(st.floats(), ints),
    st.text(max_size=5).filter(lambda s: s.strip() == s))

value_cases = st.tuples(
    st.sampled_from(BASES), st.lists(objects, min_size=1, max_size=4),
    st.booleans())


def content(base, v):
    return str(v) if base == 'uri' and v is not None else v


def same(x, y):
    return type(x) is type(y) and close(x, y)


def make(base, v=None):
    return SV.new_value(getattr(BT, base), v)


def known_text(base, v):
    # text not in the tables is only used for strings
    return not isinstance(v, str) or v in TEXTS or base == 'string' or (
        base == 'uri' and v.isascii())


def check_values(case, c):
    base, objs, construct = case
    value = make(base)
    eq(view(value), ('single', base, None), 'new value')
    for o in objs:
        if not known_text(base, o):
            continue
        want = accepts(base, o)
        before = value.value
        try:
            if construct:
                value = make(base, o)
            else:
                value.set_value(o)
        except ValueError:
            if want[0] == 'value':
                fail('%s refused %r' % (base, o))
            c.label('refused')
            # still a value of the type
            v = view(value)
            if v[2] is not None:
                ok(accepts(base, content(base, value.value))[0] != 'error',
                   '%s holds %r after refusing %r' % (base, v[2], o))
            continue
        if want[0] == 'error':
            fail('%s accepted %r as %r' % (base, o, value.value))
        got = view(value)
        if want[0] == 'value':
            c.label('accepted')
            c.nontrivial()
            eq(got[:2], ('single', base), 'type')
            ok(same(got[2], want[1]) or (
                got[2] is not None and base == 'uri' and got[2] == want[1]),
               '%s set from %r is %r' % (base, o, got[2]))
        # text form
        if want[0] == 'open':
            continue
        if value.value is not None:
            again = make(base)
            again.set_value(str(value))
            ok(same(view(again)[2], got[2]),
               '%r of %s reads back from %r as %r' % (
                   got[2], base, str(value), view(again)[2]))
            if not isnan(got[2]) and base != 'duration':
                ok(again == value, 'not equal to itself')
        else:
            eq(str(value), '', 'text of NULL')
            raises(variables.NullResult, lambda: value == make(base),
                   'NULL matched') if base != 'duration' else None


# --- files

file_cases = st.tuples(st.binary(max_size=20), st.sampled_from(
    ['bytes', 'object', 'none', 'bad', 'list']), st.booleans())


def check_file(case, c):
    data, how, named = case
    v = SV.new_value(BT.file)
    ok(not v and v.cardinality() == CD.single and v.baseType == BT.file,
       'new file value')
    kw = dict(type='image/png', name='x.png') if named else {}
    if how == 'none':
        v.set_value(b'x')
        v.set_value(None)
        ok(not v, 'NULL file')
        return
    if how in ('bad', 'list'):
        for bad in ([1, 2.5, object()] if how == 'bad' else [[], {}]):
            raises(ValueError, lambda: v.set_value(bad), 'bad file')
        return
    v.set_value(data if how == 'bytes' else BytesIO(data), **kw)
    c.nontrivial()
    ok(v, 'file is NULL')
    v.value.seek(0)
    eq(v.value.read(), data, 'file data')
    eq(str(v.contentType), 'image/png' if named else
       'application/octet-stream', 'content type')
    eq(v.file_name, 'x.png' if named else 'data.bin', 'file name')


# --- containers

def tidy(b):
    # white space in values is collapsed when they are written
    return no_nan(b).filter(
        lambda v: b != 'string' or ' '.join(v.split()) == v)


def no_nan(b):
    return VALUES[b].filter(lambda v: not isnan(v))


@st.composite
def container_cases(draw):
    card = draw(st.sampled_from(['ordered', 'multiple']))
    base = draw(st.sampled_from([b for b in BASES]))
    pool = draw(st.lists(no_nan(base), min_size=1, max_size=3))
    typed = draw(st.integers(0, 9)) > 0
    ops = []
    for i in range(draw(st.integers(1, 5))):
        op = draw(st.sampled_from(['set', 'set', 'set', 'copy', 'none',
                                   'bad', 'match', 'state', 'text',
                                   'iter']))
        vals = draw(st.lists(st.one_of(
            st.none() if draw(st.booleans()) else st.nothing(),
            st.sampled_from(pool)), max_size=6))
        ops.append((op, vals))
    return card, base, typed, ops


def model(card, vals):
    vals = [v for v in vals if v is not None]
    if not vals:
        return None
    return vals if card == 'ordered' else Counter(vals)


def raw(base, v):
    return URI.from_octets(v) if base == 'uri' and v is not None else v


BAD = {'boolean': 'maybe', 'directedPair': 'A', 'duration': 3,
       'float': 'x', 'identifier': '1a', 'integer': '1.5', 'pair': 'B',
       'point': (1, 2, 3), 'string': 7, 'uri': 7}


def check_containers(case, c):
    card, base, typed, ops = case
    cls = variables.OrderedContainer if card == 'ordered' else \
        variables.MultipleContainer
    b = getattr(BT, base)
    value = cls(b if typed else None)
    expect = None
    dup = False
    for op, vals in ops:
        rv = [raw(base, v) for v in vals]
        if op in ('set', 'text', 'iter'):
            if op == 'text':
                rv = [None if v is None else literal(base, v) for v in vals]
            elif op == 'iter':
                rv = iter(rv)
            if not typed and value.baseType is None:
                if model(card, vals) is not None:
                    raises(ValueError, lambda: value.set_value(rv),
                           'untyped container accepted values')
                    value.set_value(None)
                    expect = None
                    continue
            value.set_value(rv)
            expect = model(card, vals)
            dup = dup or (expect and len(set(vals)) < len(vals))
        elif op == 'none':
            value.set_value(None)
            expect = None
        elif op == 'bad':
            raises(ValueError, lambda: value.set_value([BAD[base]], b),
                   'bad member')
            typed = True
            if value:
                # either left as it was, or NULL
                eq(view(value), (card, base, expect), 'after an error')
            expect = expect if value else None
        elif op == 'copy':
            old = value
            value = variables.Value.copy_value(old)
            eq(type(value), cls, 'type of a copy')
            # independent of the original
            keep = [raw(base, v) for v in vals]
            old.set_value(keep, b)
        elif op == 'match' and typed and base != 'duration':
            other = cls(b)
            other.set_value(rv)
            if expect is None or not other:
                raises(variables.NullResult, lambda: value == other,
                       'NULL matched')
            else:
                eq(value == other, expect == model(card, vals),
                   'match of %r and %r' % (expect, vals))
                c.label('matched' if expect == model(card, vals)
                        else 'different')
        elif op == 'state' and typed:
            # assigned to a variable of the same type, then replaced
            s = Box(value)
            src = cls(b)
            src.set_value(rv)
            s['X'] = src
            expect = model(card, vals)
            src.set_value(None)
            dup = dup or (expect and len(set(vals)) < len(vals))
        want = (card, base if typed else None, expect)
        eq(view(value), want, 'container after %s %r' % (op, vals))
        got = list(value.get_values())
        got = [content(base, v) for v in got]
        if card == 'ordered':
            eq(got, expect or [], 'get_values')
        else:
            eq(Counter(got), expect or Counter(), 'get_values')
    if dup:
        c.nontrivial()


class Box(variables.SessionState):

    def __init__(self, v):
        super(Box, self).__init__()
        self.v = v

    def __getitem__(self, name):
        return self.v


@st.composite
def record_cases(draw):
    f = st.sampled_from(['a', 'b', 'c'])

    def fv():
        b = draw(st.sampled_from([b for b in BASES]))
        return (b, draw(st.one_of(st.none(), no_nan(b))))
    ops = []
    for i in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(['set', 'put', 'put', 'put', 'del', 'none',
                                   'copy', 'state', 'bad', 'edit']))
        if op in ('set', 'state'):
            arg = dict((k, fv()) for k in draw(st.lists(f, max_size=3)))
        elif op in ('put', 'edit'):
            arg = (draw(f), fv())
        elif op == 'none':
            arg = draw(f) if draw(st.booleans()) else None
        else:
            arg = draw(f)
        ops.append((op, arg))
    return ops


def check_records(ops, c):
    rec = variables.RecordContainer()
    m = {}

    def mk(bv):
        return make(bv[0], raw(*bv))

    def clean(d):
        return dict((k, v) for k, v in d.items() if v[1] is not None)
    for op, arg in ops:
        if op == 'set':
            rec.set_value(dict((k, mk(v)) for k, v in arg.items()))
            m = clean(arg)
        elif op == 'put':
            rec[arg[0]] = mk(arg[1])
            m[arg[0]] = arg[1]
            m = clean(m)
        elif op == 'none':
            if arg is None:
                rec.set_value(None)
                m = {}
            else:
                rec[arg] = None
                m.pop(arg, None)
        elif op == 'del':
            if arg in m:
                del rec[arg]
                del m[arg]
            else:
                try:
                    del rec[arg]
                    fail('deleted missing field')
                except KeyError:
                    pass
        elif op == 'copy':
            old = rec
            rec = variables.Value.copy_value(old)
            # changes to the original do not show in the copy
            for k in m:
                old[k].set_value(None)
            old['z'] = mk(('integer', 1))
        elif op == 'state':
            src = variables.RecordContainer()
            src.set_value(dict((k, mk(v)) for k, v in arg.items()))
            Box(rec)['X'] = src
            m = clean(arg)
            for k in m:
                src[k].set_value(None)
            src['z'] = mk(('integer', 1))
        elif op == 'bad':
            for bad in (variables.OrderedContainer(BT.integer), 1, 'x'):
                try:
                    rec[arg] = bad
                    fail('record field set to %r' % bad)
                except ValueError:
                    pass
            for bad in ([1], 'abc', {'a': 1}):
                raises(ValueError, lambda: rec.set_value(bad), 'bad record')
        elif op == 'edit' and arg[0] in m:
            # a field is a value
            b = m[arg[0]][0]
            if arg[1][0] == b and arg[1][1] is not None:
                rec[arg[0]].set_value(raw(*arg[1]))
                m[arg[0]] = arg[1]
        want = ('record', None, m or None)
        eq(view(rec), want, 'record after %r' % ((op, arg),))
        eq(len(rec), len(m), 'len')
        eq(sorted(rec), sorted(m), 'fields')
        for k in 'abcz':
            eq(k in rec, k in m, 'in')
            if k in m:
                f = rec[k]
                ok(same(content(m[k][0], f.value), m[k][1]), 'field')
            else:
                raises(KeyError, lambda: rec[k], 'missing field')
    if len(ops) > 2 and m:
        c.nontrivial()


# --- declarations

@st.composite
def declarations(draw):
    out = []
    for i in range(draw(st.integers(1, 5))):
        kind = draw(st.sampled_from(['response', 'outcome', 'template']))
        card = draw(st.sampled_from(CARDS + ['record']))
        base = None if card == 'record' else draw(st.sampled_from(BASES))

        def values():
            if draw(st.integers(0, 3)) == 0:
                return None
            if card == 'record':
                fs = draw(st.lists(st.sampled_from(['f', 'g', 'h']),
                                   min_size=1, max_size=3, unique=True))
                return [(f, b, draw(tidy(b))) for f, b in (
                    (f, draw(st.sampled_from(BASES))) for f in fs)]
            n = 1 if card == 'single' else draw(st.integers(1, 4))
            vs = draw(st.lists(tidy(base), min_size=1, max_size=2))
            return [draw(st.sampled_from(vs)) for j in range(n)]
        out.append((kind, 'V%d' % i, card, base, values(),
                    values() if kind == 'response' else None))
    sets = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)),
                         max_size=3))
    return out, sets, draw(st.booleans())


def values_xml(tag, card, vals, base):
    if vals is None:
        return ''
    out = ['<%s>' % tag]
    for v in vals:
        if card == 'record':
            out.append('<value fieldIdentifier="%s" baseType="%s">%s</value>'
                       % (v[0], v[1], escape(literal(v[1], v[2]))))
        else:
            out.append('<value>%s</value>' % escape(literal(base, v)))
    return ''.join(out) + '</%s>' % tag


def declared(card, base, vals):
    if vals is None:
        return (card, base, None)
    if card == 'record':
        return (card, None, dict((f, (b, read(b, literal(b, v))))
                                 for f, b, v in vals))
    vals = [read(base, literal(base, v)) for v in vals]
    if card == 'single':
        return (card, base, vals[0])
    return (card, base, model(card, vals))


def item(decls):
    # declarations are grouped by kind in the schema
    out = ['<assessmentItem xmlns="%s" identifier="I" title="I" '
           'adaptive="false" timeDependent="false">' % NS]
    for k in ('response', 'outcome', 'template'):
        for kind, name, card, base, default, correct in decls:
            if kind != k:
                continue
            out.append('<%sDeclaration identifier="%s" cardinality="%s"%s>'
                       % (kind, name, card, ' baseType="%s"' % base
                          if base else ''))
            out.append(values_xml('defaultValue', card, default, base))
            out.append(values_xml('correctResponse', card, correct, base))
            out.append('</%sDeclaration>' % kind)
    return ''.join(out + ['</assessmentItem>']).encode('utf-8')


def equal(x, y, msg):
    ok(x[:2] == y[:2] and close(x[2], y[2]), '%s is %r, declared %r' % (
        msg, x, y))


def check_declarations(case, c):
    decls, sets, again = case
    doc = qtixml.QTIDocument()
    doc.read(src=BytesIO(item(decls)))
    if again:
        text = str(doc)
        doc = qtixml.QTIDocument()
        doc.read(src=BytesIO(text.encode('utf-8')))
    state = variables.ItemSessionState(doc.root)
    c.label('reread' if again else 'read')
    want, defaults, corrects = {}, {}, {}
    for kind, name, card, base, default, correct in decls:
        d = doc.root.get_declaration(name)
        dv = defaults[name] = declared(card, base, default)
        equal(view(d.get_default_value()), dv, 'default of ' + name)
        null = (card, base, None)
        want[name] = dv if kind == 'template' else null
        if kind != 'template':
            want[name + '.DEFAULT'] = dv
        if kind == 'response':
            want[name + '.CORRECT'] = declared(card, base, correct)
            equal(view(d.get_correct_value()), want[name + '.CORRECT'],
                  'correct value of ' + name)
        ok(state.is_response(name) == (kind == 'response') and
           state.is_outcome(name) == (kind == 'outcome') and
           state.is_template(name) == (kind == 'template'), 'kind')
        if default and len(default) > 1:
            c.nontrivial()

    def verify(when):
        for n, v in want.items():
            ok(n in state, '%s missing' % n)
            equal(view(state[n]), v, '%s %s' % (n, when))
        extra = set(state) - set(want) - set(
            ['numAttempts', 'duration', 'completionStatus'])
        ok(not extra, 'variables %r' % extra)
    verify('on construction')
    state.begin_session()
    for kind, name, card, base, default, correct in decls:
        if kind == 'outcome':
            v = want[name + '.DEFAULT']
            if v[2] is None and card == 'single':
                # numbers start at zero
                v = {'integer': ('single', 'integer', 0),
                     'float': ('single', 'float', 0.0)}.get(base, v)
            want[name] = v
    verify('at the start of the session')
    eq(state['numAttempts'].value, 0, 'numAttempts')
    state.begin_attempt()
    for kind, name, card, base, default, correct in decls:
        if kind == 'response':
            want[name] = want[name + '.DEFAULT']
    verify('at the start of the attempt')
    eq(state['numAttempts'].value, 1, 'numAttempts')
    # assignments change one variable only
    for i, j in sets:
        if i >= len(decls) or j >= len(decls):
            continue
        to, frm = decls[i], decls[j]
        src = state[frm[1]]
        if to[2:4] != frm[2:4]:
            if src.cardinality() == CD.record and to[2] == 'record':
                continue
            try:
                state[to[1]] = src
                fail('%s of %r assigned to %r' % (frm[1], frm[2:4], to[2:4]))
            except ValueError:
                pass
        else:
            state[to[1]] = src
            want[to[1]] = want[frm[1]]
            c.label('assigned')
        verify('after %s = %s' % (to[1], frm[1]))
    for kind, name, card, base, default, correct in decls:
        state[name] = variables.Value.new_value(
            getattr(CD, card), getattr(BT, base) if base else None)
        want[name] = (card, base, None)
        verify('after %s = NULL' % name)
    # and the item is what it was
    for kind, name, card, base, default, correct in decls:
        equal(view(doc.root.get_declaration(name).get_default_value()),
              defaults[name], 'default of %s after the session' % name)


# --- mappings

@st.composite
def mapping_cases(draw):
    kind = draw(st.sampled_from(['mapping', 'area', 'match', 'interpolate']))
    num = st.integers(-20, 20).map(lambda i: i / 4.0)
    lo, hi = draw(st.tuples(st.one_of(st.none(), num),
                            st.one_of(st.none(), num)))
    if lo is not None and hi is not None and lo > hi:
        lo, hi = hi, lo
    card = draw(st.sampled_from(CARDS))
    if kind == 'mapping':
        base = draw(st.sampled_from([b for b in BASES if b != 'duration']))
        keys = draw(st.lists(no_nan(base), min_size=1, max_size=4,
                             unique=True))
        entries = [(k, draw(num)) for k in keys]
        vals = draw(st.lists(st.one_of(st.sampled_from(keys), no_nan(base)),
                             min_size=1, max_size=1 if card == 'single'
                             else 6))
        return kind, base, card, (draw(num), lo, hi), entries, vals
    if kind == 'area':
        entries = []
        for i in range(draw(st.integers(1, 4))):
            shape = draw(st.sampled_from(['rect', 'circle', 'ellipse',
                                          'poly', 'default']))
            n = {'rect': 4, 'circle': 3, 'ellipse': 4, 'default': 0,
                 'poly': 2 * draw(st.integers(3, 5))}[shape]
            cs = draw(st.lists(st.integers(0, 40), min_size=n, max_size=n))
            # percentages of 50 and 80
            if shape != 'circle':
                cs = [(x, bool(draw(st.integers(0, 7)) == 0)) for x in cs]
            else:
                cs = [(x, False) for x in cs]
            entries.append((shape, cs, draw(num)))
        pts = draw(st.lists(st.tuples(st.integers(0, 41), st.integers(
            0, 41)), min_size=1, max_size=1 if card == 'single' else 5,
            unique=True))
        return kind, 'point', card, (draw(num), lo, hi), entries, pts
    base = draw(st.sampled_from(BASES))
    default = draw(st.one_of(st.none(), no_nan(base)))
    if kind == 'match':
        entries = draw(st.lists(st.tuples(st.integers(-5, 5), no_nan(base)),
                                min_size=1, max_size=6))
        vals = draw(st.lists(st.integers(-6, 6), min_size=1, max_size=5))
    else:
        entries = [(x, draw(st.sampled_from([None, True, False])), v)
                   for x, v in draw(st.lists(st.tuples(num, no_nan(base)),
                                             min_size=1, max_size=5))]
        if draw(st.booleans()):
            entries.sort(key=lambda e: -e[0])
        vals = draw(st.lists(st.one_of(st.integers(-6, 6), num),
                             min_size=1, max_size=5))
    return kind, base, card, default, entries, vals


def decl_xml(kind, base, card, opts, entries):
    out = ['<assessmentItem xmlns="%s" identifier="I" title="I" '
           'adaptive="false" timeDependent="false">' % NS]
    if kind in ('mapping', 'area'):
        d, lo, hi = opts
        at = ' defaultValue="%r"' % d
        if lo is not None:
            at += ' lowerBound="%r"' % lo
        if hi is not None:
            at += ' upperBound="%r"' % hi
        out.append('<responseDeclaration identifier="R" cardinality="%s" '
                   'baseType="%s">' % (card, base))
        if kind == 'mapping':
            out.append('<mapping%s>' % at)
            for k, v in entries:
                out.append('<mapEntry mapKey=%s mappedValue="%r"/>' % (
                    quoteattr(literal(base, k)), v))
            out.append('</mapping>')
        else:
            out.append('<areaMapping%s>' % at)
            for shape, cs, v in entries:
                out.append('<areaMapEntry shape="%s" coords="%s" '
                           'mappedValue="%r"/>' % (shape, ','.join(
                               '%d%s' % (x, '%' if p else '')
                               for x, p in cs), v))
            out.append('</areaMapping>')
        out.append('</responseDeclaration>')
    else:
        at = '' if opts is None else ' defaultValue=%s' % quoteattr(
            literal(base, opts))
        tag = 'matchTable' if kind == 'match' else 'interpolationTable'
        out.append('<outcomeDeclaration identifier="R" cardinality="single" '
                   'baseType="%s"><%s%s>' % (base, tag, at))
        for e in entries:
            out.append('<%sEntry sourceValue="%r"%s targetValue=%s/>' % (
                tag, e[0], '' if kind == 'match' or e[1] is None else
                ' includeBoundary="%s"' % ('true' if e[1] else 'false'),
                quoteattr(literal(base, e[-1]))))
        out.append('</%s></outcomeDeclaration>' % tag)
    out.append('</assessmentItem>')
    return ''.join(out).encode('utf-8')


def container(card, base, vals):
    b = getattr(BT, base)
    if card == 'single':
        return SV.new_value(b, raw(base, vals[0]))
    v = variables.Value.new_value(getattr(CD, card), b)
    v.set_value([raw(base, x) for x in vals])
    return v


def check_mappings(case, c):
    kind, base, card, opts, entries, vals = case
    doc = qtixml.QTIDocument()
    doc.read(src=BytesIO(decl_xml(kind, base, card, opts, entries)))
    d = doc.root.get_declaration('R')
    c.label(kind)
    if kind in ('mapping', 'area'):
        default, lo, hi = opts

        def bound(t):
            if lo is not None and t < lo:
                return lo
            if hi is not None and t > hi:
                return hi
            return t
        total = 0.0
        if kind == 'mapping':
            m = dict(entries)
            for v in set(vals[:1] if card == 'single' else vals):
                total += m.get(v, default)
            got = d.Mapping.map_value(container(card, base, vals))
            if len(entries) > 1 and len(vals) > 1:
                c.nontrivial()
        else:
            hits = set()
            for p in vals:
                for i, (shape, cs, v) in enumerate(entries):
                    pts = []
                    for j, (x, pc) in enumerate(cs):
                        dim = 50 if j % 2 == 0 else 80
                        if pc:
                            # x% of a side may be rounded
                            if x * dim % 100:
                                return
                            x = x * dim // 100
                        pts.append(x)
                    r = inside(shape, pts, p)
                    if r is None:
                        # on the edge
                        return
                    if r:
                        if i not in hits:
                            total += v
                        hits.add(i)
                        break
                else:
                    total += default
            got = d.AreaMapping.map_value(container(card, base, vals), 50,
                                          80)
            if hits:
                c.nontrivial()
        g = view(got)
        ok(g[:2] == ('single', 'float') and abs(g[2] - bound(total)) < 1e-9,
           'mapped to %r, expected %r' % (g, bound(total)))
        return
    for v in vals:
        if kind == 'match' and isinstance(v, float):
            continue
        for flt in (False, True):
            if flt and kind == 'match':
                raises(ValueError, lambda: d.LookupTable.lookup(
                    variables.FloatValue(float(v))), 'float lookup')
                continue
            if not flt and isinstance(v, float):
                continue
            src = variables.FloatValue(float(v)) if flt else \
                variables.IntegerValue(v)
            want = opts
            for e in entries:
                if kind == 'match':
                    hit = e[0] == v
                else:
                    hit = e[0] < v or (e[0] == v and e[1] is not False)
                if hit:
                    want = e[-1]
                    c.nontrivial()
                    break
            want = None if want is None else read(base, literal(base, want))
            g = view(d.LookupTable.lookup(src))
            ok(g[:2] == ('single', base) and close(g[2], want),
               'lookup of %r gives %r, expected %r' % (v, g, want))
    g = view(d.LookupTable.lookup(variables.IntegerValue()))
    eq(g, ('single', base, None), 'lookup of NULL')
    raises(ValueError, lambda: d.LookupTable.lookup(container(
        'ordered', 'integer', [1])), 'lookup of a container')
    raises(ValueError, lambda: d.LookupTable.lookup(
        variables.StringValue('1')), 'lookup of a string')


PROPS = [
    Prop('values', value_cases, check_values, quick=12000, thorough=200000,
         rule='some object is accepted'),
    Prop('files', file_cases, check_file, quick=300, thorough=3000,
         rule='a file is set'),
    Prop('containers', container_cases(), check_containers, quick=6000,
         thorough=100000, rule='a value occurs more than once'),
    Prop('records', record_cases(), check_records, quick=4000,
         thorough=60000, rule='more than two steps, not empty at the end'),
    Prop('declarations', declarations(), check_declarations, quick=2500,
         thorough=40000, rule='a default of more than one value'),
    Prop('mappings', mapping_cases(), check_mappings, quick=5000,
         thorough=80000, rule='several entries and values, or a match'),
]
