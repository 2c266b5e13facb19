"""C43: QTI expressions evaluate as the QTI specification defines.

Generated expression trees (leaves: base values, typed and untyped NULLs,
records, templates variables; every operator) are written out as XML, read
with the QTI document class and evaluated against a real item session; the
oracle is an independent interpreter of the operator definitions below.  An
operand of the wrong base type or cardinality must be reported as a
ProcessingError (even where the operand is NULL but typed), anything else
that escapes is a violation.  Where the specification leaves the result open
(rounding ties, overflow, points on the edge of an area, NULL template
variables) only the absence of other exceptions is required."""

import math
import re as pyre
from collections import Counter
from decimal import Decimal
from fractions import Fraction
from io import BytesIO
from xml.sax.saxutils import escape, quoteattr

from hypothesis import strategies as st

from vlib import Prop, eq, ok, fail

from pyslet.qtiv2 import core, variables, expressions, xml as qtixml
from pyslet.rfc2396 import URI

BT = variables.BaseType
CD = variables.Cardinality

BASES = ['boolean', 'directedPair', 'duration', 'float', 'identifier',
         'integer', 'pair', 'point', 'string', 'uri']
NUMERIC = ('integer', 'float')
CARDS = ['single', 'ordered', 'multiple']
NS = 'http://www.imsglobal.org/xsd/imsqti_v2p1'


# --- the item

MAPPING = {'A': 3.0, 'B': -2.5, 'C': 10.0}
MAP_DEFAULT, MAP_LOW, MAP_HIGH = 0.5, -1.0, 11.0
RECT = (10, 10, 30, 40)


def item_xml():
    out = ['<assessmentItem xmlns="%s" identifier="I" title="I" '
           'adaptive="false" timeDependent="false">' % NS]
    for c in CARDS:
        out.append(
            '<responseDeclaration identifier="RM_%s" cardinality="%s" '
            'baseType="identifier"><defaultValue><value>A</value>'
            '</defaultValue><correctResponse><value>B</value>'
            '</correctResponse><mapping defaultValue="%s" lowerBound="%s" '
            'upperBound="%s">' % (c, c, MAP_DEFAULT, MAP_LOW, MAP_HIGH))
        for k, v in MAPPING.items():
            out.append('<mapEntry mapKey="%s" mappedValue="%s"/>' % (k, v))
        out.append('</mapping></responseDeclaration>')
        out.append(
            '<responseDeclaration identifier="RP_%s" cardinality="%s" '
            'baseType="point"><areaMapping defaultValue="-0.25">'
            '<areaMapEntry shape="rect" coords="10,10,30,40" '
            'mappedValue="2"/><areaMapEntry shape="rect" '
            'coords="0,0,60,60" mappedValue="5.5"/></areaMapping>'
            '</responseDeclaration>' % (c, c))
    for c in CARDS:
        for b in BASES:
            out.append('<outcomeDeclaration identifier="N_%s_%s" '
                       'cardinality="%s" baseType="%s"/>' % (c, b, c, b))
    for r in ('R1', 'R2', 'R0'):
        out.append('<outcomeDeclaration identifier="%s" '
                   'cardinality="record"/>' % r)
    for t, b in (('T_INT', 'integer'), ('T_FLT', 'float'),
                 ('T_STR', 'string')):
        out.append('<templateDeclaration identifier="%s" '
                   'cardinality="single" baseType="%s"/>' % (t, b))
    out.append('</assessmentItem>')
    return ''.join(out).encode('utf-8')


_item = []


def new_state():
    if not _item:
        doc = qtixml.QTIDocument()
        doc.read(src=BytesIO(item_xml()))
        _item.append(doc)
    return variables.ItemSessionState(_item[0].root)


# --- literals: python value -> text

def literal(base, v):
    if base == 'boolean':
        return 'true' if v else 'false'
    if base in ('float', 'duration'):
        if v != v:
            return 'NaN'
        if v in (math.inf, -math.inf):
            return 'INF' if v > 0 else '-INF'
        return repr(v)
    if base == 'integer':
        return str(v)
    if base in ('pair', 'directedPair', 'point'):
        return '%s %s' % v
    return v


IDS = ['A', 'B', 'C', 'Zed', 'a-1']
STRS = ['a', 'b', 'ab', 'AB', 'Ba', 'aab', 'b1', '1', 'a b', ' a', 'é',
        '{T}', 'É', 'abab']
URIS = ['http://example.com/a', 'b/c', 'a', '#f']

VALUES = {
    'boolean': st.booleans(),
    'directedPair': st.tuples(st.sampled_from(IDS), st.sampled_from(IDS)),
    'pair': st.tuples(st.sampled_from(IDS), st.sampled_from(IDS)).map(
        lambda t: tuple(sorted(t))),
    'duration': st.one_of(st.sampled_from([0.0, 1.0, 1.5, 60.0]),
                          st.floats(0, 1e6)),
    'float': st.one_of(
        st.sampled_from([0.0, 1.0, 1.5, -2.5, 2.0, 0.49999999999999994, -0.5,
                         3.14159, 1e10, 1e300, -1e300, math.inf, 100.0]),
        st.floats(-100, 100), st.integers(-20, 20).map(lambda i: i / 4.0),
        st.floats(allow_nan=True)),
    'identifier': st.sampled_from(IDS),
    'integer': st.one_of(st.integers(-4, 10), st.sampled_from(
        [2147483647, -2147483648, 65536, 100]),
        st.integers(-2147483648, 2147483647)),
    'point': st.tuples(st.integers(-5, 70), st.integers(-5, 70)),
    'string': st.sampled_from(STRS),
    'uri': st.sampled_from(URIS),
}

BAD_LITERALS = [('integer', '1.5'), ('integer', 'x'), ('integer',
                                                       '2147483648'),
                ('boolean', 'yes'), ('float', '1,5'), ('identifier', '1a'),
                ('identifier', 'a b'), ('pair', 'A'), ('pair', 'A B C'),
                ('directedPair', '1 2'), ('point', '1'), ('point', '1 x'),
                ('point', '1 2 3'), ('duration', 'long'),
                ('point', '1 2147483648'), ('float', '0x10')]


# --- generator

def tree(draw, wild):
    """wild: one in how many nodes ignores the type wanted (0: never)"""
    seen = [0]

    def rare(n):
        return n and draw(st.integers(1, n)) == n

    def base_of(*choices):
        return draw(st.sampled_from(choices or BASES))

    def gen(card, base, depth, top=False):
        seen[0] += 1
        if rare(wild):
            card = draw(st.sampled_from(CARDS + ['record']))
            base = base_of()
        r = 0 if top else draw(st.integers(0, 15))
        if r == 15:
            return ('null',)
        if r == 14:
            if card == 'record':
                return ('var', 'R0')
            return ('var', 'N_%s_%s' % (card, base))
        if seen[0] > 24:
            depth = 0
        if card == 'record':
            return ('var', draw(st.sampled_from(['R1', 'R2'])))
        if card in ('ordered', 'multiple'):
            if depth > 0 and rare(6):
                return ('delete', {}, [gen('single', base, depth - 1),
                                       gen(card, base, depth - 1)])
            if rare(12) and base in ('identifier', 'point'):
                return ('var', ('RM_' if base == 'identifier' else 'RP_') +
                        card)
            n = draw(st.integers(0, 4)) if depth > 0 else draw(
                st.integers(0, 3))
            subs = []
            for i in range(n):
                if depth > 1 and rare(6):
                    subs.append(gen(card, base, depth - 2))
                else:
                    subs.append(gen('single', base, max(0, depth - 2)))
            return (card, {}, subs)
        if depth <= 0 or (rare(5) and not top):
            if rare(40):
                return ('base',) + draw(st.sampled_from(BAD_LITERALS))
            v = draw(VALUES[base])
            return ('base', base, literal(base, v))
        d = depth - 1
        if rare(7):
            return ('index', {'n': str(draw(st.integers(0 if rare(6) else 1,
                                                        4)))},
                    [gen('ordered', base, d)])
        if rare(12):
            return ('fieldValue', {'fieldIdentifier': draw(
                st.sampled_from(['f', 'g', 'h']))}, [gen('record', None, d)])
        if base == 'boolean':
            return gen_bool(d)
        if base == 'integer':
            op = draw(st.sampled_from(
                ['sum', 'product', 'subtract', 'integerDivide',
                 'integerModulus', 'truncate', 'round', 'containerSize']))
            if op in ('sum', 'product'):
                return (op, {}, [gen('single', 'integer', d) for i in range(
                    draw(st.integers(1, 3)))])
            if op in ('truncate', 'round'):
                return (op, {}, [gen('single', 'float', d)])
            if op == 'containerSize':
                return (op, {}, [gen(base_card(), base_of(), d)])
            return (op, {}, [gen('single', 'integer', d)
                             for i in range(nargs(2))])
        if base == 'float':
            op = draw(st.sampled_from(
                ['sum', 'product', 'subtract', 'divide', 'power',
                 'integerToFloat', 'mapResponse', 'mapResponsePoint']))
            if op in ('sum', 'product'):
                return (op, {}, [gen('single', base_of(*NUMERIC), d)
                                 for i in range(draw(st.integers(1, 3)))])
            if op == 'integerToFloat':
                return (op, {}, [gen('single', 'integer', d)])
            if op == 'mapResponse':
                return (op, {'identifier': 'R1' if rare(9) else 'RM_' + draw(
                    st.sampled_from(CARDS))}, [])
            if op == 'mapResponsePoint':
                return (op, {'identifier': 'RM_single' if rare(9) else
                             'RP_' + draw(st.sampled_from(CARDS))}, [])
            return (op, {}, [gen('single', base_of(*NUMERIC), d)
                             for i in range(nargs(2))])
        if base == 'identifier' and rare(4):
            if rare(3):
                return ('var', 'RM_single')
            return (draw(st.sampled_from(['default', 'correct'])),
                    {'identifier': 'XXX' if rare(8) else 'R1' if rare(8)
                     else 'RM_' + draw(st.sampled_from(CARDS))}, [])
        v = draw(VALUES[base])
        return ('base', base, literal(base, v))

    def nargs(n):
        return draw(st.integers(0, 4)) if rare(40) else n

    def base_card():
        return draw(st.sampled_from(['ordered', 'multiple']))

    def int_ref(values):
        r = draw(st.integers(0, 19))
        if r == 0:
            return '{T_INT}'
        if r == 1 and wild:
            return draw(st.sampled_from(['{T_FLT}', '{NONE}', '{R1}', 'x',
                                         '1.5', '']))
        return str(draw(values))

    def gen_bool(d):
        op = draw(st.sampled_from(
            ['isNull', 'member', 'contains', 'substring', 'not', 'and', 'or',
             'anyN', 'match', 'stringMatch', 'patternMatch', 'equal', 'equal',
             'equalRounded', 'inside', 'lt', 'gt', 'lte', 'gte', 'durationLT',
             'durationGTE']))
        if op == 'isNull':
            return (op, {}, [gen(draw(st.sampled_from(CARDS + ['record'])),
                                 base_of(), d)])
        if op == 'member':
            b = base_of()
            return (op, {}, [gen('single', b, d), gen(base_card(), b, d)][
                :nargs(2)])
        if op == 'contains':
            b, c = base_of(), base_card()
            return (op, {}, [gen(c, b, d) for i in range(nargs(2))])
        if op == 'substring':
            at = {'caseSensitive': draw(st.sampled_from(['true', 'false']))}
            return (op, at, [gen('single', 'string', d)
                             for i in range(nargs(2))])
        if op == 'not':
            return (op, {}, [gen('single', 'boolean', d)])
        if op in ('and', 'or', 'anyN'):
            at = {}
            if op == 'anyN':
                at = {'min': int_ref(st.integers(-1, 4)),
                      'max': int_ref(st.integers(-1, 5))}
            return (op, at, [gen('single', 'boolean', d) for i in range(
                draw(st.integers(1, 4)))])
        if op == 'match':
            b = base_of()
            c = draw(st.sampled_from(['single', 'ordered', 'multiple',
                                      'record']))
            return (op, {}, [gen(c, b, d) for i in range(nargs(2))])
        if op == 'stringMatch':
            at = {'caseSensitive': draw(st.sampled_from(['true', 'false']))}
            if draw(st.booleans()):
                at['substring'] = draw(st.sampled_from(['true', 'false']))
            return (op, at, [gen('single', 'string', d)
                             for i in range(nargs(2))])
        if op == 'patternMatch':
            if rare(12):
                p = draw(st.sampled_from(['{T_STR}', '{NONE}', 'a(', '[b',
                                          '*', '{T_INT}', '']))
            else:
                p = draw(patterns)
            return (op, {'pattern': p}, [gen('single', 'string', d)])
        if op in ('lt', 'gt', 'lte', 'gte'):
            return (op, {}, [gen('single', base_of(*NUMERIC), d)
                             for i in range(nargs(2))])
        if op == 'equal':
            mode = draw(st.sampled_from(['exact', 'absolute', 'relative']))
            at = {'toleranceMode': mode}
            if mode != 'exact' and not rare(12):
                tol = []
                for i in range(draw(st.integers(1, 2))):
                    if rare(12):
                        tol.append(draw(st.sampled_from(
                            ['{T_FLT}', '{T_INT}', '{NONE}', 'x'])))
                    else:
                        tol.append(repr(draw(st.sampled_from(
                            [0.0, 1.0, 0.5, 2.5, 10.0, 50.0, 100.0]))))
                at['tolerance'] = ' '.join(tol)
            for k in ('includeLowerBound', 'includeUpperBound'):
                if draw(st.booleans()):
                    at[k] = draw(st.sampled_from(['true', 'false']))
            b = base_of(*NUMERIC)
            if rare(2):
                # close values
                v = draw(st.integers(-40, 40)) / 4.0
                w = v + draw(st.sampled_from([0, 0.5, -0.5, 1.0, -1.0, 2.5,
                                              -2.5, v / 2, -v / 2, v / 10]))
                return (op, at, [('base', 'float', repr(v)),
                                 ('base', 'float', repr(float(w)))])
            return (op, at, [gen('single', base_of(*NUMERIC), d)
                             for i in range(nargs(2))])
        if op == 'equalRounded':
            at = {'roundingMode': draw(st.sampled_from(
                ['decimalPlaces', 'significantFigures'])),
                'figures': int_ref(st.integers(-1 if rare(8) else 0, 6))}
            if rare(2):
                v = draw(st.one_of(st.floats(-1000, 1000), st.integers(
                    -4000, 4000).map(lambda i: i / 64.0)))
                w = v + draw(st.sampled_from(
                    [0, 0.001, -0.001, 0.01, 0.1, -0.1, 0.0004, 1e-6]))
                return (op, at, [('base', 'float', repr(v)),
                                 ('base', 'float', repr(float(w)))])
            return (op, at, [gen('single', base_of(*NUMERIC), d)
                             for i in range(nargs(2))])
        if op in ('durationLT', 'durationGTE'):
            return (op, {}, [gen('single', 'duration', d)
                             for i in range(nargs(2))])
        # inside
        shape = draw(st.sampled_from(['rect', 'circle', 'ellipse', 'poly',
                                      'default']))
        n = {'rect': 4, 'circle': 3, 'ellipse': 4, 'default': 0,
             'poly': 2 * draw(st.integers(3, 6))}[shape]
        if rare(25) and n:
            n = n - draw(st.integers(1, n))
        coords = ','.join(str(draw(st.integers(0, 60))) for i in range(n))
        if rare(40):
            coords = '10%,10,20,30,50,60'
        return ('inside', {'shape': shape, 'coords': coords},
                [gen(draw(st.sampled_from(CARDS)), 'point', d)])
    base = base_of()
    if draw(st.integers(0, 7)):
        base = base_of('boolean', 'boolean', 'boolean', 'integer', 'float')
    card = draw(st.sampled_from(['single'] * 9 + ['ordered', 'multiple']))
    return gen(card, base, draw(st.integers(2, 4)), True)


def _atom():
    return st.sampled_from(['a', 'b', 'ab', '1', '.', '[ab]', '[a-c]',
                            '[^a]', '\\d', '(a|b)', '(ab)', 'A', 'B', ' ',
                            'é'])


patterns = st.lists(st.tuples(_atom(), st.sampled_from(
    ['', '', '', '?', '*', '+', '{2}', '{1,2}'])), min_size=1,
    max_size=4).map(lambda l: ''.join(
        '(%s)%s' % (a, q) if q and len(a) > 1 and a[0] not in '[(\\' else
        a + q for a, q in l))


def field_value():
    return st.one_of(*[st.tuples(st.just(b), VALUES[b].map(
        lambda v, b=b: literal(b, v))) for b in
        ('boolean', 'float', 'integer', 'identifier', 'string', 'point',
         'duration')])


def small(base):
    return st.lists(VALUES[base].map(lambda v: literal(base, v)), max_size=4)


@st.composite
def cases(draw):
    wild = draw(st.sampled_from([0, 0, 0, 40, 12]))
    t = tree(draw, wild)
    return case_of(draw, t)


def case_of(draw, t):
    names = set()

    def walk(n):
        if n[0] == 'var':
            names.add(n[1])
        elif n[0] not in ('base', 'null'):
            for k, v in n[1].items():
                if k == 'identifier':
                    names.add(v)
                elif '{T_' in v:
                    names.update(x.strip('{}') for x in v.split())
            for s in n[2]:
                walk(s)
    walk(t)
    state = {}
    for r in ('R1', 'R2'):
        if r in names:
            state[r] = draw(st.dictionaries(st.sampled_from(
                ['f', 'g', 'h']), field_value(), max_size=3))
    if len(state) == 2 and draw(st.booleans()):
        state['R2'] = dict(state['R1'])
    for c in CARDS:
        for p, b in (('RM_', 'identifier'), ('RP_', 'point')):
            if p + c in names:
                v = draw(small(b))
                state[p + c] = v[:1] if c == 'single' else v
    for n, b in (('T_INT', 'integer'), ('T_FLT', 'float'),
                 ('T_STR', 'string')):
        if n in names and draw(st.integers(0, 4)):
            if n == 'T_STR':
                state[n] = [draw(patterns)]
            elif n == 'T_INT':
                state[n] = [str(draw(st.integers(0, 4)))]
            else:
                state[n] = [repr(draw(st.integers(0, 8)) / 4.0)]
    return (t, state)


# --- the oracle

class Bad(Exception):
    """a processing error"""


class Any(Exception):
    """result left open: test(result) if it is that of the whole tree"""

    def __init__(self, test=None):
        self.test = test


# a value is (cardinality, base, value): value None for NULL; ordered: a
# list; multiple: Counter; record: dict name: (base, value)

def read(base, text):
    """value of a literal or Bad"""
    if base == 'boolean':
        return {'true': True, '1': True, 'false': False, '0': False}[text]
    if base in ('float', 'duration'):
        return {'INF': math.inf, '-INF': -math.inf, 'NaN': math.nan}.get(
            text) if text in ('INF', '-INF', 'NaN') else float(text)
    if base == 'integer':
        return int(text)
    if base in ('pair', 'directedPair'):
        v = tuple(text.split())
        return tuple(sorted(v)) if base == 'pair' else v
    if base == 'point':
        return tuple(int(x) for x in text.split())
    return text or None


def one(base, v):
    return ('single', base, v)


def boolean(v):
    return ('single', 'boolean', v)


def check_base(*bases):
    r = None
    for b in bases:
        if b is None:
            continue
        if r is None:
            r = b
        elif b != r:
            raise Bad
    return r


def check_num(*bases):
    r = None
    for b in bases:
        if b is None:
            continue
        if b not in NUMERIC:
            raise Bad
        r = b if r in (None, b) else 'float'
    return r


def check_card(allowed, *cards):
    for c in cards:
        if c is not None and c not in allowed:
            raise Bad


def isnan(v):
    return isinstance(v, float) and v != v


def nan_in(v):
    if v is None:
        return False
    if isinstance(v, (list, Counter)):
        return any(isnan(x) for x in v)
    if isinstance(v, dict):
        return any(isnan(x[1]) for x in v.values())
    return isnan(v)


def integer(v):
    """an integer result: NULL or an error if out of range"""
    if not -2147483648 <= v <= 2147483647:
        raise Any(lambda r: r == 'error' or r == ('single', 'integer', None))
    return one('integer', v)


def flt(v):
    if v in (math.inf, -math.inf):
        raise Any(lambda r: r in (('single', 'float', None),
                                  ('single', 'float', v)))
    if v != v:
        raise Any(lambda r: r[0] == 'single' and r[1] == 'float' and (
            r[2] is None or isnan(r[2])))
    return one('float', v)


class Oracle(object):

    def __init__(self, state):
        self.state = state
        self.nulls = 0
        self.ops = set()

    def ev(self, node):
        if node[0] == 'null':
            return (None, None, None)
        if node[0] == 'base':
            if node[1:] in BAD_LITERALS:
                raise Bad
            return one(node[1], read(node[1], node[2]))
        if node[0] == 'var':
            return self.var(node[1])
        op, at, subs = node
        self.ops.add(op)
        vals = []
        err = None
        for s in subs:
            # errors win over open results
            try:
                vals.append(self.ev(s))
            except Any as e:
                err = err or e
        if err:
            raise Any()
        if any(v[2] is None for v in vals):
            self.nulls += 1
        return getattr(self, 'op_' + op)(at, vals)

    def var(self, name):
        if name[:2] == 'N_':
            c, b = name[2:].split('_')
            return (c, b, None)
        if name[0] == 'R' and name[1] in '012':
            v = self.state.get(name, {})
            return ('record', None, dict(
                (k, (b, read(b, t))) for k, (b, t) in v.items()) or None)
        if name[:2] in ('RM', 'RP'):
            b = 'identifier' if name[1] == 'M' else 'point'
            c = name[3:]
            v = [read(b, t) for t in self.state.get(name, [])]
            return self.make(c, b, v)
        b = {'T_INT': 'integer', 'T_FLT': 'float', 'T_STR': 'string'}[name]
        v = self.state.get(name)
        return one(b, read(b, v[0]) if v else None)

    def make(self, c, b, v):
        if not v:
            return (c, b, None)
        if c == 'single':
            return (c, b, v[0])
        if c == 'ordered':
            return (c, b, v)
        return (c, b, Counter(v))

    def ref(self, base, text):
        """integerOrTemplateRef, floatOrTemplateRef"""
        if text.startswith('{') and text.endswith('}'):
            name = text[1:-1]
            if name != {'integer': 'T_INT', 'float': 'T_FLT'}[base]:
                raise Bad
            v = self.var(name)[2]
            if v is None:
                raise Any(lambda r: r == 'error' or r[2] is None)
            return v
        try:
            return int(text) if base == 'integer' else float(text)
        except ValueError:
            raise Bad

    # leaves

    def op_default(self, at, vals):
        n = at['identifier']
        if n == 'XXX':
            raise Bad
        if n == 'R1':
            return ('record', None, None)
        return self.make(n[3:], 'identifier', ['A'])

    def op_correct(self, at, vals):
        n = at['identifier']
        if n in ('XXX', 'R1'):
            raise Bad
        return self.make(n[3:], 'identifier', ['B'])

    def op_mapResponse(self, at, vals):
        n = at['identifier']
        if n[:3] != 'RM_':
            raise Bad
        v = self.var(n)[2]
        if v is None:
            return self.null_map()
        vs = [v] if n[3:] == 'single' else set(v)
        t = sum(MAPPING.get(x, MAP_DEFAULT) for x in vs)
        return one('float', max(MAP_LOW, min(MAP_HIGH, t)))

    def null_map(self):
        raise Any(lambda r: r in (one('float', None), one('float', 0.0)))

    def op_mapResponsePoint(self, at, vals):
        n = at['identifier']
        if n[:3] != 'RP_':
            raise Bad
        v = self.var(n)[2]
        if v is None:
            return self.null_map()
        vs = [v] if n[3:] == 'single' else v
        if len(set(vs)) != len(vs):
            # whether the default counts once is open
            raise Any()
        t, hit = 0.0, set()
        for x, y in vs:
            if x in (0, 60, 10, 30) or y in (0, 60, 10, 40):
                raise Any()
            if 10 < x < 30 and 10 < y < 40:
                if 0 not in hit:
                    t += 2
                hit.add(0)
            elif 0 < x < 60 and 0 < y < 60:
                if 1 not in hit:
                    t += 5.5
                hit.add(1)
            else:
                t += -0.25
        return one('float', t)

    # containers

    def container(self, card, vals):
        b = check_base(*[v[1] for v in vals])
        check_card(('single', card), *[v[0] for v in vals])
        out = []
        for c, _, v in vals:
            if v is None:
                continue
            if c == 'single':
                out.append(v)
            elif c == 'ordered':
                out.extend(v)
            else:
                out.extend(v.elements())
        return self.make(card, b, out)

    def op_multiple(self, at, vals):
        r = self.container('multiple', vals)
        if nan_in(r[2]):
            raise Any()
        return r

    def op_ordered(self, at, vals):
        return self.container('ordered', vals)

    def op_containerSize(self, at, vals):
        c, b, v = vals[0]
        check_card(('ordered', 'multiple'), c)
        if v is None:
            return one('integer', 0)
        return one('integer', len(v) if c == 'ordered' else sum(v.values()))

    def op_isNull(self, at, vals):
        return boolean(vals[0][2] is None)

    def op_index(self, at, vals):
        c, b, v = vals[0]
        check_card(('ordered',), c)
        n = int(at['n'])
        if n < 1:
            if v is None:
                raise Any()
            raise Bad
        if v is None or n > len(v):
            return one(b, None)
        return one(b, v[n - 1])

    def op_fieldValue(self, at, vals):
        c, b, v = vals[0]
        check_card(('record',), c)
        f = (v or {}).get(at['fieldIdentifier'])
        if f is None:
            return one(None, None)
        return one(*f)

    def op_member(self, at, vals):
        if len(vals) != 2:
            raise Bad
        s, c = vals
        b = check_base(s[1], c[1])
        check_card(('single',), s[0])
        check_card(('ordered', 'multiple'), c[0])
        if b == 'duration':
            raise Bad
        if s[2] is None or c[2] is None:
            return boolean(None)
        if isnan(s[2]) or nan_in(c[2]):
            raise Any()
        return boolean(s[2] in c[2])

    def op_delete(self, at, vals):
        if len(vals) != 2:
            raise Bad
        s, c = vals
        b = check_base(s[1], c[1])
        check_card(('single',), s[0])
        check_card(('ordered', 'multiple'), c[0])
        if b == 'duration':
            raise Bad
        if s[2] is None or c[2] is None:
            return (c[0], b, None)
        if isnan(s[2]) or nan_in(c[2]):
            raise Any()
        if c[0] == 'ordered':
            return self.make('ordered', b, [x for x in c[2] if x != s[2]])
        return self.make('multiple', b, [x for x in c[2].elements()
                                         if x != s[2]])

    def op_contains(self, at, vals):
        # direction as the tests have it: the second holds the first
        if len(vals) != 2:
            raise Bad
        x, y = vals
        b = check_base(x[1], y[1])
        c = check_base(x[0], y[0])
        check_card(('ordered', 'multiple'), c)
        if b == 'duration':
            raise Bad
        if x[2] is None or y[2] is None:
            return boolean(None)
        if nan_in(x[2]) or nan_in(y[2]):
            raise Any()
        if c == 'ordered':
            n = len(x[2])
            return boolean(any(y[2][i:i + n] == x[2]
                               for i in range(len(y[2]))))
        return boolean(all(y[2][k] >= n for k, n in x[2].items()))

    # strings

    def strings(self, vals):
        if len(vals) != 2:
            raise Bad
        check_base('string', *[v[1] for v in vals])
        check_card(('single',), *[v[0] for v in vals])
        if None in (vals[0][2], vals[1][2]):
            return None
        return vals[0][2], vals[1][2]

    def op_substring(self, at, vals):
        v = self.strings(vals)
        if not v:
            return boolean(None)
        if at.get('caseSensitive') == 'false':
            return boolean(v[0].lower() in v[1].lower())
        return boolean(v[0] in v[1])

    def op_stringMatch(self, at, vals):
        v = self.strings(vals)
        if not v:
            return boolean(None)
        a, b = v
        if at.get('caseSensitive') == 'false':
            a, b = a.lower(), b.lower()
        return boolean(a in b if at.get('substring') == 'true' else a == b)

    def op_patternMatch(self, at, vals):
        c, b, v = vals[0]
        check_base('string', b)
        check_card(('single',), c)
        p = at['pattern']
        if p == '{T_STR}':
            p = self.var('T_STR')[2]
            if p is None:
                raise Any(lambda r: r == 'error' or r == boolean(None))
        elif p == '{T_INT}':
            raise Bad
        if v is None:
            return boolean(None)
        if p in ('{NONE}', 'a(', '[b', '*'):
            return boolean(None)
        return boolean(pyre.fullmatch(p, v) is not None)

    # logic

    def logic(self, vals):
        check_base('boolean', *[v[1] for v in vals])
        check_card(('single',), *[v[0] for v in vals])
        return [v[2] for v in vals]

    def op_not(self, at, vals):
        v = self.logic(vals)[0]
        return boolean(None if v is None else not v)

    def op_and(self, at, vals):
        v = self.logic(vals)
        return boolean(False if False in v else None if None in v else True)

    def op_or(self, at, vals):
        v = self.logic(vals)
        return boolean(True if True in v else None if None in v else False)

    def op_anyN(self, at, vals):
        lo = hi = None
        err = None
        for k in ('min', 'max'):
            try:
                n = self.ref('integer', at[k])
                lo, hi = (n, hi) if k == 'min' else (lo, n)
            except Any as e:
                err = e
        v = self.logic(vals)
        if err:
            raise err
        t, n = v.count(True), v.count(None)
        outcomes = set(lo <= x <= hi for x in range(t, t + n + 1))
        if len(outcomes) > 1:
            return boolean(None)
        if n and lo > hi:
            # never true, whatever the NULLs are
            raise Any(lambda r: r in (boolean(None), boolean(False)))
        return boolean(outcomes.pop())

    def op_match(self, at, vals):
        if len(vals) != 2:
            raise Bad
        x, y = vals
        c = check_base(x[0], y[0])
        b = check_base(x[1], y[1])
        if b == 'duration':
            raise Bad
        if x[2] is None or y[2] is None:
            return boolean(None)
        if nan_in(x[2]) or nan_in(y[2]):
            raise Any()
        if c == 'record':
            for k in set(x[2]) & set(y[2]):
                if x[2][k][0] != y[2][k][0] or x[2][k][0] == 'duration':
                    raise Any()
        return boolean(x[2] == y[2])

    # numbers

    def numbers(self, vals, n=2):
        if len(vals) != n:
            raise Bad
        b = check_num(*[v[1] for v in vals])
        check_card(('single',), *[v[0] for v in vals])
        if any(v[2] is None for v in vals):
            return b, None
        return b, [v[2] for v in vals]

    def compare(self, vals, f):
        b, v = self.numbers(vals)
        if v is None:
            return boolean(None)
        return boolean(f(float(v[0]), float(v[1])))

    def op_lt(self, at, vals):
        return self.compare(vals, lambda x, y: x < y)

    def op_gt(self, at, vals):
        return self.compare(vals, lambda x, y: x > y)

    def op_lte(self, at, vals):
        return self.compare(vals, lambda x, y: x <= y)

    def op_gte(self, at, vals):
        return self.compare(vals, lambda x, y: x >= y)

    def durations(self, vals):
        if len(vals) != 2:
            raise Bad
        check_base('duration', *[v[1] for v in vals])
        check_card(('single',), *[v[0] for v in vals])
        if any(v[2] is None for v in vals):
            return None
        return [v[2] for v in vals]

    def op_durationLT(self, at, vals):
        v = self.durations(vals)
        return boolean(None if v is None else v[0] < v[1])

    def op_durationGTE(self, at, vals):
        v = self.durations(vals)
        return boolean(None if v is None else v[0] >= v[1])

    def op_equal(self, at, vals):
        b, v = self.numbers(vals)
        if v is None:
            if at['toleranceMode'] != 'exact':
                raise Any(lambda r: r == 'error' or r == boolean(None))
            return boolean(None)
        x, y = map(float, v)
        if at['toleranceMode'] == 'exact':
            return boolean(x == y)
        tol = at.get('tolerance', '').split()
        if not tol:
            raise Bad
        err = None
        ts = []
        for t in tol:
            try:
                ts.append(self.ref('float', t))
            except Any as e:
                err = e
        if err:
            raise err
        if not (math.isfinite(x) and math.isfinite(y)):
            raise Any()
        t0, t1 = Fraction(ts[0]), Fraction(ts[-1])
        fx, fy = Fraction(x), Fraction(y)
        if at['toleranceMode'] == 'absolute':
            lo, hi = fx - t0, fx + t1
        else:
            lo, hi = fx * (1 - t0 / 100), fx * (1 + t1 / 100)
        for bound in (lo, hi):
            # too close for floating point arithmetic to tell
            if bound != fy and abs(fy - bound) <= abs(bound) / 10 ** 12:
                raise Any()
            if bound == fy and float(bound) * 8 != int(float(bound) * 8):
                raise Any()
            if bound == fy and (t0 / 100).denominator & (
                    (t0 / 100).denominator - 1):
                raise Any()
            if bound == fy and (t1 / 100).denominator & (
                    (t1 / 100).denominator - 1):
                raise Any()
        low = fy >= lo if at.get('includeLowerBound', 'true') == 'true' \
            else fy > lo
        high = fy <= hi if at.get('includeUpperBound', 'true') == 'true' \
            else fy < hi
        return boolean(low and high)

    def op_equalRounded(self, at, vals):
        b, v = self.numbers(vals)
        try:
            n = self.ref('integer', at['figures'])
            sig = at['roundingMode'] == 'significantFigures'
            if n < (1 if sig else 0):
                raise Bad
        except (Bad, Any) as e:
            if v is None:
                # the attribute is not needed
                raise Any(lambda r: r == 'error' or r == boolean(None))
            raise
        if v is None:
            return boolean(None)
        x, y = map(float, v)
        if x == y:
            return boolean(True)
        if not (math.isfinite(x) and math.isfinite(y)):
            return boolean(False)

        def rounded(f):
            r = round_to(Fraction(f))
            if r != round_to(Fraction(repr(f))):
                # depends on what the float stands for
                raise Any()
            return r

        def round_to(d):
            if not d:
                return d
            q = n
            if sig:
                e = (Decimal(d.numerator) / Decimal(d.denominator)
                     ).adjusted()
                q = n - 1 - e
            s = d * Fraction(10) ** q
            lo = math.floor(s)
            if s - lo == Fraction(1, 2):
                raise Any()
            return Fraction(lo + (1 if s - lo > Fraction(1, 2) else 0)) / (
                Fraction(10) ** q)
        return boolean(rounded(x) == rounded(y))

    def op_sum(self, at, vals):
        b, v = self.numbers(vals, len(vals))
        if v is None:
            return one(b, None)
        if b == 'integer':
            return integer(sum(v))
        r = 0
        for x in v:
            r = r + x
        return flt(float(r))

    def op_product(self, at, vals):
        b, v = self.numbers(vals, len(vals))
        if v is None:
            return one(b, None)
        r = 1
        for x in v:
            r = r * x
        return integer(r) if b == 'integer' else flt(float(r))

    def op_subtract(self, at, vals):
        b, v = self.numbers(vals)
        if v is None:
            return one(b, None)
        r = v[0] - v[1]
        return integer(r) if b == 'integer' else flt(float(r))

    def op_divide(self, at, vals):
        b, v = self.numbers(vals)
        if v is None or float(v[1]) == 0:
            return one('float', None)
        return flt(float(v[0]) / float(v[1]))

    def op_power(self, at, vals):
        b, v = self.numbers(vals)
        if v is None:
            return one('float', None)
        x, y = map(float, v)
        try:
            return flt(math.pow(x, y))
        except ValueError:
            return one('float', None)
        except OverflowError:
            raise Any(lambda r: r[:2] == ('single', 'float') and (
                r[2] is None or r[2] in (math.inf, -math.inf)))

    def integers(self, vals):
        if len(vals) != 2:
            raise Bad
        check_base('integer', *[v[1] for v in vals])
        check_card(('single',), *[v[0] for v in vals])
        if any(v[2] is None for v in vals) or vals[1][2] == 0:
            return None
        return [v[2] for v in vals]

    def op_integerDivide(self, at, vals):
        v = self.integers(vals)
        if v is None:
            return one('integer', None)
        return integer(math.floor(Fraction(v[0], v[1])))

    def op_integerModulus(self, at, vals):
        v = self.integers(vals)
        if v is None:
            return one('integer', None)
        return integer(v[0] - math.floor(Fraction(v[0], v[1])) * v[1])

    def float1(self, vals):
        c, b, v = vals[0]
        check_base('float', b)
        check_card(('single',), c)
        if v is not None and not math.isfinite(v):
            # there is no such integer
            raise Any(lambda r: r == one('integer', None))
        return v

    def op_truncate(self, at, vals):
        v = self.float1(vals)
        return one('integer', None) if v is None else integer(math.trunc(v))

    def op_round(self, at, vals):
        v = self.float1(vals)
        if v is None:
            return one('integer', None)
        return integer(math.floor(Fraction(v) + Fraction(1, 2)))

    def op_integerToFloat(self, at, vals):
        c, b, v = vals[0]
        check_base('integer', b)
        check_card(('single',), c)
        return one('float', None if v is None else float(v))

    def op_inside(self, at, vals):
        c, b, v = vals[0]
        check_base('point', b)
        check_card(('single', 'ordered', 'multiple'), c)
        coords = at['coords'].split(',') if at['coords'] else []
        shape = at['shape']
        if '10%' in coords:
            raise Any()
        need = {'rect': 4, 'circle': 3, 'ellipse': 4, 'poly': 6,
                'default': 0}[shape]
        bad = len(coords) < need or (shape == 'poly' and len(coords) % 2)
        if v is None:
            if bad:
                raise Any()
            return boolean(None)
        if bad:
            raise Bad
        n = [int(x) for x in coords]
        rs = [inside(shape, n, p) for p in ([v] if c == 'single' else v)]
        if True in rs:
            return boolean(True)
        if None in rs:
            raise Any(lambda r: r in (boolean(True), boolean(False)))
        return boolean(False)


def inside(shape, n, p):
    """True, False or None (on the edge, or undefined)"""
    x, y = p
    if shape == 'default':
        return True if x >= 0 and y >= 0 else None
    if shape == 'rect':
        x0, x1 = sorted((n[0], n[2]))
        y0, y1 = sorted((n[1], n[3]))
        if x0 < x < x1 and y0 < y < y1:
            return True
        if x0 <= x <= x1 and y0 <= y <= y1:
            return None
        return False
    if shape == 'circle':
        d = (x - n[0]) ** 2 + (y - n[1]) ** 2 - n[2] ** 2
        return None if d == 0 else d < 0
    if shape == 'ellipse':
        if not n[2] or not n[3]:
            return None
        d = Fraction((x - n[0]) ** 2, n[2] ** 2) + Fraction(
            (y - n[1]) ** 2, n[3] ** 2) - 1
        return None if d == 0 else d < 0
    pts = list(zip(n[::2], n[1::2]))
    crossings = 0
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        cross = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
        if cross == 0 and min(x0, x1) <= x <= max(x0, x1) and \
                min(y0, y1) <= y <= max(y0, y1):
            return None
        if (y0 > y) != (y1 > y):
            at = x0 + Fraction((y - y0) * (x1 - x0), (y1 - y0))
            if at > x:
                crossings += 1
    return crossings % 2 == 1


# --- the implementation

def to_xml(node, top=True):
    ns = ' xmlns="%s"' % NS if top else ''
    if node[0] == 'null':
        return '<null%s/>' % ns
    if node[0] == 'base':
        return '<baseValue%s baseType="%s">%s</baseValue>' % (
            ns, node[1], escape(node[2]))
    if node[0] == 'var':
        return '<variable%s identifier="%s"/>' % (ns, node[1])
    at = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in node[1].items())
    return '<%s%s%s>%s</%s>' % (node[0], ns, at, ''.join(
        to_xml(s, False) for s in node[2]), node[0])


BT_NAMES = dict((getattr(BT, b), b) for b in BASES)
CD_NAMES = dict((getattr(CD, c), c) for c in CARDS + ['record'])


def py(base, v):
    if base == 'uri':
        return str(v)
    return v


def view(value):
    """a Value as (cardinality, base, value)"""
    ok(isinstance(value, variables.Value), 'result is a %s' % type(value))
    c = CD_NAMES.get(value.cardinality())
    b = BT_NAMES.get(value.baseType)
    v = value.value
    if v is None:
        ok(not value, 'NULL value is true')
        return (c, b, None)
    ok(bool(value), 'non-NULL value is false')
    if c == 'ordered':
        v = [py(b, x) for x in v]
    elif c == 'multiple':
        v = Counter(dict((py(b, k), n) for k, n in v.items()))
    elif c == 'record':
        v = dict((k, (BT_NAMES.get(f.baseType), py(
            BT_NAMES.get(f.baseType), f.value))) for k, f in v.items())
    else:
        v = py(b, v)
        if b == 'integer':
            ok(type(v) is int, 'integer is %r' % (v,))
        elif b in ('float', 'duration'):
            ok(type(v) is float, '%s is %r' % (b, v))
        elif b == 'boolean':
            ok(type(v) is bool, 'boolean is %r' % (v,))
    return (c, b, v)


def close(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or (x != x and y != y) or (
            math.isfinite(x) and math.isfinite(y) and
            abs(x - y) <= 1e-9 * max(abs(x), abs(y)))
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(map(close, x, y))
    if isinstance(x, Counter) or isinstance(y, Counter):
        if not (isinstance(x, Counter) and isinstance(y, Counter)):
            return False
        try:
            return x == y or close(sorted(x.elements()),
                                   sorted(y.elements()))
        except TypeError:
            return False
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(
            x[k][0] == y[k][0] and close(x[k][1], y[k][1]) for k in x)
    return x == y


def apply_state(state, values):
    for n, v in values.items():
        if n in ('R1', 'R2'):
            state[n].set_value(dict(
                (k, variables.SingleValue.new_value(getattr(BT, b), t))
                for k, (b, t) in v.items()))
        elif n.startswith('T_') or n.endswith('_single'):
            state[n].set_value(v[0] if v else None)
        else:
            b = BT.identifier if n[1] == 'M' else BT.point
            state[n].set_value([variables.SingleValue.new_value(
                b, t).value for t in v])


def parse(t):
    doc = qtixml.QTIDocument()
    doc.read(src=BytesIO(to_xml(t).encode('utf-8')))
    return doc.root


def evaluate(root, state):
    try:
        return view(root.evaluate(state))
    except core.ProcessingError:
        return 'error'


def check(case, c):
    t, values = case
    state = new_state()
    apply_state(state, values)
    oracle = Oracle(values)
    test = None
    try:
        expect = oracle.ev(t)
    except Bad:
        expect = 'error'
    except Any as e:
        expect, test = 'any', e.test
    got = evaluate(parse(t), state)
    for o in oracle.ops:
        c.label(o)
    c.label('error' if expect == 'error' else 'open' if expect == 'any'
            else 'null' if expect[2] is None else 'value')
    if len(oracle.ops) > 1 and (expect not in ('any', 'error') or
                                oracle.nulls):
        c.nontrivial()
    if expect == 'any':
        if test is not None:
            ok(test(got), '%s gives %r' % (to_xml(t), got))
    elif expect == 'error' or got == 'error':
        ok(expect == got, '%s gives %r, expected %r' % (to_xml(t), got,
                                                        expect))
    else:
        ok(got[:2] == expect[:2] and close(got[2], expect[2]),
           '%s gives %r, expected %r' % (to_xml(t), got, expect))


# --- one operator on operands that nearly agree

@st.composite
def near_cases(draw):
    op = draw(st.sampled_from(['contains', 'contains', 'delete', 'member',
                               'match', 'equal', 'equal', 'equal',
                               'equalRounded', 'anyN', 'patternMatch',
                               'stringMatch', 'substring', 'mapResponse',
                               'mapResponsePoint', 'inside']))

    def base(b, v):
        return ('base', b, literal(b, v))

    def yes():
        return draw(st.sampled_from(['true', 'false']))

    def container(c, b, pool, lo=0, hi=5):
        return (c, {}, [base(b, v) for v in draw(st.lists(
            st.sampled_from(pool), min_size=lo, max_size=hi))])
    c = draw(st.sampled_from(['ordered', 'multiple']))
    b, pool = draw(st.sampled_from(
        [('identifier', ['A', 'B']), ('integer', [1, 2, 3]),
         ('boolean', [True, False]), ('pair', [('A', 'B'), ('A', 'C')]),
         ('directedPair', [('A', 'B'), ('B', 'A')]),
         ('point', [(1, 2), (2, 1)]), ('float', [0.5, 1.0]),
         ('string', ['a', 'A']), ('uri', ['a', 'b'])]))
    at = {}
    if op in ('contains', 'match'):
        subs = [container(c, b, pool, 1, 3 if op == 'contains' else 5),
                container(c, b, pool, 1, 6)]
        if op == 'match' and draw(st.booleans()):
            subs[1] = (c, {}, draw(st.permutations(subs[0][2])))
    elif op in ('delete', 'member'):
        subs = [base(b, draw(st.sampled_from(pool))),
                container(c, b, pool, 1, 6)]
    elif op == 'equal':
        at = {'toleranceMode': draw(st.sampled_from(['absolute',
                                                     'relative']))}
        rel = at['toleranceMode'] == 'relative'
        tol = draw(st.lists(st.sampled_from(
            [25.0, 50.0, 100.0] if rel else [0.25, 0.5, 1.0]), min_size=1,
            max_size=2))
        at['tolerance'] = ' '.join(map(repr, tol))
        for k in ('includeLowerBound', 'includeUpperBound'):
            if draw(st.booleans()):
                at[k] = yes()
        x = draw(st.sampled_from([0.0, 1.0, 2.0, 4.0, -2.0, 1.5]))
        t0, t1 = tol[0], tol[-1]
        if rel:
            t0, t1 = x * t0 / 100, x * t1 / 100
        y = draw(st.sampled_from([x, x - t0, x + t1, x - t1, x + t0])) + \
            draw(st.sampled_from([0.0, 0.0, 0.125, -0.125]))
        subs = [base('float', x), base('float', y)]
    elif op == 'equalRounded':
        sig = draw(st.booleans())
        n = draw(st.integers(1 if sig else 0, 4))
        at = {'roundingMode': 'significantFigures' if sig else
              'decimalPlaces', 'figures': str(n)}
        e = draw(st.integers(-3, 3))
        m = draw(st.integers(1, 99999))
        x = float('%de%d' % (m, e - (0 if sig else n)))
        q = len(str(m)) - n if sig else 0
        y = float('%de%d' % (10 * m + draw(st.integers(-9, 9)) * 10 ** max(
            q, 0), e - (0 if sig else n) - 1))
        sign = draw(st.sampled_from([1, -1]))
        subs = [base('float', sign * x), base('float', sign * y)]
    elif op == 'anyN':
        at = {'min': str(draw(st.integers(0, 3))),
              'max': str(draw(st.integers(0, 4)))}
        subs = [draw(st.sampled_from(
            [('base', 'boolean', 'true'), ('base', 'boolean', 'false'),
             ('null',), ('var', 'N_single_boolean')]))
            for i in range(draw(st.integers(1, 5)))]
    elif op == 'patternMatch':
        at = {'pattern': draw(patterns)}
        subs = [base('string', draw(st.text('ab1A', min_size=1,
                                            max_size=5)))]
    elif op in ('stringMatch', 'substring'):
        at = {'caseSensitive': yes()}
        if op == 'stringMatch':
            at['substring'] = yes()
        subs = [base('string', draw(st.text('abAB', min_size=1, max_size=n)))
                for n in (2, 5)]
    elif op == 'inside':
        shape, n = draw(st.sampled_from([('rect', 4), ('circle', 3),
                                         ('ellipse', 4), ('poly', 8)]))
        at = {'shape': shape, 'coords': ','.join(
            str(draw(st.integers(0, 12))) for i in range(n))}
        pts = st.tuples(st.integers(0, 12), st.integers(0, 12))
        subs = [(c, {}, [base('point', draw(pts)) for i in range(
            draw(st.integers(1, 3)))])]
        if draw(st.booleans()):
            subs = [base('point', draw(pts))]
    else:
        at = {'identifier': ('RM_' if op == 'mapResponse' else 'RP_') + draw(
            st.sampled_from(CARDS))}
        subs = []
    return case_of(draw, (op, at, subs))


def check_near(case, c):
    check(case, c)
    if case[0][2]:
        c.nontrivial()


# --- operators that draw lots

@st.composite
def random_cases(draw):
    wild = draw(st.integers(0, 9)) == 0

    def ref(base, v):
        if wild and draw(st.integers(0, 3)) == 0:
            return draw(st.sampled_from(
                ['{NONE}', '{T_STR}', '{T_INT}', '{T_FLT}', 'x', '']))
        if draw(st.integers(0, 5)) == 0:
            return '{T_INT}' if base == 'integer' else '{T_FLT}'
        return literal(base, v)
    op = draw(st.sampled_from(['randomInteger', 'randomFloat', 'random']))
    if op == 'randomInteger':
        lo = draw(st.integers(-5, 5))
        hi = lo + draw(st.integers(-1 if wild else 0, 12))
        at = {'min': ref('integer', lo), 'max': ref('integer', hi)}
        if draw(st.booleans()):
            at['step'] = ref('integer', draw(st.integers(
                0 if wild else 1, 4)))
        t = (op, at, [])
    elif op == 'randomFloat':
        lo = draw(st.integers(-20, 20)) / 4.0
        hi = lo + draw(st.integers(0, 40)) / 4.0
        t = (op, {'min': ref('float', lo), 'max': ref('float', hi)}, [])
    else:
        b = draw(st.sampled_from(BASES))
        cd = draw(st.sampled_from(['ordered', 'multiple']))
        if wild:
            t = (op, {}, [draw(st.sampled_from(
                [('null',), ('base', 'integer', '1'), ('var', 'R1'),
                 ('var', 'N_ordered_point'), ('var', 'N_single_point')]))])
        else:
            t = (op, {}, [(cd, {}, [
                ('base', b, literal(b, v)) for v in draw(st.lists(
                    VALUES[b].filter(lambda v: not isnan(v)),
                    max_size=5))])])
    return case_of(draw, t) + (draw(st.integers(0, 1 << 30)),)


def check_random(case, c):
    import random
    t, values, seed = case
    random.seed(seed)
    state = new_state()
    apply_state(state, values)
    root = parse(t)
    o = Oracle(values)
    c.label(t[0])
    if t[0] == 'random':
        try:
            cd, b, v = o.ev(t[2][0])
            check_card(('ordered', 'multiple'), cd)
        except Bad:
            eq(evaluate(root, state), 'error', 'random on a bad operand')
            return
        if v is None:
            eq(evaluate(root, state), one(b, None), 'random of NULL')
            return
        allowed = [one(b, x) for x in (v if cd == 'ordered' else list(v))]
    else:
        base = 'integer' if t[0] == 'randomInteger' else 'float'
        try:
            r = [o.ref(base, t[1].get(k, d)) for k, d in (
                ('min', '0'), ('max', '0'), ('step', '1'))[
                    :3 if base == 'integer' else 2]]
        except Bad:
            eq(evaluate(root, state), 'error', 'bad parameter')
            return
        except Any:
            # one of them NULL: an error or a NULL (another may be wrong)
            got = evaluate(root, state)
            ok(got == 'error' or got[2] is None,
               'NULL parameter gives %r' % (got,))
            return
        if base == 'float':
            lo, hi = r
            for i in range(8):
                got = evaluate(root, state)
                if lo > hi:
                    continue
                ok(got != 'error' and got[:2] == ('single', 'float') and
                   lo <= got[2] <= hi, 'randomFloat %r gives %r' % (t, got))
            if hi > lo:
                c.nontrivial()
                s = set(evaluate(root, state)[2] for i in range(20))
                ok(len(s) > 1, 'randomFloat always gives the same')
            return
        lo, hi, step = r
        if hi < lo or step < 1:
            got = evaluate(root, state)
            ok(got == 'error' or step < 1, 'empty range gives %r' % (got,))
            return
        allowed = [one('integer', x) for x in range(lo, hi + 1, step)]
    got = [evaluate(root, state) for i in range(60 if len(allowed) < 4
                                                else 12)]
    for g in got:
        ok(any(g == 'error' or (g[:2] == a[:2] and close(g[2], a[2]))
               for a in allowed) and g != 'error',
           '%s gives %r, allowed %r' % (to_xml(t), g, allowed))
    if len(allowed) > 1:
        c.nontrivial()
        if len(allowed) < 4:
            for a in allowed:
                ok(any(close(g[2], a[2]) for g in got),
                   '%s never gives %r' % (to_xml(t), a))


PROPS = [
    Prop('expressions', cases(), check, quick=15000, thorough=200000,
         rule='more than one operator, with a definite result or NULL '
              'operands'),
    Prop('near', near_cases(), check_near, quick=8000, thorough=120000,
         rule='the operator has operands'),
    Prop('random', random_cases(), check_random, quick=1000, thorough=15000,
         rule='more than one value may be drawn'),
]
