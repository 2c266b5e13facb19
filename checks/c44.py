"""C44: QTI item and test sessions follow the rules of the item and test.

items: items with generated declarations, template and response processing
rules are run through generated histories of attempts, saved and submitted
responses and compared, after every event, with an interpreter of the rules
written here.  forms: tests with generated sections, selection and ordering
rules give forms that the rules allow.  tests: linear tests with
pre-conditions and branch rules are run through generated histories of
events, good and bad keys, on a virtual clock, against a walk of the form."""

import random
from io import BytesIO
from types import SimpleNamespace

from hypothesis import strategies as st

from vlib import Enum, Prop, eq, ok, fail

from pyslet.qtiv2 import core, tests, variables, xml as qtixml

from checks.c43 import NS, view

ERRORS = (core.ProcessingError, ValueError)


# --- expressions: tuples, evaluated over a dictionary of (card, base, value)

def xexpr(e):
    k = e[0]
    if k == 'bool':
        return '<baseValue baseType="boolean">%s</baseValue>' % (
            'true' if e[1] else 'false')
    if k == 'int':
        return '<baseValue baseType="integer">%d</baseValue>' % e[1]
    if k == 'id':
        return '<baseValue baseType="identifier">%s</baseValue>' % e[1]
    if k == 'null':
        return '<null/>'
    if k == 'var':
        return '<variable identifier="%s"/>' % e[1]
    if k == 'correct':
        return '<correct identifier="%s"/>' % e[1]
    if k == 'default':
        return '<default identifier="%s"/>' % e[1]
    return '<%s>%s</%s>' % (k, ''.join(xexpr(x) for x in e[1:]), k)


class Bad(Exception):
    pass


def ev(e, env):
    """Returns (card, base, value)"""
    k = e[0]
    if k == 'bool':
        return ('single', 'boolean', e[1])
    if k == 'int':
        return ('single', 'integer', e[1])
    if k == 'id':
        return ('single', 'identifier', e[1])
    if k == 'null':
        return (None, None, None)
    if k == 'var':
        return env[e[1]]
    if k == 'correct':
        return env[e[1] + '.CORRECT']
    if k == 'default':
        return env[e[1] + '.DEFAULT']
    args = [ev(x, env) for x in e[1:]]

    def types(n, want):
        for a in args:
            if a[n] not in (None, want):
                raise Bad(e)
    if k == 'isNull':
        return ('single', 'boolean', args[0][2] is None)
    if k == 'match':
        a, b = args
        for n in (0, 1):
            if None not in (a[n], b[n]) and a[n] != b[n]:
                raise Bad(e)
        if a[2] is None or b[2] is None:
            return ('single', 'boolean', None)
        return ('single', 'boolean', a[2] == b[2])
    if k == 'not':
        types(0, 'single')
        types(1, 'boolean')
        v = args[0][2]
        return ('single', 'boolean', None if v is None else not v)
    if k in ('multiple', 'ordered'):
        for a in args:
            if a[0] not in (None, 'single', k):
                raise Bad(e)
        bases = set(a[1] for a in args if a[1])
        if len(bases) > 1:
            raise Bad(e)
        out = []
        for a in args:
            if a[2] is None:
                continue
            if a[0] == 'single':
                out.append(a[2])
            else:
                out.extend(a[2])
        return (k, bases.pop() if bases else None,
                (sorted(out) if k == 'multiple' else out) or None)
    # sum of integers
    for a in args:
        if a[1] not in (None, 'integer') or a[0] == 'record':
            raise Bad(e)
    total = 0
    for a in args:
        if a[2] is None:
            return ('single', 'integer', None)
        total += sum(a[2]) if isinstance(a[2], list) else a[2]
    return ('single', 'integer', total)


def seen(v):
    """view of a value with members of containers listed"""
    card, base, value = view(v)
    if card == 'multiple' and value is not None:
        value = sorted(value.elements())
    return (card, base, value)


# --- items

TYPES = [('single', 'identifier'), ('single', 'integer'),
         ('single', 'boolean'), ('multiple', 'identifier'),
         ('ordered', 'identifier'), ('ordered', 'integer'),
         ('multiple', 'integer')]
CHOICES = ['A', 'B', 'C']


def value_of(draw, base):
    if base == 'identifier':
        return draw(st.sampled_from(CHOICES))
    if base == 'integer':
        return draw(st.integers(0, 3))
    return draw(st.booleans())


def values_of(draw, card, base):
    if card == 'single':
        return value_of(draw, base)
    v = [value_of(draw, base) for i in range(draw(st.integers(1, 3)))]
    return sorted(v) if card == 'multiple' else v


def const(base, v):
    return ({'identifier': 'id', 'integer': 'int', 'boolean': 'bool'}[base],
            v)


def gen_expr(draw, decls, card, base, depth, wrong):
    """An expression of the given type, or now and then another"""
    if wrong and draw(st.integers(0, 59)) == 0:
        card, base = draw(st.sampled_from(TYPES))
    opts = ['const', 'const']
    names = [d for d in decls if d[2:4] == (card, base)]
    resp = [d for d in names if d[0] == 'response']
    defs = [d for d in names if d[0] != 'template']
    if names:
        opts += ['var'] * 4
    if resp:
        opts += ['correct'] * 2
    if defs:
        opts += ['default']
    if draw(st.integers(0, 14)) == 0:
        return ('null',)
    if depth:
        if (card, base) == ('single', 'boolean'):
            opts += ['match'] * 5 + ['isNull', 'not', 'not']
        if (card, base) == ('single', 'integer'):
            opts += ['sum'] * 3
    k = draw(st.sampled_from(opts))
    if k == 'const':
        if card == 'single':
            return const(base, value_of(draw, base))
        return (card,) + tuple(
            gen_expr(draw, decls, 'single', base, 0, wrong)
            for i in range(draw(st.integers(1, 3))))
    if k == 'var':
        return (k, draw(st.sampled_from(names))[1])
    if k == 'correct':
        return (k, draw(st.sampled_from(resp))[1])
    if k == 'default':
        return (k, draw(st.sampled_from(defs))[1])
    if k == 'match':
        c, b = draw(st.sampled_from([d[2:4] for d in decls] + TYPES[:2]))
        return (k, gen_expr(draw, decls, c, b, depth - 1, wrong),
                gen_expr(draw, decls, c, b, depth - 1, wrong))
    if k == 'isNull':
        c, b = draw(st.sampled_from(TYPES))
        return (k, gen_expr(draw, decls, c, b, depth - 1, wrong))
    if k == 'not':
        return (k, gen_expr(draw, decls, card, base, depth - 1, wrong))
    return (k,) + tuple(
        gen_expr(draw, decls, 'single', 'integer', depth - 1, wrong)
        for i in range(draw(st.integers(1, 3))))


def gen_rules(draw, decls, kind, depth, wrong):
    out = []
    for i in range(draw(st.integers(0 if depth < 2 else 1, 3))):
        what = draw(st.sampled_from(['set'] * 4 + ['if'] * 3 + (
            ['exit'] if draw(st.integers(0, 2)) == 0 else ['set']) + (
            ['correct', 'default'] if kind == 'template' else [])))
        if what == 'if' and not depth:
            what = 'set'
        if what == 'exit':
            out.append(('exit',))
        elif what == 'if':
            ifs = [(gen_expr(draw, decls, 'single', 'boolean', 2, wrong),
                    gen_rules(draw, decls, kind, depth - 1, wrong))
                   for j in range(draw(st.integers(1, 3)))]
            out.append(('if', ifs, gen_rules(
                draw, decls, kind, depth - 1, wrong)
                if draw(st.booleans()) else None))
        else:
            kinds = {'correct': ('response',),
                     'default': ('response', 'outcome')}.get(
                what, (kind,) if kind == 'template' else ('outcome',))
            if wrong and draw(st.integers(0, 49)) == 0:
                kinds = ('response', 'outcome', 'template')
            ds = [d for d in decls if d[0] in kinds]
            if not ds:
                continue
            d = draw(st.sampled_from(ds))
            out.append((what, d[1], gen_expr(draw, decls, d[2], d[3], 2,
                                             wrong)))
    return out


def xrules(rules, kind):
    out = []
    K = 'response' if kind == 'response' else 'template'
    for r in rules:
        if r[0] == 'exit':
            out.append('<exit%s/>' % K.capitalize())
        elif r[0] == 'if':
            out.append('<%sCondition>' % K)
            for i, (e, body) in enumerate(r[1]):
                tag = K + ('ElseIf' if i else 'If')
                out.append('<%s>%s%s</%s>' % (tag, xexpr(e), xrules(
                    body, kind), tag))
            if r[2] is not None:
                out.append('<%sElse>%s</%sElse>' % (K, xrules(r[2], kind),
                                                    K))
            out.append('</%sCondition>' % K)
        else:
            tag = {'set': 'setOutcomeValue' if K == 'response' else
                   'setTemplateValue', 'correct': 'setCorrectResponse',
                   'default': 'setDefaultValue'}[r[0]]
            out.append('<%s identifier="%s">%s</%s>' % (
                tag, r[1], xexpr(r[2]), tag))
    return ''.join(out)


class Exit(Exception):
    pass


def run_rules(rules, env, kinds, kind):
    for r in rules:
        if r[0] == 'exit':
            raise Exit
        if r[0] == 'if':
            for e, body in r[1]:
                v = ev(e, env)
                if v[0] not in (None, 'single') or v[1] not in (
                        None, 'boolean'):
                    raise Bad(r)
                if v[2]:
                    run_rules(body, env, kinds, kind)
                    break
            else:
                if r[2] is not None:
                    run_rules(r[2], env, kinds, kind)
            continue
        v = ev(r[2], env)
        name = r[1]
        k = kinds[name]
        if r[0] == 'set':
            if k != ('template' if kind == 'template' else 'outcome'):
                raise Bad(r)
        elif r[0] == 'correct':
            if k != 'response':
                raise Bad(r)
            name += '.CORRECT'
        else:
            if k == 'template':
                raise Bad(r)
            name += '.DEFAULT'
        old = env[name]
        for n in (0, 1):
            if v[n] is not None and v[n] != old[n]:
                raise Bad(r)
        env[name] = old[:2] + (v[2],)


def run(rules, env, kinds, kind):
    try:
        run_rules(rules, env, kinds, kind)
    except Exit:
        pass


@st.composite
def item_cases(draw):
    wrong = draw(st.integers(0, 3)) == 0
    decls = []
    for i in range(draw(st.integers(2, 6))):
        kind = ('response', 'outcome', 'template')[i] if i < 2 else draw(
            st.sampled_from(['response', 'outcome', 'template']))
        card, base = draw(st.sampled_from(TYPES))
        default = values_of(draw, card, base) if draw(st.integers(
            0, 2)) == 0 else None
        correct = values_of(draw, card, base) if kind == 'response' and \
            draw(st.integers(0, 3)) else None
        decls.append((kind, 'RST'[('response', 'outcome', 'template').index(
            kind)] + str(i), card, base, default, correct))
    rp = gen_rules(draw, decls, 'response', 2, wrong)
    tp = gen_rules(draw, decls, 'template', 2, wrong) if draw(
        st.booleans()) else []
    events = []
    resp = [d for d in decls if d[0] == 'response']
    for i in range(draw(st.integers(1, 5))):
        what = draw(st.sampled_from(['submit', 'submit', 'submit', 'save',
                                     'attempt']))
        params = []
        for d in resp:
            if draw(st.integers(0, 3)) == 0:
                continue
            v = values_of(draw, d[2], d[3])
            if d[2] != 'single' and draw(st.integers(0, 2)):
                # no two the same
                v = [x for j, x in enumerate(v) if x not in v[:j]]
            if d[2:4] == ('ordered', 'identifier'):
                how = draw(st.sampled_from(['rank', 'choice']))
                if how == 'choice' and len(set(v)) < len(v):
                    how = 'rank'
                ranks = draw(st.lists(st.integers(0, 9), min_size=len(v),
                                      max_size=len(v), unique=True))
                v = (v, sorted(ranks), draw(st.randoms(
                    use_true_random=False)).random())
            elif d[2] == 'ordered':
                how = 'rank'
                ranks = draw(st.lists(st.integers(0, 12), min_size=len(v),
                                      max_size=len(v), unique=True))
                v = (v, sorted(ranks), 0.5)
            else:
                how = draw(st.sampled_from(['text', 'list'])) if \
                    d[2] == 'multiple' and len(v) == 1 else ''
            params.append((d[1], d[2], d[3], v, how))
        bad = draw(st.sampled_from(
            ['value', 'list', 'name', 'outcome', 'builtin', 'rank', 'dup']
        )) if draw(st.integers(0, 14)) == 0 else None
        events.append((what, params, bad))
    return (decls, tp, rp, draw(st.booleans()), events,
            draw(st.sampled_from(['', 'Q1.', 'x_'])))


def text(base, v):
    if base == 'boolean':
        return 'true' if v else 'false'
    return str(v)


def item_xml(decls, tp, rp, adaptive):
    out = ['<assessmentItem xmlns="%s" identifier="I" title="I" '
           'adaptive="%s" timeDependent="false">' % (
               NS, 'true' if adaptive else 'false')]

    def vals(tag, card, base, v):
        if v is None:
            return ''
        return '<%s>%s</%s>' % (tag, ''.join(
            '<value>%s</value>' % text(base, x)
            for x in (v if card != 'single' else [v])), tag)
    for k in ('response', 'outcome', 'template'):
        for kind, name, card, base, default, correct in decls:
            if kind == k:
                out.append(
                    '<%sDeclaration identifier="%s" cardinality="%s" '
                    'baseType="%s">%s%s</%sDeclaration>' % (
                        kind, name, card, base,
                        vals('defaultValue', card, base, default),
                        vals('correctResponse', card, base, correct), kind))
    if tp:
        out.append('<templateProcessing>%s</templateProcessing>' % xrules(
            tp, 'template'))
    out.append('<responseProcessing>%s</responseProcessing>' % xrules(
        rp, 'response'))
    return ''.join(out + ['</assessmentItem>']).encode('utf-8')


def load(data):
    doc = qtixml.QTIDocument()
    doc.read(src=BytesIO(data))
    return doc.root


def initial(decls):
    env = {'numAttempts': ('single', 'integer', None),
           'completionStatus': ('single', 'identifier', None)}
    for kind, name, card, base, default, correct in decls:
        env[name] = (card, base, default if kind == 'template' else None)
        if kind != 'template':
            env[name + '.DEFAULT'] = (card, base, default)
        if kind == 'response':
            env[name + '.CORRECT'] = (card, base, correct)
    return env


def reset(env, decls):
    for kind, name, card, base, default, correct in decls:
        if kind == 'outcome':
            v = env[name + '.DEFAULT']
            if v == ('single', 'integer', None):
                v = ('single', 'integer', 0)
            env[name] = v


def form_params(params, prefix):
    """the parameters of a form and the values they represent"""
    out, values = [], {}
    for name, card, base, v, how in params:
        if card == 'ordered':
            vs, ranks, x = v
            ps = []
            for r, item in zip(ranks, vs):
                if how == 'rank':
                    ps.append(('%s%s.%d' % (prefix, name, r),
                               text(base, item)))
                else:
                    ps.append(('%s%s.%s' % (prefix, name, item), str(r)))
            random.Random(x).shuffle(ps)
            out += ps
            v = vs
        elif card == 'multiple':
            out.append((prefix + name, text(base, v[0]) if how == 'text'
                        else [text(base, i) for i in v]))
        else:
            out.append((prefix + name, text(base, v)))
        values[name] = (card, base, v)
    return out, values


def compare(state, env, when):
    for n, v in env.items():
        ok(n in state, '%s missing %s' % (n, when))
        eq(seen(state[n]), v, '%s %s' % (n, when))


def check_item(case, c):
    decls, tp, rp, adaptive, events, prefix = case
    item = load(item_xml(decls, tp, rp, adaptive))
    kinds = dict((d[1], d[0]) for d in decls)
    state = variables.ItemSessionState(item)
    state.formPrefix = prefix
    env = initial(decls)
    compare(state, env, 'on construction')

    def attempt(fn, model, when):
        """Runs both; returns False after a processing error"""
        try:
            model()
        except Bad:
            try:
                fn()
            except ERRORS:
                c.label('processing error')
                return False
            fail('no processing error ' + when)
        fn()
        compare(state, env, when)
        return True
    if not attempt(state.select_clone,
                   lambda: run(tp, env, kinds, 'template'),
                   'after template processing'):
        return

    def begin():
        env['completionStatus'] = ('single', 'identifier', 'not_attempted')
        env['numAttempts'] = ('single', 'integer', 0)
        reset(env, decls)
    attempt(state.begin_session, begin, 'at the start of the session')

    def new_attempt():
        n = env['numAttempts'][2] + 1
        env['numAttempts'] = ('single', 'integer', n)
        if n == 1:
            env['completionStatus'] = ('single', 'identifier', 'unknown')
            for d in decls:
                if d[0] == 'response':
                    env[d[1]] = env[d[1] + '.DEFAULT']
    attempt(state.begin_attempt, new_attempt, 'at the start of the attempt')
    saved = {}
    n = 0
    for what, params, bad in events:
        if what == 'attempt':
            attempt(state.begin_attempt, new_attempt, 'at a new attempt')
            continue
        ps, values = form_params(params, prefix)
        ps = dict(ps)
        if prefix:
            ps['SAVE'] = 'key'
            ps['other'] = 'x'
        if bad:
            r = decls[0]
            name = prefix + r[1]
            for p in list(ps):
                if p.split('.')[:-1] == name.split('.') or p == name:
                    del ps[p]
            if r[2] == 'ordered':
                name += '.1'
            b = {'integer': 'x', 'boolean': 'maybe', 'identifier': '1 2'}
            if bad in ('value', 'rank'):
                ps[name] = b[r[3]]
            elif bad == 'dup' and r[2:4] == ('ordered', 'identifier'):
                ps[prefix + r[1] + '.A'] = '1'
                ps[prefix + r[1] + '.B'] = '1'
            elif bad == 'list' and r[2] != 'multiple':
                ps[name] = ['0', '1']
            elif bad == 'outcome':
                ps[prefix + decls[1][1]] = '1'
            elif bad == 'builtin':
                ps[prefix + 'numAttempts'] = '1'
            else:
                ps[prefix + 'NOSUCH'] = '1'
            for fn in (state.save_session, state.submit_session):
                try:
                    fn(dict(ps))
                    fail('bad parameters %r accepted' % ps)
                except variables.BadSessionParams:
                    c.label('bad parameters')
            compare(state, env, 'after bad parameters')
            return
        saved.update(values)
        if what == 'save':
            # nothing changes
            attempt(lambda: state.save_session(ps), lambda: None,
                    'after saving')
            continue
        submitted = dict(saved)
        saved.clear()

        def submit():
            env.update(submitted)
            if not adaptive:
                reset(env, decls)
            run(rp, env, kinds, 'response')
        if not attempt(lambda: state.submit_session(ps), submit,
                       'after submitting %r' % ps):
            return
        ok(not [x for x in state if x.endswith('.SAVED')],
           'saved values left after submission')
        n += 1
    if n and rp:
        c.nontrivial()


# --- test forms

@st.composite
def sections(draw, names, depth, level):
    """(id, visible, keepTogether, required, fixed, select, withReplacement,
    shuffle, children)"""
    kids = []
    for i in range(draw(st.integers(0 if level else 1, 4))):
        if depth and draw(st.integers(0, 2)) == 0:
            kids.append(draw(sections(names, depth - 1, level + 1)))
        else:
            names[0] += 1
            kids.append(('Q%d' % names[0], draw(st.integers(0, 5)) == 0,
                         draw(st.integers(0, 4)) == 0))
    names[0] += 1
    select = draw(st.integers(0, len(kids) + 1)) if draw(
        st.integers(0, 2)) == 0 else None
    return ('S%d' % names[0], draw(st.booleans()), draw(st.sampled_from(
        [None, True, False])), draw(st.integers(0, 5)) == 0,
        draw(st.integers(0, 4)) == 0, select,
        draw(st.integers(0, 2)) == 0, draw(st.booleans()), kids)


@st.composite
def form_cases(draw):
    names = [0]
    return (draw(st.lists(st.lists(sections(names, 2, 0), min_size=1,
                                   max_size=2), min_size=1, max_size=2)),
            draw(st.integers(0, 10 ** 6)))


def xbool(b):
    return 'true' if b else 'false'


def xsection(s, extra=lambda name: ''):
    if len(s) == 3:
        return ('<assessmentItemRef identifier="%s" href="%s.xml" '
                'required="%s" fixed="%s">%s</assessmentItemRef>' % (
                    s[0], s[0], xbool(s[1]), xbool(s[2]), extra(s[0])))
    out = ['<assessmentSection identifier="%s" title="x" visible="%s"%s '
           'required="%s" fixed="%s">' % (
               s[0], xbool(s[1]), '' if s[2] is None else
               ' keepTogether="%s"' % xbool(s[2]), xbool(s[3]),
               xbool(s[4])), extra(s[0])]
    if s[5] is not None:
        out.append('<selection select="%d" withReplacement="%s"/>' % (
            s[5], xbool(s[6])))
    if s[7]:
        out.append('<ordering shuffle="true"/>')
    out += [xsection(k, extra) for k in s[8]]
    return ''.join(out + ['</assessmentSection>'])


def test_xml(parts, extra=lambda name: '', decls='', mode=''):
    out = ['<assessmentTest xmlns="%s" identifier="T" title="T">' % NS,
           decls]
    for i, p in enumerate(parts):
        out.append('<testPart identifier="P%d" navigationMode="linear" '
                   'submissionMode="individual">%s' % (
                       i, extra('P%d' % i)))
        out += [xsection(s, extra) for s in p]
        out.append('</testPart>')
    return ''.join(out + ['</assessmentTest>']).encode('utf-8')


def req(s):
    return s[1] if len(s) == 3 else s[3]


def fixed(s):
    return s[2] if len(s) == 3 else s[4]


def split(s):
    return len(s) == 9 and not s[1] and s[2] is False


def is_open(s):
    """cases which the specification does not settle: a split section, or
    one within it, with rules of its own"""
    def plain(t):
        return len(t) == 3 or (t[5] is None and not t[7])
    if len(s) == 3:
        return False
    return any(split(k) and (k[7] or any(split(g) for g in k[8]))
               for k in s[8]) or any(is_open(k) for k in s[8])


def must_fail(s, top=True):
    """True if s can't be expanded, None if that depends on the choices"""
    kids = s[8]
    n = len(kids)
    select = n if s[5] is None else s[5]
    repl = s[6] and s[5] is not None
    required = len([k for k in kids if req(k)])
    if required > select or (select > n and not (repl and n)):
        return True
    maybe = False
    for k in kids:
        if len(k) == 3:
            continue
        certain = req(k) or (select >= n and not repl)
        if s[7] and not fixed(k) and split(k):
            r = must_fail(k)
            if any(fixed(g) for g in k[8]):
                if r is False:
                    r = True if k[5] is None else None
        else:
            r = must_fail(k)
        if r and certain:
            return True
        if r is not False and select:
            maybe = True
    return None if maybe else False


def tree(form, i):
    """[(id, children or None), ...], next"""
    out = []
    while i < len(form) and not form[i].startswith('-'):
        name = form[i]
        if name[0] in 'PS':
            kids, i = tree(form, i + 1)
            ok(i < len(form) and form[i] == '-' + name,
               '%s is not closed in %r' % (name, form))
            out.append((name, kids))
        else:
            out.append((name, None))
        i += 1
    return out, i


def check_selection(s, got, index, what):
    """got lists children of s (indexes), in order"""
    n = len(s[8])
    select = n if s[5] is None else s[5]
    repl = s[6] and s[5] is not None
    eq(len(got), select, 'number of children of %s in %s' % (s[0], what))
    if not repl:
        eq(len(set(got)), len(got), 'children of %s in %s' % (s[0], what))
    for i, k in enumerate(s[8]):
        if req(k):
            ok(i in got, 'required %s is not in %s' % (k[0], what))


def check_section(s, entries, c):
    ids = [k[0] for k in s[8]]
    where = '%s: %r' % (s[0], entries)
    grand = {}
    for k in s[8]:
        if s[7] and split(k) and not fixed(k):
            for g in k[8]:
                grand[g[0]] = k
    by_id = dict((k[0], k) for k in s[8])
    for k in grand.values():
        by_id.update((g[0], g) for g in k[8])
    mine = []
    theirs = {}
    for name, kids in entries:
        ok(name in by_id, '%s found in %s' % (name, where))
        if name in grand:
            theirs.setdefault(grand[name][0], []).append(name)
        else:
            mine.append(ids.index(name))
            ok(not (s[7] and split(by_id[name]) and not fixed(by_id[name])),
               '%s not split in %s' % (name, where))
        if kids is not None:
            check_section(by_id[name], kids, c)
    n = len(ids)
    select = n if s[5] is None else s[5]
    repl = s[6] and s[5] is not None
    empty = any(split(k) and not fixed(k) and (
        k[5] == 0 or not k[8]) for k in s[8])
    if not s[7]:
        eq(mine, sorted(mine), 'order of children in ' + where)
        check_selection(s, mine, ids, where)
        return
    if n > 1:
        c.nontrivial()
    # fixed children keep their order
    fx = [i for i in mine if fixed(s[8][i])]
    eq(fx, sorted(fx), 'order of fixed children in ' + where)
    if not repl and not empty:
        # splits: each is there in full
        for k in s[8]:
            if k[0] in theirs:
                check_selection(k, [[g[0] for g in k[8]].index(x)
                                    for x in theirs[k[0]]], None, where) \
                    if not (k[6] and k[5] is not None) else eq(
                        len(theirs[k[0]]), k[5], 'split in ' + where)
                mine.append(ids.index(k[0]))
        check_selection(s, mine, ids, where)
        # a fixed child has as many slots before it as were selected before
        # it, and each holds something
        chosen = sorted(mine)
        order = [ids.index(grand[e[0]][0] if e[0] in grand else e[0])
                 for e in entries]
        lead = 0
        while lead < len(chosen) and fixed(s[8][chosen[lead]]):
            eq(order[lead], chosen[lead], 'first children of ' + where)
            lead += 1
        if lead < len(chosen):
            j = 1
            while fixed(s[8][chosen[-j]]):
                eq(order[-j], chosen[-j], 'last children of ' + where)
                j += 1
        if not theirs:
            for pos, i in enumerate(chosen):
                if fixed(s[8][i]):
                    eq(order[pos], i, 'position of fixed in ' + where)


def check_form(case, c):
    parts, seed = case
    test = load(test_xml(parts))
    random.seed(seed)
    tops = [s for p in parts for s in p]
    if any(is_open(s) for s in tops):
        c.label('open')
    fails = [must_fail(s) for s in tops]
    try:
        form = tests.TestForm(test)
    except core.SelectionError:
        ok(any(f is not False for f in fails) or any(map(is_open, tops)),
           'selection failed')
        c.label('failed')
        return
    ok(not any(fails) or any(map(is_open, tops)),
       'selection did not fail: %r' % list(form))
    got = list(form)
    eq(got[0], '', 'start')
    eq(len(form), len(got), 'len')
    for i, name in enumerate(got):
        eq(form[i], name, 'item')
        ok(i in form.find(name), 'find')
        eq(form.index(name), got.index(name), 'index')
    eq(form.find('nothing'), [], 'find')
    t, end = tree(got[1:], 0)
    eq(end, len(got) - 1, 'balanced')
    eq([x[0] for x in t], ['P%d' % i for i in range(len(parts))], 'parts')
    for p, (name, kids) in zip(parts, t):
        eq([k[0] for k in kids], [s[0] for s in p], 'sections')
        for s, k in zip(p, kids):
            if not is_open(s):
                check_section(s, k[1], c)


# every order and every selection is possible

CHANCES = [
    # (section, number of different forms)
    (('S', True, None, False, False, None, False, True, [
        ('Q1', False, False), ('Q2', False, False), ('Q3', False, False)]),
     6),
    (('S', True, None, False, False, None, False, True, [
        ('Q1', False, False), ('Q2', False, True), ('Q3', False, False)]),
     2),
    (('S', True, None, False, False, 2, False, False, [
        ('Q1', False, False), ('Q2', False, False), ('Q3', False, False)]),
     3),
    (('S', True, None, False, False, 2, True, False, [
        ('Q1', False, False), ('Q2', False, False), ('Q3', False, False)]),
     6),
    (('S', True, None, False, False, 2, False, False, [
        ('Q1', True, False), ('Q2', False, False), ('Q3', False, False)]),
     2),
    (('S', True, None, False, False, 2, False, True, [
        ('Q1', True, False), ('Q2', False, False), ('Q3', False, False)]),
     4),
    (('S', True, None, False, False, None, False, True, [
        ('SA', False, False, False, False, None, False, False, [
            ('Q1', False, False), ('Q2', False, False)]),
        ('Q3', False, False)]), 6),
    (('S', True, None, False, False, None, False, True, [
        ('SA', False, True, False, False, None, False, False, [
            ('Q1', False, False), ('Q2', False, False)]),
        ('Q3', False, False)]), 2),
]


def chances():
    return list(range(len(CHANCES)))


def check_chances(i, c):
    section, n = CHANCES[i]
    test = load(test_xml([[section]]))
    random.seed(i)
    forms = set(tuple(tests.TestForm(test)) for j in range(300))
    c.nontrivial()
    eq(len(forms), n, 'number of forms of %r: %r' % (section, forms))


# --- test sessions

@st.composite
def test_cases(draw):
    names = [0]

    def section(level):
        kids = []
        for i in range(draw(st.integers(1, 3))):
            if level < 2 and draw(st.integers(0, 2)) == 0:
                kids.append(section(level + 1))
            else:
                names[0] += 1
                kids.append(('Q%d' % names[0], False, False))
        names[0] += 1
        return ('S%d' % names[0], True, None, False, False, None, False,
                draw(st.integers(0, 5)) == 0, kids)
    parts = [[section(0) for i in range(draw(st.integers(1, 2)))]
             for j in range(draw(st.integers(1, 2)))]

    def items(s):
        return [s[0]] if len(s) == 3 else sum(map(items, s[8]), [])

    def all_of(s):
        return [s[0]] if len(s) == 3 else [s[0]] + sum(
            map(all_of, s[8]), [])
    qs = sum([items(s) for p in parts for s in p], [])

    def cond():
        q = draw(st.sampled_from(qs))
        e = draw(st.sampled_from([
            ('bool', True), ('bool', False), ('null',),
            ('match', ('var', q + '.SCORE'), ('int', 1)),
            ('match', ('var', q + '.SCORE'), ('int', 0)),
            ('match', ('var', q + '.R'), ('id', 'B')),
            ('match', ('var', q + '.numAttempts'), ('int', 1)),
            ('isNull', ('var', q + '.SCORE')),
            ('match', ('var', 'X'), ('int', 0))]))
        return ('not', e) if draw(st.booleans()) and e[0] != 'null' else e
    pre, branch, tds = {}, {}, {}

    def rules(name, inside, others, special):
        if draw(st.integers(0, 3)) == 0:
            pre[name] = [cond() for i in range(draw(st.integers(1, 2)))]
        if draw(st.integers(0, 3)) == 0:
            branch[name] = [
                (cond(), draw(st.sampled_from(others + special)))
                for i in range(draw(st.integers(1, 2)))]

    def walk(s, level, others):
        if len(s) == 3:
            rules(s[0], s, others, ['EXIT_SECTION', 'EXIT_TESTPART',
                                    'EXIT_TEST'])
            if draw(st.booleans()):
                tds[s[0]] = ('sum', ('var', draw(st.sampled_from(qs)) +
                                     '.SCORE'), ('int', 10))
            return
        rules(s[0], s, others, (['EXIT_SECTION'] if level else []) + [
            'EXIT_TESTPART', 'EXIT_TEST'])
        for k in s[8]:
            walk(k, level + 1, others)
    for i, p in enumerate(parts):
        rules('P%d' % i, p, ['P%d' % j for j in range(len(parts))],
              ['EXIT_TEST'])
        others = sum(map(all_of, p), [])
        for s in p:
            walk(s, 0, others)
    events = []
    for i in range(draw(st.integers(1, len(qs) + 2))):
        events.append((draw(st.sampled_from(
            ['submit'] * 6 + ['save', 'save', 'old', 'wrong', 'none'])),
            draw(st.sampled_from(['A', 'B', None])),
            draw(st.integers(0, 5)), draw(st.booleans())))
    return parts, pre, branch, tds, events, draw(st.integers(0, 1000))


ITEM = [('response', 'R', 'single', 'identifier', None, 'A'),
        ('outcome', 'SCORE', 'single', 'integer', None, None),
        ('outcome', 'COPY', 'single', 'integer', None, None),
        ('template', 'T', 'single', 'integer', 7, None)]
ITEM_RP = [('if', [(('match', ('var', 'R'), ('correct', 'R')),
                    [('set', 'SCORE', ('int', 1))])],
            [('set', 'SCORE', ('int', 0))]),
           ('set', 'COPY', ('sum', ('var', 'T'), ('var', 'SCORE')))]
KINDS = dict((d[1], d[0]) for d in ITEM)
CODE = item_xml(ITEM, [], ITEM_RP, False)


class Walk(object):

    """The position in a form"""

    def __init__(self, form, pre, branch, env):
        self.form, self.pre, self.branch, self.env = form, pre, branch, env
        self.start = {}
        self.end = {}
        self.up = {}
        stack = []
        for i, n in enumerate(form):
            if n[:1] == '-':
                stack.pop()
                self.end[n[1:]] = i
            elif n:
                self.start[n] = i
                self.up[n] = list(stack)
                if n[0] in 'SP':
                    stack.append(n)
        self.pos = 0
        self.steps = 0

    def true(self, e):
        v = ev(e, self.env)
        return v[2] is True

    def after(self, name, i):
        """where to go after the thing at i named name"""
        for cond, target in self.branch.get(name, []):
            if self.true(cond):
                self.steps += 1
                break
        else:
            return i + 1
        if target == 'EXIT_TEST':
            return len(self.form)
        if target == 'EXIT_SECTION':
            return self.end[self.up[name][-1]] + 1
        if target == 'EXIT_TESTPART':
            return self.end[self.up[name][0]] + 1
        j = self.start[target]
        # there's no way back
        return j if j > i else len(self.form)

    def go(self, i):
        while i < len(self.form):
            n = self.form[i]
            if n[0] == '-':
                i = self.after(n[1:], i)
            elif not all(self.true(e) for e in self.pre.get(n, [])):
                self.steps += 1
                i = (self.end[n] if n[0] in 'SP' else i) + 1
            elif n[0] == 'Q':
                return n
            else:
                i += 1
        return None


class Clock(object):

    def __init__(self):
        self.t = 1000.0

    def time(self):
        return self.t


def check_test(case, c):
    clock = Clock()
    saved = variables.time
    variables.time = SimpleNamespace(time=clock.time)
    try:
        run_test(case, c, clock)
    finally:
        variables.time = saved


def run_test(case, c, clock):
    parts, pre, branch, tds, events, seed = case

    def extra(name):
        out = ['<preCondition>%s</preCondition>' % xexpr(e)
               for e in pre.get(name, [])]
        out += ['<branchRule target="%s">%s</branchRule>' % (t, xexpr(e))
                for e, t in branch.get(name, [])]
        if name in tds:
            out.append('<templateDefault templateIdentifier="T">%s'
                       '</templateDefault>' % xexpr(tds[name]))
        return ''.join(out)
    test = load(test_xml(
        parts, extra, '<outcomeDeclaration identifier="X" '
        'cardinality="single" baseType="integer"/>'))
    for p in test.parts.values():
        if isinstance(p, tests.AssessmentItemRef):
            p.item = load(CODE)
    random.seed(seed)
    form = tests.TestForm(test)
    state = variables.TestSessionState(form)
    names = list(form)
    env = {'X': ('single', 'integer', None)}
    qs = [n for n in names if n[:1] == 'Q']
    for q in qs:
        for k, v in initial(ITEM).items():
            env[q + '.' + k] = v
    times = {'': None}
    for n in names:
        if n[:1] != '-':
            times[n] = None

    def verify(when):
        for n, v in env.items():
            eq(seen(state[n]), v, '%s %s' % (n, when))
        q = state.get_current_question()
        eq(q.identifier if q is not None else None, cur,
           'question %s in %r' % (when, names))
        part = state.get_current_test_part()
        eq(part.identifier if part is not None else None,
           walk.up[cur][0] if cur else None, 'test part')
        for n, t in times.items():
            v = state[n + '.duration' if n else 'duration'].value
            ok((v is None and t is None) or (
                abs((v or 0.0) - (t or 0.0)) < 0.001),
               'duration of %s is %r, expected %r' % (n or 'test', v, t))

    def sub(q):
        return dict((k[len(q) + 1:], v) for k, v in env.items()
                    if k.startswith(q + '.'))

    def back(q, d):
        for k, v in d.items():
            env[q + '.' + k] = v

    def arrive(q):
        # the item's own session starts
        if q is None:
            return
        if q in tds:
            env[q + '.T'] = ev(tds[q], env)
        d = sub(q)
        d['completionStatus'] = ('single', 'identifier', 'unknown')
        d['numAttempts'] = ('single', 'integer', 1)
        reset(d, ITEM)
        d['R'] = d['R.DEFAULT']
        back(q, d)
        times[q] = 0.0

    def buttons(div, key):
        found = dict((b.name, b.value) for b in div.find_children_depth_first(
            variables.html.Button))
        eq(found, {'SAVE': key, 'SUBMIT': key} if cur else {'SAVE': key},
           'buttons')

    def spend(dt):
        if cur is None:
            return
        for n in [''] + walk.up[cur] + [cur]:
            times[n] = (times[n] or 0.0) + dt
    walk = Walk(names, pre, branch, env)
    cur = None
    keys = [state.key]
    ok(state.key, 'no key')
    clock.t += 5
    env['X'] = ('single', 'integer', 0)
    times[''] = 0.0
    try:
        cur = walk.go(1)
        arrive(cur)
        div = state.begin_session(state.key)
    except Bad:
        return
    verify('at the start')
    buttons(div, state.key)
    answers = {}
    for what, answer, dt, handle in events:
        clock.t += dt
        old = keys[0] if what == 'old' else 'nonsense'
        ok(state.key not in keys, 'key used before')
        keys.append(state.key)
        if what in ('old', 'wrong', 'none'):
            for action in ('SAVE', 'SUBMIT'):
                params = {action: old}
                if cur and answer:
                    params[cur + '.R'] = answer
                if what == 'none':
                    del params[action]
                try:
                    if handle or what == 'none':
                        state.handle_event(params)
                    elif action == 'SAVE':
                        state.save_session(old, params)
                    else:
                        state.submit_session(old, params)
                    fail('event accepted with a bad key')
                except variables.SessionKeyExpired:
                    eq(what, 'old', 'key expired')
                except variables.SessionKeyMismatch:
                    eq(what, 'wrong', 'key mismatch')
                except variables.SessionActionMissing:
                    eq(what, 'none', 'missing action')
            eq(state.key, keys[-1], 'key after a bad event')
            keys.pop()
            clock.t -= dt
            verify('after a bad event')
            c.label(what)
            continue
        params = {what.upper(): state.key}
        if cur and answer:
            params[cur + '.R'] = answer
            answers[cur] = answer
        spend(dt)
        where = cur
        if what == 'submit' and cur:
            d = sub(cur)
            if cur in answers:
                d['R'] = ('single', 'identifier', answers.pop(cur))
            reset(d, ITEM)
            run(ITEM_RP, d, KINDS, 'response')
            back(cur, d)
            cur = walk.go(walk.after(cur, walk.start[cur]))
            arrive(cur)
        if handle:
            div = state.handle_event(params)
        elif what == 'save':
            div = state.save_session(state.key, params)
        else:
            div = state.submit_session(state.key, params)
        eq(state.prevKey, keys[-1], 'previous key')
        verify('after %s %r at %s' % (what, answer, where))
        buttons(div, state.key)
    if walk.steps and len(qs) > 1:
        c.nontrivial()


PROPS = [
    Prop('items', item_cases(), check_item, quick=3000, thorough=50000,
         rule='responses are submitted and there are rules'),
    Prop('forms', form_cases(), check_form, quick=2500, thorough=50000,
         rule='a section of several children is shuffled'),
    Enum('chances', chances, check_chances,
         rule='every section'),
    Prop('tests', test_cases(), check_test, quick=1500, thorough=25000,
         rule='a pre-condition fails or a branch is taken'),
]
