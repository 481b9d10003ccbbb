"""C44: fields built by constant, format, capture, pattern and from_context yield what the builder denotes."""
from base import *
import re


def spec_constant():
    kind = choose('Field', 'String', 'Integer', 'List')
    if kind == 'Field':
        c, field = any_value('c'), pilo.Field()
    elif kind == 'String':
        c, field = any_value('c', 'str', 'None'), fields.String()
    elif kind == 'Integer':
        c, field = any_value('c', 'int', 'None'), fields.Integer('n')
    else:
        c, field = any_value('c', 'list', 'None'), fields.List(pilo.Field())
    assume(c is not NONE and c is not ERROR and c is not NOT_SET)
    built = field.constant(c)
    check(built is field, 'a field that is not attached yet becomes constant itself')
    f, errs = mapped(built, choose({}, {'a': any_value('v')}, {'n': 5}))
    check(len(errs) == 0 and 'a' in f and same(got(f), c), 'a constant field yields the constant whatever the source holds')


def spec_constant_of_attached():
    c = any_value('c', 'int', 'str', 'None')

    class A(pilo.Form):
        a = fields.Integer()
    derived = A.a.constant(c)
    check(derived is not A.a, 'the constant of an attached field is another field')

    class B(pilo.Form):
        b = derived
    f = B()
    errs = f.map(choose({}, {'a': 1, 'b': 2}))
    check(len(errs) == 0 and 'b' in f and same(got(f, 'b'), c), 'a derived constant field yields the constant')
    g = A()
    errs = g.map({'a': 7})
    check(len(errs) == 0 and got(g) == 7, 'the field it was derived from still maps')


def spec_constant_steps():
    """a constant passes the other steps"""
    c = any_value('c', 'int', 'str')
    step = choose('munge', 'filter', 'validate', 'translate')
    field = pilo.Field(default='dflt').constant(c)
    if step == 'munge':
        @field.munge
        def hook(self, value):
            return [value]
    elif step == 'filter':
        @field.filter
        def hook(self, value):
            return False
    elif step == 'validate':
        @field.validate
        def hook(self, value):
            self.ctx.errors.invalid('no')
            return False
    else:
        field.ignore(c)
    f, errs = mapped(field, {'a': 'other'})
    if step == 'munge':
        check(len(errs) == 0 and len(got(f)) == 1 and same(got(f)[0], c), 'a constant is munged')
    elif step == 'validate':
        check('a' not in f and only_invalid(errs, field), 'a constant is validated')
    else:
        check(len(errs) == 0 and got(f) == 'dflt', 'a constant that is dropped is replaced by the default')


def spec_constant_twice():
    """constants of one field are independent"""
    base = pilo.Field()

    class A(pilo.Form):
        a = base
    one, two = A.a.constant(1), A.a.constant(2)
    f, _ = mapped(one, {})
    g, _ = mapped(two, {})
    check(got(f) == 1 and got(g) == 2, 'constants derived from one field are independent')
    h, _ = mapped(one, {})
    check(got(h) == 1, 'constants derived from one field are independent')


class Part(pilo.Form):
    d = pilo.Field()
    e = fields.Integer(default=4)


def format_form(first, fmt, **names):
    if first:
        class F(pilo.Form):
            a = fields.String().format(fmt, **names)
            b = fields.String()
            c = fields.SubForm(Part)
    else:
        class F(pilo.Form):
            b = fields.String()
            c = fields.SubForm(Part)
            a = fields.String().format(fmt, **names)
    return F


def spec_format():
    x, y = any_value('x', 'str'), any_value('y', 'int', 'str', 'float')
    which = choose(0, 1, 2, 3)
    first = choose(True, False)
    if which == 3:
        return deep_format(first, x)
    if which == 0:
        F, want = format_form(first, '{p}', p='b'), '{p}'.format(p=x)
    elif which == 1:
        F, want = format_form(first, '{p}/{q}', p='b', q='c.d'), '{p}/{q}'.format(p=x, q=y)
    else:
        F, want = format_form(first, '<{q}:{r}>', q='c.d', r='c.e'), '<{q}:{r}>'.format(q=y, r=4)
    f = F()
    errs = f.map({'b': x, 'c': {'d': y}, 'a': 'not this'})
    check(len(errs) == 0, 'formatting values that are there is no error')
    check(same(got(f), want), 'a formatted field yields the format filled with the named values of the form')
    check(same(got(f, 'b'), x) and same(got(got(f, 'c'), 'd'), y), 'the values formatted are mapped as usual')


def deep_format(first, x):
    class Mid(pilo.Form):
        m = fields.SubForm(Part)
        l = fields.List(pilo.Field())

    if first:
        class F(pilo.Form):
            a = fields.String().format('{p}', p='c.m.d')
            c = fields.SubForm(Mid)
    else:
        class F(pilo.Form):
            c = fields.SubForm(Mid)
            a = fields.String().format('{p}', p='c.m.d')
    f = F()
    errs = f.map({'c': {'m': {'d': x}, 'l': [1, 2]}})
    check(len(errs) == 0 and same(got(f), '{p}'.format(p=x)),
          'a formatted field yields the format filled with the named values of the form')


def spec_format_missing():
    """values that cannot be mapped make the field invalid"""
    what = choose('b', 'c', 'c.d', 'unknown', 'c.unknown')
    first = choose(True, False)
    F = format_form(first, '{p}', p=what)
    data = {'b': 'x', 'c': {'d': 1}}
    if what in data:
        del data[what]
    elif what == 'c.d':
        data['c'] = {}
    f = F()
    errs = f.map(data)
    check('a' not in f, 'nothing is yielded if a value to format cannot be mapped')
    found = [e for e in errs if type(e) is fields.Invalid and e.field is F.a]
    check(len(found) == 1, 'a value to format that cannot be mapped makes the formatted field invalid')


def spec_format_of_derived():
    """a copy formats from the form it is in"""
    x, y = any_value('x', 'str'), any_value('y', 'str')
    base = fields.String().format('{p}', p='b')

    class A(pilo.Form):
        b = fields.String()
        a = base

    class B(pilo.Form):
        b = fields.String()
        z = A.a.clone()
    f, g = A(), B()
    check(len(f.map({'b': x})) == 0 and len(g.map({'b': y})) == 0, 'formatting values that are there is no error')
    check(same(got(f), '{p}'.format(p=x)), 'a formatted field takes the values of its own form')
    check(same(got(g, 'z'), '{p}'.format(p=y)), 'a copy of a formatted field takes the values of the form it is in')


def spec_format_nested():
    """a formatted field of a nested form takes the values of the nested form"""
    x, y = any_value('x', 'str'), any_value('y', 'str')

    class In(pilo.Form):
        b = fields.String()
        a = fields.String().format('{p}', p='b')

    class Out(pilo.Form):
        i = choose(fields.SubForm(In), fields.List(fields.SubForm(In)))
        b = fields.String()
        a = fields.String().format('{p}!', p='b')
    f = Out()
    inner = {'b': x}
    errs = f.map({'b': y, 'i': inner if isinstance(Out.i, fields.SubForm) else [inner]})
    i = got(f, 'i')
    i = i if isinstance(Out.i, fields.SubForm) else i[0]
    check(len(errs) == 0 and same(got(i), '{p}'.format(p=x)), 'a formatted field of a nested form takes its values')
    check(same(got(f), '{p}!'.format(p=y)), 'a formatted field takes the values of its own form')


def capture_of(pattern, text, *groups):
    m = re.match(pattern, text)
    if m is None:
        return NONE
    for group in groups:
        try:
            return m.group(group)
        except IndexError:
            pass
    return NONE


def spec_capture():
    """the named group, else the one named like the field, else the first"""
    v = any_value('v', 'str')
    pattern, name = choose(('x(.*)', None), ('x(?P<rest>.*)', 'rest'), ('(x)(?P<a>.*)', None), ('x', None),
                           ('(y)(?P<b>.*)', 'b'), ('(y)(?P<b>.*)', 'other'), ('(p)(q)', None), ('(p)(q)', 2),
                           ('(?P<a>.)(?P<b>.)', 'b'), ('(x)(?P<a>.*)', 'other'), ('(p)(?P<a>q)', 1))
    compiled = choose(True, False)
    field = fields.String(default='none').capture(re.compile(pattern) if compiled else pattern, name)
    f, errs = mapped(field, {'a': v})
    check(len(errs) == 0, 'capturing is no error')
    want = capture_of(pattern, v, name or 'a', 1)
    if want is NONE:
        check(got(f) == 'none', 'text the pattern does not match counts as missing')
    elif want is None:
        check(got(f) is None, 'a group that took no part is null')
    else:
        check(same(got(f), want), 'the named group, else the group named like the field, else the first is yielded')


def spec_capture_known():
    text, pattern, name, want = choose(
        ('ab', '(a)(b)', None, 'a'), ('ab', '(a)(b)', 2, 'b'), ('ab', '(?P<x>a)(?P<a>b)', None, 'b'),
        ('ab', '(?P<x>a)(?P<a>b)', 'x', 'a'), ('ab', 'ab', None, NONE), ('xab', '(a)', None, NONE), ('', '(.*)', None, ''),
        ('ab', '(a)b', 'zz', 'a'), ('ab', '(a)(?P<a>b)', 'zz', 'a'), ('ab', '(b)?a', None, None))
    field = fields.String(optional=True).capture(pattern, name)
    f, errs = mapped(field, {'a': text})
    check(len(errs) == 0 and got(f) == want, 'the captured text is the one of the group')


def spec_capture_null():
    field = fields.String(default='d', nullable=choose(True, False)).capture('(a)')
    f, errs = mapped(field, {'a': None})
    if field.nullable:
        check(len(errs) == 0 and 'a' in f and got(f) is None, 'a null stays null')
    else:
        check('a' not in f and only_invalid(errs, field), 'a null that is not allowed is invalid')


def spec_capture_of_derived():
    base = fields.String().capture('(?P<a>.)(?P<b>.)')

    class A(pilo.Form):
        a = base
        b = base.clone()
    f = A()
    errs = f.map({'a': 'xy', 'b': 'zw'})
    check(len(errs) == 0 and got(f, 'a') == 'x', 'the group named like the field is yielded')
    check(got(f, 'b') == 'w', 'a copy yields the group named like itself')


def spec_capture_constrained():
    """constraints apply to what was captured"""
    v = any_value('v', 'str')
    field = fields.String(choices=['p', 'q']).capture('x(.*)')
    f, errs = mapped(field, {'a': v})
    m = re.match('x(.*)', v)
    if m is None:
        check('a' not in f and only_missing(errs, field), 'text the pattern does not match counts as missing')
    elif m.group(1) is None:
        check(len(errs) == 0 and got(f) is None, 'a group that took no part is null')
    elif m.group(1) in ('p', 'q'):
        check(len(errs) == 0 and same(got(f), m.group(1)), 'what was captured is yielded')
    else:
        check('a' not in f and only_invalid(errs, field), 'constraints apply to what was captured')


def spec_pattern():
    """a number is read from what the pattern matches"""
    v = any_value('v', 'str')
    kind = choose('Integer', 'Float')
    pattern = r'[0-9]+'
    given = re.compile(pattern) if choose(True, False) else pattern
    field = fields.Integer() if kind == 'Integer' else fields.Float()
    check(field.pattern(given) is field, 'a pattern is set on the field itself')
    f, errs = mapped(field, {'a': v})
    m = re.match(pattern, v)
    want = NONE
    if m is not None:
        try:
            want = int(m.group(0)) if kind == 'Integer' else float(m.group(0))
        except ValueError:
            pass
    if want is NONE:
        check('a' not in f and only_invalid(errs, field), 'text without number is invalid')
    else:
        check(len(errs) == 0 and same(got(f), want), 'a pattern field yields the number its match denotes')


def spec_pattern_known():
    kind = choose('Integer', 'Float')
    text, pattern, want = choose(('12 apples', r'\d+', 12), ('12', r'\d', 1), ('x12', r'\d+', NONE), ('', r'\d+', NONE),
                                 ('12kg', r'(\d)2(?=kg)', 12), ('1-2', r'\d-\d', NONE), ('-3', r'-?\d', -3))
    field = (fields.Integer() if kind == 'Integer' else fields.Float()).pattern(pattern)
    f, errs = mapped(field, {'a': text})
    if want is NONE:
        check('a' not in f and only_invalid(errs, field), 'text without number is invalid')
    else:
        check(len(errs) == 0 and got(f) == want, 'a pattern field yields the number its match denotes')


def spec_pattern_other():
    v = any_value('v', 'int', 'float', 'bool', 'list', 'dict', 'object')
    field = choose(fields.Integer, fields.Float)().pattern(r'\d+')
    f, errs = mapped(field, {'a': v})
    check('a' not in f and only_invalid(errs, field), 'a pattern field only reads text')


def spec_pattern_bounds():
    v = any_value('v', 'str')
    field = fields.Integer().min(3).max(5).pattern(r'[0-9]')
    f, errs = mapped(field, {'a': v})
    m = re.match('[0-9]', v)
    n = NONE
    if m is not None:
        try:
            n = int(m.group(0))
        except ValueError:
            pass
    if n is not NONE and 3 <= n and n <= 5:
        check(len(errs) == 0 and same(got(f), n), 'a number within the bounds is kept')
    else:
        check('a' not in f and only_invalid(errs, field), 'bounds apply to the number read')


def spec_from_context():
    """the variable of the context, not the key of the source"""
    x = any_value('x', 'int', 'str', 'None', 'bool', 'list')
    src = choose(NONE, 'v')
    field = pilo.Field(src, default='dflt')
    check(field.from_context() is field, 'the field itself is changed')
    defined = choose(True, False)
    data = choose({}, {'a': 1, 'v': 2})
    f = form_with(field)()
    if defined:
        with pilo.ctx(**{'a' if src is NONE else 'v': x}):
            errs = f.map(data)
    else:
        errs = f.map(data)
    check(len(errs) == 0, 'reading the context is no error')
    if defined:
        check('a' in f and same(got(f), x), 'the value is that of the context variable')
    else:
        check(got(f) == 'dflt', 'a variable that is not defined counts as missing')


def spec_from_context_innermost():
    x, y = any_value('x', 'int', 'None'), any_value('y', 'int', 'None')
    field = pilo.Field('v').from_context()

    class F(pilo.Form):
        a = field
        b = pilo.Field()
    with pilo.ctx(v=x):
        with pilo.ctx(v=y):
            f = F()
            errs = f.map({'b': 'still'})
        g = F()
        errs2 = g.map({'b': 'still'})
    check(len(errs) == 0 and same(got(f), y), 'the innermost variable counts')
    check(len(errs2) == 0 and same(got(g), x), 'a block that ended no longer counts')
    check(got(f, 'b') == 'still' and got(g, 'b') == 'still', 'other fields are mapped from the source')


def spec_from_context_typed():
    """the variable is parsed by the field"""
    x = any_value('x', 'int', 'str', 'bool', 'dict', 'float')
    field = fields.Integer('v').from_context()
    with pilo.ctx(v=x):
        f, errs = mapped(field, {})
    g, errs2 = mapped(fields.Integer(), {'a': x})
    check(len(errs) == len(errs2), 'a variable is parsed like a value of the source')
    check(same(got(f), got(g)), 'a variable is parsed like a value of the source')
    if errs:
        check(only_invalid(errs, field), 'a variable that cannot be parsed is invalid')


def spec_from_context_nested():
    """in nested forms, and with sub-forms read from the context"""
    x = any_value('x', 'int', 'str')

    class In(pilo.Form):
        c = pilo.Field('v').from_context()
        d = pilo.Field()

    class Out(pilo.Form):
        i = fields.List(fields.SubForm(In))
        w = fields.SubForm(Part, 'part').from_context()
        z = pilo.Field()
    f = Out()
    with pilo.ctx(v=x, part={'d': 'dd'}):
        errs = f.map({'i': [{'d': 1}, {'d': 2}], 'z': 'zz'})
    check(len(errs) == 0, 'reading the context is no error')
    check([got(i, 'd') for i in got(f, 'i')] == [1, 2], 'other fields are mapped from the source')
    check(same(got(got(f, 'i')[0], 'c'), x) and same(got(got(f, 'i')[1], 'c'), x),
          'nested forms read the context as well')
    check(got(got(f, 'w'), 'd') == 'dd' and got(got(f, 'w'), 'e') == 4, 'a sub-form can be read from the context')
    check(got(f, 'z') == 'zz', 'other fields are mapped from the source')


def spec_type_constant():
    c = choose('one', 1, '')

    class F(pilo.Form):
        t = fields.Type.constant(c)
        u = pilo.Field(optional=True)
    f = F()
    errs = f.map(choose({}, {'t': c}, {'t': 'else'}, {'t': None}))
    check(len(errs) == 0 and got(f, 't') == c, 'a constant type yields its identity')
    check(F.t.value == c, 'a constant type knows its identity')


def spec_type_value():
    how = choose('abstract', 'one', 'several')
    field = {'abstract': lambda: fields.Type.abstract(), 'one': lambda: fields.Type.instance('x'),
             'several': lambda: fields.Type.instance('x', 'y')}[how]()
    try:
        value = field.value
    except TypeError:
        value = NONE
    check(value == 'x' if how == 'one' else value is NONE, 'only a type with one identity has a value')


def spec_constants_under_any_circumstances():
    circumstances((
        (lambda: fields.Integer().constant(5), 'x', 5), (lambda: fields.String().constant('k'), ABSENT, 'k'),
        (lambda: fields.Integer().constant(0), 3, 0),
    ))


def spec_capture_of_items():
    """fields without name capture as well"""
    f, errs = mapped(fields.List(fields.String(default=None).capture('x(.)(.)?')), {'a': ['xy', 'z', 'xwv', '']})
    check(len(errs) == 0 and got(f) == ['y', None, 'w', None], 'the first group of each item that matches')
    f, errs = mapped(fields.Dict(fields.String().capture('k_(.+)'), fields.String().capture('v_(?P<a>.)', 'a')),
                     {'a': {'k_one': 'v_1', 'k_two': 'v_2'}})
    check(len(errs) == 0 and got(f) == {'one': '1', 'two': '2'}, 'keys and values are captured by their own patterns')
