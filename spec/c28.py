"""C28: unparsable data surfaces as a field error, not as a foreign exception."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource, SourceError
import re


def survives(form, src):
    """mapping ends by itself, and what has no value was reported"""
    try:
        errs = form.map(src)
    except Exception as ex:
        fail('no exception leaves the mapping because of data', ex)
        return
    reach('mapping ends')
    for e in errs:
        check(isinstance(e, fields.FieldError), 'what is recorded is a field error')
    if 'a' not in form:
        check(len(errs) > 0, 'a field that has no value was reported')


def placed(x, how):
    """a source holding x at `a`"""
    if how == 'dict':
        return {'a': x}
    if how == 'list':
        return [x]
    if how == 'default':
        return DefaultSource({'a': x})
    if how == 'union':
        return UnionSource([{'a': x}, {}])
    if how == 'union2':
        return UnionSource([{}, {'a': None}, {'a': x}], merge=choose('first', 'combine', 'last'))
    if how == 'config':
        return ConfigSource('[s]\n', section='s', defaults={'a': x})
    return None


def spec_scalars():
    field, _ = build(choose(*SCALARS))
    survives(form_with(field)(), placed(any_value('v'), choose('dict', 'list', 'default', 'config')))


def spec_scalars_union():
    field, _ = build(choose(*SCALARS))
    survives(form_with(field)(), placed(any_value('v'), choose('union', 'union2')))


def spec_scalars_json():
    field, _ = build(choose(*SCALARS))
    survives(form_with(field)(), JsonSource(json_text({'a': any_json('v')}), strict=choose(True, False)))


class Below(pilo.Form):
    a = fields.Integer(default=0)


def spec_scalars_mount():
    field, _ = build(choose(*SCALARS))

    class F(pilo.Form):
        m = fields.SubForm(form_with(field))
    f = F()
    try:
        errs = f.map(MountSource(m={'a': any_value('v')}))
    except Exception as ex:
        fail('no exception leaves the mapping below a mount', ex)
        return
    check('m' in f or len(errs) > 0, 'below a mount what has no value was reported')


def spec_null_and_missing():
    """no data at all, and null"""
    name = choose(*(SCALARS + CONTAINERS))
    field, _ = build(name)
    how = choose('null', 'missing', 'json null', 'json missing', 'config', 'union', 'mount')
    if how == 'null':
        src = {'a': None}
    elif how == 'missing':
        src = {}
    elif how == 'json null':
        src = JsonSource(json_text({'a': None}))
    elif how == 'json missing':
        src = JsonSource(json_text({}))
    elif how == 'config':
        src = ConfigSource('[s]\n', section='s')
    elif how == 'union':
        src = UnionSource([{}, {'a': None}])
    else:
        src = MountSource(a=None)
    survives(form_with(field)(), src)


TEXTS = ('', ' ', 'x', '1', '-1', '1.5', 'nan', 'inf', '1e999', '00', 'true', 'None', '[1]', '{"a": 1}', 'a b "c', "it's",
         '2020-01-01', '2020', '25', '99', '0b1', u'\u0661', '12345678-1234-5678-1234-567812345678', 'a:b', 'no.such:thing', '...', '\n',
         'x = \n1', '%s', '{0}', '\x00')


def spec_texts():
    """the texts parsers stumble over"""
    field, _ = build(choose(*SCALARS))
    survives(form_with(field)(), {'a': choose(*TEXTS)})


def spec_config_texts():
    field, _ = build(choose('Field', 'String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'Time', 'Datetime', 'DatetimeIso',
                            'UUID', 'Type', 'Tuple', 'List', 'ListAllow', 'Dict', 'SubForm'))
    text = choose('', 'x', '1', "it's", '1 2', '\n 1\n 2', '"a', 'T')
    survives(form_with(field)(), ConfigSource('[s]\na = ' + text + '\n', section='s'))


def spec_numbers_constrained():
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    cls = choose(fields.Integer, fields.Float, fields.Decimal)
    how = choose('plain', 'nullable', 'translate', 'ignore')
    if how == 'plain':
        field = cls(min_value=lo, max_value=hi)
    elif how == 'nullable':
        field = cls(min_value=lo, max_value=hi, nullable=choose(True, False))
    elif how == 'translate':
        field = cls(min_value=lo, max_value=hi, translate={1: 2, 'x': 3})
    else:
        field = cls(min_value=lo, max_value=hi, default=5).ignore(1, 'x')
    survives(form_with(field)(), {'a': any_value('v')})


def spec_strings_constrained():
    how = choose('length', 'bounds', 'alphabet', 'pattern', 'choices', 'tuple choices', 'single choice', 'translate', 'ignore',
                 'capture', 'named capture')
    if how == 'length':
        field = fields.String(length=any_value('n', 'int'))
    elif how == 'bounds':
        field = fields.String(min_length=any_value('lo', 'None', 'int'), max_length=any_value('hi', 'None', 'int'))
    elif how == 'alphabet':
        field = fields.String(alphabet=choose('abc', ['a', 'b']))
    elif how == 'pattern':
        field = fields.String(pattern=choose('a+b', re.compile('a+b')))
    elif how == 'choices':
        field = fields.String(choices=['a', 'b'])
    elif how == 'tuple choices':
        field = fields.String(choices=('a', 'b')).translate({'a': 1})
    elif how == 'single choice':
        field = fields.String(choices=['a'])
    elif how == 'translate':
        field = fields.String(translate={'a': 'b'})
    elif how == 'ignore':
        field = fields.String(default='c').ignore('a', 1, None)
    elif how == 'capture':
        field = fields.String(default='none').capture('a(.*)b')
    else:
        field = fields.String(default='none').capture('a(?P<rest>.*)b', 'rest')
    survives(form_with(field)(), {'a': any_value('v')})


def spec_untyped_options():
    """what a field without type does with unhashable and odd values"""
    how = choose('translate', 'ignore', 'parent', 'not nullable')
    if how == 'translate':
        field = pilo.Field(translate={1: 2, 'x': 3})
    elif how == 'ignore':
        field = pilo.Field(default=7).ignore(1, None, [], 'x')
    elif how == 'parent':
        field = fields.SubForm(Inner, attach_parent=True)
    else:
        field = pilo.Field(nullable=False)
    v = any_value('v') if how != 'parent' else choose(None, 1, 'x', [], {'x': 1}, {'x': 'no'})
    survives(form_with(field)(), {'a': v})


def spec_temporal_constrained():
    which = choose('Date', 'Time', 'Datetime')
    if which == 'Date':
        field = fields.Date(format=choose('%Y', ['%Y', 'iso8601'], 'iso8601'), after=any_value('lo', 'None', 'date'),
                            before=any_value('hi', 'None', 'date'))
    elif which == 'Time':
        field = fields.Time(format='%H', after=any_value('lo', 'None', 'struct_time'), before=any_value('hi', 'None', 'time'))
    else:
        field = fields.Datetime(format=choose('%Y', 'iso8601'), after=any_value('lo', 'None', 'datetime'),
                                before=any_value('hi', 'None', 'datetime'))
    survives(form_with(field)(), {'a': any_value('v')})


def spec_temporal_without_format():
    field = choose(fields.Date, fields.Time, fields.Datetime)()
    survives(form_with(field)(), {'a': any_value('v')})


def spec_patterns():
    field = choose(fields.Integer, fields.Float)()
    field.pattern(choose(r'\d+', re.compile('[0-9.]+'), '(x|1)'))
    survives(form_with(field)(), {'a': any_value('v')})


def element(name):
    return any_value(name, 'None', 'bool', 'int', 'float', 'str')


def shapes():
    """wrong shapes of containers"""
    which = choose('scalar', 'list', 'dict', 'nested', 'set')
    if which == 'scalar':
        return any_value('v', 'None', 'int', 'str', 'float', 'bool', 'date', 'object')
    if which == 'list':
        return [[], [element('x')], [element('x'), element('y')], [1, 2, 3]][choose(0, 1, 2, 3)]
    if which == 'set':
        return choose(set(['x']), frozenset([1]))
    if which == 'nested':
        return choose([[1], {'x': 1}], {'x': [1]}, {'x': {'x': 1}}, {1: {}}, (1, (2,)), {(1, 2): 3}, {None: 1}, {'': 1})
    return [{}, {plain('k'): element('x')}, {'x': element('x'), 'y': element('y')}][choose(0, 1, 2)]


def spec_sequences():
    field, _ = build(choose('Tuple', 'List', 'ListAllow'))
    survives(form_with(field)(), {'a': shapes()})


def spec_mappings():
    field, _ = build(choose('Dict', 'SubForm'))
    survives(form_with(field)(), {'a': shapes()})


def spec_polymorphic():
    field, _ = build('PolymorphicSubForm')
    which = choose('shape', 'identity')
    v = shapes() if which == 'shape' else {'kind': any_value('kind'), 'lives': element('lives')}
    survives(form_with(field)(), {'a': v})


def spec_collections_constrained():
    how = choose('List', 'Dict', 'required')
    if how == 'List':
        field = fields.List(pilo.Field(), min_length=any_value('lo', 'None', 'int'), max_length=any_value('hi', 'None', 'int'))
    elif how == 'Dict':
        field = fields.Dict(pilo.Field(), pilo.Field(), max_keys=any_value('n', 'None', 'int'))
    else:
        field = fields.Dict(pilo.Field(), pilo.Field(), required_keys=choose(['x'], ('x', 'y'), [1]))
    survives(form_with(field)(), {'a': shapes()})


def spec_containers_json():
    field, _ = build(choose('Tuple', 'List', 'ListAllow', 'Dict', 'SubForm', 'PolymorphicSubForm'))
    v = choose(1, 'x', '1', 1.5, True, None, [], [1, True], ['x', 0], {}, {'x': 1}, {'x': 'no'}, {'kind': 'cat'},
               {'kind': 'cow'}, {'kind': None}, {'kind': []}, [[1]], [{}])
    survives(form_with(field)(), JsonSource(json_text({'a': v}), strict=choose(True, False)))


def spec_containers_union():
    field, _ = build(choose('Tuple', 'List', 'ListAllow', 'Dict', 'SubForm'))
    v = choose(1, 'x', None, [], [1, True], ['x', 0], {}, {'x': 1}, {'x': 'no'}, [[1]])
    w = choose(1, None, [], [2, False], {}, {'x': 2}, {'y': 'no'})
    survives(form_with(field)(), UnionSource([{'a': v}, {'a': w}], merge=choose('first', 'combine', 'last')))


class Deep(pilo.Form):
    l = fields.List(fields.List(fields.Decimal(), optional=True), optional=True)
    d = fields.Dict(fields.String(), fields.SubForm(Inner), optional=True)
    t = fields.Tuple(fields.UUID(), fields.Date(format='%Y'), optional=True)
    p = fields.List(fields.PolymorphicSubForm(Animal.kind), optional=True)


def spec_nested():
    """elements of containers of containers"""
    x = any_value('x')
    which = choose('l', 'l2', 'd', 'd2', 't', 't2', 'p', 'p2')
    if which == 'l':
        data = {'l': [[x]]}
    elif which == 'l2':
        data = {'l': [x]}
    elif which == 'd':
        data = {'d': {'k': x}}
    elif which == 'd2':
        data = {'d': {'k': {'x': x}}}
    elif which == 't':
        data = {'t': [x, '2020']}
    elif which == 't2':
        data = {'t': ('12345678-1234-5678-1234-567812345678', x)}
    elif which == 'p':
        data = {'p': [x]}
    else:
        data = {'p': [{'kind': x}]}
    form = Deep()
    try:
        errs = form.map(data)
    except Exception as ex:
        fail('no exception leaves the mapping because of nested data', ex)
        return
    check(which[0] in form or len(errs) > 0, 'nested data that has no value was reported')


def spec_group():
    class G(pilo.Form):
        a = fields.Group(fields.Integer('x'), (re.compile(r'n_(\d+)'), fields.Decimal()), ('y', fields.SubForm(Inner)))
    key = choose('x', 'n_1', 'y', 'other')
    survives(G(), {key: any_value('v', 'None', 'int', 'str', 'list', 'dict', 'object')})


def spec_group_keys():
    """keys that are no text"""
    class G(pilo.Form):
        a = fields.Group(fields.Integer('x'), (re.compile('n'), fields.Integer()), optional=True)
    g = G()
    try:
        g.map({choose(1, None, (1, 2), 1.5): 1, 'x': any_value('v', 'int', 'str')})
    except Exception as ex:
        fail('keys that are no text do not raise out of a group', ex)
    reach('mapping a group over odd keys ends')


def spec_unmapped():
    """captured data"""
    class G(pilo.Form):
        a = fields.Integer(default=0)
    directive = choose('capture', fields.Integer(), (fields.String(), fields.Decimal()), fields.SubForm(Inner))
    g = G()
    try:
        g.map({choose('k', 1, (1, 2), None): any_value('v', 'None', 'int', 'str', 'list', 'object')}, unmapped=directive)
    except Exception as ex:
        fail('no exception leaves the capturing of undeclared keys', ex)
    reach('capturing ends')


def constructed(field, v):
    try:
        f = form_with(field)({'a': v})
        check('a' in f, 'a form constructed without error holds its field')
    except Exception as ex:
        check(isinstance(ex, fields.FormError), 'a form constructed from bad data raises a form error', ex)


def spec_constructor():
    """from the constructor only form errors come"""
    field, _ = build(choose('Integer', 'Decimal', 'UUID', 'Date', 'DatetimeIso', 'Code'))
    constructed(field, any_value('v'))


def spec_constructor_containers():
    field, _ = build(choose('SubForm', 'List', 'Tuple'))
    constructed(field, choose(1, 'x', None, [], [1, True], ['x', 0], {}, {'x': 1}, {'x': 'no'}, [[1]], set()))


def spec_attribute():
    """reading an attribute of an empty form raises a form error or an attribute error"""
    field, _ = build(choose('Integer', 'Decimal', 'SubForm', 'List'))
    f = form_with(field)()
    try:
        f.a
        fail('an attribute that has no value is not readable')
    except (fields.FormError, AttributeError):
        reach('reading what has no value raises a form or attribute error')


def spec_dict_keys():
    """keys go to the key field as they are"""
    name = choose('String', 'Integer', 'Float', 'Boolean', 'Field', 'Choices', 'Translate')
    if name == 'Choices':
        key_field = fields.String(choices=['a', 'b'])
    elif name == 'Translate':
        key_field = fields.String(translate={'a': 'b', 1: 'c'})
    else:
        key_field, _ = build(name)
    key = any_value('k', 'int') if choose(True, False) else choose('k', None, (1, 2), 1.5, 'a')
    survives(form_with(fields.Dict(key_field, fields.Integer()))(), {'a': {key: any_value('v', 'int', 'str')}})


def spec_dict_key_constraints():
    """constraints of the key field that only make sense for one type of key"""
    key_field, key = choose((fields.String(min_length=1), 1), (fields.String(alphabet='abc'), 1),
                            (fields.String(pattern='a'), 1), (fields.Integer(min_value=1), 'x'))
    f = form_with(fields.Dict(key_field, fields.Integer()))()
    try:
        f.map({'a': {key: 1}})
    except TypeError as ex:
        fail('a key of another type than its constraint raises out of the mapping', ex)


def spec_decimal_of_odd_numbers():
    """numbers that are no decimal number"""
    survives(form_with(fields.Decimal(min_value=choose(None, 1)))(), {'a': choose(1j, complex(2, 0), True, 10 ** 30)})


def spec_unparsable_under_any_circumstances():
    circumstances((
        (lambda: fields.Integer(), float('inf'), REFUSED), (lambda: fields.Integer(), [], REFUSED), (lambda: fields.Integer(), {}, REFUSED),
        (lambda: fields.Float(), {'x': 1}, REFUSED), (lambda: fields.Decimal(), 'abc', REFUSED), (lambda: fields.UUID(), 5, REFUSED),
        (lambda: fields.Boolean(), [], REFUSED), (lambda: fields.Date(), 5, REFUSED), (lambda: fields.Datetime(), 'zzz', REFUSED),
        (lambda: fields.Code(), '!!', REFUSED), (lambda: fields.Tuple(pilo.Field(), pilo.Field()), 3, REFUSED),
        (lambda: fields.List(pilo.Field()), 3, REFUSED), (lambda: fields.Dict(pilo.Field(), pilo.Field()), 'ab', REFUSED),
        (lambda: fields.SubForm(Inner), 'ab', REFUSED), (lambda: fields.String(choices=['a']), {}, REFUSED),
    ))
