"""C05: built-in rejections are reported, acceptances are not, and nothing is turned into null silently."""
from base import *


def known(err, field, nested):
    if err.field is field:
        return True
    for n in nested:
        if err.field is n:
            return True
    return False


DEFAULT = ['D']


def options():
    return choose({}, {'optional': True}, {'default': DEFAULT})


def verify(field, nested, f, errs, v):
    r = got(f)
    if r is DEFAULT:
        if v is not None:
            fail('a value is never silently dropped for the default')
        return
    own = False
    for e in errs:
        check(known(e, field, nested), 'a recorded error concerns the field or one nested in it')
        check(isinstance(e, fields.FieldError), 'what is recorded is a field error')
        if e.field is field:
            own = True
    if r is NONE:
        check(len(errs) > 0, 'a value turned down is reported')
    else:
        check(not own, 'a value that is yielded is not reported')
        if v is not None and not isinstance(field, fields.Code):
            # (what a Code field's text denotes may itself be None)
            check(r is not None, 'a value is never silently turned into null')


def spec_scalars():
    name = choose(*SCALARS)
    field, nested = build(name, **options())
    v = any_value('v')
    f, errs = mapped(field, {'a': v})
    verify(field, nested, f, errs, v)
    if got(f) is not NONE:
        check(len(errs) == 0, 'an accepted scalar records nothing')


def spec_constrained_scalars():
    which = choose('String', 'Integer', 'Float', 'Decimal', 'Date', 'Time', 'Datetime', 'NoFormatDate', 'NoFormatTime',
                   'NoFormatDatetime', 'PatternInt', 'PatternFloat', 'Type')
    v = any_value('v')
    if which == 'String':
        field = fields.String(min_length=any_value('lo', 'int'), max_length=any_value('hi', 'int'), pattern='a+b',
                              choices=['aab', 'ab'])
    elif which == 'Integer':
        field = fields.Integer(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int'))
    elif which == 'Float':
        field = fields.Float(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int'))
    elif which == 'Decimal':
        field = fields.Decimal(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int'))
    elif which == 'Date':
        field = fields.Date(format=['%Y', 'iso8601'], after=any_value('lo', 'date'), before=any_value('hi', 'date'))
    elif which == 'Time':
        field = fields.Time(format='%H', after=any_value('lo', 'struct_time'), before=any_value('hi', 'struct_time'))
        v = any_value('v', 'None', 'str', 'struct_time', 'int', 'list')
    elif which == 'Datetime':
        field = fields.Datetime(format='iso8601', after=any_value('lo', 'datetime'),
                                before=any_value('hi', 'datetime'))
    elif which == 'NoFormatDate':
        field = fields.Date()
    elif which == 'NoFormatTime':
        field = fields.Time()
    elif which == 'NoFormatDatetime':
        field = fields.Datetime()
    elif which == 'PatternInt':
        field = fields.Integer()
        field.pattern('[0-9]+')
    elif which == 'PatternFloat':
        field = fields.Float()
        field.pattern('[0-9.]+')
    else:
        field = fields.Type.abstract(choices=['a', 'b'])
    f, errs = mapped(field, {'a': v})
    verify(field, (), f, errs, v)
    if got(f) is not NONE:
        check(len(errs) == 0, 'an accepted constrained scalar records nothing')


def element(name):
    return any_value(name, 'None', 'bool', 'int', 'str')


def some_container():
    """any scalar, a sequence or a mapping of up to two unknown elements"""
    which = choose('scalar', 'list', 'tuple', 'dict')
    if which == 'scalar':
        return any_value('v', 'None', 'int', 'str', 'float')
    n = choose(0, 1, 2)
    if which == 'dict':
        key = any_value('k', 'int') if choose(True, False) else plain('k')
        return [{}, {key: element('x')}, {'x': element('x'), 'y': element('y')}][n]
    items = [[], [element('x')], [element('x'), element('y')]][n]
    return items if which == 'list' else tuple(items)


def spec_sequences():
    name = choose('Tuple', 'List', 'ListAllow')
    field, nested = build(name, **options())
    v = some_container()
    f, errs = mapped(field, {'a': v})
    verify(field, nested, f, errs, v)


def spec_mappings():
    name = choose('Dict', 'SubForm')
    field, nested = build(name, **options())
    v = some_container()
    f, errs = mapped(field, {'a': v})
    verify(field, nested, f, errs, v)


def spec_polymorphic():
    field, nested = build('PolymorphicSubForm', **options())
    which = choose('scalar', 'list', 'no identity', 'identity')
    if which == 'scalar':
        v = any_value('v', 'None', 'int', 'str', 'float')
    elif which == 'list':
        v = [any_value('v', 'int', 'str')]
    elif which == 'no identity':
        v = {'lives': 4}
    else:
        v = {'kind': any_value('kind'), 'lives': element('lives')}
        if v['kind'] is None:
            # a null identity counts as a missing value
            v = None
    f, errs = mapped(field, {'a': v})
    verify(field, nested, f, errs, v)


def spec_constrained_lists():
    v = some_container()
    field = fields.List(pilo.Field(), min_length=any_value('lo', 'int'), max_length=any_value('hi', 'int'))
    f, errs = mapped(field, {'a': v})
    verify(field, (), f, errs, v)
    if got(f) is not NONE:
        check(len(errs) == 0, 'an accepted list records nothing')


def spec_constrained_mappings():
    v = some_container()
    field = fields.Dict(pilo.Field(), pilo.Field(), required_keys=['x'], max_keys=1)
    f, errs = mapped(field, {'a': v})
    verify(field, (), f, errs, v)
    if got(f) is not NONE:
        check(len(errs) == 0, 'an accepted mapping records nothing')


def spec_direct_values():
    """built-in validation of a value handed to the field"""
    which = choose('Integer', 'Float', 'String', 'Field')
    if which == 'Integer':
        field = fields.Integer(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int'), nullable=False)
        v = any_value('v', 'None', 'int')
    elif which == 'Float':
        field = fields.Float(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int'), nullable=False)
        v = any_value('v', 'None', 'float')
    elif which == 'String':
        field = fields.String(min_length=any_value('lo', 'int'), choices=['x', 'y'], alphabet='xyz', nullable=False)
        v = any_value('v', 'None', 'str')
    else:
        field = pilo.Field(nullable=False)
        v = any_value('v')
    with mapping_context({}) as errs:
        r = field.map(v)
    if is_missing(r):
        check(only_invalid(errs, field), 'a direct value turned down is reported once')
    else:
        check(same(r, v) and len(errs) == 0, 'a direct value accepted is kept and not reported')


def spec_types_under_any_circumstances():
    """a value of another type is refused, one of the type kept, under any circumstances"""
    circumstances((
        (lambda: fields.Integer(), 'x', REFUSED), (lambda: fields.Integer(), '3', 3), (lambda: fields.Boolean(), 'maybe', REFUSED),
        (lambda: fields.Boolean(), False, False), (lambda: fields.String(), [1], REFUSED), (lambda: fields.String(), '', ''),
        (lambda: fields.UUID(), 'zzz', REFUSED), (lambda: fields.Float(), 'x', REFUSED), (lambda: pilo.Field(), 0, 0),
    ))
