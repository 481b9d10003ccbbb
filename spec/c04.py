"""C04: null is accepted exactly by nullable fields."""
from base import *


def constrained(name, **o):
    if choose(True, False):
        return plainly(name, **o)
    if name == 'Field':
        return pilo.Field(**o)
    if name == 'String':
        return fields.String(min_length=1, max_length=any_value('hi', 'int', 'None'), alphabet='abc', pattern='a+',
                             choices=['a', 'b'], **o)
    if name == 'Integer':
        return fields.Integer(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'int', 'None'), **o)
    if name == 'Float':
        return fields.Float(min_value=any_value('lo', 'int'), max_value=any_value('hi', 'float'), **o)
    if name == 'Decimal':
        return fields.Decimal(min_value=any_value('lo', 'int'), **o)
    if name == 'Boolean':
        return fields.Boolean(**o)
    if name == 'Date':
        return fields.Date(after=any_value('lo', 'date'), before=any_value('hi', 'date'), format='%Y', **o)
    if name == 'Time':
        return fields.Time(after=any_value('lo', 'time'), before=any_value('hi', 'time'), format='%H', **o)
    if name == 'Datetime':
        return fields.Datetime(after=any_value('lo', 'datetime'), before=any_value('hi', 'datetime'), **o)
    if name == 'Tuple':
        return fields.Tuple(fields.Integer(), fields.Integer(), **o)
    if name == 'List':
        return fields.List(fields.Integer(), min_length=1, max_length=2, **o)
    if name == 'ListAllow':
        return fields.List(fields.Integer(), allow_field=True, min_length=1, **o)
    if name == 'Dict':
        return fields.Dict(fields.String(), fields.Integer(), required_keys=['k'], max_keys=1, **o)
    if name == 'Code':
        return fields.Code(**o)
    if name == 'UUID':
        return fields.UUID(**o)
    if name == 'Type':
        return fields.Type.abstract(choices=['a'], **o)
    if name == 'SubForm':
        return fields.SubForm(Inner, **o)
    if name == 'SubFormParent':
        return fields.SubForm(Inner, attach_parent=True, **o)
    if name == 'Capture':
        return fields.String(**o).capture('(a)b')
    return fields.PolymorphicSubForm(Animal.kind, **o)


def plainly(name, **o):
    if name in SCALARS + CONTAINERS:
        return build(name, **o)[0]
    if name == 'SubFormParent':
        return fields.SubForm(Inner, attach_parent=True, **o)
    return fields.String(**o).capture('a')


ALL = ('Field', 'String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'Time', 'Datetime', 'Tuple', 'List',
       'ListAllow', 'Dict', 'Code', 'UUID', 'Type', 'SubForm', 'SubFormParent', 'Capture', 'PolymorphicSubForm')


def declaration():
    """(options, is it nullable?)"""
    return choose(({}, True), ({'nullable': True}, True), ({'nullable': False}, False),
                  ({'default': None}, True), ({'default': None, 'nullable': False}, True),
                  ({'nullable': False, 'default': 'D'}, False), ({'nullable': True, 'default': 'D'}, True), ({'default': 'D'}, True), ({'nullable': False, 'optional': True}, False))


def verify(field, f, errs, nullable):
    if nullable:
        check('a' in f and f['a'] is None, 'a nullable field accepts null')
        check(len(errs) == 0, 'no constraint is applied to an accepted null')
    else:
        check('a' not in f, 'a field that is not nullable yields no value for null')
        check(only_invalid(errs, field), 'a null in a field that is not nullable is one Invalid')


def spec_null_from_source():
    name = choose(*ALL)
    opts, nullable = declaration()
    field = constrained(name, **opts)
    f, errs = mapped(field, {'a': None})
    verify(field, f, errs, nullable)


def spec_null_by_munge():
    """a null that munging or translation produces is judged like one from the source"""
    name = choose('Field', 'String', 'Integer', 'Decimal', 'Date', 'List', 'Dict')
    opts, nullable = declaration()
    field = constrained(name, **opts)
    how = choose('munge', 'compute')
    if how == 'munge':
        @field.parse
        def parse(self, path):
            return 'x'

        @field.munge
        def munge(self, value):
            return None
    else:
        @field.compute
        def compute(self):
            return None
    f, errs = mapped(field, {'a': 'x'})
    verify(field, f, errs, nullable)


def spec_null_translated():
    """a null that is translated is no null any more, and one that is the translation is"""
    opts, nullable = declaration()
    w = choose('w', 0, '', False)
    field = pilo.Field(**opts).translate({None: w, 'x': None})
    f, errs = mapped(field, {'a': None})
    check(same(got(f), w) and len(errs) == 0, 'a translated null is accepted')
    field = constrained('String', **opts).translate({'x': None})
    f, errs = mapped(field, {'a': 'x'})
    verify(field, f, errs, nullable)


def spec_null_handed_in():
    name = choose(*ALL)
    nullable = choose(True, False)
    field = constrained(name, nullable=nullable)
    with mapping_context({}) as errs:
        r = field.map(None)
    if nullable:
        check(r is None and len(errs) == 0, 'a nullable field accepts a null handed to it')
    else:
        check(is_missing(r) and only_invalid(errs, field), 'a null handed to a field that is not nullable is one Invalid')


def spec_non_null_is_not_affected():
    """nullability only concerns null"""
    v = any_value('v')
    assume(v is not None)
    name = choose('Field', 'Integer', 'String', 'Boolean', 'Float')
    a, _ = build(name, nullable=True)
    b, _ = build(name, nullable=False)
    f, e1 = mapped(a, {'a': v})
    g, e2 = mapped(b, {'a': v})
    check(same(got(f), got(g)) and len(e1) == len(e2), 'nullability does not matter for other values')


def spec_later_options():
    """declared by options() after construction"""
    field = fields.Integer()
    which = choose('nullable', 'not nullable', 'default none', 'other', 'default after')
    if which == 'nullable':
        field.options(nullable=False).options(nullable=True)
    elif which == 'not nullable':
        field.options(nullable=False).options(default=3)
    elif which == 'default after':
        field.options(nullable=True).options(default=3)
    elif which == 'default none':
        field.options(nullable=False).options(default=None)
    else:
        field.options(nullable=False).options(tags='x', ignore='n')
    f, errs = mapped(field, {'a': None})
    verify(field, f, errs, which in ('nullable', 'default none', 'default after'))


def spec_null_under_any_circumstances():
    circumstances((
        (lambda: pilo.Field(nullable=False), None, REFUSED), (lambda: fields.String(nullable=False), None, REFUSED),
        (lambda: fields.Integer(nullable=True, min_value=3), None, None), (lambda: fields.List(pilo.Field(), nullable=True), None, None),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), nullable=False), None, REFUSED),
        (lambda: fields.SubForm(Inner, nullable=True), None, None), (lambda: fields.SubForm(Inner, nullable=False), None, REFUSED),
    ))
