"""C02: values that are missing, dropped or filtered follow the default policy."""
from base import *


def hooks(field, log, drop, v):
    @field.munge
    def a(self, value):
        log.append(('munge', value))
        return NONE if drop == 'munge' else value

    @field.filter
    def a(self, value):
        log.append(('filter', value))
        return drop != 'filter'

    @field.validate
    def a(self, value):
        log.append(('validate', value))
        return True


STEPS = {'absent': (), 'munge': ('munge',), 'filter': ('munge', 'filter'), 'ignored': ('munge',)}


def spec_policy():
    how = choose('unset', 'literal', 'none', 'callable', 'type', 'hook', 'optional')
    drop = choose('absent', 'munge', 'filter', 'ignored')
    no_default, no_missing = choose(False, True), choose(False, True)
    v = any_value('v', 'int', 'str', 'float')
    d = any_value('d', 'int', 'str', 'bool', 'float', 'dict')
    log, calls = [], []

    def fresh():
        calls.append('called')
        return ['fresh']
    opts = {'ignore': v} if drop == 'ignored' else {}
    if how == 'literal':
        opts['default'] = d
    elif how == 'none':
        opts['default'] = None
    elif how == 'callable':
        opts['default'] = fresh
    elif how == 'type':
        opts['default'] = dict
    elif how == 'optional':
        opts['optional'] = True
    field = pilo.Field(**opts)
    forms = []
    if how == 'hook':
        @field.default
        def a(self):
            forms.append(self)
            return d
    hooks(field, log, drop, v)
    f = form_with(field)()
    with pilo.ctx(ignore_default=no_default, ignore_missing=no_missing):
        errs = f.map({} if drop == 'absent' else {'a': v})
    r = got(f)
    check(tuple([s for s, _ in log]) == STEPS[drop], 'the default is neither munged, filtered nor validated')
    if how == 'unset' or no_default:
        check(r is NONE, 'a field without a default yields nothing')
        if no_missing:
            check(len(errs) == 0, 'no Missing is recorded while missing values are ignored')
        else:
            check(only_missing(errs, field), 'exactly one Missing is recorded for a field without default')
        check(len(calls) == 0 and len(forms) == 0, 'a suppressed default is not computed')
        return
    check(len(errs) == 0, 'taking the default records no error')
    if how == 'optional':
        check(r is NONE, 'an optional field yields nothing')
    elif how == 'literal' or how == 'hook':
        check(same(r, d), 'the default is yielded as declared')
    elif how == 'none':
        check(r is None, 'a default of None is yielded')
    elif how == 'callable':
        check(r == ['fresh'] and len(calls) == 1, 'a callable default is called once')
    else:
        check(r == {} and isinstance(r, dict), 'a type default is instantiated')
    if how == 'hook':
        check(len(forms) == 1 and forms[0] is f, 'the default hook runs once against the form')


def spec_callable_is_fresh():
    field = pilo.Field(default=choose(list, dict, lambda: ['x']))
    F = form_with(field)
    f, g = F(), F()
    f.map({})
    g.map({})
    check(got(f) is not got(g) and got(f) is not NONE, 'a callable default is called afresh for each mapping')


def spec_optional_with_default():
    """a default beside `optional` is a default, in whatever order the two were given"""
    d = any_value('d', 'None', 'int', 'str', 'list')
    how = choose('together', 'optional first', 'default first', 'not optional')
    if how == 'together':
        field = fields.Integer(optional=True, default=d)
    elif how == 'optional first':
        field = fields.Integer(optional=True).options(default=d)
    elif how == 'default first':
        field = fields.Integer(default=NONE).options(optional=False, default=d)
    else:
        field = fields.Integer(optional=False, default=d)
    f, errs = mapped(field, {})
    check(same(got(f), d) and len(errs) == 0, 'the default given is yielded')


def spec_ignored_values():
    """values equal to an ignored one are ignored, whatever they are"""
    v = any_value('v', 'None', 'int', 'float', 'str', 'bool')
    field = pilo.Field(default='d').ignore(5, 'text', 1000000, '', None)
    f, errs = mapped(field, {'a': v})
    if v in (5, 'text', 1000000, '', None):
        check(got(f) == 'd' and len(errs) == 0, 'what equals an ignored value yields the default')
    else:
        check(same(got(f), v) and len(errs) == 0, 'what equals no ignored value is kept')


def spec_default_is_not_checked():
    """a default that the field's own constraints would turn down"""
    lo = any_value('lo', 'int')
    d = any_value('d', 'int')
    which = choose('number', 'string', 'list', 'choices')
    if which == 'number':
        field = fields.Integer(min_value=lo, default=d, ignore=d, translate={'x': 5})
    elif which == 'string':
        d = any_value('s', 'str')
        field = fields.String(min_length=lo, default=d, translate={'x': 'y'}, ignore=d)
    elif which == 'list':
        field = fields.List(fields.Integer(), min_length=lo, default=d)
    else:
        d = any_value('s', 'str')
        field = fields.String(choices=['p', 'q'], default=d)
    f, errs = mapped(field, {})
    check(same(got(f), d), 'the default is yielded even if constraints would reject it')
    check(len(errs) == 0, 'no constraint is applied to the default')


def spec_every_type_reports_missing():
    name = choose(*(SCALARS + CONTAINERS))
    field, _ = build(name)
    f, errs = mapped(field, {})
    check(got(f) is NONE, 'every type: an absent value without default yields nothing')
    check(only_missing(errs, field), 'every type: an absent value without default is reported missing once')


def spec_every_type_takes_default():
    name = choose(*(SCALARS + CONTAINERS))
    d = any_value('d', 'int', 'str', 'None')
    field, _ = build(name, default=d)
    f, errs = mapped(field, {})
    check(same(got(f), d), 'every type: an absent value yields the default')
    check(len(errs) == 0, 'every type: taking the default records nothing')


def spec_suppression_ends():
    """defaults come back when the context ends"""
    d = any_value('d', 'int', 'str')
    field = pilo.Field(default=d)
    F = form_with(field)
    with pilo.ctx(ignore_default=True):
        with pilo.ctx(ignore_default=False):
            f = F()
            e = f.map({})
    check(same(got(f), d) and len(e) == 0, 'the innermost setting decides')
    g = F()
    e = g.map({})
    check(same(got(g), d) and len(e) == 0, 'suppression ends with the context')


def spec_group_is_missing_only_if_nothing_matched():
    how = choose('unset-default', 'literal', 'none-set')
    d = any_value('d', 'int', 'str')
    member = fields.Integer('k')
    if how == 'literal':
        field = fields.Group(member, default=d)
    elif how == 'none-set':
        field = fields.Group(member, default=NOT_SET)
    else:
        field = fields.Group(member)
    f, errs = mapped(field, {'other': any_value('v')})
    if how == 'literal':
        check(same(got(f), d) and len(errs) == 0, 'a group without matches yields its default')
    elif how == 'none-set':
        check(got(f) is NONE and only_missing(errs, field), 'a group without matches or default is missing')
    else:
        check(got(f) == [] and len(errs) == 0, 'a group without matches yields an empty list by default')


def spec_callable_results():
    """whatever a callable default or a default hook yields is the default"""
    made = []
    d = choose(None, 0, '', [], False, 'x', NONE, dict, len)

    def make():
        made.append(d)
        return d
    how = choose('callable', 'hook', 'lambda')
    opts = choose({}, {'translate': {'x': 'y', 0: 5, None: 'z', '': 'e'}}, {'ignore': 'x'})
    if how == 'callable':
        field = pilo.Field(default=make, nullable=False, **opts)
    elif how == 'lambda':
        field = pilo.Field(default=lambda: make(), nullable=False, **opts)
    else:
        field = pilo.Field(nullable=False, **opts)

        @field.default
        def field(self):
            return make()
    f, errs = mapped(field, {})
    check(len(made) == 1 and len(errs) == 0, 'a default is asked for once, and nothing is recorded')
    if d is NONE:
        check('a' not in f, 'a default that is none yields nothing')
    else:
        check('a' in f and got(f) is d, 'what is yielded is the default, whatever it is')


def spec_missing_under_any_circumstances():
    circumstances((
        (lambda: fields.String().ignore('n'), 'n', MISSING), (lambda: pilo.Field().ignore(0, ''), 0, MISSING),
        (lambda: pilo.Field().ignore(0, ''), '', MISSING),
        (lambda: fields.Integer(default=7), ABSENT, 7), (lambda: pilo.Field(default=None), ABSENT, None),
        (lambda: fields.List(pilo.Field(), default=list), ABSENT, []), (lambda: fields.String(optional=True), ABSENT, NOTHING),
        (lambda: fields.String(), ABSENT, MISSING), (lambda: fields.Integer(default=False), ABSENT, False),
        (lambda: fields.String(default='d').ignore('n'), 'n', 'd'), (lambda: fields.String(optional=True).ignore('n'), 'n', NOTHING),
        (lambda: fields.SubForm(Inner), ABSENT, MISSING), (lambda: fields.List(pilo.Field()), ABSENT, MISSING),
        (lambda: fields.Dict(pilo.Field(), pilo.Field()), ABSENT, MISSING), (lambda: fields.Boolean(), ABSENT, MISSING),
        (lambda: fields.Tuple(pilo.Field(), pilo.Field()), ABSENT, MISSING),
    ), ('ignore missing', 'ignore default', 'both ignored', 'optional', 'with default'))
