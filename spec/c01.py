"""C01: munge, filter, validate, in that order, each once, on the output of the step before."""
from base import *


class Log(object):

    def __init__(self):
        self.events = []

    def add(self, step, value, form):
        self.events.append((step, value, form))


def hooked(field, log, munge, filt, validate):
    """registers logging hooks; each is a result to return, or 'off'"""
    if munge != 'off':
        @field.munge
        def a(self, value):
            log.add('munge', value, self)
            return any_value('munged', 'str', 'None', 'int', 'list') if munge == 'value' else munge
    if filt != 'off':
        @field.filter
        def a(self, value):
            log.add('filter', value, self)
            return any_value('keep')
    if validate != 'off':
        @field.validate
        def a(self, value):
            log.add('validate', value, self)
            return any_value('valid')
    return field


def expect(v, munge, filt, validate, nullable):
    """(log, outcome): the outcome is ('value', v) | 'default' | 'dropped' | 'rejected'"""
    log = []
    w = v
    if isinstance(w, str) and w == 'x':
        w = 'y'
    if munge != 'off':
        log.append(('munge', w))
        w = any_value('munged') if munge == 'value' else munge
    if w is NONE:
        return log, 'default', None
    if w is ERROR or w is NOT_SET:
        return log, 'dropped', None
    if isinstance(w, str) and w == 'i':
        return log, 'default', None
    if filt != 'off':
        log.append(('filter', w))
        if not any_value('keep'):
            return log, 'default', None
    if w is None and not nullable:
        return log, 'rejected', None
    if validate != 'off':
        log.append(('validate', w))
        if not any_value('valid'):
            return log, 'rejected', None
    return log, 'value', w


def verify(form, log, r, errs, v, munge, filt, validate, nullable):
    elog, outcome, w = expect(v, munge, filt, validate, nullable)
    check(len(log.events) == len(elog), 'every step ran exactly once and none after the value was decided')
    for (s1, v1, f1), (s2, v2) in zip(log.events, elog):
        check(s1 == s2, 'steps ran in the order munge, filter, validate')
        check(same(v1, v2), 'every step got the output of the step before')
        if form is not None:
            check(f1 is form, 'hooks ran against the form being mapped')
    if outcome == 'value':
        check(same(r, w), 'the value that went through all steps is yielded')
        check(len(errs) == 0, 'an accepted value records no error')
    elif outcome == 'default':
        check(r == 'D', 'a dropped value is replaced by the default')
        check(len(errs) == 0, 'a dropped value records no error')
    else:
        check(is_missing(r), 'a value turned down is never yielded')
        if w is None and outcome == 'rejected' and len(elog) and elog[-1][0] != 'validate':
            check(len(errs) == 1, 'a built-in rejection is recorded once')


def variants():
    munge = choose('off', 'value', NONE, ERROR, NOT_SET)
    filt = choose('off', 'on')
    validate = choose('off', 'on')
    return munge, filt, validate


def spec_mapped_from_source():
    munge, filt, validate = variants()
    nullable = choose(True, False)
    log = Log()

    class F(pilo.Form):
        a = hooked(pilo.Field(nullable=nullable, translate={'x': 'y'}, ignore='i', default='D'), log, munge, filt,
                   validate)
    f = F()
    v = any_value('v', 'str', 'None', 'int', 'list')
    errs = f.map({'a': v})
    verify(f, log, got(f), errs, v, munge, filt, validate, nullable)


def spec_handed_in_directly():
    munge, filt, validate = variants()
    log = Log()

    class F(pilo.Form):
        a = hooked(pilo.Field(nullable=False, translate={'x': 'y'}, ignore='i', default='D'), log, munge, filt,
                   validate)
    f = F()
    v = any_value('v', 'str', 'None', 'int')
    with mapping_context({}, form=f) as errs:
        r = F.a.map(v)
    verify(f, log, r, errs, v, munge, filt, validate, False)


def spec_computed_values():
    """a compute hook replaces resolving and parsing only"""
    munge, filt, validate = variants()
    log = Log()
    v = any_value('v', 'str', 'None', 'int')

    class F(pilo.Form):
        a = hooked(pilo.Field(nullable=False, translate={'x': 'y'}, ignore='i', default='D'), log, munge, filt,
                   validate)

        @a.compute
        def a(self):
            return v
    f = F()
    errs = f.map({'a': any_value('raw', 'str', 'int')})
    verify(f, log, got(f), errs, v, munge, filt, validate, False)


def spec_parsed_values():
    """a parse hook replaces the built-in parser; the steps run on what it returns"""
    munge, filt, validate = variants()
    log = Log()
    v = any_value('v', 'str', 'None', 'int')

    class F(pilo.Form):
        a = hooked(fields.Integer(nullable=False, translate={'x': 'y'}, ignore='i', default='D'), log, munge, filt,
                   validate)

        @a.parse
        def a(self, path):
            return v
    f = F()
    errs = f.map({'a': 1})
    verify(f, log, got(f), errs, v, munge, filt, validate, False)


def typed_fields():
    return choose((fields.String, 'str'), (fields.Integer, 'int'), (fields.Float, 'float'), (fields.Boolean, 'bool'),
                  (fields.Decimal, 'Decimal'), (fields.Date, 'date'), (fields.Time, 'time'),
                  (fields.Datetime, 'datetime'), (fields.UUID, 'UUID'), (fields.Code, 'int'), (fields.Type, 'str'))


def spec_every_type_goes_through_the_steps():
    """the steps are those of every field type, whatever else the type does"""
    cls, kind = typed_fields()
    log = Log()
    munge = choose('off', 'on')

    class F(pilo.Form):
        a = cls(nullable=False, default='D')

        @a.filter
        def a(self, value):
            log.add('filter', value, self)
            return any_value('keep')

        @a.validate
        def a(self, value):
            log.add('validate', value, self)
            return any_value('valid')
    if munge == 'on':
        @F.a.munge
        def a(self, value):
            log.add('munge', value, self)
            return any_value('munged', kind)
    f = F()
    v = any_value('v', kind)
    errs = f.map({'a': v})
    elog, outcome, w = expect(v, 'value' if munge == 'on' else 'off', 'on', 'on', False) \
        if kind != 'str' else (None, None, None)
    if kind == 'str':
        w = any_value('munged') if munge == 'on' else v
        elog = ([('munge', v)] if munge == 'on' else []) + [('filter', w)]
        outcome = 'default'
        if any_value('keep'):
            elog.append(('validate', w))
            outcome = 'value' if any_value('valid') else 'rejected'
    check(len(log.events) == len(elog), 'typed: every step ran exactly once')
    for (s1, v1, f1), (s2, v2) in zip(log.events, elog):
        check(s1 == s2 and same(v1, v2), 'typed: every step got the output of the step before, in order')
    if outcome == 'value':
        check(same(got(f), w), 'typed: the value that went through all steps is yielded')
    elif outcome == 'default':
        check(got(f) == 'D', 'typed: a dropped value is replaced by the default')
    else:
        check(got(f) is NONE, 'typed: a value turned down is never yielded')


def spec_derived_steps():
    """field classes of users override steps themselves; translations may drop a value, too"""
    log = Log()
    out = choose('value', NONE, ERROR, NOT_SET)
    w = any_value('w', 'int', 'None', 'list') if out == 'value' else out
    how = choose('override', 'translate')

    class Own(pilo.Field):

        def _munge(self, value):
            log.add('_munge', value, None)
            return w if how == 'override' else super(Own, self)._munge(value)

        def _filter(self, value):
            log.add('_filter', value, None)
            return any_value('_keep')

        def _validate(self, value):
            log.add('_validate', value, None)
            return any_value('_valid')
    field = Own(translate={'x': w}, default='D')
    field = hooked(field, log, 'value', 'on', 'on')
    f, errs = mapped(field, {'a': 'x'})
    events = [('_munge', 'x')]
    outcome = 'value'
    if is_missing(w):
        outcome = 'D' if w is NONE else NONE
    else:
        m = any_value('munged')
        events = events + [('munge', w), ('_filter', m)]
        if not any_value('_keep'):
            outcome = 'D'
        else:
            events.append(('filter', m))
            if not any_value('keep'):
                outcome = 'D'
            else:
                events.append(('_validate', m))
                if not any_value('_valid'):
                    outcome = NONE
                else:
                    events.append(('validate', m))
                    outcome = 'value' if any_value('valid') else NONE
    check([e[0] for e in log.events] == [e[0] for e in events],
          'each built-in step is followed by its hook and no step runs after the value was decided')
    for e, want in zip(log.events, events):
        check(same(e[1], want[1]), 'each step and hook gets the output of the step before')
    if outcome == 'value':
        check(same(got(f), any_value('munged')), 'the value that went through all steps and hooks is yielded')
    else:
        check(got(f) is outcome, 'a value dropped is defaulted, a value turned down is not yielded')
