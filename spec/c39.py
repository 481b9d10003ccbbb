"""C39: temporal fields parse by their declared formats in order."""
from base import *
import datetime
import time

FORMATS = ('%Y', '%m', '%d')


def fits(text, fmt):
    try:
        return True, datetime.datetime.strptime(text, fmt)
    except ValueError:
        return False, None


def iso(text):
    import iso8601
    try:
        return True, iso8601.parse_date(text)
    except iso8601.ParseError:
        return False, None


def fit(text, fmt):
    return iso(text) if fmt == 'iso8601' else fits(text, fmt)


def spec_date_formats():
    """the first format that fits"""
    text = any_value('text', 'str')
    formats = choose(['%Y'], ['%Y', '%m'], ('%m', '%Y', '%d'), ['iso8601', '%Y'], ['%Y', 'iso8601', '%m'], ('%d', 'iso8601'),
                     ['iso8601'], '%Y', 'iso8601')
    field = fields.Date(format=formats)
    f, errs = mapped(field, {'a': text})
    want = None
    for fmt in ([formats] if isinstance(formats, str) else formats):
        ok, value = fit(text, fmt)
        if ok:
            want = value.date()
            break
    if want is None:
        check('a' not in f and only_invalid(errs, field), 'text that fits no format is invalid, once')
    else:
        check(len(errs) == 0 and same(got(f), want), 'the first format that fits determines the date')


def spec_datetime_format():
    text = any_value('text', 'str')
    fmt = choose('%Y', 'iso8601', '%H')
    field = fields.Datetime(format=fmt)
    f, errs = mapped(field, {'a': text})
    ok, want = fit(text, fmt)
    if ok:
        check(len(errs) == 0 and same(got(f), want), 'text that fits the format is the datetime it denotes')
    else:
        check('a' not in f and only_invalid(errs, field), 'text that does not fit the format is invalid, once')


def spec_time_format():
    text = any_value('text', 'str')
    fmt = choose('%H', '%M')
    field = fields.Time(format=fmt)
    f, errs = mapped(field, {'a': text})
    try:
        ok, want = True, time.strptime(text, fmt)
    except ValueError:
        ok, want = False, None
    if ok:
        check(len(errs) == 0 and same(got(f), want), 'text that fits the format is the time it denotes')
    else:
        check('a' not in f and only_invalid(errs, field), 'text that does not fit the format of a time is invalid, once')


def spec_typed_values():
    """values of the right type are kept"""
    which = choose('Date', 'Time', 'Datetime')
    if which == 'Date':
        field, v = fields.Date(), any_value('v', 'date', 'datetime')
        want = v.date() if isinstance(v, datetime.datetime) else v
    elif which == 'Time':
        field = fields.Time()
        want = v = any_value('v', 'time', 'struct_time')
    else:
        field = fields.Datetime()
        want = v = any_value('v', 'datetime')
    if choose(True, False):
        field.format('%Y')
    f, errs = mapped(field, {'a': v})
    check(len(errs) == 0 and same(got(f), want), 'a value that already has the type is kept')


def spec_no_format():
    text = any_value('text', 'str')
    cls = choose(fields.Date, fields.Time, fields.Datetime)
    field = choose(cls(), cls(format=None))
    if cls is fields.Date and choose(True, False):
        field = cls(format=choose([], ()))
    f, errs = mapped(field, {'a': text})
    check('a' not in f and only_invalid(errs, field), 'without format text is invalid, once')


def spec_other_types():
    """nothing else is parsed"""
    v = any_value('v', 'int', 'float', 'bool', 'list', 'dict', 'object', 'bytes')
    which = choose('Date', 'Time', 'Datetime')
    field = {'Date': fields.Date, 'Time': fields.Time, 'Datetime': fields.Datetime}[which](format='%Y')
    f, errs = mapped(field, {'a': v})
    check('a' not in f and only_invalid(errs, field), 'neither text nor of the type is invalid, once')


def spec_wrong_temporal():
    """temporal values of another type"""
    which, v = choose(('Date', any_value('t', 'time', 'struct_time')), ('Time', any_value('d', 'date', 'datetime')),
                      ('Datetime', any_value('e', 'date', 'time', 'struct_time')))
    if which == 'Datetime':
        assume(not isinstance(v, datetime.datetime))
    field = {'Date': fields.Date, 'Time': fields.Time, 'Datetime': fields.Datetime}[which](format='%Y')
    f, errs = mapped(field, {'a': v})
    if which == 'Time' or which == 'Date' or which == 'Datetime':
        check('a' not in f and only_invalid(errs, field), 'a temporal value of another type is invalid, once')


def spec_format_method():
    """formats may be declared by the method"""
    text = any_value('text', 'str')
    which = choose('Date', 'Dates', 'Datetime', 'Time')
    if which == 'Date':
        field = fields.Date().format('%Y')
        other = fields.Date(format='%Y')
    elif which == 'Dates':
        field = fields.Date().format(['%Y', '%m'])
        other = fields.Date(format=['%Y', '%m'])
    elif which == 'Datetime':
        field = fields.Datetime(format='%m').format('%Y')
        other = fields.Datetime(format='%Y')
    else:
        field = fields.Time().format('%H')
        other = fields.Time(format='%H')
    f, errs = mapped(field, {'a': text})
    g, errs2 = mapped(other, {'a': text})
    check(len(errs) == len(errs2) and same(got(f), got(g)), 'a format set by the method is the format')


def spec_format_value():
    """the method renders values by the declared format"""
    which = choose('Date', 'Dates', 'Datetime', 'Time')
    if which == 'Date':
        v = any_value('v', 'date')
        check(same(fields.Date(format='%Y').format(v), v.strftime('%Y')), 'a date is rendered by the format')
    elif which == 'Dates':
        v = any_value('v', 'date')
        check(same(fields.Date(format=['%m', '%Y']).format(v), v.strftime('%m')), 'a date is rendered by the first format')
    elif which == 'Datetime':
        v = any_value('v', 'datetime')
        check(same(fields.Datetime(format='%Y').format(v), v.strftime('%Y')), 'a datetime is rendered by the format')
    else:
        v = any_value('v', 'struct_time')
        check(same(fields.Time(format='%H').format(v), time.strftime('%H', v)), 'a time is rendered by the format')


def spec_null():
    nullable = choose(True, False)
    field = choose(fields.Date, fields.Time, fields.Datetime)(format='%Y', nullable=nullable)
    f, errs = mapped(field, {'a': None})
    if nullable:
        check(len(errs) == 0 and 'a' in f and f['a'] is None, 'null is not parsed')
    else:
        check('a' not in f and only_invalid(errs, field), 'null is invalid, once')


def spec_in_list():
    """each item on its own"""
    s, t = any_value('s', 'str'), any_value('t', 'str')
    item = fields.Date(format=['%Y', '%m'])
    f, errs = mapped(fields.List(item), {'a': [s, t]})
    n = 0
    for text in (s, t):
        if not (fits(text, '%Y')[0] or fits(text, '%m')[0]):
            n += 1
    check(len(errs) == n, 'one error per item that fits no format')
    for e in errs:
        check(e.field is item and isinstance(e, fields.Invalid), 'the errors are about the item field')
    if n == 0:
        ok, v = fits(s, '%Y')
        if not ok:
            ok, v = fits(s, '%m')
        check(len(got(f)) == 2 and same(got(f)[0], v.date()), 'items are parsed by their own first fitting format')


def spec_repeated():
    """parsing one value does not change the formats for the next"""
    s, t = any_value('s', 'str'), any_value('t', 'str')
    F = form_with(fields.Date(format=['%Y', '%m']))
    F().map({'a': s})
    f = F()
    errs = f.map({'a': t})
    g, errs2 = mapped(fields.Date(format=['%Y', '%m']), {'a': t})
    check(len(errs) == len(errs2) and same(got(f), got(g)), 'a field parses by its formats every time')


def spec_json():
    """text of a document"""
    from pilo.source import JsonSource
    text = any_value('text', 'str')
    which = choose('Date', 'Datetime', 'Time')
    field = {'Date': fields.Date(format=['%Y', '%m']), 'Datetime': fields.Datetime(format='%Y'), 'Time': fields.Time(format='%H')}[which]
    other = {'Date': fields.Date(format=['%Y', '%m']), 'Datetime': fields.Datetime(format='%Y'), 'Time': fields.Time(format='%H')}[which]
    f = form_with(field)()
    errs = f.map(JsonSource(json_text({'a': text}), strict=choose(True, False)))
    g, errs2 = mapped(other, {'a': text})
    check(len(errs) == len(errs2) and same(got(f), got(g)), 'text of a document parses like native text')


def spec_many_formats():
    """any number of formats"""
    formats = ['%d.%m.%Y', '%d/%m/%Y', '%Y/%m/%d', '%m %d %Y', '%Y-%m-%d']
    field = fields.Date(format=formats)
    text = any_value('text', 'str')
    f, errs = mapped(field, {'a': text})
    for fmt in formats:
        ok, value = fits(text, fmt)
        if ok:
            check(len(errs) == 0 and same(got(f), value.date()), 'any of many formats will do')
            return
    check('a' not in f and only_invalid(errs, field), 'text that fits none of many formats is invalid')


def spec_repeated_formats():
    """a format may be listed again"""
    text = any_value('text', 'str')
    formats = choose(['iso8601', '%Y', 'iso8601'], ['%Y', '%m', '%Y', '%d'], ['iso8601', 'iso8601', '%Y'], ['%Y', '%Y'])
    field = fields.Date(format=formats)
    f, errs = mapped(field, {'a': text})
    for fmt in formats:
        ok, value = fit(text, fmt)
        if ok:
            check(len(errs) == 0 and same(got(f), value.date()), 'each format listed is tried')
            return
    check('a' not in f and only_invalid(errs, field), 'text that fits no format is invalid, once')


def spec_typed_under_any_circumstances():
    circumstances((
        (lambda: fields.Date(), datetime.date(2020, 1, 2), datetime.date(2020, 1, 2)),
        (lambda: fields.Datetime(), datetime.datetime(2020, 1, 2), datetime.datetime(2020, 1, 2)),
        (lambda: fields.Time(), datetime.time(1, 2), datetime.time(1, 2)), (lambda: fields.Date(), 'zzz', REFUSED),
        (lambda: fields.Time(), 'zzz', REFUSED), (lambda: fields.Datetime(), 3, REFUSED),
    ))
