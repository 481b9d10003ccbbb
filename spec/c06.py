"""C06: range constraints are exact and inclusive, however the bound was given."""
from base import *
import decimal


def inside(v, lo, hi):
    if lo is not None and v < lo:
        return False
    if hi is not None and v > hi:
        return False
    return True


def verdict(field, plain, data, lo, hi):
    """`plain` is the same field without bounds; the bounds only take away"""
    g, gerrs = mapped(plain, data)
    f, errs = mapped(field, data)
    w = got(g)
    if w is NONE:
        check(got(f) is NONE, 'a value the unbounded field turns down is turned down')
        check(len(errs) == len(gerrs), 'turned down with the same number of errors')
        return
    try:
        kept = w is None or inside(w, lo, hi)
    except decimal.InvalidOperation:
        reach('a decimal that is no number')
        check(got(f) is NONE and only_invalid(errs, field), 'what cannot be compared with a bound is invalid')
        return
    except TypeError:
        reach('times with and without time zone')
        check(got(f) is NONE and only_invalid(errs, field), 'what cannot be compared with a bound is invalid')
        return
    if kept:
        check(len(errs) == 0, 'a value inside the bounds records no error')
        check(same(got(f), w), 'a value inside the bounds is kept')
    else:
        check(got(f) is NONE, 'a value outside the bounds does not appear')
        check(len(errs) == 1, 'a value outside the bounds records one error')
        check(isinstance(errs[0], fields.Invalid), 'a value outside the bounds is invalid')


def number_bounds():
    return any_value('lo', 'None', 'int', 'float'), any_value('hi', 'None', 'int', 'float')


def spec_number_constructor():
    cls, kind = choose((fields.Integer, 'int'), (fields.Float, 'float'), (fields.Decimal, 'Decimal'))
    lo, hi = number_bounds()
    verdict(cls(min_value=lo, max_value=hi), cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_number_range_option():
    cls, kind = choose((fields.Integer, 'int'), (fields.Float, 'float'), (fields.Decimal, 'Decimal'))
    lo, hi = number_bounds()
    verdict(cls(range=(lo, hi)), cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_number_methods():
    cls, kind = choose((fields.Integer, 'int'), (fields.Float, 'float'), (fields.Decimal, 'Decimal'))
    lo, hi = number_bounds()
    how = choose('min', 'max', 'both', 'range', 'override')
    if how == 'min':
        field, hi = cls().min(lo), None
    elif how == 'max':
        field, lo = cls().max(hi), None
    elif how == 'both':
        field = cls().max(hi).min(lo)
    elif how == 'range':
        field = cls().range(lo, hi)
    else:
        field = cls(min_value=any_value('lo0', 'int'), max_value=hi).min(lo)
    verdict(field, cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_number_parsed():
    """the bound applies to the parsed value, whatever it was parsed from"""
    cls = choose(fields.Integer, fields.Float)
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    verdict(cls(min_value=lo, max_value=hi), cls(), {'a': any_value('v')}, lo, hi)


def spec_number_direct():
    """a value handed to the field directly"""
    cls = choose(fields.Integer, fields.Float, fields.Decimal)
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    field = cls(min_value=lo, max_value=hi)
    v = any_value('v', 'int', 'float', 'bool')
    errs = fields.CollectErrors()
    with pilo.ctx(errors=errs, src=DefaultSource({})):
        r = field.map(v)
    if inside(v, lo, hi):
        check(same(r, v), 'a direct value inside the bounds is kept')
        check(len(errs) == 0, 'a direct value inside the bounds records no error')
    else:
        check(is_missing(r), 'a direct value outside the bounds is not yielded')
        check(len(errs) == 1, 'a direct value outside the bounds records one error')


def temporal(kinds):
    return any_value('lo', 'None', *kinds), any_value('hi', 'None', *kinds)


def spec_temporal_constructor():
    cls, kind = choose((fields.Date, 'date'), (fields.Time, 'time'), (fields.Time, 'struct_time'),
                       (fields.Datetime, 'datetime'))
    lo, hi = temporal([kind])
    verdict(cls(after=lo, before=hi), cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_temporal_methods():
    cls, kind = choose((fields.Date, 'date'), (fields.Time, 'time'), (fields.Time, 'struct_time'),
                       (fields.Datetime, 'datetime'))
    lo, hi = temporal([kind])
    how = choose('after', 'before', 'both', 'between', 'override')
    if how == 'after':
        field, hi = cls().after(lo), None
    elif how == 'before':
        field, lo = cls().before(hi), None
    elif how == 'both':
        field = cls().before(hi).after(lo)
    elif how == 'between':
        field = cls().between(lo, hi)
    else:
        field = cls(after=any_value('lo0', kind), before=hi).after(lo)
    verdict(field, cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_temporal_mixed():
    """values and bounds of different kinds"""
    cls, kind, other = choose((fields.Time, 'time', 'struct_time'), (fields.Time, 'struct_time', 'time'))
    lo, hi = temporal([kind, other])
    verdict(cls(after=lo, before=hi), cls(), {'a': any_value('v', kind)}, lo, hi)


def spec_temporal_parsed():
    cls, kind = choose((fields.Date, 'date'), (fields.Time, 'struct_time'), (fields.Datetime, 'datetime'))
    fmt = choose('%Y', 'iso8601')
    lo, hi = temporal([kind])
    verdict(cls(after=lo, before=hi, format=fmt), cls(format=fmt), {'a': any_value('v', 'str', 'None', kind)}, lo, hi)


def spec_ranges_under_any_circumstances():
    circumstances((
        (lambda: fields.Integer(min_value=3), 2, REFUSED), (lambda: fields.Integer(min_value=3), 3, 3),
        (lambda: fields.Integer(max_value=3), 4, REFUSED), (lambda: fields.Integer(max_value=0), 0, 0),
        (lambda: fields.Float(min_value=1, max_value=2), 2.5, REFUSED), (lambda: fields.Integer(max_value=0), 1, REFUSED),
    ))


def spec_default_is_no_exception():
    """a value equal to the default is bounded like any other; the default is not"""
    x = any_value('x', 'int')
    field = fields.Integer(min_value=x, default=choose(x - 1, x)) if choose(True, False) else fields.Integer(
        max_value=x, default=choose(x + 1, x))
    f, errs = mapped(field, {})
    check(len(errs) == 0 and same(got(f), field.default), 'a default is not bounded')
    n = choose(2, 9, 5)
    field = fields.Integer(min_value=4, max_value=6, default=n)
    f, errs = mapped(field, {'a': n})
    if n == 5:
        check(len(errs) == 0 and got(f) == 5, 'a value inside the bounds is kept')
    else:
        check(only_invalid(errs, field) and 'a' not in f, 'a value outside the bounds does not appear, be it the default')


def spec_bounds_replaced():
    """the bounds declared last count, both of them"""
    lo, hi, x = any_value('lo', 'date'), any_value('hi', 'date'), any_value('x', 'date')
    field = choose(fields.Date(), fields.Date(after=any_value('l2', 'date')), fields.Date(before=any_value('h2', 'date')))
    how = choose('neither', 'lower', 'upper', 'both')
    field.between(lo if how in ('lower', 'both') else None, hi if how in ('upper', 'both') else None)
    f, errs = mapped(field, {'a': x})
    if how == 'neither':
        check(len(errs) == 0 and same(got(f), x), 'no bounds leave every value')
    elif how == 'lower':
        check((len(errs) == 0) == (x >= lo), 'only the lower bound counts')
    elif how == 'upper':
        check((len(errs) == 0) == (x <= hi), 'only the upper bound counts')
