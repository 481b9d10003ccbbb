"""C08: item counts and key constraints are exact."""
from base import *
from pilo.source import JsonSource, UnionSource


def verify(field, data, ok, size):
    f, errs = mapped(field, data)
    if ok:
        check(got(f) is not NONE and len(got(f)) == size, 'a collection within the bounds is kept whole')
        check(len(errs) == 0, 'a collection within the bounds records no error')
    else:
        check(got(f) is NONE, 'a collection outside a bound does not appear')
        check(only_invalid(errs, field), 'a collection outside a bound is one Invalid')


def inside(n, lo, hi):
    return (lo is None or n >= lo) and (hi is None or n <= hi)


def spec_list_bounds():
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    n = choose(0, 1, 2, 3)
    items = [any_value('x', 'int', 'str'), 2, 3][:n]
    how = choose('options', 'length', 'methods', 'range', 'min', 'max')
    item = pilo.Field()
    if how == 'options':
        field = fields.List(item, min_length=lo, max_length=hi)
    elif how == 'length':
        field = fields.List(item, length=(lo, hi))
    elif how == 'methods':
        field = fields.List(item).max(hi).min(lo)
    elif how == 'range':
        field = fields.List(item).range(lo, hi)
    elif how == 'min':
        field, hi = fields.List(item).min(lo), None
    else:
        field, lo = fields.List(item).max(hi), None
    verify(field, {'a': choose(items, tuple(items))}, inside(n, lo, hi), n)


def spec_any_list():
    v = any_value('v', 'list')
    lo, hi = choose((0, 0), (None, 0), (1, 2), (2, 2), (3, None), (0, None), (2, 1))
    field = fields.List(pilo.Field(), min_length=lo, max_length=hi)
    n = len(v)
    verify(field, {'a': v}, inside(n, lo, hi), n)


def spec_list_single():
    """a single item allowed in place of a list counts as one"""
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    field = fields.List(fields.Integer(), allow_field=True, min_length=lo, max_length=hi)
    verify(field, {'a': 7}, inside(1, lo, hi), 1)


def spec_list_counts_what_mapped():
    """items that produced no value do not count"""
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    field = fields.List(pilo.Field(optional=True, ignore='drop'), min_length=lo, max_length=hi)
    verify(field, {'a': ['drop', 1, 'drop', 2, 'drop']}, inside(2, lo, hi), 2)


def spec_dict_required():
    required = choose([], ['x'], ['x', 'y'], ('y',))
    data = choose({}, {'x': 1}, {'y': 2}, {'x': None, 'y': 2}, {'z': 1})
    if len(data) == 2:
        data['z'] = any_value('z')
    field = fields.Dict(fields.String(), pilo.Field(), required_keys=required)
    ok = True
    for k in required:
        if k not in data:
            ok = False
    verify(field, {'a': data}, ok, len(data))


def spec_dict_required_any():
    v = any_value('v', 'dict')
    field = fields.Dict(pilo.Field(), pilo.Field(), required_keys=['needed'])
    for k in v.keys():
        assume(not k.endswith('()') and '.' not in k)
    verify(field, {'a': v}, 'needed' in v, len(v))


def spec_dict_max():
    hi = any_value('hi', 'None', 'int')
    n = choose(0, 1, 2, 3)
    data = [{}, {'x': 1}, {'x': 1, 'y': any_value('y')}, {'x': 1, 'y': 2, 'z': None}][n]
    field = fields.Dict(fields.String(), pilo.Field(), max_keys=hi)
    verify(field, {'a': data}, hi is None or n <= hi, n)


def spec_dict_both():
    hi = any_value('hi', 'None', 'int')
    data = choose({'x': 1}, {'x': 1, 'y': 2}, {'y': 1}, {'y': 1, 'z': 2})
    field = fields.Dict(fields.String(), pilo.Field(), required_keys=['x'], max_keys=hi)
    n = len(data)
    verify(field, {'a': data}, 'x' in data and (hi is None or n <= hi), n)


def spec_dict_required_mapped_keys():
    """the keys that count are those of the result"""
    key = fields.String()

    @key.munge
    def munge(self, value):
        return value + '!'
    field = fields.Dict(key, pilo.Field(), required_keys=choose(['x!'], ['x']))
    verify(field, {'a': {'x': 1}}, field.required_keys == ['x!'], 1)


def spec_dict_handed_in():
    hi = any_value('hi', 'None', 'int')
    v = choose({}, {'x': 1}, {'x': 1, 'y': 2}, {'y': 1})
    field = fields.Dict(fields.String(), pilo.Field(), required_keys=['x'], max_keys=hi)
    with mapping_context({}) as errs:
        r = field.map(v)
    if 'x' in v and (hi is None or len(v) <= hi):
        check(r is v and len(errs) == 0, 'a mapping handed in within the constraints is kept')
    else:
        check(is_missing(r) and only_invalid(errs, field), 'a mapping handed in outside a constraint is one Invalid')


def spec_list_handed_in():
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    v = choose([], [1], [1, 2], (1, 2, 3))
    field = fields.List(pilo.Field(), min_length=lo, max_length=hi)
    with mapping_context({}) as errs:
        r = field.map(v)
    if inside(len(v), lo, hi):
        check(same(r, v) and len(errs) == 0, 'a list handed in within the bounds is kept')
    else:
        check(is_missing(r) and only_invalid(errs, field), 'a list handed in outside a bound is one Invalid')


def spec_other_sources():
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    field = fields.List(pilo.Field(), min_length=lo, max_length=hi)
    f = form_with(field)()
    errs = f.map(choose(JsonSource('{"a": [1, 2]}'), UnionSource([{'a': [1, 2]}, {'b': 1}])))
    if inside(2, lo, hi):
        check(got(f) == [1, 2] and len(errs) == 0, 'a list of another source within the bounds is kept')
    else:
        check(got(f) is NONE and only_invalid(errs, field), 'a list of another source outside a bound is one Invalid')


def spec_required_falsy():
    """required keys may be falsy, their values too"""
    key = choose('', '0', 0, 'k')
    v = choose(None, 0, '', False)
    field = fields.Dict(pilo.Field(), pilo.Field(), required_keys=[key])
    f, errs = mapped(field, {'a': {'other': 1}})
    check(got(f) is NONE and only_invalid(errs, field), 'a required key that is not there is missed, also a falsy one')
    f, errs = mapped(field, {'a': {'other': 1, key: v}})
    check(len(errs) == 0 and got(f) == {'other': 1, key: v}, 'a required key is there whatever it holds')


def spec_sizes_under_any_circumstances():
    circumstances((
        (lambda: fields.List(pilo.Field(), min_length=2), [1], REFUSED), (lambda: fields.List(pilo.Field(), min_length=1), [1], [1]),
        (lambda: fields.List(pilo.Field(), max_length=1), [1, 2], REFUSED), (lambda: fields.List(pilo.Field(), max_length=0), [], []),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), required_keys=['q']), {'p': 1}, REFUSED),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), required_keys=['q']), {'q': 1}, {'q': 1}),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), max_keys=1), {'q': 1, 'p': 1}, REFUSED),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), max_keys=1), {'q': 1}, {'q': 1}),
    ))
