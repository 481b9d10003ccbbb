"""C27: JSON conversion is lenient by default and exact in strict mode."""
from base import *
from pilo.source import JsonSource


def source(x, strict):
    """a JSON source whose document is any value x"""
    return JsonSource(json_text({'k': x}), strict=strict)


def read(src, t, *keys):
    path = src.path()
    for k in keys or ('k',):
        path.append(k)
    try:
        return 'value', path.primitive(t)
    except src.error:
        return 'error', None


def to_int(x):
    try:
        return True, int(x)
    except (ValueError, TypeError):
        return False, None


def to_float(x):
    try:
        return True, float(x)
    except (ValueError, TypeError, OverflowError):
        return False, None


def spec_string():
    x, strict = any_json('x'), choose(True, False)
    how, v = read(source(x, strict), str)
    if isinstance(x, str):
        check(how == 'value' and same(v, x), 'text is read as it is')
    elif strict:
        check(how == 'error', 'strict: what is not text is no string')
    else:
        check(how == 'value' and isinstance(v, str) and same(v, str(x)), 'lenient: any value is rendered as string')


def spec_integer():
    x, strict = any_json('x'), choose(True, False)
    how, v = read(source(x, strict), int)
    if isinstance(x, bool):
        check(how == 'error', 'a boolean is no integer')
    elif isinstance(x, int):
        check(how == 'value' and same(v, x), 'an integer is read as it is')
    elif strict:
        check(how == 'error', 'strict: nothing else is an integer')
    elif isinstance(x, float) and x.is_integer():
        check(how == 'value' and isinstance(v, int) and not isinstance(v, bool) and same(v, int(x)),
              'lenient: an integral float is read as integer')
    elif isinstance(x, str) and to_int(x)[0]:
        check(how == 'value' and isinstance(v, int) and same(v, int(x)), 'lenient: integer text is read as integer')
    else:
        check(how == 'error', 'lenient: nothing else is an integer')


def spec_float():
    x, strict = any_json('x'), choose(True, False)
    assume(not isinstance(x, bool))
    how, v = read(source(x, strict), float)
    if isinstance(x, float):
        check(how == 'value' and same(v, x), 'a float is read as it is')
    elif isinstance(x, int):
        ok, w = to_float(x)
        check(how == ('value' if ok else 'error'), 'an integer is a number in either mode')
        check(not ok or isinstance(v, float) and same(v, w), 'an integer is read as float')
    elif not strict and isinstance(x, str) and to_float(x)[0]:
        check(how == 'value' and isinstance(v, float) and same(v, float(x)), 'lenient: numeric text is read as float')
    else:
        check(how == 'error', 'nothing else is a float')


def spec_boolean():
    x, strict = any_json('x'), choose(True, False)
    how, v = read(source(x, strict), bool)
    if isinstance(x, bool):
        check(how == 'value' and same(v, x), 'a boolean is read as it is')
    elif not strict and isinstance(x, int):
        check(how == 'value' and (v is True) == (x != 0) and (v is False) == (x == 0), 'lenient: a non-zero integer is true')
    else:
        check(how == 'error', 'nothing else is a boolean')


def spec_any():
    x, strict = any_json('x'), choose(True, False)
    how, v = read(source(x, strict), None)
    check(how == 'value' and same(v, x), 'asking for no type returns the value unchanged')


DOC = '{"i": 1, "z": 0, "f": 2.0, "g": 2.5, "s": "7", "t": "x", "b": true, "n": null, "l": [1], "d": {"k": "v"}, "e": ""}'


def spec_table():
    """a document, both modes"""
    key, t, strict_v, lenient_v = choose(
        ('i', int, 1, 1), ('i', float, 1.0, 1.0), ('i', str, None, '1'), ('i', bool, None, True), ('z', bool, None, False),
        ('f', int, None, 2), ('f', float, 2.0, 2.0), ('f', bool, None, None), ('g', int, None, None), ('s', int, None, 7),
        ('s', float, None, 7.0), ('s', str, '7', '7'), ('s', bool, None, None), ('t', int, None, None), ('t', str, 'x', 'x'),
        ('t', float, None, None), ('b', bool, True, True), ('b', int, None, None), ('b', str, None, 'True'),
        ('e', int, None, None), ('e', str, '', ''), ('l', int, None, None), ('d', bool, None, None), ('n', int, None, None))
    strict = choose(True, False)
    how, v = read(JsonSource(DOC, strict=strict), t, key)
    expected = strict_v if strict else lenient_v
    if expected is None:
        check(how == 'error', 'not convertible in this mode')
    else:
        check(how == 'value' and type(v) is t and v == expected, 'converted to the type asked for')


def spec_no_type():
    """without any type asked for"""
    x, strict = any_json('x'), choose(True, False)
    path = source(x, strict).path()
    path.append('k')
    check(same(path.primitive(), x), 'without types the value is returned unchanged')


def spec_default_mode():
    check(read(JsonSource('{"k": 1}'), str) == ('value', '1'), 'a JSON source is lenient unless told otherwise')


def spec_sub_types():
    """types derived from the primitive ones"""
    class Text(str):
        pass

    class Whole(int):
        pass
    x = any_json('x', 'int', 'str', 'list')
    strict = choose(True, False)
    t, base = choose((Text, str), (Whole, int))
    how, v = read(source(x, strict), t)
    how2, v2 = read(source(x, strict), base)
    check(how == how2 and (how == 'error' or same(v, v2)), 'a derived type is converted like its base')


def spec_unknown_type():
    class Other(object):
        pass
    try:
        read(JsonSource('{"k": 1}'), Other)
        fail('a type without conversion is refused')
    except ValueError:
        reach('a type without conversion raises a value error')


def spec_fields():
    """fields mapped from JSON use these conversions"""
    x, strict = any_json('x'), choose(True, False)
    assume(x is not None)
    kind, t = choose(('String', str), ('Integer', int), ('Float', float), ('Boolean', bool), ('Field', None))
    field, _ = build(kind)
    F = form_with(field)
    f = F()
    errs = f.map(JsonSource(json_text({'a': x}), strict=strict))
    how, v = read(source(x, strict), t)
    if how == 'value':
        check(len(errs) == 0 and same(got(f), v), 'a field yields the converted value')
    else:
        check('a' not in f and only_invalid(errs, field), 'a field whose value is not convertible is invalid')


def spec_text():
    """text and bytes with an encoding"""
    t, enc = choose(('{"k": 5}', None), ('{"k": 5}', 'utf-8'), (b'{"k": 5}', 'utf-8'))
    src = JsonSource(t, encoding=enc)
    check(read(src, int) == ('value', 5), 'a document may be text or bytes')
