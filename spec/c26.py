"""C26: primitive conversion follows one table and yields the requested type."""
from base import *
from pilo.source import ConfigSource, SourceError, UnionSource, MountSource


class at(object):
    """the path of a key in a source, read at once"""

    def __init__(self, src, *keys):
        self.src, self.keys = src, keys

    def read(self, *types):
        """('value', v) or ('error', None)"""
        path = self.src.path()
        for k in self.keys:
            path.append(k)
        try:
            return 'value', path.primitive(*types)
        except self.src.error:
            return 'error', None


def place(x):
    """x in native data, at some place"""
    how = choose('mapping', 'list', 'root')
    if how == 'mapping':
        return at(DefaultSource({'k': x}), 'k')
    if how == 'list':
        return at(DefaultSource([0, x]), 1)
    return at(DefaultSource(x))


def to_int(x):
    try:
        return True, int(x)
    except (ValueError, TypeError):
        return False, None


def to_float(x):
    try:
        return True, float(x)
    except (ValueError, TypeError, OverflowError):
        return False, None


class Text(str):
    pass


class Whole(int):
    pass


class Real(float):
    pass


def spec_string():
    x = any_value('x')
    how, v = place(x).read(choose(str, Text))
    if isinstance(x, str):
        check(how == 'value' and same(v, x), 'text is read as it is')
    else:
        check(how == 'error', 'what is not text is no string')


def spec_integer():
    x = any_value('x')
    how, v = place(x).read(choose(int, Whole))
    if isinstance(x, bool):
        check(how == 'error', 'a boolean is no integer')
    elif isinstance(x, int):
        check(how == 'value' and same(v, x), 'an integer is read as it is')
    elif isinstance(x, float):
        if x.is_integer():
            check(how == 'value' and isinstance(v, int) and not isinstance(v, bool) and same(v, int(x)),
                  'an integral float is read as integer')
        else:
            check(how == 'error', 'a float with a fraction is no integer')
    elif isinstance(x, str):
        ok, w = to_int(x)
        if ok:
            check(how == 'value' and isinstance(v, int) and same(v, w), 'integer text is read as integer')
        else:
            check(how == 'error', 'other text is no integer')
    else:
        check(how == 'error', 'nothing else is an integer')


def spec_float():
    x = any_value('x')
    assume(not isinstance(x, bool))
    how, v = place(x).read(choose(float, Real))
    if isinstance(x, float):
        check(how == 'value' and same(v, x), 'a float is read as it is')
    elif isinstance(x, int) or isinstance(x, str):
        ok, w = to_float(x)
        if ok:
            check(how == 'value' and isinstance(v, float) and same(v, w), 'integers and numeric text are read as float')
        else:
            check(how == 'error', 'what cannot be a float fails with the error of the source')
    else:
        check(how == 'error', 'nothing else is a float')


def spec_boolean():
    x = any_value('x')
    how, v = place(x).read(bool)
    if isinstance(x, bool):
        check(how == 'value' and same(v, x), 'a boolean is read as it is')
    elif isinstance(x, int):
        check(how == 'value' and (v is True) == (x != 0) and (v is False) == (x == 0), 'a non-zero integer is true')
    elif isinstance(x, str):
        low = x.lower()
        if low == '0' or low == 'f' or low == 'false':
            check(how == 'value' and v is False, 'the texts 0, f, false in any case are false')
        elif low == '1' or low == 't' or low == 'true':
            check(how == 'value' and v is True, 'the texts 1, t, true in any case are true')
        else:
            check(how == 'error', 'other text is no boolean')
    else:
        check(how == 'error', 'nothing else is a boolean')


def spec_boolean_texts():
    """the table itself"""
    text, expected = choose(('0', False), ('1', True), ('f', False), ('F', False), ('t', True), ('T', True),
                            ('false', False), ('False', False), ('FALSE', False), ('true', True), ('TRUE', True),
                            ('True', True), ('tRuE', True), ('yes', None), ('no', None), ('', None), ('00', None),
                            ('2', None), (' true', None), ('on', None), ('y', None), ('n', None), ('tr', None),
                            ('None', None), ('null', None))
    how, v = place(text).read(bool)
    if expected is None:
        check(how == 'error', 'no other text is a boolean')
    else:
        check(how == 'value' and v is expected, 'the boolean texts')


def spec_numbers_table():
    """some constants"""
    x, t, expected = choose((0, bool, False), (-1, bool, True), (2, bool, True), (1.0, bool, None), (0.0, bool, None),
                            (2.0, int, 2), (-3.0, int, -3), (2.5, int, None), ('12', int, 12), ('-7', int, -7), ('', int, None),
                            ('x', int, None), ('1.5', int, None), ('1.5', float, 1.5), ('x', float, None), ('', float, None),
                            (3, float, 3.0), (True, int, None), (False, int, None), ('7', str, '7'), (7, str, None),
                            ('0x1f', int, None), ('0b1', int, None), ('010', int, 10), ('1_', int, None), ('1e3', int, None), ('1e3', float, 1000.0),
                            (None, str, None), (None, int, None), (None, bool, None), ([], bool, None), ({}, int, None))
    how, v = place(x).read(t)
    if expected is None:
        check(how == 'error', 'not convertible')
    else:
        check(how == 'value' and type(v) is t and v == expected, 'converted to the type asked for')


def spec_any():
    x = any_value('x')
    p = place(x)
    how, v = p.read(None) if choose(True, False) else p.read()
    check(how == 'value' and same(v, x), 'asking for no type returns the value unchanged')


def spec_unknown_type():
    """no parser for the type"""
    class Other(object):
        pass
    p = at(DefaultSource({'k': any_value('x')}), 'k')
    try:
        p.read(Other)
        fail('a type without conversion is refused')
    except ValueError:
        reach('a type without conversion raises a value error')


def spec_several_types():
    """the first type that has a conversion counts"""
    x = any_value('x')
    how, v = at(DefaultSource({'k': x}), 'k').read(int, str)
    how2, v2 = at(DefaultSource({'k': x}), 'k').read(int)
    check(how == how2 and (how == 'error' or same(v, v2)), 'the first of several types counts')


def spec_repeated():
    """reading by one type does not affect reading by another"""
    x = any_value('x', 'int', 'str', 'bool')
    src = DefaultSource({'k': x})
    path = src.path()
    path.append('k')
    first = choose(int, str, bool, None, Text)
    try:
        path.primitive(first)
    except src.error:
        pass
    try:
        v = path.primitive(str)
        check(isinstance(x, str) and same(v, x), 'a second read converts the value itself')
    except src.error:
        check(not isinstance(x, str), 'a second read fails exactly if the value is not of the type')
    check(same(path.primitive(None), x), 'the value itself stays')


CONFIG = '[s]\na = 12\nb = yes\nc = T\nd = 1.5\ne = two words\nf =\ng = 0\nh = -3\n'


def spec_config():
    key, t, expected = choose(('a', int, 12), ('a', str, '12'), ('a', float, 12.0), ('a', bool, None), ('b', bool, None),
                              ('c', bool, True), ('c', int, None), ('d', float, 1.5), ('d', int, None), ('e', str, 'two words'),
                              ('e', int, None), ('f', int, None), ('f', str, ''), ('g', bool, False), ('g', int, 0),
                              ('h', int, -3), ('h', bool, None), ('a', None, '12'))
    src = ConfigSource(CONFIG, section='s') if choose(True, False) else ConfigSource(CONFIG)
    p = at(src, key) if src.section else at(src, 's', key)
    how, v = p.read(t)
    if expected is None:
        check(how == 'error', 'config text that cannot be converted fails with the error of the source')
    else:
        check(how == 'value' and v == expected and type(v) is (t or str), 'config text is converted like any text')


def spec_config_defaults():
    """values supplied as defaults follow the same table"""
    x = any_value('x')
    src = ConfigSource('[s]\n', section='s', defaults={'k': x})
    t = choose(str, int, bool, None)
    how, v = at(src, 'k').read(t)
    how2, v2 = at(DefaultSource({'k': x}), 'k').read(t)
    check(how == how2 and (how == 'error' or same(v, v2)), 'config values are converted by the same table')


def spec_fields():
    """fields use the conversion of their type"""
    x = any_value('x')
    assume(x is not None)
    kind, t = choose(('String', str), ('Integer', int), ('Float', float), ('Boolean', bool), ('Field', None))
    field, _ = build(kind)
    f, errs = mapped(field, {'a': x})
    how, v = at(DefaultSource({'k': x}), 'k').read(t)
    if how == 'value':
        check(len(errs) == 0 and same(got(f), v), 'a field yields the converted value')
        check(t is None or isinstance(got(f), t), 'a field yields a value of its type')
    else:
        check('a' not in f and only_invalid(errs, field), 'a field whose value is not convertible is invalid')


def spec_pattern():
    """numbers extracted by a pattern have the type of the field"""
    kind = choose('Integer', 'Float')
    field = fields.Integer().pattern(r'\d+') if kind == 'Integer' else fields.Float().pattern(r'\d+')
    x = choose('12', '12x', 'x')
    f, errs = mapped(field, {'a': x})
    if x == 'x':
        check('a' not in f and only_invalid(errs, field), 'text that does not fit the pattern is invalid')
    else:
        check(type(got(f)) is (int if kind == 'Integer' else float) and got(f) == 12, 'a pattern yields the type of the field')


def spec_conversion_under_any_circumstances():
    circumstances((
        (lambda: fields.Integer(), '12', 12), (lambda: fields.Integer(), 3.0, 3), (lambda: fields.Integer(), True, REFUSED),
        (lambda: fields.Integer(), 3.5, REFUSED), (lambda: fields.Float(), 3, 3.0), (lambda: fields.Float(), '1.5', 1.5),
        (lambda: fields.Boolean(), 'true', True), (lambda: fields.Boolean(), 0, False), (lambda: fields.String(), 3, REFUSED),
    ))
