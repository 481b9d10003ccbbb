"""C07: string length, alphabet, pattern and choice constraints, and translations, are exact."""
from base import *
import re


def verify(field, v, ok, expected=NONE):
    """the field accepts `v` iff `ok`"""
    f, errs = mapped(field, {'a': v})
    if ok:
        check(same(got(f), v if expected is NONE else expected), 'a string within the constraints is kept')
        check(len(errs) == 0, 'a string within the constraints records no error')
    else:
        check(got(f) is NONE, 'a string outside a constraint does not appear')
        check(only_invalid(errs, field), 'a string outside a constraint is one Invalid')


def length_ok(v, lo, hi):
    return (lo is None or len(v) >= lo) and (hi is None or len(v) <= hi)


def spec_length():
    v = any_value('v', 'str')
    lo, hi = any_value('lo', 'None', 'int'), any_value('hi', 'None', 'int')
    how = choose('options', 'pair', 'list', 'min', 'max')
    if how == 'options':
        field = fields.String(min_length=lo, max_length=hi)
    elif how == 'pair':
        field = fields.String(length=(lo, hi))
    elif how == 'list':
        field = fields.String(length=[lo, hi])
    elif how == 'min':
        field, hi = fields.String(min_length=lo), None
    else:
        field, lo = fields.String(max_length=hi), None
    verify(field, v, length_ok(v, lo, hi))


def spec_exact_length():
    v = any_value('v', 'str')
    n = any_value('n', 'int')
    verify(fields.String(length=n), v, len(v) == n)


def spec_zero_bounds():
    v = any_value('v', 'str')
    lo, hi = choose((0, 0), (0, None), (None, 0), (1, 0), (1, 1), (2, 3))
    verify(fields.String(min_length=lo, max_length=hi), v, length_ok(v, lo, hi))


def spec_alphabet():
    v = any_value('v', 'str')
    alphabet = choose('abc', ['a', 'b'], 'a')
    ok = True
    for c in v:
        if c not in alphabet:
            ok = False
    verify(fields.String(alphabet=alphabet), v, ok)


def spec_alphabet_known():
    v, ok = choose(('', True), ('a', True), ('abcabc', True), ('d', False), ('abd', False), ('dab', False),
                   ('adb', False), ('A', False))
    verify(fields.String(alphabet='abc'), v, ok)


def spec_pattern():
    v = any_value('v', 'str')
    pattern = 'ab*c'
    compiled = re.compile(pattern)
    field = fields.String(pattern=choose(pattern, compiled))
    verify(field, v, compiled.match(v) is not None)


def spec_pattern_known():
    v, ok = choose(('abc', True), ('ac', True), ('acx', True), ('xac', False), ('', False), ('ab', False),
                   ('\nac', False), ('AC', False))
    verify(fields.String(pattern='ab*c'), v, ok)


def spec_choices():
    v = any_value('v', 'str')
    choices = choose(['a'], ['a', 'b'], ('a', 'b', 'c'), ['', 'a'])
    verify(fields.String(choices=choices), v, v in choices)


def spec_choices_and_translations():
    v = any_value('v', 'str')
    field = fields.String(choices=['a', 'b']).translate({'x': 'y', 'b': 'z'})
    if v == 'x':
        verify(field, v, True, 'y')
    elif v == 'b':
        verify(field, v, True, 'z')
    else:
        verify(field, v, v == 'a' or v == 'y' or v == 'z')


def spec_unset_constraints():
    v = any_value('v', 'str')
    field = choose(fields.String(), fields.String(choices=None, alphabet=None, pattern=None, min_length=None),
                   fields.String(choices=[]), fields.String(alphabet=''))
    verify(field, v, True)


def spec_together():
    v = any_value('v', 'str')
    pattern = 'a+'
    lo = any_value('lo', 'int')
    ok = len(v) >= lo and len(v) <= 2
    if re.match(pattern, v) is None:
        ok = False
    if v not in ('a', 'aa', 'b', 'aaa'):
        ok = False
    verify(fields.String(min_length=lo, max_length=2, pattern=pattern, choices=['a', 'aa', 'b', 'aaa']), v, ok)


def spec_together_with_alphabet():
    v, ok = choose(('ab', True), ('a', False), ('abab', False), ('ac', False), ('ba', False), ('aa', False))
    verify(fields.String(min_length=2, max_length=3, alphabet='ab', pattern='a', choices=['ab', 'ba', 'ac', 'a', 'abab']),
           v, ok)


def spec_only_strings():
    """a lenient source renders other values, the constraints then apply to the text"""
    v = any_value('v', 'str', 'int', 'None', 'list', 'float', 'bool')
    hi = any_value('hi', 'int')
    field = fields.String(max_length=hi)
    f, errs = mapped(field, {'a': v})
    r = got(f)
    if r is not NONE and r is not None:
        check(isinstance(r, str), 'a string field yields strings')
        check(len(r) <= hi, 'a yielded string keeps the constraint')


def spec_handed_in():
    v = any_value('v', 'str')
    lo = any_value('lo', 'int')
    field = fields.String(min_length=lo, choices=['a', 'bb'])
    with mapping_context({}) as errs:
        r = field.map(v)
    if len(v) >= lo and v in ('a', 'bb'):
        check(same(r, v) and len(errs) == 0, 'a string handed in within the constraints is kept')
    else:
        check(is_missing(r) and only_invalid(errs, field), 'a string handed in outside a constraint is one Invalid')


def spec_translation():
    v = any_value('v')
    table = choose({'one': 'uno', 'two': 'due'}, {'one': '', '': 'x'}, {'one': 'two', 'two': 'one'})
    field = pilo.Field().translate(table)
    f, errs = mapped(field, {'a': v})
    for k in table:
        if isinstance(v, str) and v == k:
            check(got(f) == table[k], 'a listed value is replaced by its translation')
            return
    check(same(got(f), v), 'a value that is not listed is kept')
    check(len(errs) == 0, 'translating records no error')


def spec_translation_kinds():
    """other types, falsy keys and falsy translations"""
    cls, table, v, r = choose(
        (fields.Integer, {0: 10}, 0, 10), (fields.Integer, {1: 0}, 1, 0), (fields.Integer, {1: 0}, 2, 2),
        (fields.Boolean, {True: False}, True, False), (fields.Boolean, {True: False}, False, False),
        (pilo.Field, {'a': None}, 'a', None), (pilo.Field, {'a': ()}, 'b', 'b'), (fields.Integer, {5: 'five'}, '5', 'five'))
    how = choose('method', 'option', 'twice')
    if how == 'method':
        field = choose(pilo.Field(), cls()).options(translate=table) if False else cls().translate(table)
    elif how == 'option':
        field = cls(translate=table)
    else:
        field = cls().translate({'other': 'x'}).translate(table)
    if cls is fields.Integer and r == 'five':
        return
    f, errs = mapped(field, {'a': v})
    check(got(f) == r and (got(f) is None) == (r is None), 'a known value is translated as listed')
    check(len(errs) == 0, 'a known translation records no error')


def spec_many_choices():
    """any number of choices"""
    choices = ['c%d' % i for i in range(40)]
    at = choose(0, 19, 20, 39)
    field = fields.String(choices=choices)
    f, errs = mapped(field, {'a': 'c%d' % at})
    check(len(errs) == 0 and got(f) == 'c%d' % at, 'any of many choices is one')
    f, errs = mapped(field, {'a': 'c40'})
    check(got(f) is NONE and only_invalid(errs, field), 'and nothing else is')


def spec_choices_of_munged():
    """what munging makes of it must be a choice or a translated value"""
    w = choose('p', 'v', 'k', 'z', '')
    field = fields.String(choices=choose(['p'], ('p',), ['p', 'q'])).translate({'k': 'v', 'x': 'p'})

    @field.munge
    def field(self, value):
        return w
    field = field if isinstance(field, fields.String) else None
    f, errs = mapped(field, {'a': 's'})
    if w in ('p', 'v'):
        check(len(errs) == 0 and got(f) == w, 'choices and translated values are accepted')
    else:
        check(got(f) is NONE and only_invalid(errs, field), 'nothing else is, also what would be translated')


def spec_text_under_any_circumstances():
    circumstances((
        (lambda: fields.String(min_length=2), 'x', REFUSED), (lambda: fields.String(max_length=2), 'xyz', REFUSED),
        (lambda: fields.String(pattern='a+$'), 'ab', REFUSED), (lambda: fields.String(choices=['a', 'b']), 'c', REFUSED),
        (lambda: fields.String(choices=['a', 'b']), 'b', 'b'), (lambda: fields.String(alphabet='ab'), 'abc', REFUSED),
        (lambda: fields.String(alphabet='ab', max_length=2), 'ab', 'ab'), (lambda: fields.String(min_length=1), '', REFUSED),
    ))
