"""C40: code fields yield exactly what the text denotes."""
from base import *
from pilo.source import JsonSource
import importlib
import pilo.source.json
import datetime
import types


def by_name(module, attr):
    """what module:attribute denotes"""
    try:
        v = importlib.import_module(module)
    except Exception:
        return NONE
    for name in attr.split('.'):
        try:
            v = getattr(v, name)
        except AttributeError:
            return NONE
    return v


def spec_import():
    module, attr = choose(('pilo', 'Form'), ('pilo.fields', 'Integer'), ('pilo.source.json', 'JsonSource'),
                          ('pilo.source', 'json.JsonSource'), ('pilo.fields', 'Form.map'), ('datetime', 'date'),
                          ('pilo.source.json', 'JsonSource.parsers'), ('pilo.fields', 'String.__name__'),
                          ('pilo.fields', 'six.PY3'), ('pilo.fields', 'six.text_type'))
    field = fields.Code()
    f, errs = mapped(field, {'a': module + ':' + attr})
    check(len(errs) == 0 and 'a' in f, 'module:attribute text that resolves is accepted')
    check(got(f) == by_name(module, attr), 'module:attribute yields that attribute of that module')
    check(got(f) is not NONE and by_name(module, attr) is not NONE, 'and nothing else')


def spec_import_fails():
    text = choose('pilo:Nothing', 'pilo.nothing:Form', 'nothing.at.all:x', 'pilo.fields:Form.nothing', 'pilo.fields:Integer.a.b',
                  'nothing:x.y', 'pilo:Form.map.nothing')
    field = fields.Code()
    f, errs = mapped(field, {'a': text})
    check('a' not in f and only_invalid(errs, field), 'text that cannot be resolved is invalid, once')


def spec_no_code():
    """text that is neither"""
    text = choose('', ' ', '!', ':', '???', '-', '(x)', ' pilo:Form')
    field = fields.Code()
    f, errs = mapped(field, {'a': text})
    check('a' not in f and only_invalid(errs, field), 'text that is neither name nor code is invalid, once')


def spec_no_module():
    """a name without module resolves to nothing"""
    field = fields.Code()
    f, errs = mapped(field, {'a': choose('Form', 'pilo', 'pilo.Form')})
    check('a' not in f and only_invalid(errs, field), 'a name without module is invalid, once')


def runs(text):
    """what executing the text defines, NONE if it does not"""
    ns = {}
    try:
        exec(text, ns)
    except Exception:
        return NONE
    return ns['EXECUTED']


def spec_inline():
    text = any_value('text', 'str')
    assume('\n' in text)
    field = fields.Code()
    f, errs = mapped(field, {'a': text})
    want = runs(text)
    if want is NONE:
        check('a' not in f and only_invalid(errs, field), 'code that does not compile or run is invalid, once')
    else:
        check(len(errs) == 0 and isinstance(got(f), types.ModuleType), 'multi-line text yields a module')
        check(same(getattr(got(f), 'EXECUTED', NONE), want), 'which holds what the code defines')


def spec_inline_constant():
    """code that looks like other things"""
    text = choose('x = 1\n', '\n', 'pilo:Form\n', 'def f():\n  return 1', 'a\nb', '"""doc"""\nx = "a:b"')
    field = fields.Code()
    f, errs = mapped(field, {'a': text})
    want = runs(text)
    if want is NONE:
        check('a' not in f and only_invalid(errs, field), 'multi-line text that does not run is invalid, once')
    else:
        check(len(errs) == 0 and same(getattr(got(f), 'EXECUTED', NONE), want), 'any text with a line break is code')


def spec_other_values():
    v = any_value('v')
    assume(not isinstance(v, str))
    field = fields.Code(nullable=True)
    f, errs = mapped(field, {'a': v})
    check(len(errs) == 0 and 'a' in f and same(got(f), v), 'values that are no text are kept')


def spec_any_text():
    """any text yields a value or one error"""
    text = any_value('text', 'str')
    field = fields.Code()
    f, errs = mapped(field, {'a': text})
    if 'a' in f:
        check(len(errs) == 0, 'text that denotes something is accepted without error')
    else:
        check(only_invalid(errs, field), 'text that denotes nothing is invalid, once')


def spec_separate():
    """each text has a module of its own"""
    s, t = any_value('s', 'str'), any_value('t', 'str')
    assume('\n' in s and '\n' in t)
    f, errs = mapped(fields.List(fields.Code()), {'a': [s, t]})
    if runs(s) is not NONE and runs(t) is not NONE:
        check(len(errs) == 0 and len(got(f)) == 2 and got(f)[0] is not got(f)[1], 'each text has a module of its own')
        check(same(got(f)[0].EXECUTED, runs(s)) and same(got(f)[1].EXECUTED, runs(t)), 'with its own definitions')
    else:
        check(len(errs) > 0, 'code that does not run is reported')


def spec_again():
    """the same field again"""
    s = any_value('s', 'str')
    assume('\n' in s and runs(s) is not NONE)
    F = form_with(fields.Code())
    f, g = F(), F()
    f.map({'a': s})
    g.map({'a': s})
    check(f['a'] is not g['a'], 'mapping again makes a new module')
    h = F()
    errs = h.map({'a': 'pilo:Form'})
    check(len(errs) == 0 and h['a'] is pilo.Form, 'names after code')


def spec_null():
    nullable = choose(True, False)
    field = fields.Code(nullable=nullable)
    f, errs = mapped(field, {'a': None})
    check(('a' in f and f['a'] is None and len(errs) == 0) if nullable else ('a' not in f and only_invalid(errs, field)),
          'null is not code')


def spec_document():
    f = form_with(fields.Code())()
    errs = f.map(JsonSource('{"a": "pilo.fields:Integer"}'))
    check(len(errs) == 0 and f['a'] is fields.Integer, 'text of a document denotes the same')


def spec_helpers():
    """the helpers behind it"""
    check(fields.Code.load('pilo.fields', 'Form.map') == fields.Form.map, 'load resolves dotted attributes')
    try:
        fields.Code.load('pilo', 'Nothing')
        fail('nothing to load')
    except TypeError:
        reach('load raises a type error for attributes that are not there')


def spec_compile_globals():
    """names handed to compile are there when the code runs"""
    x = any_value('x')
    text = any_value('text', 'str')
    assume(runs(text) is not NONE)
    module = fields.Code.compile('some', text, x=x, y=2)
    check(isinstance(module, types.ModuleType) and same(module.EXECUTED, runs(text)), 'compile yields a module of the code')
    check(same(module.x, x) and module.y == 2, 'which holds the names given')
    check(module.GIVEN == ('x', 'y'), 'which the code can use')
    other = fields.Code.compile('some', text)
    check(same(other.EXECUTED, runs(text)) and not hasattr(other, 'x'), 'names are given to one compilation only')


def spec_code_under_any_circumstances():
    circumstances((
        (lambda: fields.Code(), 3, 3), (lambda: fields.Code(), '!!', REFUSED), (lambda: fields.Code(), 'nosuchmodule_:x', REFUSED),
    ))
