"""C35: aliases, ignores, dotted and call keys resolve by fixed precedence."""
from base import *


def value(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    v = path.value
    check(path.exists == (v is not NONE), 'a path exists exactly if it resolves to a value')
    return v


class Obj(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class Rec(dict):
    """a mapping with attributes of its own"""
    at = 'attribute'

    def call(self):
        return 'called'


def spec_item_first():
    """an item of the name, whatever its value, goes before alias and attribute"""
    x, y = any_value('x'), any_value('y', 'int', 'str')
    data = Rec()
    data['at'] = x
    data['other'] = y
    src = DefaultSource(data, aliases=choose(None, {'at': 'other'}))
    check(same(value(src, 'at'), x), 'the item of the name goes first')


def spec_alias_second():
    """at the top level the item the alias points to goes before the attribute"""
    y = any_value('y')
    data = Rec()
    data['other'] = y
    src = DefaultSource(data, aliases={'at': 'other', 'gone': 'nowhere', 'pos': 0})
    check(same(value(src, 'at'), y), 'an alias goes before the attribute')
    check(value(src, 'gone') is NONE, 'an alias that points nowhere does not exist')
    check(same(value(src, 'other'), y), 'the item itself stays addressable')


def spec_attribute_third():
    data = Rec()
    data['other'] = 1
    src = DefaultSource(data, aliases=choose(None, {}, {'at': 'nowhere'}, {'else': 'other'}))
    check(value(src, 'at') == 'attribute', 'an attribute is found if there is neither item nor alias')


def spec_attribute_of_object():
    x = any_value('x')
    src = DefaultSource({'o': Obj(p=x, q=Obj(r=x))})
    check(same(value(src, 'o', 'p'), x), 'attributes of objects are found')
    check(same(value(src, 'o', 'q', 'r'), x), 'attributes of attributes are found')
    check(value(src, 'o', 'z') is NONE, 'an attribute that is not there does not exist')
    check(value(src, 'o', 0) is NONE, 'positions are no attributes')


def spec_alias_positions():
    """aliases of sequences are positions"""
    x, y = any_value('x'), any_value('y')
    data = choose([x, y], (x, y))
    src = DefaultSource(data, aliases={'one': 0, 'two': 1, 'three': 2})
    check(same(value(src, 'one'), x) and same(value(src, 'two'), y), 'an alias of a sequence is a position')
    check(value(src, 'three') is NONE, 'an alias of a position beyond does not exist')
    check(value(src, 'four') is NONE, 'a name without alias does not exist')


def spec_alias_top_only():
    """aliases apply at the top level only"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'k': {'other': x}, 'other': x}, aliases={'name': 'other'})
    check(same(value(src, 'name'), x), 'an alias applies at the top level')
    check(value(src, 'k', 'name') is NONE, 'an alias does not apply further down')
    check(same(value(src, 'k', 'other'), x), 'further down keys are plain')


def spec_alias_recursive():
    """also not in data that contains itself"""
    d = {'other': any_value('x', 'int', 'str')}
    d['k'] = d
    src = DefaultSource(d, aliases={'name': 'other', 'kk': 'k'})
    check(value(src, 'k', 'name') is NONE and value(src, 'kk', 'name') is NONE and value(src, 'k', 'kk') is NONE,
          'an alias does not apply below the top level of data that contains itself')
    check(same(value(src, 'k', 'k', 'other'), d['other']), 'items of data that contains itself are found')


def spec_alias_any():
    """any names"""
    name, target, x = plain('name'), plain('target'), any_value('x')
    assume(name != target)
    src = DefaultSource({target: x}, aliases={name: target})
    check(same(value(src, name), x), 'any alias leads to its target')


def spec_dotted():
    """if nothing else exists the key is retried as a dotted path"""
    x = any_value('x')
    src = DefaultSource({'a': {'b': x, 'c': {'d': x}}, 'o': Obj(p={'q': x})})
    key, want = choose(('a.b', x), ('a.c.d', x), ('o.p.q', x), ('a.z', NONE), ('z.b', NONE), ('a.b.c.d', NONE), ('a.', NONE),
                       ('.a', NONE), ('.', NONE), ('a..b', NONE), ('o.z', NONE))
    if key == 'a.b.c.d':
        assume(isinstance(x, int) or x is None or isinstance(x, str))
    v = value(src, key)
    if want is NONE:
        check(v is NONE, 'a dotted path that leads nowhere does not exist')
    else:
        check(same(v, want), 'a dotted key leads along its atoms')


def spec_dotted_last():
    """an item of the full name goes before the dotted path"""
    x, y = any_value('x'), any_value('y')
    src = DefaultSource({'a.b': x, 'a': {'b': y}})
    check(same(value(src, 'a.b'), x), 'the item of the full name goes before the dotted path')
    check(same(value(src, 'a', 'b'), y), 'the nested item is found part by part')
    src = DefaultSource({'z': x, 'a': {'b': y}}, aliases={'a.b': 'z'})
    check(same(value(src, 'a.b'), x), 'the alias of the full name goes before the dotted path')


def spec_dotted_below():
    x = any_value('x')
    src = DefaultSource({'k': {'a': {'b': x}}})
    check(same(value(src, 'k', 'a.b'), x), 'dotted keys work below other keys')
    check(same(value(src, 'k.a', 'b'), x), 'and before other keys')
    check(same(value(src, 'k.a.b'), x), 'and over any depth')


def spec_calls():
    """name() yields the result of calling what the name resolves to"""
    r = any_value('r')
    made = []

    def func():
        made.append(1)
        return r
    where = choose('item', 'attribute', 'nested', 'dotted', 'alias')
    if where == 'item':
        v = value(DefaultSource({'f': func}), 'f()')
    elif where == 'attribute':
        v = value(DefaultSource({'o': Obj(f=func)}), 'o', 'f()')
    elif where == 'nested':
        v = value(DefaultSource({'k': {'f': func}}), 'k', 'f()')
    elif where == 'dotted':
        v = value(DefaultSource({'k': {'f': func}}), 'k.f()')
    else:
        v = value(DefaultSource({'f': func}, aliases={'g': 'f'}), 'g')
        check(v is func, 'without the call the function itself is the value')
        return
    check(same(v, r), 'a call key yields the result of the call')
    check(len(made) == 1, 'the function is called once')


def spec_call_again():
    """a call key stays one, whatever is read and forgotten"""
    made = []

    def func():
        made.append(1)
        return {'x': len(made)}
    path = DefaultSource({'k': {'f': func}}).path()
    path.append('k')
    path.append('f()')
    path.append('x')
    check(path.value == 1, 'the value below a call is that of its result')
    check([part.key for part in path] == ['k', 'f()', 'x'], 'reading does not change the parts of a path')
    path[1] = 'f()'
    check(path.value == 2 and len(made) == 2, 'what is assigned again is called again')
    path[0] = 'k'
    check(path.value == 3 and path.exists, 'what is below an assigned part is called again')


def spec_call_missing():
    x = any_value('x', 'None', 'int', 'str', 'list', 'dict', 'bool')
    src = DefaultSource({'k': x})
    check(value(src, 'z()') is NONE, 'calling what does not exist does not exist')
    check(value(src, 'k()') is NONE, 'calling what cannot be called does not exist')
    check(same(value(src, 'k'), x), 'the value itself is not affected')


def spec_call_methods():
    data = Rec()
    data['k'] = 1
    src = DefaultSource(data)
    check(value(src, 'call()') == 'called', 'methods can be called')
    check(value(src, 'k') == 1, 'items stay items')


def spec_call_item_of_that_name():
    """the key without () is what resolves"""
    src = DefaultSource({'f': Obj(v=1), 'g': lambda: {'h': lambda: 7}})
    check(value(src, 'g()', 'h()') == 7, 'results of calls can be descended into')
    check(value(src, 'f()') is NONE, 'an object that cannot be called')


def spec_ignores():
    """an ignored path never exists"""
    x, y = any_value('x'), any_value('y')
    src = DefaultSource({'a': x, 'k': {'b': y, 'c': y}}, ignores=['a', 'k.b'])
    check(value(src, 'a') is NONE, 'an ignored key does not exist')
    check(value(src, 'k', 'b') is NONE, 'an ignored nested key does not exist')
    check(value(src, 'k.b') is NONE, 'an ignored path does not exist by its dotted key either')
    check(same(value(src, 'k', 'c'), y), 'its neighbours exist')
    check(value(src, 'k') is not NONE, 'what it is nested in exists')


def spec_ignored_alias():
    x = any_value('x', 'int', 'str')
    src = DefaultSource([x, x], aliases={'a': 0, 'b': 1}, ignores=['a'])
    check(value(src, 'a') is NONE, 'an ignored alias does not exist')
    check(same(value(src, 'b'), x), 'other aliases do')


def spec_ignored_attribute():
    src = DefaultSource({'o': Obj(p=1, q=2)}, ignores=['o.p'])
    check(value(src, 'o', 'p') is NONE, 'an ignored attribute does not exist')
    check(value(src, 'o', 'q') == 2, 'other attributes do')


def spec_ignore_exact():
    """only the path itself is ignored"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'a': {'a': x, 'b': {'a': x}}, 'b': x}, ignores=[choose('a.a', 'b')])
    first = src.ignores == [['b']]
    check((value(src, 'b') is NONE) == first, 'the same name elsewhere is not ignored (top)')
    check((value(src, 'a', 'a') is NONE) == (not first), 'the same name elsewhere is not ignored (nested)')
    check(same(value(src, 'a', 'b', 'a'), x), 'deeper paths are not ignored')


def spec_ignored_prefix():
    """what is below an ignored path does not exist either, and reading it does not hide what is above"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'a': {'b': {'c': x}}, 'f': lambda: x}, ignores=['a.b', 'f()'])
    check(value(src, 'a', 'b') is NONE and value(src, 'a.b') is NONE, 'an ignored path is missing')
    check(value(src, 'a', 'b', 'c') is NONE and value(src, 'a.b.c') is NONE and value(src, 'a', 'b.c') is NONE and
          value(src, 'a.b', 'c') is NONE, 'nothing exists below an ignored path')
    check(value(src, 'f()') is NONE and value(src, 'f') is not NONE, 'a call key may be ignored itself')
    path = src.path()
    path.append('a')
    path.append(choose('b', 'z'))
    path.append('c')
    check(not path.exists, 'below what is missing nothing exists')
    path.pop()
    check(not path.exists, 'what is missing stays missing')
    path.pop()
    check(path.exists, 'what is above an ignored path exists, also after reading below it')


def spec_alias_read_order():
    """whether upper parts were read before makes no difference"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'k': {'other': x, 'k': 1}}, aliases={'kk': 'k', 'name': 'other'})
    path = src.path()
    path.append('kk')
    if choose(True, False):
        check(path.exists, 'an alias of a container leads to it')
    path.append(choose('other', 'name', 'kk'))
    check(same(path.value, x if path.name == 'other' else NONE), 'an alias applies to the first part only')
    check(same(path.value, x if path.name == 'other' else NONE), 'and reading again gives the same')
    check(value(src, 'kk.other') is x and value(src, 'k.name') is NONE and value(src, 'k.kk') is NONE,
          'also of a dotted key')


def spec_ignored_fields():
    x = any_value('x', 'int')
    field = fields.Integer(default='dflt')

    class F(pilo.Form):
        a = field
        b = fields.Integer()
    f = F()
    errs = f.map(DefaultSource({'a': x, 'b': x}, ignores=['a']))
    check(len(errs) == 0 and f['a'] == 'dflt', 'an ignored path is missing to the field')
    check(same(f['b'], x), 'other fields are mapped')


def spec_sequence_forms():
    """a form mapped from a sequence takes its fields by position"""
    x, y = any_value('x', 'int', 'str', 'None'), any_value('y', 'int', 'str')

    class F(pilo.Form):
        first = pilo.Field()
        second = pilo.Field()
        third = pilo.Field(default='dflt')
    how = choose('map', 'init')
    data = choose([x, y], (x, y))
    if how == 'map':
        f = F()
        errs = f.map(data)
        check(len(errs) == 0, 'a sequence maps without error')
    else:
        f = F(data)
    check(same(f['first'], x) and same(f['second'], y), 'fields are taken by position, in declaration order')
    check(f['third'] == 'dflt', 'positions beyond are missing')


def spec_dotted_fields():
    x = any_value('x', 'int', 'str', 'bool')

    class F(pilo.Form):
        a = pilo.Field('p.q')
        b = pilo.Field('p.f()')
        c = pilo.Field('p.z', default='dflt')
    f = F()
    errs = f.map({'p': {'q': x, 'f': lambda: x}})
    check(len(errs) == 0 and same(f['a'], x) and same(f['b'], x) and f['c'] == 'dflt',
          'fields may address dotted and call keys')


def spec_ignored_literal():
    """however it is addressed"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'a.b': x, 'a': {'b': x, 'b.c': x, 'd': x}, 'a.b.c': x, 'z': x}, ignores=[choose('a.b', 'a.b.c')])
    if src.ignores == [['a', 'b']]:
        check(value(src, 'a.b') is NONE and value(src, 'a', 'b') is NONE, 'an ignored path does not exist as item of the full name')
    else:
        check(same(value(src, 'a', 'b'), x), 'what is above an ignored path exists')
        check(value(src, 'a', 'b.c') is NONE and value(src, 'a.b.c') is NONE and value(src, 'a.b', 'c') is NONE,
              'an ignored path does not exist over any division into parts')
    check(same(value(src, 'a', 'd'), x) and same(value(src, 'z'), x), 'other paths do')


def spec_unusual_names():
    """names of any shape, keys of any length"""
    x = any_value('x', 'int', 'str')
    name = choose('_p', '__p', 'p_', 'P', 'p9', 'camelCase')
    o = Obj()
    setattr(o, name, x)
    src = DefaultSource({'o': o, 'n': {name: x}})
    check(same(value(src, 'o', name), x) and same(value(src, 'o.' + name), x), 'an attribute is found whatever it is called')
    check(same(value(src, 'n', name), x) and same(value(src, 'n.' + name), x), 'an item is found whatever it is called')
    src = DefaultSource({'a': {'b': {'c': {'d': {'e': {'f': Obj(g={'h': x})}}}}}})
    check(same(value(src, 'a.b.c.d.e.f.g.h'), x), 'a dotted key may have any number of atoms')
    check(same(value(src, 'a.b.c', 'd.e.f', 'g.h'), x), 'also in several parts')
    check(value(src, 'a.b.c.d.e.f.g.z') is NONE and value(src, 'a.b.c.d.e.f.g.h.z') is NONE, 'a long key may lead nowhere')


def spec_alias_read_again():
    """what is not there now may be there later"""
    data = {'k': 1}
    src = DefaultSource(data, aliases={'name': 'other', 'at': 'k'}, ignores=['z'])
    check(value(src, 'name') is NONE and value(src, 'nope') is NONE and value(src, 'z') is NONE, 'nothing there')
    check(src.aliases == {'name': 'other', 'at': 'k'}, 'reading leaves the aliases as they are')
    data['other'] = 2
    data['z'] = 3
    check(value(src, 'name') == 2 and value(src, 'at') == 1 and value(src, 'z') is NONE,
          'aliases and ignores hold for what the data becomes')


def spec_dotted_positions():
    """positions are no part of dotted keys"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'l': [x, {'k': x}], 't': (x,), 'd': {'0': x, '1': {'k': x}, 0: 'int'}, 's': 'text'})
    key, want = choose(('l.0', NONE), ('l.1.k', NONE), ('t.0', NONE), ('s.0', NONE), ('d.0', x), ('d.1.k', x), ('l.-1', NONE))
    check(same(value(src, key), want), 'the atoms of a dotted key are names')
    check(same(value(src, 'l', 0), x) and same(value(src, 'd', 0), 'int') and same(value(src, 'd', '0'), x),
          'positions and names are different keys')


def spec_called_results():
    """what a call returns can be called"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'f': lambda: (lambda: x), 'g': lambda: x, 'd': {'f': lambda: {'g': lambda: x}}})
    check(same(value(src, 'f()()'), x), 'a call may be called')
    check(value(src, 'g()()') is NONE and value(src, '()') is NONE, 'unless it returned nothing to call')
    check(same(value(src, 'd', 'f()', 'g()'), x), 'or be looked into')


def spec_ignored_exactly():
    """what is ignored is what was asked for"""
    x = any_value('x', 'int', 'str')
    src = DefaultSource({'a': {'b': {'c': x}, 'd': x}, 'ab': x, 'b': x, 'e': {'a': {'b': x}}}, ignores=['a.b'])
    check(value(src, 'a', 'b') is NONE and value(src, 'a.b') is NONE, 'it does not exist')
    check(value(src, 'a', 'b', 'c') is NONE and value(src, 'a.b.c') is NONE, 'nor does what is in it')
    check(same(value(src, 'a', 'd'), x) and same(value(src, 'a.d'), x) and same(value(src, 'ab'), x), 'its neighbours do')
    check(same(value(src, 'b'), x) and same(value(src, 'e', 'a', 'b'), x) and same(value(src, 'e.a.b'), x),
          'as does what has its name elsewhere')
    src = DefaultSource({'a.b.c': x, 'a': {'b': 1}}, ignores=['a.b', 'z'])
    check(same(value(src, 'a.b.c'), x) and value(src, 'a.b') is NONE, 'an item with dots in its name is another one')
