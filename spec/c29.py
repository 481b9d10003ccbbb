"""C29: looking up a missing key or position never raises; what exists is returned as it is."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource


def look(src, *keys):
    """(exists, value) by the public path"""
    path = src.path()
    for k in keys:
        path.append(k)
    exists = path.exists
    value = path.value
    check(exists == (value is not NONE), 'a path exists exactly if it has a value')
    check(path.is_null == (value is None), 'a path is null exactly if its value is None')
    return exists, value


def item(container, key):
    """what native indexing finds, NONE if nothing"""
    try:
        return container[key]
    except (KeyError, IndexError, TypeError):
        pass
    if isinstance(key, str):
        # native objects also answer to attributes (C35)
        try:
            return getattr(container, key)
        except (AttributeError, TypeError):
            pass
    return NONE


def expected(data, keys):
    v = data
    for k in keys:
        v = item(v, k)
        if v is NONE:
            return NONE
    return v


def verify(src, data, keys):
    want = expected(data, keys)
    exists, value = look(src, *keys)
    if want is NONE:
        check(not exists, 'what is not in the data does not exist')
    else:
        check(exists and same(value, want), 'what is in the data exists and is returned as it is')


def some_key(name):
    return choose('k', 'zz', 0, 1, 2, -1, -3, 7, any_value(name, 'int'))


def some_data():
    x = any_value('x')
    which = choose('dict', 'list', 'tuple', 'nested', 'nested list', 'list of dict', 'empty', 'scalar')
    if which == 'dict':
        return {'k': x, 1: 'one'}
    if which == 'list':
        return [x, None, 0]
    if which == 'tuple':
        return (x, '')
    if which == 'nested':
        return {'k': {'k': x, 'l': [x]}, 'zz': None}
    if which == 'nested list':
        return [[x, False], 'txt']
    if which == 'list of dict':
        return [{'k': x}, {}]
    if which == 'empty':
        return choose({}, [], (), '')
    return any_value('s', 'None', 'int', 'float', 'bool', 'str')


def spec_default_one():
    data = some_data()
    verify(DefaultSource(data), data, (some_key('i'),))


def spec_default_two():
    data = some_data()
    verify(DefaultSource(data), data, (choose('k', 0, 1, 'zz'), choose('k', 'l', 0, 1, 5, -1)))


def spec_default_three():
    x = any_value('x')
    data = choose({'k': {'k': x}}, {'k': [x]}, [[{'k': x}]], {'k': {'k': {'k': x}}}, {'k': None}, {'k': [[x]]})
    verify(DefaultSource(data), data, (choose('k', 0), choose('k', 0, 'no'), choose('k', 0, 3)))


def spec_default_any_key():
    """any text key of any mapping"""
    x, k = any_value('x'), plain('key')
    data = {k: x}
    exists, value = look(DefaultSource(data), k)
    check(exists and same(value, x), 'a key of the mapping exists, whatever its value')
    exists, value = look(DefaultSource({}), 'no-such-key')
    check(not exists, 'a key that is not there does not exist')


def spec_default_any_position():
    """any position of a sequence"""
    data = [any_value('x'), any_value('y')]
    i = any_value('i', 'int')
    exists, value = look(DefaultSource(data), i)
    if i == 0 or i == -2:
        check(exists and same(value, data[0]), 'the first position')
    elif i == 1 or i == -1:
        check(exists and same(value, data[1]), 'the last position')
    else:
        check(not exists, 'a position beyond the sequence does not exist')


def spec_root():
    x = any_value('x')
    exists, value = look(DefaultSource(x))
    check(exists and same(value, x), 'the root exists and is the data')
    y = any_json('y')
    src = JsonSource(json_text([y]))
    exists, value = look(src)
    check(exists and isinstance(value, list), 'the root of a document exists')


def spec_json():
    x = any_json('x')
    data = choose({'k': x}, [x, None], {'k': {'k': x, 'zz': None}}, {'k': [x, 0]}, [[x]], {}, [], {'k': None}, {'': x})
    keys = (choose('k', 0, 1, -1, 'zz', ''),) if choose(True, False) else (choose('k', 0, 9), choose('k', 'zz', 0, 1, 2))
    want = expected(data, keys)
    exists, value = look(JsonSource(json_text(data), strict=choose(True, False)), *keys)
    if want is NONE:
        check(not exists, 'what is not in the document does not exist')
    else:
        check(exists and deep_same(value, want), 'what is in the document exists and is returned as it is')


def spec_json_scalar_root():
    """descending into a scalar"""
    x = any_json('x')
    src = JsonSource(json_text({'k': x}))
    if isinstance(x, (dict, list, str)):
        reach('containers are left to the other entry')
        return
    exists, value = look(src, 'k', choose('k', 0, 'a.b'))
    check(not exists, 'below a scalar of a document nothing exists')
    exists, value = look(src, 'k', 'k', 0, 'k')
    check(not exists, 'far below a scalar of a document nothing exists')


def spec_json_dotted():
    """dotted keys address nested mappings"""
    x = any_json('x')
    data = {'k': {'l': x, 'm': {'n': x}}}
    src = JsonSource(json_text(data))
    key, want = choose(('k.l', x), ('k.m.n', x), ('k.no', NONE), ('no.l', NONE), ('k.m.no', NONE), ('k.', NONE), ('.', NONE),
                       ('.k', NONE))
    exists, value = look(src, key)
    if want is NONE:
        check(not exists, 'a dotted key that leads nowhere does not exist')
    else:
        check(exists and deep_same(value, want), 'a dotted key leads to the nested value')


CONFIG = '[s]\na = 1\nb = one two\nc =\n x\n y\nm[k] = 2\nm[l] = 3\nq = it"s\n[t]\nz = 5\n'


def spec_config():
    keys, want = choose((('s', 'a'), '1'), (('s', 'b'), 'one two'), (('s', 'no'), NONE), (('no', 'a'), NONE), (('no',), NONE),
                        (('s', 'm', 'k'), '2'), (('s', 'm', 'no'), NONE), (('s', 'b', 0), 'one'), (('s', 'b', 1), 'two'),
                        (('s', 'b', 2), NONE), (('s', 'c', 0), 'x'), (('s', 'c', 1), 'y'), (('s', 'c', 2), NONE),
                        (('s', 'a', 'x'), NONE), (('s', 'q', 0), NONE), (('s', 0), NONE), ((0,), NONE), (('s', 'm', 0), NONE),
                        (('t', 'z'), '5'), (('t', 'a'), NONE), (('s', 'a', 0, 0), '1'), (('s', 'no', 'no', 0), NONE))
    exists, value = look(ConfigSource(CONFIG), *keys)
    if want is NONE:
        check(not exists, 'what is not configured does not exist')
    else:
        check(exists and value == want, 'what is configured exists')


def spec_config_section():
    keys, want = choose((('a',), '1'), (('no',), NONE), (('m', 'k'), '2'), (('m', 'no'), NONE), (('b', 1), 'two'), (('b', 9), NONE),
                        ((0,), NONE), (('q', 0), NONE), (('a', 'x', 'y'), NONE), (('z',), NONE))
    exists, value = look(ConfigSource(CONFIG, section='s'), *keys)
    if want is NONE:
        check(not exists, 'what is not in the section does not exist')
    else:
        check(exists and value == want, 'what is in the section exists')


def spec_config_defaults():
    x = any_value('x')
    src = ConfigSource('[s]\na = 1\n', section='s', defaults={'d': x, 'a': 2})
    exists, value = look(src, 'd')
    check(exists and same(value, x), 'a default exists, whatever its value')
    exists, value = look(src, 'a')
    check(exists and value == '1', 'what is set goes before the default')
    exists, value = look(src, choose('e', 0, 'd '))
    check(not exists, 'what has neither value nor default does not exist')


def member(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def spec_union():
    x, y = any_value('x'), any_value('y')
    src = UnionSource([{'k': x}, {'l': y}], merge=choose('first', 'combine', 'last'))
    for k in ('k', 'l'):
        path = member(src, k)
        check(path.exists, 'a key of some member exists in the union')
        check(path.is_null == ((x if k == 'k' else y) is None), 'null in the member is null in the union')
    check(same(member(src, 'k').primitive(None), x), 'the value is the one of the member')
    check(not member(src, choose('no', 0, 5)).exists, 'a key of no member does not exist in the union')


def spec_union_below():
    """descending into a union"""
    src = UnionSource([{'k': {'x': 1}}, {'k': {'y': None}, 'l': [1]}, {}], merge='combine')
    path = member(src, 'k')
    path.mapping()
    for key, there in (('x', True), ('y', True), ('z', False), (0, False)):
        path.append(key)
        check(path.exists == there, 'below a union exactly the merged keys exist')
        path.pop()
    path = member(src, 'l')
    n = path.sequence()
    check(n == 1, 'one item')
    for i, there in ((0, True), (1, False), (9, False)):
        path.append(i)
        check(path.exists == there, 'below a union exactly the merged positions exist')
        path.pop()


def spec_mount():
    x = any_value('x')
    src = MountSource(m={'k': x, 'l': None}, n=JsonSource('{"j": 1}'), z=None)
    keys, there = choose((('m',), True), (('m', 'k'), True), (('m', 'l'), True), (('m', 'no'), False), (('m', 0), False),
                         (('n', 'j'), True), (('n', 'k'), False), (('no',), False), (('no', 'k'), False), (('no', 'k', 0), False),
                         (('m', 'l', 'deep'), False), (('z', 'k'), False), ((0,), False), ((0, 'k'), False))
    path = member(src, *keys)
    check(path.exists == there, 'below a mount exactly what is in the mounted source exists')
    if keys == ('m', 'k'):
        check(same(path.value, x) and path.is_null == (x is None), 'a mounted value is returned as it is')


def spec_repeated():
    """looking up something else in between does not change the answer"""
    x = any_value('x')
    path = DefaultSource({'k': {'k': x}, 'l': [x]}).path()
    path.append('k')
    path.append('no')
    check(not path.exists, 'nothing there')
    path.pop()
    path.append('k')
    check(path.exists and same(path.value, x), 'the path is looked up afresh')
    path.pop()
    path.pop()
    path.append('l')
    path.append(3)
    check(not path.exists, 'no such position')
    path.pop()
    path.append(0)
    check(path.exists and same(path.value, x), 'the position is looked up afresh')
    path[-1] = 1
    check(not path.exists, 'a replaced part is looked up afresh')
    del path[-1]
    path[0] = 'k'
    check(path.exists and isinstance(path.value, dict), 'a replaced first part is looked up afresh')


def spec_far_below():
    """once a part does not exist nothing below it does"""
    x = any_value('x', 'None', 'int', 'str', 'bool', 'float')
    src = choose(DefaultSource({'k': x}), ConfigSource('[s]\n', section='s', defaults={'k': x}))
    exists, value = look(src, 'k', 'no', 'k')
    check(not exists, 'nothing exists below what does not exist')
    exists, value = look(src, 'no', 'k', 0)
    check(not exists, 'nothing exists below a missing root key')
    exists, value = look(src, 'k')
    check(exists and same(value, x), 'the value itself stays')


def spec_read_again():
    """reading a path again, part by part or at once, gives the same answer"""
    x = any_value('x', 'None', 'int', 'str', 'bool', 'float')
    src = choose(DefaultSource({'k': x}), ConfigSource('[s]\n', section='s', defaults={'k': x}),
                 JsonSource('{"k": null}'), UnionSource([{'k': x}]), MountSource(m={'k': x}))
    path = src.path()
    for key in choose(('no', 'name'), ('k', 'no', 'name'), ('no', 'key'), ('m', 'no', 'name', 'name')):
        path.append(key)
        if choose(True, False):
            path.exists
    check(not path.exists and path.value is NONE, 'nothing exists below a missing part')
    check(not path.exists and path.value is NONE and not path.is_null, 'nor when read again')
    while len(path) > 1:
        path.pop()
        path.append('name')
        check(not path.exists or len(path) == 1, 'nor when another part is looked up')
        path.pop()
