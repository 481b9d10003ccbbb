"""C43: a path stands for the value at its current parts, whatever was done to it and read from it before."""
import copy
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource, SourceError

TEXT = '[a]\nb = 1 2\nx = one\n[b]\nb = 3\na = two\nx[a] = p\nx[b] = q\n'


def source(kind, x, y):
    if kind == 'config':
        return ConfigSource(TEXT, location='here')
    data = {'a': {'b': [x, {'a': y}], 'x': y, 'a': None}, 'b': {'b': y, 'a': {'a': x}, 'x': [y, x]}, 'x': x}
    if kind == 'json':
        src = JsonSource('{}', location='here')
        src.data = data
        return src
    if kind == 'mount':
        return MountSource(a=data['a'], b=data['b'])
    return DefaultSource(data, location='here')


def fresh(src, keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def read(path, how):
    if how == 'value':
        path.value
    elif how == 'exists':
        path.exists
    elif how == 'null':
        path.is_null


def agree(path, src, keys):
    """everything a path answers is what a new path of the same parts answers"""
    new = fresh(src, keys)
    check([part.key for part in path] == list(keys), 'the path holds the parts the operations leave')
    check(len(path) == len(keys), 'the path counts its parts')
    check(path.exists == new.exists, 'existence is that of the value at the current parts')
    if keys:
        check(path.name == keys[-1], 'the name is the last part')
        check(path.is_null == new.is_null, 'null is that of the value at the current parts')
        if new.exists and not isinstance(src, ConfigSource):
            check(same(path.value, new.value), 'the value is the one at the current parts')
        elif new.exists:
            check(type(path.value) is type(new.value), 'the value is the one at the current parts')
            if isinstance(new.value, str):
                check(path.value == new.value, 'the value is the one at the current parts')
    check(str(path) == str(new), 'the path is rendered by its current parts')


def operate(path, model, op, key):
    if op == 'append':
        path.append(key)
        model.append(key)
    elif op == 'first':
        path.insert(0, key)
        model.insert(0, key)
    elif op == 'before last':
        path.insert(-1, key)
        model.insert(-1, key)
    elif op == 'replace first':
        path[0] = key
        model[0] = key
    elif op == 'replace last':
        path[-1] = key
        model[-1] = key
    elif op == 'delete first':
        del path[0]
        del model[0]
    elif op == 'delete last':
        del path[-1]
        del model[-1]
    elif op == 'pop':
        part = path.pop()
        check(part.key == model.pop(), 'the part taken off is the last one')
    elif op == 'pop first':
        part = path.pop(0)
        check(part.key == model.pop(0), 'the part taken off is the first one')
    elif op == 'extend':
        path.extend([key, 'b'])
        model.extend([key, 'b'])
    elif op == 'reverse':
        path.reverse()
        model.reverse()
    elif op == 'clear':
        path.clear()
        del model[:]


OPS = ['append', 'first', 'before last', 'replace first', 'replace last', 'delete first', 'delete last', 'pop',
       'pop first', 'extend', 'reverse', 'clear']


def spec_one_operation():
    x, y = any_value('x', 'int', 'str', 'None'), any_value('y', 'int', 'str')
    src = source(choose('native', 'json', 'config'), x, y)
    start = choose(('a',), ('a', 'b'), ('b', 'x'), ('x', 'a'), ('a', 'b', 1), ('b', 'a', 'a'), ('zz', 'b'))
    path, model = fresh(src, start), list(start)
    read(path, choose('value', 'exists', 'null', 'nothing'))
    operate(path, model, choose_from(OPS), choose('a', 'b', 'x'))
    agree(path, src, model)


def choose_from(options):
    for option in options[:-1]:
        if choose(True, False):
            return option
    return options[-1]


def spec_three_operations():
    src = source(choose('native', 'json', 'config'), 1, 'two')
    path, model = fresh(src, ('a', 'b')), ['a', 'b']
    path.value
    for step in range(3):
        op = choose('append', 'first', 'replace first', 'replace last', 'delete first', 'pop')
        if model or op in ('append', 'first'):
            operate(path, model, op, choose('a', 'b') if step < 2 else 'x')
            read(path, choose('value', 'nothing'))
    agree(path, src, model)


def spec_other_parts():
    """replacing a part by another part object, or a part in the middle"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    src = source(choose('native', 'json'), x, y)
    path = fresh(src, ('a', 'b', 1))
    read(path, choose('value', 'exists', 'nothing'))
    path[1] = choose('x', 'b', 'a', 'zz')
    agree(path, src, [part.key for part in path])
    path[2] = choose(0, 1, 2)
    agree(path, src, [part.key for part in path])
    del path[1]
    agree(path, src, [part.key for part in path])
    path.insert(1, choose('x', 'b'))
    agree(path, src, [part.key for part in path])


def spec_from_the_end():
    """positions counted from the end, and slices"""
    src = source(choose('native', 'json'), any_value('x', 'int', 'str'), 'two')
    start = choose(('b', 'a', 'a'), ('a', 'b', 1))
    path, model = fresh(src, start), list(start)
    read(path, choose('value', 'exists', 'nothing'))
    op = choose('replace', 'delete', 'insert', 'slice', 'head', 'tail')
    if op == 'replace':
        i, key = choose(-2, -3), choose('a', 'b', 'x', 'zz')
        path[i] = key
        model[i] = key
    elif op == 'delete':
        i = choose(-2, -3)
        del path[i]
        del model[i]
    elif op == 'insert':
        i, key = choose(-2, -3, 2, 7), choose('a', 'b', 'x')
        path.insert(i, key)
        model.insert(i, key)
    elif op == 'slice':
        del path[1:2]
        del model[1:2]
    elif op == 'head':
        del path[:1]
        del model[:1]
    else:
        del path[1:]
        del model[1:]
    agree(path, src, model)


def spec_mount():
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    src = source('mount', x, y)
    head = choose('a', 'b')
    path, model = fresh(src, (head, 'b')), [head, 'b']
    read(path, choose('value', 'nothing'))
    for step in range(2):
        op = choose('append', 'insert', 'replace', 'delete', 'pop')
        key = choose('a', 'b', 'x')
        if op == 'append':
            operate(path, model, op, key)
        elif op == 'insert':
            path.insert(1, key)
            model.insert(1, key)
        elif len(model) < 2:
            continue
        elif op == 'replace':
            path[1] = key
            model[1] = key
        elif op == 'delete':
            del path[1]
            del model[1]
        else:
            operate(path, model, 'pop', key)
        read(path, choose('value', 'nothing'))
    agree(path, src, model)


def spec_out_of_range():
    """an operation at a part that is not there raises and changes nothing"""
    src = source(choose('native', 'json', 'config'), 1, 'two')
    start = choose((), ('a',), ('a', 'x'))
    path = fresh(src, start)
    read(path, choose('value', 'nothing'))
    op = choose('replace', 'delete', 'read', 'pop')
    i = choose(2, 3, -3)
    raised = False
    try:
        if op == 'replace':
            path[i] = 'b'
        elif op == 'delete':
            del path[i]
        elif op == 'pop':
            path.pop(i)
        else:
            path[i]
    except IndexError:
        raised = True
    check(raised, 'a part that is not there cannot be operated on')
    agree(path, src, start)


def spec_assigned():
    """an assigned value is the value at the path until a part at or above it changes, and what lies below follows it"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    src = source(choose('native', 'json'), 0, 0)
    start = choose((), ('a',), ('a', 'x'), ('zz',))
    path = fresh(src, start)
    read(path, choose('value', 'exists', 'nothing'))
    path.value = {'n': x, 'm': {'o': y}}
    check(path.exists and not path.is_null, 'an assigned value exists')
    check(same(path.value['n'], x), 'an assigned value is read back')
    path.append('n')
    check(path.exists and same(path.value, x), 'what lies below an assigned value is found')
    path.pop()
    path.append('m')
    path.append('o')
    check(path.exists and same(path.value, y), 'what lies below an assigned value is found')
    path.pop()
    path.pop()
    path.value['m'] if choose(True, False) else path.value
    check(same(path.value['n'], x), 'an assigned value stays while parts come and go below it')
    path.value = None
    check(path.exists and path.is_null and path.value is None, 'an assigned null is null')
    path.append(choose('x', 'b', 'n', 'a'))
    check(not path.exists, 'nothing lies below an assigned null')
    path.pop()
    if start:
        key = path.pop().key
        path.append(key)
        agree(path, src, start)


def spec_key_kinds():
    """keys of any kind, looked up after another key at the same place"""
    x = any_value('x', 'int', 'str', 'None')
    k1, k2 = choose('k', 0, None, 'n.m', 1.5), choose('k', 0, None, 'n.m', 1.5)
    data = choose({'k': x, 0: 'zero', None: 'none', 'n': {'m': 'dotted'}, 1.5: 'float'}, ['zero', x])
    kind = choose('native', 'json')
    src = DefaultSource({'d': data})
    if kind == 'json':
        src = JsonSource('{}')
        src.data = {'d': data}
    path = fresh(src, ('d', k1))
    read(path, choose('value', 'exists', 'null'))
    path.pop()
    path.append(k2)
    agree(path, src, ['d', k2])


def spec_many_parts():
    """paths of any depth"""
    keys = ['k%d' % i for i in range(14)]
    data, other = 'old', 'new'
    for k in reversed(keys[1:]):
        data, other = {k: data}, {k: other}
    src = DefaultSource({'k0': data, 'z': other})
    path = fresh(src, keys)
    read(path, choose('value', 'exists', 'nothing'))
    path[0] = 'z'
    agree(path, src, ['z'] + keys[1:])
    check(path.value == 'new', 'what is below a changed part is resolved again, at any depth')


def spec_copies():
    """a copy goes its own way, also one of an empty path"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    src = choose(DefaultSource({'a': {'b': x}, 'c': y}), UnionSource([{'a': {'b': x}}, {'c': y}]))
    path = src.path()
    if choose(True, False):
        path.append('a')
        path.value
    n = len(path)
    other = copy.copy(path)
    other.append('b')
    check(len(path) == n and [p.key for p in path.parts] == ['a'][:n], 'the original stays where it is')
    for _ in range(n):
        path.pop()
    path.append('c')
    check(same(path.primitive(None), y), 'and goes where it is sent')
    check([p.key for p in other.parts] == ['a', 'b'][1 - n:], 'the copy stays where it is')
