"""C32: a union path addresses the same position in every source; values are converted as in their member."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, SourceError


def keys_of(path):
    return [part.key for part in path]


def in_step(path):
    """every member path has the keys of the union path"""
    for p in path.paths:
        if keys_of(p) != keys_of(path):
            return False
    return True


def union(n=2):
    datas = [{'a': {'b': {'c': 1}}, 'x': {'b': 2}}, {'a': {'b': {'d': 3}}}, {'x': {}}][:n]
    return UnionSource(datas, merge='combine')


def spec_operations():
    """every sequence of three operations keeps the members in step"""
    path = union(choose(1, 2, 3)).path()
    model = []
    for step in range(3):
        op = choose('append', 'insert', 'replace', 'delete', 'pop')
        if op == 'append':
            key = choose('a', 'b')
            path.append(key)
            model.append(key)
        elif op == 'insert':
            key = choose('x', 'c')
            path.insert(0, key)
            model.insert(0, key)
        elif op == 'replace' and model:
            path[-1] = 'x'
            model[-1] = 'x'
        elif op == 'delete' and model:
            del path[0]
            del model[0]
        elif op == 'pop' and model:
            path.pop()
            model.pop()
    check(keys_of(path) == model, 'the path holds the parts the operations leave')
    check(in_step(path), 'every member path holds the same parts')


def spec_read_between():
    """reading in between does not get members out of step"""
    path = union().path()
    path.append('a')
    how = choose('exists', 'mapping', 'value', 'none')
    if how == 'exists':
        path.exists
    elif how == 'mapping':
        path.mapping()
    elif how == 'value':
        path.value
    path.append('b')
    if how != 'none':
        check(path.exists or how != 'mapping', 'the nested mapping is found below a merged one')
    check(in_step(path), 'reading leaves the members in step')
    path.pop()
    path.append('zz')
    check(in_step(path), 'replacing a part leaves the members in step')
    path.pop()
    path.pop()
    check(in_step(path) and len(path) == 0, 'removing all parts leaves the members at their roots')


def spec_below_null():
    """also below what is null, or not there, in some members"""
    gap = choose(None, NONE, 1)
    first, second = ({} if gap is NONE else {'a': gap}), {'a': {'b': {'c': 1}}}
    path = UnionSource(choose([first, second], [second, first]), merge=choose('combine', 'last', 'first')).path()
    path.append('a')
    path.exists
    path.append('b')
    check(in_step(path), 'a part is appended in every member')
    path[-1] = 'z'
    check(in_step(path), 'a part is replaced in every member')
    path.append('y')
    path.insert(1, 'x')
    check(in_step(path), 'a part is inserted in every member')
    del path[0]
    check(in_step(path) and keys_of(path) == ['x', 'z', 'y'], 'a part is removed in every member')


def spec_after_mapping():
    """after mapping a form all paths are back at their roots, so mapping again sees the same"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')

    class F(pilo.Form):
        k = fields.Dict(fields.String(), pilo.Field())
        s = fields.List(pilo.Field())
    src = UnionSource([{'k': {'p': x}, 's': [x]}, {'k': {'q': y}, 's': [y]}], merge='combine')
    one, two = F(), F()
    e1 = one.map(src)
    e2 = two.map(src)
    check(len(e1) == 0 and len(e2) == 0, 'a union maps repeatedly without error')
    check(same(one['k']['p'], x) and same(two['k']['p'], x) and same(one['k']['q'], y) and same(two['k']['q'], y),
          'mapping a union again yields the same mapping')
    check(same_items(one['s'], [x, y]) and same_items(two['s'], [x, y]), 'mapping a union again yields the same sequence')


def at(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def read(path, *types):
    try:
        return 'value', path.primitive(*types)
    except SourceError:
        return 'error', None


def spec_conversion():
    """as in the member the value comes from"""
    x = any_value('x')
    assume(x is not None)
    t = choose(str, int, float, bool, None)
    which = choose('first', 'second', 'behind null')
    datas = {'first': [{'k': x}, {'k': 'other'}], 'second': [{}, {'k': x}], 'behind null': [{'k': None}, {'k': x}]}[which]
    src = UnionSource(datas, merge=choose('first', 'combine', 'last'))
    how, v = read(at(src, 'k'), t)
    how2, v2 = read(at(DefaultSource({'k': x}), 'k'), t)
    check(how == how2 and (how == 'error' or same(v, v2)), 'a value is converted as in the member it comes from')


def spec_conversion_repeated():
    """asking for one type does not decide what another asks for"""
    x = any_value('x', 'int', 'str', 'bool', 'float')
    src = UnionSource([{'k': x}, {}])
    path = at(src, 'k')
    first, second = choose(str, int, bool, None), choose(str, int, float, None)
    read(path, first)
    how, v = read(path, second)
    how2, v2 = read(at(DefaultSource({'k': x}), 'k'), second)
    check(how == how2 and (how == 'error' or same(v, v2)), 'each request is converted on its own')


def spec_conversion_json():
    x = any_json('x')
    assume(x is not None)
    t = choose(str, int, float, bool, None)
    strict = choose(True, False)
    src = UnionSource([{}, JsonSource(json_text({'k': x}), strict=strict)])
    how, v = read(at(src, 'k'), t)
    how2, v2 = read(at(JsonSource(json_text({'k': x}), strict=strict), 'k'), t)
    check(how == how2 and (how == 'error' or deep_same(v, v2)), 'a value of a document is converted as its source does')


def spec_null():
    """null iff all members that have the key hold null"""
    x, y = any_value('x', 'None', 'int', 'str', 'bool', 'list', 'dict'), any_value('y', 'None', 'int', 'str')
    shape = choose('both', 'first', 'second', 'neither')
    datas = {'both': [{'k': x}, {'k': y}], 'first': [{'k': x}, {}], 'second': [{}, {'k': y}], 'neither': [{}, {}]}[shape]
    path = at(UnionSource(datas, merge=choose('first', 'combine', 'last')), 'k')
    check(path.exists == (shape != 'neither'), 'a key of some member exists')
    if shape == 'both':
        check(path.is_null == (x is None and y is None), 'null exactly if every member holds null')
    elif shape == 'first':
        check(path.is_null == (x is None), 'null of the first member')
    elif shape == 'second':
        check(path.is_null == (y is None), 'null of the second member')
    else:
        check(not path.is_null, 'what does not exist is not null')


def spec_earliest():
    """the value is the earliest that is not null"""
    x, y, z = any_value('x', 'None', 'int'), any_value('y', 'None', 'str'), any_value('z', 'None', 'bool')
    src = UnionSource([{'k': x}, {'k': y}, {'k': z}], merge=choose('first', 'combine', 'last'))
    path = at(src, 'k')
    want = x if x is not None else y if y is not None else z
    check(same(path.primitive(None), want), 'the earliest value that is not null counts')
    check(path.is_null == (want is None), 'null only if all are')


def spec_fields():
    """fields below a union yield what they yield from the member alone"""
    name = choose('Field', 'String', 'Integer', 'Float', 'Boolean', 'Decimal', 'UUID', 'DateFmts', 'Datetime')
    field, _ = build(name)
    x = any_value('x')
    assume(x is not None)
    f = form_with(field)()
    errs = f.map(UnionSource([{'b': 1}, {'a': x}]))
    other, _ = build(name)
    g = form_with(other)()
    errs2 = g.map({'a': x})
    check(('a' in f) == ('a' in g), 'a field accepts through the union what it accepts directly')
    check(len(errs) == len(errs2), 'as many errors as directly')
    if 'a' in f and name in ('Field', 'String', 'Integer', 'Float', 'Boolean'):
        check(same(f['a'], g['a']), 'a field yields through the union what it yields directly')


def spec_null_fields():
    """null and missing below a union"""
    nullable = choose(True, False)
    f = form_with(fields.Integer(nullable=nullable))()
    datas, expect = choose(([{'a': None}, {}], 'null'), ([{}, {'a': None}], 'null'), ([{'a': None}, {'a': None}], 'null'),
                           ([{'a': None}, {'a': 4}], 4), ([{}, {}], 'missing'), ([{}, {'a': 4}], 4), ([{'a': 4}, {'a': None}], 4))
    errs = f.map(UnionSource(datas))
    if expect == 'null':
        check(('a' in f and f['a'] is None and len(errs) == 0) if nullable else only_invalid(errs, type(f).a),
              'null below a union is null to the field')
    elif expect == 'missing':
        check('a' not in f and only_missing(errs, type(f).a), 'missing below a union is missing to the field')
    else:
        check(f['a'] == 4 and len(errs) == 0, 'a value beside nulls is the value')


def spec_null_containers():
    """nulls and missing containers below a union"""
    which = choose('List', 'Dict', 'SubForm')
    field = {'List': fields.List(fields.Integer(), default=None), 'Dict': fields.Dict(fields.String(), fields.Integer(), default=None),
             'SubForm': fields.SubForm(Inner, default=None)}[which]
    f = form_with(field)()
    errs = f.map(UnionSource(choose([{'a': None}, {}], [{}, {}], [{'a': None}, {'a': None}])))
    check(len(errs) == 0 and 'a' in f and f['a'] is None, 'a container that is null or missing below a union is null')


def spec_nested_values():
    """conversion and null two levels down"""
    x, y = any_value('x', 'None', 'int', 'str', 'bool'), any_value('y', 'None', 'int', 'str')
    src = UnionSource([{'k': {'v': x}}, {'k': {'v': y}}], merge='combine')
    path = at(src, 'k')
    path.mapping()
    path.append('v')
    want = x if x is not None else y
    check(path.is_null == (want is None), 'null two levels down only if all are')
    check(same(path.primitive(None), want), 'the earliest value two levels down that is not null')
    how, v = read(path, int)
    how2, v2 = read(at(DefaultSource({'k': want}), 'k'), int)
    check(how == how2 and (how == 'error' or same(v, v2)), 'converted two levels down as in the member')


def spec_sequence_positions():
    """items of a combined sequence are those of their member"""
    x, y, z = any_value('x'), any_value('y'), any_value('z')
    src = UnionSource([{'k': [x]}, {'k': [y, z]}], merge='combine')
    path = at(src, 'k')
    check(path.sequence() == 3, 'the sequences are concatenated')
    order = choose((0, 1, 2), (2, 1, 0), (1, 1, 0), (2, 0, 2))
    for i in order:
        path.append(i)
        want = (x, y, z)[i]
        check(path.exists and path.is_null == (want is None), 'an item is null as in its member')
        check(same(path.primitive(None), want), 'an item is the one of its member')
        path.pop()
        check(in_step(path), 'after an item was read the members are in step')


def spec_not_primitive():
    """containers below a union are no primitives of a type"""
    src = UnionSource([{'k': {'v': 1}}, {}], merge='combine')
    path = src.path()
    check(read(path, choose(str, int, float, bool))[0] == 'error', 'the root of a union is no primitive')
    path.append('k')
    path.mapping()
    check(read(path, choose(str, int, float, bool))[0] == 'error', 'a merged mapping is no primitive')


def spec_many_members():
    """any number of members"""
    x = any_value('x', 'int', 'str')
    members = [{'j': i} for i in range(6)]
    members[5]['k'] = {'v': x}
    union = UnionSource(members)
    path = union.path()
    path.append('z')
    path[0] = 'k'
    path.append('v')
    check(in_step(path), 'every member of many follows the path')
    check([p.exists for p in path.paths] == [False] * 5 + [True] and same(path.paths[5].value, x),
          'and finds there what it holds there')
    class In(pilo.Form):
        v = pilo.Field()
    f, errs = mapped(fields.SubForm(In, 'k'), union)
    check(len(errs) == 0 and same(got(f)['v'], x), 'a form nested in any member of many is mapped')


def spec_earliest_at_any_depth():
    """what is read is the earliest value, however deep the merging goes"""
    x = any_value('x', 'int', 'str')
    depth = choose(None, 0, 1, 2, 3)
    union = UnionSource([{'k': None, 'j': x}, {'k': x, 'j': 'no'}, {'k': 'no'}], merge=choose('first', 'last', 'combine'),
                        merge_depth=depth)
    for key in ('k', 'j'):
        f, errs = mapped(pilo.Field(key), union)
        check(len(errs) == 0 and same(got(f), x), 'a null gives way to a later value, at the root always')
