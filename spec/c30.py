"""C30: container access is granted only to containers of the asked kind."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource
import collections


def at(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def keys_of(src, *keys):
    """('keys', list) or ('error', None)"""
    path = at(src, *keys)
    try:
        keys = path.mapping()
    except src.error:
        return 'error', None
    listed = list(keys)
    check(len(keys) == len(listed), 'the keys of a mapping can be counted')
    return 'keys', listed


def length_of(src, *keys):
    path = at(src, *keys)
    try:
        return 'length', path.sequence()
    except src.error:
        return 'error', None


def placed(x):
    how = choose('key', 'position', 'root', 'nested')
    if how == 'key':
        return DefaultSource({'k': x}), ('k',)
    if how == 'position':
        return DefaultSource([0, x]), (1,)
    if how == 'root':
        return DefaultSource(x), ()
    return DefaultSource({'k': [{'l': x}]}), ('k', 0, 'l')


def spec_mapping():
    x = any_value('x')
    src, keys = placed(x)
    how, names = keys_of(src, *keys)
    if isinstance(x, collections.Mapping):
        check(how == 'keys' and same_items(names, list(x.keys())), 'a mapping is granted with exactly its keys')
    else:
        check(how == 'error', 'what is no mapping is refused with the error of the source')


def spec_sequence():
    x = any_value('x')
    src, keys = placed(x)
    how, n = length_of(src, *keys)
    if isinstance(x, collections.Sequence):
        check(how == 'length' and n == len(x), 'a sequence is granted with its length')
    else:
        check(how == 'error', 'what is no sequence is refused with the error of the source')


class Seq(collections.Sequence):
    def __init__(self, *items):
        self.items = items

    def __getitem__(self, i):
        return self.items[i]

    def __len__(self):
        return len(self.items)


class Map(collections.Mapping):
    def __init__(self, **items):
        self.items_ = items

    def __getitem__(self, k):
        return self.items_[k]

    def __iter__(self):
        return iter(self.items_)

    def __len__(self):
        return len(self.items_)


def spec_custom_containers():
    n = choose(0, 1, 2)
    seq = [Seq(), Seq(1), Seq(1, 2)][n]
    mp = [Map(), Map(a=1), Map(a=1, b=2)][n]
    check(length_of(DefaultSource({'k': seq}), 'k') == ('length', n), 'a sequence of another class is a sequence')
    check(keys_of(DefaultSource({'k': seq}), 'k')[0] == 'error', 'a sequence of another class is no mapping')
    how, names = keys_of(DefaultSource({'k': mp}), 'k')
    check(how == 'keys' and sorted(names) == ['a', 'b'][:n], 'a mapping of another class is a mapping')
    check(length_of(DefaultSource({'k': mp}), 'k')[0] == 'error', 'a mapping of another class is no sequence')


def spec_shapes():
    """the table: mapping, sequence, neither"""
    x, n, names = choose(({}, None, []), ({'a': 1}, None, ['a']), ({'a': 1, 'b': None}, None, ['a', 'b']), ([], 0, None),
                         ([1], 1, None), ((), 0, None), ((1, 2, 3), 3, None), (None, None, None), (0, None, None),
                         (1.5, None, None), (True, None, None), (set(), None, None), (frozenset([1]), None, None),
                         (object(), None, None), ('', 0, None), ('ab', 2, None))
    src, keys = placed(x)
    if names is None:
        check(keys_of(src, *keys) == ('error', None), 'no mapping')
    else:
        how, got_names = keys_of(src, *keys)
        check(how == 'keys' and sorted(got_names) == names, 'the keys of the mapping')
    if n is None:
        check(length_of(src, *keys) == ('error', None), 'no sequence')
    else:
        check(length_of(src, *keys) == ('length', n), 'the length of the sequence')


def spec_missing():
    """what does not exist is neither"""
    src, keys = choose((DefaultSource({}), ('k',)), (DefaultSource([]), (0,)), (JsonSource('{}'), ('k',)),
                       (JsonSource('[]'), (0,)), (ConfigSource('[s]\n', section='s'), ('k',)), (ConfigSource('[s]\n'), ('k',)),
                       (ConfigSource('[s]\n'), ('k', 'l')), (UnionSource([{}, {}]), ('k',)), (MountSource(m={}), ('k',)),
                       (MountSource(m={}), ('m', 'k')), (MountSource(m={}), ('k', 'l')))
    check(keys_of(src, *keys) == ('error', None), 'what does not exist is no mapping')
    check(length_of(src, *keys) == ('error', None), 'what does not exist is no sequence')


def spec_json():
    x = any_json('x')
    src = JsonSource(json_text({'k': x}), strict=choose(True, False))
    how, names = keys_of(src, 'k')
    if isinstance(x, dict):
        check(how == 'keys' and same_items(names, list(x.keys())), 'an object of a document is a mapping with its keys')
    else:
        check(how == 'error', 'nothing else of a document is a mapping')
    how, n = length_of(src, 'k')
    if isinstance(x, list):
        check(how == 'length' and n == len(x), 'an array of a document is a sequence with its length')
    else:
        check(how == 'error', 'nothing else of a document is a sequence')


def spec_json_root():
    x, n, names = choose(({'a': 1}, None, ['a']), ([1, 2], 2, None), ([], 0, None), ({}, None, []))
    src = JsonSource(json_text(x))
    check(keys_of(src) == (('error', None) if names is None else ('keys', names)), 'the root of a document as mapping')
    check(length_of(src) == (('error', None) if n is None else ('length', n)), 'the root of a document as sequence')


CONFIG = '[s]\na = 1\nb = one two\nc =\n x\n y\n\n z\nm[k] = 2\nq = it"s\ne =\n[t]\n'


def spec_config():
    """sections and sub-options are mappings, text is a sequence of words or lines"""
    keys, n, names = choose((('s',), None, ['a', 'b', 'c', 'e', 'm', 'm[k]', 'q']), (('t',), None, []), ((), None, ['s', 't']),
                            (('s', 'a'), 1, None), (('s', 'b'), 2, None), (('s', 'c'), 3, None), (('s', 'm'), None, ['k']),
                            (('s', 'q'), None, None), (('s', 'e'), 0, None), (('s', 'm', 'k'), 1, None))
    src = ConfigSource(CONFIG)
    try:
        at(src, *keys).sequence()
    except src.error:
        pass
    except Exception as ex:
        fail('asking for a length fails with the error of the source only', ex)
    how, got_names = keys_of(src, *keys)
    if names is None:
        check(how == 'error', 'text is no mapping')
    else:
        check(how == 'keys' and sorted(got_names) == names, 'sections and sub-options are mappings')
    how, got_n = length_of(src, *keys)
    if n is None:
        check(how == 'error', 'sections, sub-options and unbalanced text are no sequences')
    else:
        check(how == 'length' and got_n == n, 'text is a sequence of its words or lines')


def spec_config_section_root():
    src = ConfigSource(CONFIG, section=choose('s', 't'))
    how, names = keys_of(src)
    check(how == 'keys' and ('a' in names) == (src.section == 's'), 'the root of a section is a mapping')
    check(length_of(src)[0] == 'error', 'the root of a section is no sequence')


def spec_config_defaults():
    x = any_value('x', 'None', 'int', 'float', 'bool', 'dict', 'list', 'object')
    src = ConfigSource('[s]\n', section='s', defaults={'k': x})
    how, names = keys_of(src, 'k')
    if isinstance(x, dict):
        check(how == 'keys' and same_items(names, list(x.keys())), 'a default that is a mapping is a mapping')
    else:
        check(how == 'error', 'a default that is no mapping is refused')
    how, n = length_of(src, 'k')
    if isinstance(x, list):
        check(how == 'length' and n == len(x), 'a default that is a sequence is a sequence')
    else:
        check(how == 'error', 'a default that is no sequence is refused')


def spec_union():
    x = any_value('x', 'None', 'int', 'float', 'bool', 'object')
    merge = choose('first', 'combine', 'last')
    assume(x is not None)
    src = UnionSource([{'k': x, 'm': {'a': 1}, 'l': [1, 2]}, {}], merge=merge)
    check(keys_of(src, 'k') == ('error', None), 'a scalar below a union is no mapping')
    check(length_of(src, 'k') == ('error', None), 'a scalar below a union is no sequence')
    check(keys_of(src, 'm') == ('keys', ['a']), 'a mapping below a union')
    check(length_of(src, 'm') == ('error', None), 'a mapping below a union is no sequence')
    check(length_of(src, 'l') == ('length', 2), 'a sequence below a union')
    check(keys_of(src, 'l') == ('error', None), 'a sequence below a union is no mapping')
    how, names = keys_of(src)
    check(how == 'keys' and sorted(names) == ['k', 'l', 'm'], 'the root of a union is a mapping')
    check(length_of(src) == ('error', None), 'the root of a union is no sequence')


def spec_mount():
    x = any_value('x', 'None', 'int', 'float', 'bool', 'object')
    src = MountSource(m={'k': x, 'm': {'a': 1}, 'l': [1, 2]}, z=JsonSource('[1, 2, 3]'))
    check(keys_of(src, 'm', 'k') == ('error', None), 'a scalar below a mount is no mapping')
    check(length_of(src, 'm', 'k') == ('error', None), 'a scalar below a mount is no sequence')
    check(keys_of(src, 'm', 'm') == ('keys', ['a']), 'a mapping below a mount')
    check(length_of(src, 'm', 'm') == ('error', None), 'a mapping below a mount is no sequence')
    check(length_of(src, 'm', 'l') == ('length', 2), 'a sequence below a mount')
    check(length_of(src, 'z') == ('length', 3), 'a mounted sequence')
    check(keys_of(src, 'z') == ('error', None), 'a mounted sequence is no mapping')
    how, names = keys_of(src)
    check(how == 'keys' and sorted(names) == ['m', 'z'], 'the root of a mount is a mapping of its mount points')
    check(length_of(src) == ('error', None), 'the root of a mount is no sequence')


def spec_aliases():
    """with aliases the root also answers to the aliased names"""
    src = DefaultSource([1, 2], aliases={'a': 0, 'b': 1})
    how, names = keys_of(src)
    check(how == 'keys' and sorted(names) == ['a', 'b'], 'an aliased sequence answers as mapping of its aliases')
    check(length_of(src) == ('length', 2), 'an aliased sequence stays a sequence')
    src = DefaultSource({'k': [1]}, aliases={'a': 'k'})
    check(keys_of(src, 'k') == ('error', None), 'aliases apply to the root only')
    x = any_value('x', 'None', 'int', 'object')
    check(keys_of(DefaultSource(x, aliases={'a': 0})) == ('error', None), 'a scalar with aliases is no mapping')


def spec_fields():
    """fields ask for the kind they need"""
    which = choose('List', 'Tuple', 'Dict', 'SubForm')
    field, _ = build(which)
    x = any_value('x', 'int', 'float', 'bool', 'object')
    x = choose(x, {'k': 1}) if which in ('List', 'Tuple') else choose(x, [1], (2,))
    f, errs = mapped(field, {'a': x})
    check('a' not in f and only_invalid(errs, field), 'a container of the wrong kind is invalid')


def spec_aliases_below():
    """below the root aliases say nothing"""
    src = DefaultSource({'k': {'p': 1, 'q': 2}, 'l': [1, 2]}, aliases={'a': 'k', 'b': 'l'})
    how, names = keys_of(src, choose('k', 'a'))
    check(how == 'keys' and sorted(names) == ['p', 'q'], 'a mapping below the root lists its own keys')
    check(keys_of(src, choose('l', 'b')) == ('error', None), 'a sequence below the root is no mapping')
    check(length_of(src, choose('l', 'b')) == ('length', 2), 'a sequence below the root has its length')


def spec_union_nested():
    """containers of containers below a union"""
    merge = choose('first', 'combine', 'last')
    x = any_value('x', 'int', 'float', 'bool', 'object')
    src = UnionSource([{'k': {'m': {'a': x}, 'l': [[x], {'a': x}]}}, {'z': 1}], merge=merge)
    path = at(src, 'k')
    path.mapping()
    path.append('m')
    check(list(path.mapping()) == ['a'], 'a nested mapping below a union')
    path.append('a')
    for ask in (path.mapping, path.sequence):
        try:
            ask()
            fail('a nested scalar below a union is no container')
        except src.error:
            reach('a nested scalar below a union is refused')
    path.pop()
    path[-1] = 'l'
    check(path.sequence() == 2, 'a nested sequence below a union')
    path[-1] = 'm'
    try:
        path.sequence()
        fail('a nested mapping below a union is no sequence')
    except src.error:
        reach('a nested mapping below a union is refused as sequence')
