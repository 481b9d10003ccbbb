"""C33: a mounted source routes each path to the source mounted at its head."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource, SourceError


def at(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def keys_of(path):
    return [part.key for part in path]


def item(v, k):
    try:
        return v[k]
    except (KeyError, IndexError, TypeError):
        return NONE


def spec_routing():
    x, y = any_value('x', 'None', 'int', 'str', 'bool', 'float'), any_value('y', 'None', 'int', 'str')
    datas = {'m': {'k': x, 'l': {'k': y}}, 'n': {'k': y, 'z': [x, y]}}
    src = MountSource(m=datas['m'], n=DefaultSource(datas['n']))
    head = choose('m', 'n', 'no')
    keys = choose((), ('k',), ('l', 'k'), ('z', 0), ('z', 1), ('z', 2), ('l',), ('no',))
    path = at(src, head, *keys)
    if head == 'no':
        check(not path.exists and not path.is_null, 'an unknown mount point does not exist, nor anything below it')
        return
    want = datas[head]
    for k in keys:
        want = item(want, k)
    if want is NONE:
        check(not path.exists and not path.is_null, 'what the mounted source lacks does not exist')
    else:
        check(path.exists and same(path.value, want), 'what the mounted source holds is found below its mount')
        check(path.is_null == (want is None), 'null is null below a mount')
    check(keys_of(path) == [head] + list(keys), 'the path lists mount point and keys')
    check(len(path) == 1 + len(keys), 'the path counts mount point and keys')
    if keys:
        check(path.name == keys[-1], 'the name of the path is its last key')
    else:
        check(path.name == head, 'the name of a mount is its mount point')


def spec_like_a_mount_point():
    """what only reads like a mount point is none"""
    src = MountSource(**{'1': {'k': 5}, 'None': {'k': 6}, 'True': {'k': 7}})
    head = choose(1, None, True, 1.0, ('1',))
    path = at(src, head, 'k')
    check(not path.exists, 'a part that only reads like a mount point selects nothing')
    check(at(src, str(choose(1, None, True)), 'k').exists, 'a mount point does')


def spec_root():
    which = choose(0, 1, 2, 3)
    src = [MountSource(), MountSource(m={}), MountSource(m={}, n=None), MountSource(m={}, n=JsonSource('[]'), o={'k': 1})][which]
    path = src.path()
    check(sorted(path.mapping()) == ['m', 'n', 'o'][:which], 'the root lists exactly the mount points')
    check(path.exists and not path.is_null and len(path) == 0, 'the root exists')


def spec_conversion():
    """as the mounted source converts"""
    x = any_value('x')
    t = choose(str, int, float, bool, None)
    src = MountSource(m={'k': x}, n={})
    plain_src = DefaultSource({'k': x})
    try:
        how, v = 'value', at(src, 'm', 'k').primitive(t)
    except SourceError:
        how, v = 'error', None
    try:
        how2, v2 = 'value', at(plain_src, 'k').primitive(t)
    except SourceError:
        how2, v2 = 'error', None
    check(how == how2 and (how == 'error' or same(v, v2)), 'below a mount values are converted as in the mounted source')


def spec_containers():
    x = choose({}, {'a': 1}, {'a': 1, 'b': 2}, [], [1], [1, 2], (1,), 1, None)
    src = MountSource(m={'k': x}, n={'k': 5})
    path = at(src, 'm', 'k')
    try:
        names = sorted(path.mapping())
        check(isinstance(x, dict) and names == sorted(x), 'mappings below a mount list their keys')
    except SourceError:
        check(not isinstance(x, dict), 'only mappings are mappings below a mount')
    try:
        n = path.sequence()
        check(isinstance(x, (list, tuple)) and n == len(x), 'sequences below a mount have their length')
    except SourceError:
        check(not isinstance(x, (list, tuple)), 'only sequences are sequences below a mount')
    check(sorted(at(src, 'm').mapping()) == ['k'], 'a mount lists the keys of its source')


def spec_no_mount_no_container():
    src = MountSource(m={'k': 1})
    path = at(src, 'no', *choose((), ('k',), ('k', 'l')))
    for ask in (path.mapping, path.sequence, path.primitive):
        try:
            ask()
            fail('an unknown mount point is nothing')
        except SourceError:
            reach('an unknown mount point is refused with a source error')
    try:
        src.path().primitive(None)
        fail('the root of a mount is no primitive')
    except SourceError:
        reach('the root of a mount is refused as primitive')


def spec_isolation():
    """operations below one mount leave the others untouched"""
    x, y = any_value('x', 'int', 'str', 'None'), any_value('y', 'int', 'str')
    src = MountSource(m={'k': x, 'l': {'k': x}}, n={'k': y})
    path = src.path()
    path.append('m')
    path.append('l')
    path.append('k')
    path.value
    how = choose('pop', 'delete', 'replace')
    if how == 'replace':
        path[-1] = 'no'
        check(not path.exists, 'a replaced part is looked up afresh')
        path.pop()
        path.pop()
    elif how == 'pop':
        path.pop()
        path.pop()
    else:
        del path[2]
        del path[1]
    check(keys_of(path) == ['m'], 'parts are removed below the mount')
    path.pop()
    check(len(path) == 0 and path.exists, 'removing the mount point leads back to the root')
    path.append('n')
    check(path.exists and keys_of(path) == ['n'], 'another mount starts at its own root')
    path.append('k')
    check(same(path.value, y), 'another mount is unaffected')
    path.pop()
    path.pop()
    path.append('m')
    path.append('k')
    check(same(path.value, x), 'coming back to a mount starts at its root')


def spec_two_paths():
    """paths of one source do not share positions"""
    src = MountSource(m={'k': 1, 'l': 2}, n={})
    one, two = src.path(), src.path()
    one.append('m')
    one.append('k')
    two.append('m')
    check(keys_of(two) == ['m'] and keys_of(one) == ['m', 'k'], 'every path has its own position')
    two.append('l')
    check(one.value == 1 and two.value == 2, 'every path has its own value')


def spec_insert_and_replace():
    src = MountSource(m={'k': 1, 'l': {'k': 2}}, n={'k': 3})
    path = src.path()
    path.insert(0, 'm')
    path.insert(1, 'k')
    check(keys_of(path) == ['m', 'k'], 'inserting at the end appends')
    path.insert(1, 'l')
    check(keys_of(path) == ['m', 'l', 'k'] and path.value == 2, 'inserting below the mount inserts there')
    path[-1] = 'z'
    check(keys_of(path) == ['m', 'l', 'z'] and not path.exists, 'replacing the last part')
    path[1] = 'k'
    check(keys_of(path) == ['m', 'k', 'z'], 'replacing an inner part')


def spec_mount_point_is_kept():
    """a mount point with parts below it cannot be removed"""
    src = MountSource(m={'k': 1})
    head = choose('m', 'no')
    path = at(src, head, 'k')
    try:
        del path[0]
        fail('the mount point cannot be deleted from under its parts')
    except TypeError:
        check(keys_of(path) == [head, 'k'], 'refusing leaves the path alone')
        check(path.value == 1 if head == 'm' else not path.exists, 'and what it stands for')
    empty = src.path()
    try:
        del empty[0]
        fail('nothing to delete')
    except IndexError:
        reach('deleting from the root is an index error')


def spec_members():
    ok = choose({}, None, DefaultSource({}), JsonSource('{}'))
    src = MountSource(m=ok)
    check(sorted(src.path().mapping()) == ['m'], 'mappings, nothing and sources can be mounted')
    try:
        MountSource(m=choose(1, 'x', [], object()))
        fail('nothing else can be mounted')
    except TypeError:
        reach('mounting anything else is a type error')


class Leaf(pilo.Form):
    k = pilo.Field(default='none')


class Both(pilo.Form):
    m = fields.SubForm(Leaf)
    n = fields.SubForm(Leaf, default=None)


def spec_forms():
    """forms below mounts"""
    x, y = any_value('x', 'None', 'int', 'str', 'bool'), any_value('y', 'int', 'str')
    second = choose('other', 'absent', 'empty')
    if second == 'other':
        src = MountSource(m={'k': x}, n=DefaultSource({'k': y}))
    elif second == 'absent':
        src = MountSource(m={'k': x})
    else:
        src = MountSource(m={'k': x}, n={})
    f = Both()
    errs = f.map(src)
    check(len(errs) == 0, 'forms below mounts map without error')
    check(same(f['m']['k'], x), 'a form below a mount maps the data mounted there')
    if second == 'other':
        check(same(f['n']['k'], y), 'a form below another mount maps the data mounted there')
    elif second == 'absent':
        check(f['n'] is None, 'a form at an unknown mount point is missing')
    else:
        check(f['n']['k'] == 'none', 'a form at an empty mount finds nothing')


def spec_dict_over_mounts():
    """iterating over the mounts"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')

    class D(pilo.Form):
        d = fields.Dict(fields.String(), fields.SubForm(Leaf), None)
    f = D()
    errs = f.map(MountSource(m={'k': x}, n={'k': y}))
    check(len(errs) == 0 and sorted(f['d']) == ['m', 'n'], 'a mapping field over mounts yields one entry per mount')
    check(same(f['d']['m']['k'], x) and same(f['d']['n']['k'], y), 'each entry is mapped from its mount')


def spec_mounted_config():
    src = MountSource(c=ConfigSource('[s]\na = 1\nb = x y\n', section='s'), j=JsonSource('{"a": [true]}'))
    check(at(src, 'c', 'a').primitive(int) == 1, 'options below a mounted config')
    check(at(src, 'c', 'b').sequence() == 2, 'words below a mounted config')
    check(at(src, 'j', 'a', 0).primitive(bool) is True, 'items below a mounted document')
    check(not at(src, 'j', 'b').exists and not at(src, 'c', 'z').exists, 'what they lack does not exist')


def spec_negative_positions():
    """positions from the end"""
    src = MountSource(m={'k': 1, 'l': {'k': 2, 'z': {'k': 3}}}, n={'k': 4})
    path = at(src, 'm', 'l', 'z', 'k')
    how = choose('delete', 'replace', 'delete last', 'replace mount', 'delete mount', 'beyond')
    if how == 'delete':
        del path[-2]
        check(keys_of(path) == ['m', 'l', 'k'] and path.value == 2, 'deleting the last part but one')
    elif how == 'replace':
        path[-3] = 'no'
        check(keys_of(path) == ['m', 'no', 'z', 'k'] and not path.exists, 'replacing the last part but two')
        path[-3] = 'l'
        check(path.value == 3, 'and back')
    elif how == 'delete last':
        del path[-1]
        del path[-1]
        check(keys_of(path) == ['m', 'l'] and path.primitive(None) == {'k': 2, 'z': {'k': 3}}, 'deleting the last parts')
    else:
        before = keys_of(path)
        try:
            if how == 'delete mount':
                del path[-4]
                fail('the mount point cannot be deleted from its end either')
            elif how == 'replace mount':
                path[-4] = 'n'
                check(keys_of(path)[0] in ('m', 'n'), 'replacing the mount point')
                return
            else:
                del path[-5]
                fail('there is nothing before the mount point')
        except (TypeError, IndexError):
            check(keys_of(path) == before and path.value == 3, 'a refused removal leaves the path alone')


def spec_empty_members():
    """what is mounted is listed whatever it holds"""
    src = MountSource(a=None, b={}, c=DefaultSource([]), d={'k': 1})
    path = src.path()
    check(sorted(path.mapping()) == ['a', 'b', 'c', 'd'], 'the root lists the mount points')
    check(sorted(src.mapping(path)) == ['a', 'b', 'c', 'd'], 'so does the source')
    f, errs = mapped(pilo.Field(), src)
    check(len(errs) == 0 and 'a' in f and got(f) is None, 'a null that is mounted is one')
