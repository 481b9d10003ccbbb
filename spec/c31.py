"""C31: a union merges mappings and sequences by its merge policy."""
from base import *
from pilo.source import JsonSource, UnionSource


def at(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


LACK = object()


def member(what):
    return {} if what is LACK else {'k': what}


def merged_members(members, merge):
    """the mappings that contribute below the root, in order"""
    there = [m for m in members if m is not LACK]
    if merge == 'first':
        return [m for m in there[:1] if m is not None]
    there = [m for m in there if m is not None]
    if merge == 'last':
        return there[-1:]
    return there


def expected_mapping(members, merge):
    out = {}
    for m in merged_members(members, merge):
        for k in m:
            if k not in out:
                out[k] = m[k]
    return out


def expected_sequence(members, merge):
    there = [m for m in members if m is not LACK and m is not None]
    if merge == 'first':
        there = there[:1]
    elif merge == 'last':
        there = there[-1:]
    out = []
    for m in there:
        out.extend(m)
    return out


def all_null(members):
    """nothing but nulls: the union holds null there"""
    there = [m for m in members if m is not LACK]
    return len(there) > 0 and all(m is None for m in there)


def view_mapping(path):
    """what the path exposes as a mapping of primitives"""
    out = {}
    keys = path.mapping()
    for key in keys:
        path.append(key)
        check(path.exists, 'an exposed key exists')
        check(key not in out, 'a key is exposed once')
        out[key] = path.primitive(None)
        path.pop()
    check(len(keys) == len(out), 'the exposed keys are counted once each')
    return out


def view_sequence(path):
    out = []
    for i in range(path.sequence()):
        path.append(i)
        check(path.exists, 'an exposed position exists')
        out.append(path.primitive(None))
        path.pop()
    return out


def same_mapping(a, b):
    if len(a) != len(b):
        return False
    for k in a:
        if k not in b or not same(a[k], b[k]):
            return False
    return True


def scalar(name):
    return any_value(name, 'int', 'str', 'bool', 'float')


def spec_mappings():
    x, y, z, w = scalar('x'), scalar('y'), scalar('z'), scalar('w')
    a = choose(LACK, None, {}, {'p': x}, {'p': x, 'q': y})
    b = choose(LACK, None, {}, {'p': z}, {'r': z, 'q': w})
    merge = choose('first', 'combine', 'last')
    members = [a, b]
    assume(not (a is LACK and b is LACK))
    src = UnionSource([member(m) for m in members], merge=merge)
    if all_null(members):
        check(at(src, 'k').is_null, 'where all sources hold null the union holds null')
        return
    path = at(src, 'k')
    check(path.exists and not path.is_null, 'what some source holds exists in the union')
    check(same_mapping(view_mapping(path), expected_mapping(members, merge)), 'mappings are merged by the policy')


def spec_three_mappings():
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    a = choose(LACK, {'p': x})
    b = choose(LACK, None, {'p': y, 'q': y})
    c = choose(LACK, None, {}, {'p': z, 'r': z})
    merge = choose('first', 'combine', 'last')
    members = [a, b, c]
    assume(not all(m is LACK for m in members))
    src = UnionSource([member(m) for m in members], mapping_merge=merge)
    if all_null(members):
        check(at(src, 'k').is_null, 'nothing but nulls is null')
        return
    check(same_mapping(view_mapping(at(src, 'k')), expected_mapping(members, merge)),
          'three mappings are merged by the policy')


def spec_sequences():
    x, y, z, w = scalar('x'), scalar('y'), scalar('z'), scalar('w')
    a = choose(LACK, None, [], [x], [x, y])
    b = choose(LACK, None, [], [z], [z, w])
    merge = choose('first', 'combine', 'last')
    members = [a, b]
    assume(not (a is LACK and b is LACK))
    src = UnionSource([member(m) for m in members], merge=merge)
    if all_null(members):
        check(at(src, 'k').is_null, 'where all sources hold null the union holds null instead of a sequence')
        return
    check(same_items(view_sequence(at(src, 'k')), expected_sequence(members, merge)), 'sequences are merged by the policy')


def spec_three_sequences():
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    a = choose(LACK, [x])
    b = choose(LACK, None, [y, x])
    c = choose(LACK, None, [], [z], [z, y])
    merge = choose('first', 'combine', 'last')
    members = [a, b, c]
    assume(not all(m is LACK for m in members))
    src = UnionSource([member(m) for m in members], sequence_merge=merge)
    if all_null(members):
        check(at(src, 'k').is_null, 'nothing but nulls is no sequence')
        return
    check(same_items(view_sequence(at(src, 'k')), expected_sequence(members, merge)),
          'three sequences are merged by the policy')


def spec_root():
    """the root combines, whatever the policy"""
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    datas = [choose({}, {'p': x}), choose({'p': y}, {'q': y, 'p': z}), choose({}, {'q': z, 'r': x})]
    src = UnionSource(datas, merge=choose('first', 'combine', 'last'))
    check(same_mapping(view_mapping(src.path()), expected_mapping(datas, 'combine')), 'the root exposes the keys of all sources')


def spec_both_policies():
    """mappings and sequences have their own policy"""
    x, y = scalar('x'), scalar('y')
    mm, sm = choose('first', 'combine', 'last'), choose('first', 'combine', 'last')
    a, b = {'m': {'p': x}, 's': [x]}, {'m': {'q': y}, 's': [y, x]}
    src = UnionSource([a, b], mapping_merge=mm, sequence_merge=sm)
    check(same_mapping(view_mapping(at(src, 'm')), expected_mapping([a['m'], b['m']], mm)), 'mappings follow the mapping policy')
    check(same_items(view_sequence(at(src, 's')), expected_sequence([a['s'], b['s']], sm)), 'sequences follow the sequence policy')


def spec_default_policy():
    src = UnionSource([{'m': {'p': 1}, 's': [1]}, {'m': {'q': 2}, 's': [2, 3]}])
    check(same_mapping(view_mapping(at(src, 'm')), {'p': 1}), 'mappings keep the first by default')
    check(same_items(view_sequence(at(src, 's')), [1]), 'sequences keep the first by default')


def spec_one_override():
    how = choose('mapping', 'sequence')
    if how == 'mapping':
        src = UnionSource([{'m': {'p': 1}, 's': [1]}, {'m': {'q': 2}, 's': [2]}], merge='combine', mapping_merge='last')
        check(same_mapping(view_mapping(at(src, 'm')), {'q': 2}), 'the policy of mappings goes before the common one')
        check(same_items(view_sequence(at(src, 's')), [1, 2]), 'sequences keep the common policy')
    else:
        src = UnionSource([{'m': {'p': 1}, 's': [1]}, {'m': {'q': 2}, 's': [2]}], merge='combine', sequence_merge='last')
        check(same_mapping(view_mapping(at(src, 'm')), {'p': 1, 'q': 2}), 'mappings keep the common policy')
        check(same_items(view_sequence(at(src, 's')), [2]), 'the policy of sequences goes before the common one')


def spec_nested():
    """below a merged mapping the same policy applies"""
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    merge = choose('first', 'combine', 'last')
    src = UnionSource([{'k': {'l': {'p': x}, 'm': [x]}}, {'k': {'l': {'p': y, 'q': z}, 'm': [y, z]}}], merge=merge)
    path = at(src, 'k')
    path.mapping()
    path.append('l')
    check(same_mapping(view_mapping(path), expected_mapping([{'p': x}, {'p': y, 'q': z}], merge)), 'nested mappings are merged alike')
    path.pop()
    path.append('m')
    check(same_items(view_sequence(path), expected_sequence([[x], [y, z]], merge)), 'nested sequences are merged alike')


def spec_merge_depth():
    """from the given depth on the first source counts"""
    depth = choose(0, 1, 2, 3, None)
    x, y = scalar('x'), scalar('y')
    src = UnionSource([{'k': {'l': {'p': x}}, 's': [x]}, {'k': {'l': {'q': y}, 'n': {'q': y}}, 's': [y]}], merge='combine',
                      merge_depth=depth)
    path = at(src, 'k')
    names = sorted(path.mapping())
    if depth in (0, 1):
        check(names == ['l'], 'at the merge depth the first mapping counts')
        check(same_items(view_sequence(at(src, 's')), [x]), 'at the merge depth the first sequence counts')
        return
    check(names == ['l', 'n'], 'above the merge depth mappings are combined')
    check(same_items(view_sequence(at(src, 's')), [x, y]), 'above the merge depth sequences are combined')
    path.append('l')
    if depth == 2:
        check(same_mapping(view_mapping(path), {'p': x}), 'at a merge depth of two the first mapping counts')
    else:
        check(same_mapping(view_mapping(path), {'p': x, 'q': y}), 'without merge depth reached mappings are combined')


def spec_unknown_policy():
    bad = choose('both', '', 'FIRST', 'all')
    if bad == '':
        src = UnionSource([{'k': {'p': 1}, 's': [1]}, {'k': {'q': 2}, 's': [2]}], merge=bad)
    else:
        src = UnionSource([{'k': {'p': 1}, 's': [1]}, {'k': {'q': 2}, 's': [2]}], mapping_merge=bad, sequence_merge=bad)
    try:
        at(src, 'k').mapping()
        fail('an unknown policy for mappings is refused')
    except ValueError:
        reach('an unknown policy for mappings raises a value error')
    try:
        at(src, 's').sequence()
        fail('an unknown policy for sequences is refused')
    except ValueError:
        reach('an unknown policy for sequences raises a value error')


class M(pilo.Form):
    k = fields.Dict(fields.String(), pilo.Field())
    s = fields.List(pilo.Field(), default=None)


def spec_through_fields():
    """mapping and list fields see the merged data"""
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    merge = choose('first', 'combine', 'last')
    a, b = choose({'p': x}, {}, {'p': x, 'q': z}), choose({'p': y}, {'q': y})
    s, t = choose([x], []), choose([y], [y, z])
    f = M()
    errs = f.map(UnionSource([{'k': a, 's': s}, {'k': b, 's': t}], merge=merge))
    check(len(errs) == 0, 'merged data maps without error')
    check(same_mapping(got(f, 'k'), expected_mapping([a, b], merge)), 'a mapping field maps the merged mapping')
    check(same_items(got(f, 's'), expected_sequence([s, t], merge)), 'a list field maps the merged sequence')


class P(pilo.Form):
    p = pilo.Field(default='none')
    q = pilo.Field(default='none')


class O(pilo.Form):
    k = fields.SubForm(P)


def spec_through_forms():
    x, y = scalar('x'), scalar('y')
    merge = choose('first', 'combine', 'last')
    a, b = choose({'p': x}, {}), choose({'p': y, 'q': y}, {'q': y})
    f = O()
    errs = f.map(UnionSource([{'k': a}, {'k': b}], merge=merge))
    want = expected_mapping([a, b], merge)
    check(len(errs) == 0, 'a sub-form of merged data maps without error')
    check(same(f['k']['p'], want.get('p', 'none')) and same(f['k']['q'], want.get('q', 'none')),
          'a sub-form maps the merged mapping')


def spec_list_of_forms():
    """items of a combined sequence are mapped from their own source"""
    x, y, z = scalar('x'), scalar('y'), scalar('z')

    class L(pilo.Form):
        k = fields.List(fields.SubForm(P))
    f = L()
    errs = f.map(UnionSource([{'k': [{'p': x}, {'q': x}]}, {'k': [{'p': y}, {'p': z, 'q': y}]}], merge='combine'))
    check(len(errs) == 0 and len(f['k']) == 4, 'every item of a combined sequence is mapped')
    check(same(f['k'][0]['p'], x) and f['k'][0]['q'] == 'none', 'the first item of the first source')
    check(f['k'][1]['p'] == 'none' and same(f['k'][1]['q'], x), 'the second item of the first source')
    check(same(f['k'][2]['p'], y) and f['k'][2]['q'] == 'none', 'the first item of the second source')
    check(same(f['k'][3]['p'], z) and same(f['k'][3]['q'], y), 'the second item of the second source')


def spec_other_sources():
    """members may be sources of any kind"""
    merge = choose('first', 'combine', 'last')
    src = UnionSource([JsonSource('{"k": {"p": 1}, "s": [1, 2]}'), {'k': {'q': 2}, 's': [3]}], merge=merge)
    check(same_mapping(view_mapping(at(src, 'k')), expected_mapping([{'p': 1}, {'q': 2}], merge)),
          'mappings of different kinds of sources are merged alike')
    check(same_items(view_sequence(at(src, 's')), expected_sequence([[1, 2], [3]], merge)),
          'sequences of different kinds of sources are merged alike')


def spec_of_unions():
    x, y, z = scalar('x'), scalar('y'), scalar('z')
    inner = UnionSource([{'k': {'p': x}}, {'k': {'q': y}}], merge='combine')
    src = UnionSource([inner, {'k': {'p': z, 'r': z}}], merge='combine')
    check(same_mapping(view_mapping(at(src, 'k')), {'p': x, 'q': y, 'r': z}), 'unions of unions merge alike')


def spec_members():
    """only sources and mappings can be members"""
    try:
        UnionSource([{}, choose(None, 1, 'x', [])])
        fail('what is no source is refused')
    except TypeError:
        reach('a member that is neither source nor mapping raises a type error')


def spec_null_stays():
    """what holds nothing but nulls is null, before and after its container was asked for"""
    merge = choose('first', 'last', 'combine')
    members = [choose(None, LACK, None), None]
    src = UnionSource([member(m) for m in members], merge=merge)
    path = at(src, 'k')
    check(path.is_null is True and path.exists is True, 'nothing but nulls is null')
    kind = choose('sequence', 'mapping')
    if kind == 'sequence':
        check(path.sequence() == 0, 'a null has no items')
    else:
        check(len(list(path.mapping())) == 0, 'a null has no keys')
    check(path.is_null is True and path.exists is True, 'null stays null when it was asked for its container')


def spec_many_members():
    """any number of members"""
    n = 7
    at = choose(0, 3, 6)
    members = []
    for i in range(n):
        members.append({'m%d' % i: i, 'l': [i], 'd': {'x%d' % i: i}})
    members[at]['k'] = 'here'
    f, errs = mapped(pilo.Field('k'), UnionSource(members))
    check(len(errs) == 0 and got(f) == 'here', 'the one member that has a key supplies it')
    union = UnionSource(members, merge='combine')
    path = union.path()
    path.append('l')
    check(union.sequence(path) == n, 'the items of all members are combined')
    path = union.path()
    path.append('d')
    check(sorted(union.mapping(path)) == ['x%d' % i for i in range(n)], 'the keys of all members are combined')
    for i in range(n):
        f, errs = mapped(pilo.Field('m%d' % i), union)
        check(len(errs) == 0 and got(f) == i, 'each member is read')
