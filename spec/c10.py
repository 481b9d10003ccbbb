"""C10: mapping and group fields map exactly the selected keys."""
from base import *
import re
from pilo.source import JsonSource, UnionSource


def keys_of(path):
    return [part.key for part in path.parts]


def spec_any_mapping():
    """without filters: each key with its own value, nothing else"""
    v = any_value('v', 'dict')
    for k in v.keys():
        assume(not k.endswith('()') and '.' not in k)
    f, errs = mapped(fields.Dict(pilo.Field(), pilo.Field()), {'a': v})
    r = got(f)
    check(type(r) is dict, 'a mapping field yields a dictionary')
    check(len(r) == len(v), 'as many entries as the source has keys')
    for k in v.keys():
        check(k in r and same(r[k], v[k]), 'a key is paired with its own value')
    check(len(errs) == 0, 'a mapping of anything records no error')


def spec_selection():
    """filter, key field and value field each may drop a key"""
    x, y = any_value('x'), any_value('y')
    assume(x is not None and y is not None)
    key, value = pilo.Field(optional=True), pilo.Field(optional=True)
    field = fields.Dict(key, value)
    keep = {'k': choose(True, False), 'l': choose(True, 0)}
    keyout = {'k': choose('K', NONE, ERROR), 'l': choose('L', NONE)}
    valout = {'k': choose('1', NONE, ERROR, None), 'l': choose('2', NONE)}
    asked, keyed, parsed = [], [], []

    @field.key_filter
    def select(self, key):
        asked.append(key)
        return keep[key]

    @key.munge
    def munge(self, value):
        keyed.append(value)
        return keyout[value]

    @value.parse
    def parse(self, path):
        parsed.append((keys_of(path), path.value))
        return valout[path.parts[-1].key]
    data = {'k': x, 'l': y}
    f, errs = mapped(field, {'a': data})
    expected = {}
    for k in ('k', 'l'):
        if keep[k] and not is_missing(keyout[k]) and not is_missing(valout[k]):
            expected[keyout[k]] = valout[k]
    check(got(f) == expected, 'exactly the selected keys appear, each with its own value')
    check(len(errs) == 0, 'dropping keys records nothing')
    check(asked == ['k', 'l'], 'the key filter is asked once per source key')
    for keys, v in parsed:
        check(keep[keys[-1]], 'a key that does not pass the filter is not mapped')
        check(keys == ['a', keys[-1]] and same(v, data[keys[-1]]), 'a value is mapped from the path of its key')
    for k in keyed:
        check(keep[k], 'only keys that pass the filter are mapped')


def spec_plain_filter():
    field = fields.Dict(fields.String(), pilo.Field())
    ok = {'k': any_value('p'), 'l': any_value('q')}

    @field.key_filter
    def select(self, key):
        return ok[key]
    f, errs = mapped(field, {'a': {'k': 1, 'l': 2}})
    expected = {}
    if ok['k']:
        expected['k'] = 1
    if ok['l']:
        expected['l'] = 2
    check(got(f) == expected and len(errs) == 0, 'a key is kept exactly if the filter says so')


def spec_failing_parts():
    """keys and values that do not map are reported and left out, the others kept"""
    key, value = fields.String(max_length=1), fields.Integer()
    x = any_value('x', 'int', 'str', 'None', 'list')
    field = fields.Dict(key, value)
    f, errs = mapped(field, {'a': {'k': x, 'long': 5, 'm': 3}})
    r = got(f)
    check(r is not NONE and 'm' in r and r['m'] == 3, 'other keys are kept')
    check('long' not in r, 'a key that is turned down is left out')
    bad = [e for e in errs if e.field is key]
    check(len(bad) == 1 and type(bad[0]) is fields.Invalid, 'a key turned down is one Invalid of the key field')
    if 'k' in r:
        check(len(errs) == 1 and len(r) == 2, 'a value that maps is not reported')
    else:
        check(len(errs) == 2 and len(r) == 1, 'a value that does not map is reported and left out')
        check(errs[0].field is value and str(errs[0]).startswith('a.k - '), 'at the path of its key')


def spec_not_a_mapping():
    v = any_value('v', 'int', 'str', 'list', 'tuple', 'bool', 'object', 'float')
    field = fields.Dict(fields.String(), pilo.Field())
    f, errs = mapped(field, {'a': v})
    check(got(f) is NONE and only_invalid(errs, field), 'what is no mapping is one Invalid')


def spec_nested():
    inner = fields.Dict(fields.String(), fields.List(fields.Integer()))
    f, errs = mapped(fields.Dict(fields.String(), inner), {'a': {'p': {'q': [1, 2]}, 'r': {}, 's': {'t': [], 'u': [3]}}})
    check(got(f) == {'p': {'q': [1, 2]}, 'r': {}, 's': {'t': [], 'u': [3]}}, 'nested mappings keep their shape')
    check(len(errs) == 0, 'nested mappings record nothing')


def spec_falsy_kept():
    key, v = choose('k', 0, ''), choose(0, False, '', None, [], {})
    f, errs = mapped(fields.Dict(pilo.Field(), pilo.Field()), {'a': {key: v, 'other': 1}})
    r = got(f)
    check(len(r) == 2 and key in r and r[key] == v and r['other'] == 1, 'falsy keys and values are kept')
    check(len(errs) == 0, 'falsy keys and values record nothing')


def spec_other_sources():
    which = choose('json', 'union', 'config')
    f = form_with(fields.Dict(fields.String(), fields.String()))()
    if which == 'json':
        errs = f.map(JsonSource('{"a": {"k": "x", "l": "y"}}'))
    elif which == 'union':
        errs = f.map(UnionSource([{'a': {'k': 'x'}}, {'a': {'l': 'y', 'k': 'z'}}], merge='combine'))
    else:
        from pilo.source import ConfigSource
        errs = f.map(ConfigSource('[a]\nk = x\nl = y\n'))
    check(got(f) == {'k': 'x', 'l': 'y'} and len(errs) == 0, 'keys of other sources are paired with their values')


# -- groups


def spec_group_any():
    """keys matched by text or pattern, in source order, first specification wins"""
    one, two, three = pilo.Field(), pilo.Field(), pilo.Field()
    outs = {}
    for field, name in ((one, 'one'), (two, 'two'), (three, 'three')):
        outs[name] = []
    x, y, z = any_value('x'), any_value('y'), any_value('z')
    assume(x is not None and y is not None and z is not None)
    first = choose('k', re.compile('k'), re.compile('none'))
    field = fields.Group((first, one), (re.compile('(k.*)'), two), ('lone', three))
    by = {}

    @one.parse
    def p1(self, path):
        return ('one', path.parts[-1].key, path.value)

    @two.parse
    def p2(self, path):
        return ('two', path.parts[-1].key, path.value)

    @three.parse
    def p3(self, path):
        return ('three', path.parts[-1].key, path.value)
    f, errs = mapped(field, {'k': x, 'other': 7, 'lone': y, 'k2': z})
    r = got(f)
    check(len(r) == 3, 'one triple for each matching key, none for the others')
    check(r[0][0] == 'k' and r[1][0] == 'lone' and r[2][0] == 'k2', 'in source order, under their own key')
    check(same(r[0][2][2], x) and same(r[1][2][2], y) and same(r[2][2][2], z), 'with the value of that key')
    check(r[1][2][0] == 'three' and r[1][1] is None, 'a text specification matches exactly its key, without match')
    if first == 'k':
        check(r[0][2][0] == 'one' and r[0][1] is None, 'the first matching specification is used')
        check(r[2][2][0] == 'two' and r[2][1].group(1) == 'k2', 'a pattern match is handed on')
    elif first.pattern == 'k':
        check(r[0][2][0] == 'one' and r[0][1].group(0) == 'k', 'the first matching pattern is used')
        check(r[2][2][0] == 'one' and r[2][1].group(0) == 'k', 'for every key it matches')
    else:
        check(r[0][2][0] == 'two' and r[0][1].group(1) == 'k', 'a specification that does not match is skipped')
        check(r[2][2][0] == 'two', 'for every key it does not match')
    check(len(errs) == 0, 'a group that maps records nothing')


def spec_group_unknown_key():
    """any key: matched iff equal to the text or matched from the start by the pattern"""
    k = plain('k')
    text, pat = choose(('text', None), (None, re.compile('ab+')))
    inner = pilo.Field()
    v = any_value('v', 'int', 'str', 'list')
    field = fields.Group((text or pat, inner))
    f, errs = mapped(field, {k: v})
    hit = k == text if text else pat.match(k) is not None
    r = got(f)
    if hit:
        check(len(r) == 1 and same(r[0][0], k) and same(r[0][2], v), 'a key that matches yields its triple')
    else:
        check(r == [], 'a group without match yields its default')
    check(len(errs) == 0, 'an unmatched key records nothing')


def spec_group_order():
    """the first specification that matches, whatever kinds the others are"""
    made = []
    for i in range(3):
        made.append(pilo.Field().constant(i))
    kinds = choose(('t', 'p', 'p'), ('p', 't', 'p'), ('p', 'p', 't'), ('n', 'p', 't'), ('n', 't', 'p'), ('t', 't', 'n'))
    specs = [({'t': 'key', 'p': re.compile('k'), 'n': re.compile('none')}[kind], field)
             for kind, field in zip(kinds, made)]
    f, errs = mapped(fields.Group(*specs), {'key': 1})
    want = 1 if kinds[0] == 'n' else 0
    check(len(got(f)) == 1 and got(f)[0][2] == want, 'the earliest declared specification that matches is used')
    check(len(errs) == 0, 'and records nothing')


def spec_key_collision():
    """of source keys that map to one key the last one counts"""
    key = fields.String()

    @key.munge
    def munge(self, value):
        return 'same'
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    f, errs = mapped(fields.Dict(key, pilo.Field()), {'a': {'k': x, 'l': y}})
    check(len(got(f)) == 1 and same(got(f)['same'], y), 'of keys that map to the same key the last one counts')


def spec_group_dropped():
    """a matched key without value is left out but counts as a match"""
    inner = pilo.Field(optional=True)
    out = choose(NONE, ERROR, None, 0)

    @inner.parse
    def parse(self, path):
        return out
    f, errs = mapped(fields.Group(('k', inner), default='D'), {'k': 1, 'z': 2})
    if is_missing(out):
        check(got(f) == [], 'a matched key without value yields no triple, and no default')
    else:
        check(len(got(f)) == 1 and got(f)[0][0] == 'k' and same(got(f)[0][2], out), 'falsy values are kept')
    check(len(errs) == 0, 'a dropped key records nothing')


def spec_group_missing():
    default = choose('none', 'D', 'optional')
    inner = pilo.Field()
    if default == 'none':
        field = fields.Group(('k', inner))
    elif default == 'D':
        field = fields.Group(('k', inner), default='D')
    else:
        field = fields.Group(('k', inner), default=NONE)
    f, errs = mapped(field, {'z': 1})
    if default == 'none':
        check(got(f) == [], 'an unmatched group defaults to no triples')
    elif default == 'D':
        check(got(f) == 'D', 'an unmatched group takes its default')
    else:
        check(got(f) is NONE, 'an unmatched group may be left out')
    check(len(errs) == 0, 'an unmatched group records nothing')


def spec_group_failing():
    inner = fields.Integer()
    v = any_value('v', 'int', 'str', 'list')
    f, errs = mapped(fields.Group((re.compile('k'), inner)), {'k1': v, 'k2': 5})
    r = got(f)
    check(r[len(r) - 1][0] == 'k2' and r[len(r) - 1][2] == 5, 'the other keys are kept')
    if len(r) == 1:
        check(only_invalid(errs, inner) and str(errs[0]).startswith('k1 - '), 'a key that fails is one Invalid at its path')
    else:
        check(len(r) == 2 and len(errs) == 0, 'a key that maps is not reported')


def spec_group_rejected():
    """a group takes nothing else"""
    f = pilo.Field('k')
    bad = choose('text', (f,), ('k', f, 1), 5, [f, 'text'], [[7]], pilo.Field(), [f, (f,)], {'k': f})
    try:
        fields.Group(f, bad) if choose(True, False) else fields.Group(bad)
        fail('what selects no keys is rejected')
    except ValueError:
        reach('a group is made of fields, pairs and lists of them')


def spec_group_declarations():
    """bare fields, tuples and nested lists of specifications"""
    bare = pilo.Field('k')
    how = choose('bare', 'tuple', 'list', 'nested')
    inner = pilo.Field()
    if how == 'bare':
        field = fields.Group(bare)
    elif how == 'tuple':
        field = fields.Group(('k', inner))
    elif how == 'list':
        field = fields.Group([bare])
    else:
        field = fields.Group([[('k', inner)]])
    f, errs = mapped(field, {'k': 1, 'z': 3})
    if how == 'tuple' or how == 'nested':
        check(got(f) == [('k', None, 1)] and len(errs) == 0, 'a group may be declared by tuples and lists')
    else:
        check(got(f) == [('k', None, 1)] and len(errs) == 0, 'a bare field is matched by and mapped from its source key')


def spec_many_keys():
    """mappings of any size"""
    data = {}
    for i in range(60):
        data['k%d' % i] = i
    f, errs = mapped(fields.Dict(fields.String(), fields.Integer()), {'a': data})
    check(len(errs) == 0 and got(f) == data, 'every key of a large mapping is mapped')
    f, errs = mapped(fields.Group((re.compile(r'k.*'), fields.Integer())), data)
    r = got(f)
    check(len(errs) == 0 and sorted([t[0] for t in r]) == sorted(data.keys()) and sorted([t[2] for t in r]) == list(range(60)), 'every key of a large mapping is grouped')


def spec_group_other_keys():
    """text matches text only"""
    field = fields.Group(('3', pilo.Field()), (re.compile('[4-9]'), pilo.Field()))
    f, errs = mapped(field, {3: 'x', '3': 'y', 4: 'z', '5': 'w', None: 'v'})
    r = got(f)
    check(len(errs) == 0 and [t[0] for t in r] == ['3', '5'] and [t[2] for t in r] == ['y', 'w'],
          'keys that only read like a specification are not matched')


def spec_keys_mapped_to_one():
    """of keys mapped to the same key the last that has a value counts"""
    v1, v2, v3 = choose('p', NONE), choose('q', NONE, ERROR), choose('r', NONE, ERROR)
    outs = {'a': v1, 'b': v2, 'c': v3, 'd': 'other'}
    key, value = pilo.Field(), pilo.Field(optional=True)

    @key.munge
    def key(self, value):
        return value if value == 'd' else 'same'

    @value.parse
    def value(self, path):
        return outs[path.name]
    f, errs = mapped(fields.Dict(key, value), {'a': {'a': 1, 'b': 2, 'c': 3, 'd': 4}})
    want = {'d': 'other'}
    for k in ('a', 'b', 'c'):
        if not is_missing(outs[k]):
            want['same'] = outs[k]
    check(got(f) == want, 'the last value counts, keys without value do not')


def spec_entries_under_any_circumstances():
    circumstances((
        (lambda: fields.Dict(fields.String(), fields.Integer()), {'p': '1', 'q': 0}, {'p': 1, 'q': 0}),
        (lambda: fields.Dict(fields.String(), fields.Integer()), {'p': 'x', 'q': 2}, REFUSED),
        (lambda: fields.Dict(fields.String(), fields.Integer()), [1], REFUSED),
        (lambda: fields.Dict(fields.String(), fields.Integer()), {}, {}),
    ))


def spec_keys_mapped_to_others():
    """a key may be mapped to one that is itself in the source; the order is that of the source"""
    x, y, z = any_value('x', 'int', 'str'), any_value('y', 'int', 'str'), any_value('z', 'int', 'str')
    key = fields.String().translate({'b': 'a', 'c': 'b'})
    f, errs = mapped(fields.Dict(key, pilo.Field()), {'a': choose({'b': x, 'a': y, 'c': z}, {'a': y, 'c': z, 'b': x})})
    check(len(errs) == 0 and len(got(f)) == 2 and same(got(f)['b'], z), 'a mapped key does not hide that of the source')
    check(same(got(f)['a'], y) or same(got(f)['a'], x), 'each is given a value of its keys')
    key = fields.String().translate({'b': 'same', 'a': 'same', 'c': 'same'})
    f, errs = mapped(fields.Dict(key, pilo.Field()), {'a': {'c': 1, 'b': 2, 'a': 3}})
    check(got(f) == {'same': 3}, 'the last key of the source counts')
    f, errs = mapped(fields.Dict(key, pilo.Field()), {'a': {'a': 1, 'c': 2, 'b': 3}})
    check(got(f) == {'same': 3}, 'the last key of the source counts')
    f, errs = mapped(fields.Dict(fields.String().translate({'b': 'a'}), pilo.Field()), {'a': {'b': x, 'a': y}})
    check(len(got(f)) == 1 and same(got(f)['a'], y), 'the last key of the source counts')
