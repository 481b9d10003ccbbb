"""C48: forms map from nothing, mappings, sequences by position, and sources; nothing else is taken for data."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, MountSource
import collections


class Pair(pilo.Form):
    b = fields.Integer()
    a = fields.String(optional=True)


class Own(collections.Mapping):
    """a mapping that is no dict"""

    def __init__(self, data):
        self.data = data

    def __getitem__(self, key):
        return self.data[key]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)


class Items(list):
    pass


def spec_same_everywhere():
    """the same data gives the same form however it is handed over"""
    x, y = any_value('x', 'int'), any_value('y', 'str')
    data = {'b': x, 'a': y}
    how = choose('map', 'construct', 'keywords', 'source', 'mapping', 'form', 'construct source', 'construct mapping',
                 'list', 'tuple', 'construct list', 'construct tuple', 'own list', 'construct own list')
    if how == 'construct':
        f = Pair(data)
    elif how == 'keywords':
        f = Pair(b=x, a=y)
    elif how == 'construct source':
        f = Pair(DefaultSource(data))
    elif how == 'construct mapping':
        f = Pair(Own(data))
    elif how == 'construct list':
        f = Pair([x, y])
    elif how == 'construct own list':
        f = Pair(Items([x, y]))
    elif how == 'construct tuple':
        f = Pair((x, y))
    else:
        f = Pair()
        given = {'map': data, 'source': DefaultSource(data), 'mapping': Own(data), 'form': Pair(data), 'list': [x, y],
                 'tuple': (x, y), 'own list': Items([x, y])}[how]
        errs = f.map(given)
        check(len(errs) == 0, 'no way of handing over valid data is an error')
    check(type(f) is Pair and len(f) == 2, 'a form holds a value of each field')
    check(same(got(f, 'b'), x) and same(got(f, 'a'), y), 'a form holds the values it was given')
    check(len(data) == 2, 'the data is left as it was')


def spec_data_and_keywords():
    """keywords beside data are entries, the data is what is mapped"""
    x = any_value('x', 'int')
    data = choose({'b': x}, [x], (x,), DefaultSource({'b': x}))
    f = Pair(data, a='k')
    check(type(f) is Pair and same(got(f, 'b'), x), 'what is given first is the data')
    check(got(f, 'a') == 'k' and len(f) == 2, 'keywords are entries of the form beside it')


def spec_nothing():
    """without data there is nothing to map"""
    class F(pilo.Form):
        a = fields.Integer(default=3)
        b = fields.Integer(optional=True)
        c = fields.Integer()
    f = F()
    how = choose('map', 'none', 'keyword', 'empty', 'empty list')
    if how == 'map':
        errs = f.map()
    elif how == 'none':
        errs = f.map(None)
    elif how == 'keyword':
        errs = f.map(src=None)
    elif how == 'empty':
        errs = f.map({})
    else:
        errs = f.map([])
    check(only_missing(errs, F.c), 'without data every field is missing')
    check(f == {'a': 3}, 'without data every field takes its default')


def spec_nothing_constructed():
    check(len(Pair()) == 0, 'a form constructed without data is empty')


def spec_constructed_of_empty():
    """empty data is data"""
    class F(pilo.Form):
        a = fields.Integer(default=3)
        b = fields.Integer(optional=True)
    check(F(choose({}, Own({}), DefaultSource({}), JsonSource('{}'), [], (), UnionSource([{}]))) == {'a': 3},
          'defaults apply to a form constructed from empty data')
    try:
        Pair(choose({}, Own({}), DefaultSource({}), JsonSource('{}'), [], (), UnionSource([{}])))
    except fields.FormError as ex:
        check(only_missing(ex.field_errors, Pair.b), 'what is missing in empty data is raised')
        return
    fail('what is missing in empty data is raised')


def spec_rejected():
    """anything else"""
    x = any_value('x', 'int', 'float', 'str', 'bool', 'object', 'bytes')
    f = Pair()
    f['b'] = 1
    before = len(pilo.ctx.stack)
    kw = choose({}, {'reset': True}, {'error': 'raise'})
    try:
        f.map(x, **kw)
    except ValueError:
        if 'reset' not in kw:
            check(len(f) == 1 and got(f, 'b') == 1, 'what is rejected changes nothing')
        check(len(pilo.ctx.stack) == before, 'what is rejected changes nothing')
        return
    fail('only mappings, sequences, sources and nothing can be mapped')


def spec_sequences_by_position():
    """any number of items; fields in declaration order whatever their keys"""
    n = choose(0, 1, 2, 3, 4)
    values = [any_value('v%d' % i, 'int', 'None', 'str', 'bool') for i in range(n)]

    class F(pilo.Form):
        z = pilo.Field(optional=True)
        m = pilo.Field('key', optional=True)
        a = pilo.Field('dotted.key', optional=True)
    f = F()
    errs = f.map(choose(list, tuple)(values))
    check(len(errs) == 0, 'items that are not there are missing, others too many')
    for i, name in enumerate(('z', 'm', 'a')):
        if i < n:
            check(name in f and same(got(f, name), values[i]), 'each field takes the item at its position')
        else:
            check(name not in f, 'a field beyond the last item is missing')


def spec_sequence_inherited():
    class Low(pilo.Form):
        a = pilo.Field()
        b = pilo.Field()

    class High(Low):
        c = pilo.Field()
        a = pilo.Field()
    f = High()
    errs = f.map(['x', 'y', 'z'])
    check(len(errs) == 0 and f == {'a': 'x', 'b': 'y', 'c': 'z'}, 'positions are those of the declaration order')


def spec_sequence_nested():
    """items are data of their own"""
    class F(pilo.Form):
        p = fields.SubForm(Pair)
        l = fields.List(fields.Integer())
    x = any_value('x', 'int')
    f = F()
    errs = f.map([{'b': x}, [x, 4]])
    check(len(errs) == 0 and same(got(got(f, 'p'), 'b'), x), 'items are mapped like values of a mapping')
    check(len(got(f, 'l')) == 2 and same(got(f, 'l')[0], x) and got(f, 'l')[1] == 4, 'items are mapped like values of a mapping')
    g = F()
    errs = g.map([{}, [1]])
    check(len(errs) == 1 and errs[0].field is Pair.b, 'errors of items are reported')


def spec_inside():
    """inside a mapping: without data from the current position, with data from that"""
    x, y = any_value('x', 'int'), any_value('y', 'int')
    seen = []
    given = choose(True, False)

    class F(pilo.Form):
        a = pilo.Field()

        @a.parse
        def a(self, path):
            inner = Pair()
            errs = inner.map({'b': y}) if given else inner.map()
            seen.append((inner, errs))
            return inner
        c = pilo.Field()
    f = F()
    errs = f.map({'a': {'b': x}, 'b': 'outer', 'c': 'c'})
    check(len(errs) == 0 and len(seen) == 1, 'mapping inside a mapping is no error')
    inner, errs = seen[0]
    check(len(errs) == 0 and same(got(inner, 'b'), y if given else x),
          'without data a form inside a mapping maps from the position of the mapping, else from what it is given')
    check(got(f, 'c') == 'c', 'mapping goes on from where it was')


def spec_inside_errors():
    """faults of a form mapped from data of its own are its own"""
    seen = []
    given = choose(True, False)

    class F(pilo.Form):
        a = pilo.Field()

        @a.parse
        def a(self, path):
            inner = Pair()
            seen.append(inner.map({}) if given else inner.map())
            return 1
    f = F()
    errs = f.map({'a': {}})
    check(only_missing(seen[0], Pair.b), 'a form inside a mapping returns its own errors')
    if given:
        check(len(errs) == 0, 'faults of other data are not reported for the form mapped')
    else:
        check(len(errs) == 1 and errs[0] is seen[0][0], 'faults in the data are reported for the form mapped')


def spec_from_fields():
    """forms made from fields"""
    sub = choose(True, False)
    p, q = fields.Integer(), fields.String('key', default='d')
    if sub:
        field = fields.SubForm.from_fields(p=p, q=q)
        cls, base = field.form_type, pilo.Form
    else:
        base = choose(pilo.Form, Pair)
        cls = base.from_fields(p=p, q=q)
        field = fields.SubForm(cls)
    check(issubclass(cls, base) and cls is not base, 'a form class is made')
    check(cls.p is p and cls.q is q and p.name == 'p' and q.src == 'key' and p.src == 'p', 'fields are attached under their names')
    check(len(cls.fields) == 2 + len(base.fields or ()), 'a form class made from fields has these besides those of its base')
    x = any_value('x', 'int')
    f, errs = mapped(field, {'a': {'p': x, 'b': 1}})
    check(len(errs) == 0 and same(got(got(f), 'p'), x) and got(got(f), 'q') == 'd', 'a form made from fields maps like any other')


def spec_json_text():
    text = choose('{"b": 4, "a": "t"}', b'{"b": 4, "a": "t"}')
    source = JsonSource(text) if isinstance(text, str) else choose(JsonSource(text), JsonSource(text, encoding='utf-8'),
                                                                   JsonSource(text, 'ascii'))
    f = Pair(source)
    check(f == {'b': 4, 'a': 't'}, 'a JSON source holds what its text says')


def spec_json_values():
    source = JsonSource('{"i": 1, "f": 1.5, "s": "x", "n": null, "t": true, "l": [1, 2.0], "m": {"k": "v"}}',
                        strict=choose(True, False))
    value = source.path().value
    want = {'i': 1, 'f': 1.5, 's': 'x', 'n': None, 't': True, 'l': [1, 2.0], 'm': {'k': 'v'}}
    check(sorted(value) == sorted(want), 'a JSON source holds what its text says')
    for k in want:
        check(value[k] == want[k] and type(value[k]) is type(want[k]), 'a JSON source holds what its text says')
    check(type(value['l'][0]) is int and type(value['l'][1]) is float, 'a JSON source holds what its text says')


def spec_json_invalid():
    try:
        JsonSource(choose('', '{', '{]', 'nope', '{"a": }'))
    except ValueError:
        reach('text that is no JSON is a value error')
        return
    fail('text that is no JSON makes no source')


def spec_json_any():
    text = any_value('t', 'str')
    try:
        source = JsonSource(text)
    except ValueError:
        return
    f = pilo.Form()
    try:
        errs = f.map(source)
    except pilo.SourceError:
        check(not isinstance(source.path().value, dict), 'a document that is a mapping can be mapped')
        return
    check(isinstance(source.path().value, dict) and len(errs) == 0, 'only documents that are mappings can be mapped')


def spec_union_of():
    x = any_value('x', 'int', 'str', 'None', 'list', 'object')
    try:
        UnionSource([{'b': 1}, x])
    except TypeError:
        reach('only sources and mappings are merged')
        return
    fail('only sources and mappings are merged')


def spec_union_of_mappings():
    x = any_value('x', 'int')
    given = choose([{'b': x}, {'a': 't'}], ({'b': x}, DefaultSource({'a': 't'})), [Own({'b': x}), JsonSource('{"a": "t"}')],
                   iter([DefaultSource({'b': x}), {'a': 't'}]))
    f = Pair()
    errs = f.map(UnionSource(given))
    check(len(errs) == 0 and same(got(f, 'b'), x) and got(f, 'a') == 't', 'sources and mappings can be merged alike')


def spec_mount_of():
    x = any_value('x', 'int', 'str', 'list', 'object')
    try:
        MountSource(one={'b': 1}, two=x)
    except TypeError:
        reach('only sources, dictionaries and nothing are mounted')
        return
    fail('only sources, dictionaries and nothing are mounted')


def spec_mount_of_each():
    x = any_value('x', 'int')
    given = choose({'b': x}, DefaultSource({'b': x}))

    class F(pilo.Form):
        one = fields.SubForm(Pair)
        two = fields.SubForm(pilo.Form)
    f = F()
    errs = f.map(MountSource(one=given, two=choose({}, DefaultSource({}))))
    check(len(errs) == 0 and same(got(got(f, 'one'), 'b'), x), 'dictionaries and sources can be mounted alike')


def spec_config_options():
    case = choose(True, False)
    source = ConfigSource('[s]\nAb = 1\nc = 2\n', 's', preserve_case=case)
    check(sorted(source.path().mapping()) == (['Ab', 'c'] if case else ['ab', 'c']), 'names are in lower case unless preserved')


def spec_config_rejected():
    how = choose('case', 'space')
    try:
        if how == 'case':
            ConfigSource(ConfigSource('[s]\n').config, preserve_case=True)
        else:
            ConfigSource('[s]\n', preserve_whitespace=True)
    except ValueError:
        reach('options that cannot be fulfilled are rejected')
        return
    fail('options that cannot be fulfilled are rejected')


def spec_config_parser():
    """a parser is as good as text"""
    parser = ConfigSource('[s]\nb = 4\na = t\n').config
    f = Pair()
    errs = f.map(ConfigSource(parser, 's'))
    check(len(errs) == 0 and f == {'b': 4, 'a': 't'}, 'a config source holds what its parser holds')
