"""C25: mapping never modifies declarations or source data."""
from base import *
from pilo.source import JsonSource, UnionSource, MountSource, ConfigSource


def go(cls, src, **how):
    f = cls()
    f.map(src, **how)
    return f


def spec_scalars():
    """any data, any scalar field"""
    field, _ = build(choose(*SCALARS), default=choose(NOT_SET, None, list))
    F = form_with(field)
    data = choose({'a': any_value('x')}, {})
    freeze('mapping scalars modifies neither declarations nor data')
    in_thread(go, F, data)
    unfreeze()


def spec_containers():
    kind = choose(*CONTAINERS)
    field, _ = build(kind)
    F = form_with(field)
    x, y = any_value('x', 'None', 'int', 'str', 'object'), any_value('y', 'None', 'int', 'object')
    shape = choose('sequence', 'mapping', 'bare', 'absent')
    if shape == 'sequence':
        data = {'a': [x, y]}
    elif shape == 'mapping' and kind == 'SubForm':
        data = {'a': {'x': x, 'y': y}}
    elif shape == 'mapping' and kind == 'PolymorphicSubForm':
        data = {'a': {'kind': choose('cat', 'dog', 'cow'), 'lives': x, 'name': y}}
    elif shape == 'mapping':
        data = {'a': {'p': x, 'q': y}}
    elif shape == 'bare':
        data = {'a': y}
    else:
        data = {}
    freeze('mapping containers modifies neither declarations nor data')
    in_thread(go, F, data)
    unfreeze()


def spec_opaque_containers():
    """containers of unknown content are not written to"""
    kind = choose('List', 'Dict', 'Tuple', 'Field')
    if kind == 'List':
        F, x = form_with(fields.List(pilo.Field())), any_value('x', 'list', 'tuple')
    elif kind == 'Dict':
        F, x = form_with(fields.Dict(pilo.Field(), pilo.Field())), any_value('x', 'dict')
        for k in x.keys():
            assume(not k.endswith('()') and '.' not in k)
    elif kind == 'Tuple':
        F, x = form_with(fields.Tuple(pilo.Field(), pilo.Field())), any_value('x', 'list')
    else:
        F, x = form_with(pilo.Field()), any_value('x', 'list', 'dict')
    data = {'a': x}
    freeze('mapping unknown containers does not modify them')
    in_thread(go, F, data)
    unfreeze()


def spec_modes():
    """reset, tags, unmapped keys"""
    class F(pilo.Form):
        a = pilo.Field(optional=True).tag('t')
        i = fields.SubForm(Inner, optional=True, unmapped='capture')
        e = fields.PolymorphicSubForm(Animal.kind, optional=True, unmapped='capture', reset=True)
    x = any_value('x', 'int', 'list')
    data = {'a': x, 'i': {'x': 1, 'other': [1]}, 'e': {'kind': 'cat', 'more': 2}, 'rest': [x]}
    how = choose({}, {'reset': True}, {'tags': ['t']}, {'unmapped': 'capture'}, {'unmapped': pilo.Field()},
                 {'unmapped': (fields.String(), pilo.Field()), 'tags': ['t'], 'reset': True})
    freeze('mapping in any mode modifies neither declarations nor data')
    in_thread(go, F, data, **how)
    unfreeze()


def spec_tags_argument():
    """the arguments of a mapping are not modified either"""
    class F(pilo.Form):
        a = pilo.Field(optional=True).tag('t')
    tags = choose(['t'], set(['t', 'u']))
    freeze('mapping does not modify the tags given')
    in_thread(go, F, {'a': 1}, tags=tags)
    unfreeze()


def spec_hooks():
    hook = choose('compute', 'resolve', 'parse', 'default', 'munge', 'filter', 'validate')
    field = pilo.Field()

    def none(self):
        return None if hook == 'resolve' else 1

    def value(self, value):
        return value

    def path(self, path):
        return path.primitive(None)
    func = none if hook in ('compute', 'resolve', 'default') else path if hook == 'parse' else value
    getattr(field, hook)(func)
    F = form_with(field)
    data = choose({'a': any_value('x')}, {})
    freeze('running hooks modifies neither declarations nor data')
    in_thread(go, F, data)
    unfreeze()


def spec_options():
    default = [1]
    field = choose(pilo.Field(translate={'i': 'j'}), pilo.Field(ignore='i', optional=True), pilo.Field(nullable=False),
                   pilo.Field(default=dict), pilo.Field(default=default), fields.SubForm(Inner, flat=True),
                   fields.String().capture('(x)'), fields.Integer().pattern('x'), pilo.Field().constant([3]),
                   fields.String(choices=['i', 'k'], translate={'i': 'z'}), fields.String().format('{x}', x='b'),
                   fields.String(alphabet='abc', pattern='a'), fields.Integer().range(1, 3),
                   fields.List(fields.Integer()).range(1, 2),
                   fields.Dict(fields.String(), pilo.Field(), required_keys=['k'], max_keys=1))

    class F(pilo.Form):
        a = field
        b = pilo.Field(optional=True)
    x = choose(any_value('x', 'str', 'None', 'int'), {'x': 1, 'k': 2}, [1, 2, 3])
    data = choose({'a': x, 'x': 1, 'b': 2}, {})
    freeze('mapping with any option modifies neither declarations nor data')
    in_thread(go, F, data)
    unfreeze()


def spec_sources():
    """each kind of source keeps its data"""
    kind = choose('json', 'union', 'union of sequences', 'mount', 'config', 'config sections', 'aliases', 'nested union')
    F = form_with(choose(fields.Integer(), fields.List(fields.String()), fields.Dict(pilo.Field(), pilo.Field()),
                         fields.SubForm(Inner), fields.List(fields.SubForm(Inner))))
    x = any_value('x', 'int', 'str', 'None')
    if kind == 'json':
        src = JsonSource(choose('{"a": [1, "x"]}', '{"a": {"x": 1}}'))
    elif kind == 'union':
        src = UnionSource([{'a': {'x': x}}, {'a': {'y': 'z', 'x': 2}}], merge=choose('first', 'combine', 'last'))
    elif kind == 'union of sequences':
        src = UnionSource([{'a': [x, {'x': 1}]}, {'a': [{'x': 2}, '1']}], merge=choose('first', 'combine', 'last'))
    elif kind == 'nested union':
        src = UnionSource([UnionSource([{'a': [x]}, {'a': ['1']}], merge='combine'), {'a': ['2']}], merge='combine')
    elif kind == 'mount':
        src = MountSource(a={'x': x}, b=DefaultSource({}))
    elif kind == 'config':
        src = ConfigSource('[s]\na = 1 2\na[k] = v\n', section='s', defaults={'c': 1})
    elif kind == 'config sections':
        src = ConfigSource('[a]\nx = 1\ny[k] = v\n', defaults={'a': {'z': 1}})
    else:
        src = DefaultSource({'z': x}, aliases={'a': 'z'}, ignores=['q.r'], location='here')
    freeze('mapping from any source does not modify it')
    try:
        in_thread(go, F, src)
    except pilo.SourceError:
        pass
    unfreeze()


def spec_union_arguments():
    """making a union does not change what it is given"""
    parts = [{'a': 1}, DefaultSource({'b': 2})]
    freeze('a union does not modify the sources it is given')
    src = UnionSource(parts)
    in_thread(go, form_with(pilo.Field()), src)
    unfreeze()
    check(len(parts) == 2 and parts[0] == {'a': 1}, 'the list of sources is as it was')


def spec_reads():
    """attribute reads and views of a form"""
    class F(pilo.Form):
        a = pilo.Field(default=1).tag('t')
        b = pilo.Field(default='b')
        i = fields.SubForm(Inner, optional=True)
    op = choose('read', 'copy', 'munge', 'filter', 'flatten', 'has')
    data = {'a': any_value('x'), 'i': {'x': 1}}

    def run():
        f = go(F, data)
        if op == 'read':
            del f['b']
            f.b
        elif op == 'copy':
            f.copy()
        elif op == 'munge':
            f.munge(lambda form, field, value: value)
        elif op == 'filter':
            f.filter('t')
        elif op == 'flatten':
            list(f.flatten())
        else:
            f.has('a')
            f.has('zzz')
    freeze('reading and deriving views modifies neither declarations nor data')
    in_thread(run)
    unfreeze()


def spec_probing():
    """probing identities"""
    data = choose({'kind': 'cat'}, {'kind': 'cow'}, {'kind': any_value('x', 'str', 'None')}, {})
    op = choose('probe', 'cast', 'value')

    def run():
        try:
            if op == 'probe':
                Animal.kind.probe(data)
            elif op == 'cast':
                Animal.kind.cast(data)
            else:
                Cat.kind.value
        except ValueError:
            pass
        except fields.FieldError:
            pass
    freeze('probing modifies neither declarations nor data')
    in_thread(run)
    unfreeze()


def spec_again():
    """the second mapping of the same data gives what the first one gave"""
    calls = []

    class F(pilo.Form):
        a = fields.Integer(default=0)
        l = fields.List(fields.Integer(), default=list)
        d = fields.Dict(fields.String(), fields.Integer(), default=dict)
        i = fields.SubForm(Inner, optional=True)
        e = fields.PolymorphicSubForm(Animal.kind, optional=True)
    x, y = any_value('x', 'int', 'list', 'None'), any_value('y', 'int', 'object')
    data = {'a': x, 'l': [y], 'd': {'k': y}, 'i': {'x': x}, 'e': {'kind': 'cat', 'lives': y}}
    f, g = F(), F()
    e1 = f.map(data)
    e2 = g.map(data)
    check(deep_same(f, g), 'mapping again gives the same values')
    check([type(e) for e in e1] == [type(e) for e in e2] and [e.field.name for e in e1] == [e.field.name for e in e2],
          'mapping again gives the same errors')


def spec_again_union():
    """a union can be mapped again"""
    class F(pilo.Form):
        a = fields.List(fields.Integer())
        m = fields.Dict(fields.String(), fields.Integer())
    x, y = any_value('x', 'int'), any_value('y', 'int')
    src = UnionSource([{'a': [x], 'm': {'k': x}}, {'a': [y, 3], 'm': {'l': y}}], merge=choose('first', 'last', 'combine'))
    f, g = F(), F()
    f.map(src)
    g.map(src)
    check(deep_same(f['a'], g['a']), 'sequences of a union read the same again')
    check(deep_same(f['m'], g['m']), 'mappings of a union read the same again')


def spec_results_not_shared():
    """changing what one mapping yielded does not change the next"""
    class F(pilo.Form):
        l = fields.List(pilo.Field(), default=list)
        d = fields.Dict(fields.String(), pilo.Field(), default=dict)
        g = fields.Group(('zz', pilo.Field()))
    there = choose(True, False)
    data = {'l': [1], 'd': {'k': 1}} if there else {}
    f, g = F(), F()
    f.map(data)
    f['l'].append('more')
    f['d']['more'] = 1
    f['g'].append('more')
    g.map(data)
    check(g['l'] == ([1] if there else []) and g['d'] == ({'k': 1} if there else {}) and g['g'] == [],
          'containers are not shared between mappings')
    check(not there or data == {'l': [1], 'd': {'k': 1}}, 'nor with the source')
