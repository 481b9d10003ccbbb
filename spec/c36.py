"""C36: errors name the exact location of the offending value."""
from base import *
from pilo.source import JsonSource, ConfigSource, UnionSource, SourceError
from pilo.source.mount import MountSource


def rendered(keys, location=None, section=None):
    """the reference rendering"""
    out = ''
    for i, k in enumerate(keys):
        if i == 0:
            out = str(k)
        elif isinstance(k, int):
            out = out + '[' + str(k) + ']'
        else:
            out = out + '.' + str(k)
    pre = ''
    if location:
        pre = pre + location + ':'
    if section:
        pre = pre + '[' + section + ']:'
    return pre + out


def located(err, field, keys, **kw):
    """err concerns `field` at `keys`, in what it says and in what it carries"""
    where = rendered(keys, **kw)
    return err.field is field and str(err).startswith(where + ' - ') and str(err.path) == where


def spec_path_rendering():
    """any path of up to three parts"""
    keys = []
    for i in range(choose(0, 1, 2, 3)):
        keys.append(choose('k', 0, 'long_name'))
    loc = choose(None, 'file.x')
    src = choose(DefaultSource({}, location=loc), JsonSource('{}', location=loc))
    path = src.path()
    for k in keys:
        path.append(k)
    check(str(path) == rendered(keys, loc), 'a path renders keys with dots, positions in brackets, after the location')


def spec_path_rendering_numbers():
    """positions of any size"""
    path = DefaultSource({}).path()
    path.append('k')
    path.append(choose(0, 7, 12, 100, -1))
    path.append('x')
    check(str(path) == 'k[' + str(path[1].key) + '].x', 'any position renders in brackets')


def spec_config_rendering():
    section, loc = choose(None, 'sec'), choose(None, 'file.ini')
    src = ConfigSource('[sec]\na = 1\n', section=section, location=loc)
    path = src.path()
    keys = choose((), ('a',), ('a', 0), ('a', 'b'))
    for k in keys:
        path.append(k)
    check(str(path) == rendered(keys, loc, section), 'a config path renders after location and section')


def spec_missing():
    """a missing value is located where it was looked for"""
    fa = fields.Integer()

    class F(pilo.Form):
        a = fa
        b = fields.String('other')
    f = F()
    errs = f.map(choose({}, DefaultSource({})))
    check(len(errs) == 2, 'two missing values')
    check(located(errs[0], F.a, ('a',)) and isinstance(errs[0], fields.Missing), 'a missing value is located at its key')
    check(located(errs[1], F.b, ('other',)) and isinstance(errs[1], fields.Missing), 'a missing value is located at its source key')


def spec_unparsable():
    x = any_value('x', 'list', 'dict', 'object')
    name = choose('Integer', 'String', 'Float', 'Boolean', 'Decimal', 'UUID', 'Date', 'Time', 'Datetime')
    field, _ = build(name)
    f, errs = mapped(field, DefaultSource({'a': x}, location=choose(None, 'loc')))
    loc = errs[0].path.location
    check(len(errs) == 1 and located(errs[0], field, ('a',), location=loc), 'an unparsable value is located at its key')


def spec_constraints():
    """every built-in constraint"""
    which = choose('null', 'min', 'max', 'length', 'length+', 'alphabet', 'pattern', 'choices', 'choice', 'format', 'no format',
                   'after', 'before', 'items', 'few', 'many', 'required', 'keys', 'code', 'iso')
    table = {
        'null': (pilo.Field(nullable=False), None),
        'min': (fields.Integer(min_value=5), 1),
        'max': (fields.Integer(max_value=5), 10),
        'length': (fields.String(min_length=3), 'x'),
        'length+': (fields.String(max_length=1), 'xyz'),
        'alphabet': (fields.String(alphabet='abc'), 'z'),
        'pattern': (fields.String(pattern='a'), 'z'),
        'choices': (fields.String(choices=['a', 'b']), 'z'),
        'choice': (fields.String(choices=['a']), 'z'),
        'format': (fields.Date(format=['%Y', '%d']), 'zzz'),
        'no format': (fields.Datetime(), 'zzz'),
        'after': (fields.Integer(range=(1, 2)), 0),
        'before': (fields.Integer(range=(1, 2)), 3),
        'items': (fields.Tuple(fields.Integer(), fields.Integer()), [1]),
        'few': (fields.List(fields.Integer(), min_length=2), [1]),
        'many': (fields.List(fields.Integer(), max_length=1), [1, 2]),
        'required': (fields.Dict(fields.String(), fields.Integer(), required_keys=['q']), {}),
        'keys': (fields.Dict(fields.String(), fields.Integer(), max_keys=0), {'p': 1}),
        'code': (fields.Code(), '!!'),
        'iso': (fields.Datetime(format='iso8601'), 'zzz'),
    }
    field, x = table[which]
    deep = choose(False, True)
    if not deep:
        f, errs = mapped(field, {'a': x})
        if which in ('format', 'iso'):
            assume(len(errs) > 0)
        check(len(errs) == 1 and located(errs[0], field, ('a',)), 'a violated constraint is located at its value')
    else:
        outer = fields.List(fields.SubForm(form_with(field)))
        f = form_with(outer)()
        errs = f.map({'a': [{'a': x}]})
        if which in ('format', 'iso'):
            assume(len(errs) > 0)
        check(len(errs) >= 1 and located(errs[0], field, ('a', 0, 'a')), 'a violated constraint deep inside is located there')


class Leaf(pilo.Form):
    x = fields.Integer()


class Tree(pilo.Form):
    leaf = fields.SubForm(Leaf, default=None)
    leaves = fields.List(fields.SubForm(Leaf), default=None)
    named = fields.Dict(fields.String(), fields.SubForm(Leaf), default=None)
    pair = fields.Tuple(fields.Integer(), fields.SubForm(Leaf), default=None)
    grid = fields.List(fields.List(fields.Integer()), default=None)


def spec_nested():
    """errors at any depth"""
    bad = any_value('bad', 'list', 'object')
    which = choose('leaf', 'leaves', 'named', 'pair', 'pair0', 'grid', 'missing')
    if which == 'leaf':
        data, field, keys = {'leaf': {'x': bad}}, Leaf.x, ('leaf', 'x')
    elif which == 'leaves':
        data, field, keys = {'leaves': [{'x': 1}, {'x': bad}]}, Leaf.x, ('leaves', 1, 'x')
    elif which == 'named':
        data, field, keys = {'named': {'n': {'x': bad}}}, Leaf.x, ('named', 'n', 'x')
    elif which == 'pair':
        data, field, keys = {'pair': [1, {'x': bad}]}, Leaf.x, ('pair', 1, 'x')
    elif which == 'pair0':
        data, field, keys = {'pair': [bad, {'x': 1}]}, Tree.pair.fields[0], ('pair', 0)
    elif which == 'grid':
        data, field, keys = {'grid': [[1], [2, bad]]}, Tree.grid.field.field, ('grid', 1, 1)
    else:
        data, field, keys = {'leaves': [{'x': 1}, {}]}, Leaf.x, ('leaves', 1, 'x')
    t = Tree()
    errs = t.map(data)
    check(len(errs) >= 1 and located(errs[0], field, keys), 'an error deep inside names the path to its value')


def spec_several():
    """each error has its own location"""
    b0, b1 = any_value('b0', 'list'), any_value('b1', 'list')
    t = Tree()
    errs = t.map({'leaves': [{'x': b0}, {'x': 1}, {'x': b1}], 'grid': [[b0]]})
    check(len(errs) == 3, 'three errors')
    check(located(errs[0], Leaf.x, ('leaves', 0, 'x')), 'the first error is located at its value')
    check(located(errs[1], Leaf.x, ('leaves', 2, 'x')), 'the second error is located at its value')
    check(located(errs[2], Tree.grid.field.field, ('grid', 0, 0)), 'the third error is located at its value')


def spec_locations():
    """sources with a location prefix it"""
    bad = choose('x', [])
    kind = choose('default', 'json', 'config')
    if kind == 'default':
        src, kw = DefaultSource({'leaf': {'x': bad}}, location='here'), {'location': 'here'}
    elif kind == 'json':
        src, kw = JsonSource(json_text({'leaf': {'x': bad}}), location='f.json'), {'location': 'f.json'}
    else:
        src, kw = ConfigSource('[leaf]\nx = nope\n', location='f.ini'), {'location': 'f.ini'}
    t = Tree()
    errs = t.map(src)
    check(len(errs) == 1 and located(errs[0], Leaf.x, ('leaf', 'x'), **kw), 'the location of the source comes first')


def spec_config_section():
    class F(pilo.Form):
        x = fields.Integer()
        l = fields.List(fields.Integer(), default=None)
    f = F()
    errs = f.map(ConfigSource('[s]\nl = 1 no\n', section='s', location=choose(None, 'f.ini')))
    loc = errs[0].path.location
    check(len(errs) == 2, 'two errors')
    check(located(errs[0], F.x, ('x',), location=loc, section='s'), 'the section is part of the location')
    check(located(errs[1], F.l.field, ('l', 1), location=loc, section='s'), 'words are located by position')


def spec_union():
    f = Tree()
    errs = f.map(UnionSource([{'leaf': {'x': 'no'}}, {'grid': [['q']]}], merge='combine'))
    check(len(errs) == 2, 'two errors through the union')
    check(located(errs[0], Leaf.x, ('leaf', 'x')), 'errors through a union are located')
    check(located(errs[1], Tree.grid.field.field, ('grid', 0, 0)), 'errors in sequences through a union are located')


def spec_group():
    class G(pilo.Form):
        g = fields.Group(fields.Integer('p'), fields.Integer('q'))
    g = G()
    errs = g.map({'p': 1, 'q': []})
    field = G.g.fields[1][1]
    check(len(errs) == 1 and located(errs[0], field, ('q',)), 'an error in a group is located at its key')


def spec_polymorphic():
    class H(pilo.Form):
        pets = fields.List(fields.PolymorphicSubForm(Animal.kind))
    h = H()
    errs = h.map({'pets': [{'kind': 'cat', 'lives': []}, {'kind': 'cow'}, {'kind': 'dog'}]})
    check(len(errs) == 3, 'three errors')
    check(located(errs[0], Cat.lives, ('pets', 0, 'lives')), 'an error in a polymorphic form is located at its value')
    check(located(errs[1], H.pets.field, ('pets', 1)), 'an unknown identity is located at the polymorphic value')
    check(located(errs[2], Dog.name, ('pets', 2, 'name')), 'a missing value in a polymorphic form is located at its key')


def spec_hooks():
    """errors reported by hooks"""
    class F(pilo.Form):
        a = fields.Integer()

        @a.validate
        def a(self, value):
            self.ctx.errors.invalid('odd')
            return False

    class O(pilo.Form):
        o = fields.List(fields.SubForm(F))
    o = O()
    errs = o.map({'o': [{'a': 1}]})
    check(len(errs) == 1 and located(errs[0], F.a, ('o', 0, 'a')), 'an error reported by a hook is located at its value')
    check(str(errs[0]).endswith(' - odd'), 'and says what the hook said')


def spec_form_error():
    """the form error lists every field error"""
    class F(pilo.Form):
        a = fields.Integer()
        b = fields.Integer()
    try:
        F({'a': []})
        fail('bad data raises')
    except fields.FormError as ex:
        errs = ex.field_errors
        check(len(errs) == 2 and located(errs[0], F.a, ('a',)) and located(errs[1], F.b, ('b',)), 'the errors it carries are located')
        check(str(ex) == '\n* Invalid: ' + str(errs[0]) + '\n* Missing: ' + str(errs[1]) + '\n', 'its text lists kind and text of each')


def spec_attribute_read():
    """errors raised by reading an attribute"""
    class F(pilo.Form):
        a = fields.Integer('src_a')
    try:
        F().a
        fail('nothing to read')
    except fields.FormError as ex:
        check(len(ex.field_errors) == 1 and located(ex.field_errors[0], F.a, ('src_a',)), 'the error names the source key')


def spec_path_is_kept():
    """the path of an error is that of its value, whatever is mapped afterwards"""
    kind = choose('default', 'json', 'union', 'mount')
    data = {'leaves': [{'x': 1}, {'x': 'no'}]}
    if kind == 'default':
        src = DefaultSource(data)
    elif kind == 'json':
        src = JsonSource(json_text(data))
    elif kind == 'union':
        src = UnionSource([data, {}])
    else:
        src = MountSource(m=DefaultSource(data))

    class Last(Tree):
        last = fields.String()

    class Top(pilo.Form):
        m = fields.SubForm(Last)
    f = (Top if kind == 'mount' else Last)()
    errs = f.map(src)
    check(len(errs) == 2, 'two errors')
    path = errs[0].path
    keys = ['leaves', 1, 'x']
    check([part.key for part in path] == (['m'] + keys if kind == 'mount' else keys), 'an error keeps the path of its value')
    check(str(errs[0]).startswith(str(path) + ' - '), 'an error keeps the path of its value')
    check([part.key for part in errs[1].path][-1] == 'last', 'each error has its own path')
    if kind != 'union':
        check(path.value == 'no' and path.exists, 'the path of an error leads to the value')
    del path[-1]
    check(str(f.map(src)[0]) == str(errs[0]), 'the path of an error is independent of others')


def spec_mounts():
    """the mount point comes first, then the location below it"""
    loc = choose(None, 'file.x')
    src = MountSource(m=DefaultSource({'k': {'l': [None, 'x']}}, location=loc), n=ConfigSource('[s]\na = x\n', 's', 'my.ini'))
    path = src.path()
    check(str(path) == '', 'the root has no name')
    head, keys, want = choose(('m', (), '@m'), ('m', ('k',), '@m:k'), ('m', ('k', 'l', 1), '@m:k.l[1]'), ('no', (), '@no'),
                              ('no', ('k',), '@no:k'))
    path.append(head)
    for k in keys:
        path.append(k)
    if loc is None or head == 'no' or not keys:
        check(str(path) == want, 'a path is rendered with its mount point first')
    else:
        check(str(path) == '@m:file.x:' + want[3:], 'with the location of the mounted source')

    class L(pilo.Form):
        l = fields.List(fields.Integer(nullable=False))

    class F(pilo.Form):
        m = fields.SubForm(choose(pilo.Form.from_fields(k=fields.SubForm(L)), pilo.Form.from_fields(k=fields.Integer())))
        other = fields.Integer()
        n = fields.Integer()
    errs = F().map(src)
    pre = '@m:k' if loc is None else '@m:file.x:k'
    wants = ([pre + '.l[0]', pre + '.l[1]'] if len(errs) == 4 else [pre]) + ['@other', '@n']
    check(len(errs) == len(wants) and all([str(e).startswith(w + ' - ') for e, w in zip(errs, wants)]),
          'errors below and at mounts name the mount point')


def spec_call_keys():
    """what a call yields is located by its call key"""
    class F(pilo.Form):
        a = fields.Integer('f()')

    class G(pilo.Form):
        g = fields.SubForm(F, 'g()')
        a = fields.Integer('f()')
    v = any_value('v', 'list', 'dict', 'None')
    data = {'f': lambda: v, 'g': lambda: {'f': lambda: []}}
    errs = G().map(data)
    want = [('g()', 'f()')] + ([] if v is None else [('f()',)])
    check(len(errs) == len(want), 'each value that is invalid is an error')
    check(located(errs[0], F.a, want[0]), 'an error below calls is located by their keys')
    check(v is None or located(errs[1], G.a, want[1]), 'an error of a called value is located by its key')


def spec_source_error_path():
    """errors of sources keep their path as well"""
    src = choose(DefaultSource({'a': {'b': [1]}}), JsonSource(json_text({'a': {'b': [1]}})))
    path = src.path()
    path.append('a')
    path.append('b')
    try:
        path.mapping()
        fail('a list is no mapping')
    except SourceError as ex:
        del path[-1]
        path.append('c')
        check(str(ex.path) == 'a.b' and str(path) == 'a.c', 'an error of a source keeps the path it is about')


def spec_long_paths():
    """paths of any depth"""
    keys = ['a', 0, 'b', 'c', 12, 3, 'd', 'e', 'f', 107, 'g', 'h']
    path = DefaultSource({}).path()
    for k in keys:
        path.append(k)
    check(str(path) == rendered(keys), 'a long path renders each of its parts')
    field = fields.Integer()
    outer = field
    data = 'x'
    for i in range(7):
        outer = fields.List(outer)
        data = [data]
    f, errs = mapped(outer, {'a': data})
    check(len(errs) == 1 and located(errs[0], field, ['a'] + [0] * 7), 'a deeply nested error is located')


def spec_missing_at_the_root():
    """a field without key of its own is where its form is"""
    location = choose(None, 'here')

    class F(pilo.Form):
        a = fields.Integer('src')
        b = pilo.Field(None)

        @b.filter
        def b(self, value):
            return False
    f = F()
    errs = f.map(DefaultSource({}, location=location))
    check([str(e) for e in errs] == (['src - missing', ' - missing'] if location is None else
                                     ['here:src - missing', 'here: - missing']), 'the root has an empty path')
    check([len(e.path) for e in errs] == [1, 0], 'and so have its errors')

    class G(pilo.Form):
        s = fields.SubForm(F, 'k')
    errs = G().map(DefaultSource({'k': {}}, location=location))
    check([len(e.path) for e in errs][:2] == [2, 1], 'below the root it is the path of the form')
    check(str(errs[1]) == ('k - missing' if location is None else 'here:k - missing'), 'below the root it is the path of the form')
