"""C21: mapping leaves context and path as it found them on every exit."""
import re
from base import *
from pilo.source import Source, Path, JsonSource, UnionSource, MountSource


class Boom(Exception):
    pass


class Fatal(BaseException):
    pass


def explosion():
    return choose(Boom('x'), Fatal('x'), ValueError('x'), AttributeError('x'), LookupError('x'), StopIteration('x'))


class watch(object):
    """the stack and the path at one moment"""

    def __init__(self):
        self.stack = list(pilo.ctx.stack)
        self.path = pilo.ctx.src_path
        self.keys = None if self.path is None else [p.key for p in self.path.parts]

    def restored(self):
        now = pilo.ctx.stack
        if len(now) != len(self.stack):
            return False
        for a, b in zip(now, self.stack):
            if a is not b:
                return False
        if pilo.ctx.src_path is not self.path:
            return False
        if self.path is None:
            return True
        return [p.key for p in self.path.parts] == self.keys


def run(op, *args):
    """runs an operation that may raise; the context is as before in either case"""
    w = watch()
    try:
        r = op(*args)
        how = 'returns'
    except BaseException:
        r = None
        how = 'raises'
    check(w.restored(), 'the context and the path are as they were')
    return how, r


HOOKS = ('compute', 'resolve', 'parse', 'default', 'munge', 'filter', 'validate')


def raising(hook, ex, field=None):
    """a field one hook of which raises"""
    field = field if field is not None else pilo.Field('k')

    def none(self):
        raise ex

    def value(self, value):
        raise ex

    def path(self, path):
        raise ex
    func = none if hook in ('compute', 'resolve', 'default') else path if hook == 'parse' else value
    getattr(field, hook)(func)
    return field


def spec_hook_raises():
    """a hook of a field of the form mapped raises"""
    hook = choose(*HOOKS)
    ex = explosion()
    field = raising(hook, ex)

    class F(pilo.Form):
        p = pilo.Field(optional=True)
        a = field
    data = {'p': 1} if hook == 'default' else {'p': 1, 'k': any_value('x', 'int', 'str')}
    form = F()
    how, r = run(form.map, data)
    if how == 'raises':
        reach('a hook that raises ends the mapping')
    else:
        reach('a hook that raises a value error does not')
    how, r = run(F, data)


def nested_in(kind, field):
    """(field holding `field`, source value around the value v)"""
    class In(pilo.Form):
        k = field
    if kind == 'list':
        return fields.List(field), lambda v: [v]
    if kind == 'tuple':
        return fields.Tuple([field]), lambda v: [v]
    if kind == 'dict value':
        return fields.Dict(fields.String(), field), lambda v: {'m': v}
    if kind == 'dict key':
        return fields.Dict(field, pilo.Field()), lambda v: {'m': v}
    if kind == 'form':
        return fields.SubForm(In), lambda v: {'k': v}
    if kind == 'list of forms':
        return fields.List(In), lambda v: [{'k': 1}, {'k': v}]
    if kind == 'group':
        return fields.Group(('g', field)), lambda v: v
    return fields.List(fields.Dict(fields.String(), fields.SubForm(In))), lambda v: [{'m': {'k': v}}]


def spec_nested_hook_raises():
    """a hook of a field nested in another raises"""
    kind = choose('list', 'tuple', 'dict value', 'dict key', 'form', 'list of forms', 'deep')
    hook = choose('compute', 'munge', 'validate', 'resolve', 'parse')
    ex = choose(Boom('x'), Fatal('x'), ValueError('x'))
    outer, wrap = nested_in(kind, raising(hook, ex, pilo.Field()))

    class F(pilo.Form):
        a = outer
    run(F().map, {'a': wrap(any_value('x', 'int', 'str'))})


def spec_group_hook_raises():
    hook = choose('compute', 'munge', 'validate')
    ex = choose(Boom('x'), ValueError('x'))
    field = raising(hook, ex, pilo.Field('g'))

    class F(pilo.Form):
        a = fields.Group(field)
    run(F().map, {'g': 1})


def spec_key_filter_raises():
    ex = explosion()
    field = fields.Dict(fields.String(), pilo.Field())

    @field.key_filter
    def keep(self, key):
        raise ex
    run(mapped, field, {'a': {'k': 1}})


def spec_scalar_data():
    """any scalar field type, any data, whatever becomes of it"""
    field, _ = build(choose(*SCALARS))
    x = any_value('x')
    w = watch()
    mapped(field, choose({'a': x}, {}))
    check(w.restored(), 'mapping any data leaves the context as it was')


def spec_container_data():
    """any container field type, containers of any two values or no container at all"""
    kind = choose(*CONTAINERS)
    field, _ = build(kind)
    x, y = any_value('x', 'None', 'int', 'str', 'list', 'object'), any_value('y', 'None', 'int', 'object')
    shape = choose('sequence', 'mapping', 'bare')
    if shape == 'sequence':
        data = [x, y]
    elif shape == 'mapping':
        data = {'x': x, 'y': y} if kind == 'SubForm' else {'kind': choose('cat', 'cow'), 'lives': x} if \
            kind == 'PolymorphicSubForm' else {'p': x, 3: y}
    else:
        data = choose(any_value('z', 'None', 'int', 'object'), 'text', [], {})
    w = watch()
    mapped(field, {'a': data})
    check(w.restored(), 'mapping any nested data leaves the context as it was')


def spec_errors_raise():
    """raise mode"""
    x = any_value('x', 'int', 'list', 'None')

    class In(pilo.Form):
        q = fields.Integer(nullable=False)

    class F(pilo.Form):
        a = choose(fields.Integer(nullable=False), fields.List(fields.Integer(nullable=False)), fields.SubForm(In))
    if isinstance(F.a, fields.Integer):
        data = {'a': x}
    elif isinstance(F.a, fields.List):
        data = {'a': [x]}
    else:
        data = {'a': {'q': x}}
    f = F()
    w = watch()
    try:
        f.map(data, error='raise')
        reach('raise mode returns on valid data')
    except fields.FormError:
        reach('raise mode raises on invalid data')
    check(w.restored(), 'raise mode leaves the context as it was')


def spec_not_a_mapping():
    """the root of the source is no mapping"""
    class F(pilo.Form):
        a = pilo.Field()
    run(F().map, JsonSource(choose('[]', '1', '"x"', 'null', '{}')))
    run(F().map, DefaultSource(any_value('x', 'None', 'int', 'str', 'object')))
    run(F().map, choose(1, 'text', object()))


class Faulty(Source):
    """a source each operation of which may raise"""

    def __init__(self, data, where, ex):
        self.data, self.where, self.ex = data, where, ex

    def path(self):
        if self.where == 'path':
            raise self.ex
        return FaultyPath(self, self.data)

    def fault(self, where):
        if self.where == where:
            raise self.ex

    def mapping(self, path):
        self.fault('mapping')
        if len(path.parts) > 0:
            self.fault('inner mapping')
        return path.value.keys()

    def sequence(self, path):
        self.fault('sequence')
        return len(path.value)

    def primitive(self, path, *types):
        self.fault('primitive')
        return path.value


class FaultyPath(Path):

    def resolve(self, container, part):
        self.src.fault('resolve')
        try:
            return container[part.key]
        except (KeyError, IndexError, TypeError):
            return NONE


def spec_source_raises():
    where = choose('path', 'mapping', 'inner mapping', 'sequence', 'primitive', 'resolve')
    ex = choose(Boom('x'), Fatal('x'), ValueError('x'), pilo.SourceError(None, 'x'))
    src = Faulty({'a': 1, 'b': [1], 'c': {'k': 1}, 'd': {'x': 2}}, where, ex)

    class F(pilo.Form):
        b = fields.List(pilo.Field())
        c = fields.Dict(pilo.Field(), pilo.Field())
        d = fields.SubForm(Inner)
        a = pilo.Field()
    run(F().map, src)
    run(F().map, UnionSource([src, {}], merge='combine'))
    run(F().map, MountSource(d=src, c={'k': 1}, a={}, b={}))


def spec_context_block():
    """context blocks end as they began"""
    ex = explosion()
    fails = choose(True, False)
    frame = choose({'v': 1}, {'src': DefaultSource({'a': 1})}, {'src': DefaultSource({}), 'v': None})
    w = watch()
    inside = []
    try:
        with pilo.ctx(**frame):
            inside.append(len(pilo.ctx.stack))
            if choose(True, False):
                with pilo.ctx(w=2):
                    inside.append(len(pilo.ctx.stack))
                    if fails:
                        raise ex
            if fails:
                raise ex
    except BaseException:
        pass
    check(w.restored(), 'a context block ends as it began')
    check(inside[0] == len(w.stack) + 1, 'a context block adds one frame')


def spec_key_block():
    """keys pushed on a path"""
    fails = choose(True, False)
    with pilo.ctx(src=DefaultSource({'a': {'b': [1]}})):
        w = watch()
        try:
            with pilo.ctx(src='a'):
                with pilo.ctx(src='b'):
                    inner = [p.key for p in pilo.ctx.src_path.parts]
                    with pilo.ctx(src=0):
                        if fails:
                            raise Boom('x')
                    with pilo.ctx(src=DefaultSource({})):
                        if choose(True, False):
                            with pilo.ctx(src='z'):
                                raise Boom('y')
        except Boom:
            pass
        check(inner == ['a', 'b'], 'keys extend the path')
        check(w.restored(), 'keys are taken off again')


def spec_reset_block():
    fails = choose(True, False)
    with pilo.ctx(src=DefaultSource({'a': 1})):
        with pilo.ctx(src='a'):
            w = watch()
            try:
                with pilo.ctx.reset():
                    check(pilo.ctx.src is None and pilo.ctx.src_path is None, 'a reset hides source and path')
                    if choose(True, False):
                        F = form_with(pilo.Field(optional=True))
                        F().map({'a': 1})
                    if fails:
                        raise Boom('x')
            except Boom:
                pass
            check(w.restored(), 'a reset block ends as it began')


def spec_attribute_read():
    """reading attributes, inside and outside of mappings"""
    ex = explosion()
    hook = choose('compute', 'munge', 'validate', 'none')

    class F(pilo.Form):
        src = DefaultSource({'a': 1})
        a = pilo.Field()
    if hook != 'none':
        raising(hook, ex, F.a)

    def read():
        return F().a
    run(read)
    f = F()

    class Out(pilo.Form):
        i = pilo.Field()
        j = fields.SubForm(Inner)

        @i.munge
        def i(self, value):
            w = watch()
            try:
                f.a
            except BaseException:
                pass
            check(w.restored(), 'reading inside a mapping leaves the context as it was')
            return value
    run(Out().map, {'i': 1, 'j': {'x': 1}})


def spec_rewound_read():
    """a nested form reads a field of an outer one, which may fail"""
    ex = explosion()
    fails = choose(True, False)
    outer = []

    class In(pilo.Form):
        p = pilo.Field()

        @p.munge
        def p(self, value):
            w = watch()
            try:
                outer[0].b
            except BaseException:
                pass
            check(w.restored(), 'reading an outer field leaves the context as it was')
            return value

    class Out(pilo.Form):
        i = choose(fields.SubForm(In), fields.List(fields.SubForm(In)))
        b = pilo.Field()

        @b.munge
        def b(self, value):
            if fails:
                raise ex
            return value
    o = Out()
    outer.append(o)
    inner = {'p': 1}
    run(o.map, {'i': inner if isinstance(Out.i, fields.SubForm) else [inner], 'b': 1})


def spec_probe():
    """probing identities"""
    x = any_value('x', 'dict', 'int', 'None', 'list')
    if isinstance(x, dict):
        for k in x.keys():
            assume(not k.endswith('()') and '.' not in k)
    run(Animal.kind.probe, x)
    run(Animal.kind.cast, choose({'kind': 'cat'}, {'kind': 'cow'}, {}))


def spec_from_context():
    fails = choose(True, False)
    field = pilo.Field('v').from_context()
    if fails:
        raising('munge', explosion(), field)

    class F(pilo.Form):
        a = field
        b = pilo.Field(optional=True)

    def go():
        with pilo.ctx(v=any_value('v', 'int', 'str')):
            return F().map({'b': 1})
    run(go)


def spec_format():
    class F(pilo.Form):
        a = fields.String().format('{x}', x=choose('b', 'c.d', 'nope'))
        b = fields.String(optional=True)
    run(F().map, choose({'b': 'x'}, {}))


def spec_unmapped():
    """capturing unmapped keys"""
    ex = choose(Boom('x'), ValueError('x'))
    field = pilo.Field()
    if choose(True, False):
        raising(choose('munge', 'parse'), ex, field)

    class F(pilo.Form):
        a = pilo.Field()
    run(F().map, {'a': 1, 'b': 2}, None, False, choose('capture', 'ignore', 'wrong', field, (fields.String(), field)))


def spec_lazy_views():
    """copies and views"""
    f = form_with(pilo.Field())()
    f.map({'a': 1})

    def bad(form, field, value):
        raise Boom('x')
    run(f.munge, bad)
    run(f.copy)
    run(f.filter, 'x')
    run(list, f.flatten())
    run(f.has, choose('a', 'b', f.fields[0], 3))


def spec_default_hooks():
    """defaults that raise"""
    ex = explosion()

    def bad():
        raise ex
    field = pilo.Field(default=bad)
    run(mapped, field, {})
    run(mapped, fields.List(pilo.Field('k', default=bad)), {'a': [1, {}]})


def spec_many_frames():
    """any depth of context"""
    w = watch()
    blocks = []
    for i in range(260):
        b = pilo.ctx(n=i)
        b.__enter__()
        blocks.append(b)
    check(len(pilo.ctx.stack) == len(w.stack) + 260 and pilo.ctx.n == 259, 'context blocks nest to any depth')
    for i in range(260):
        blocks.pop().__exit__(None, None, None)
        check(len(blocks) == 0 or pilo.ctx.n == len(blocks) - 1, 'each block exposes the one before as it ends')
    check(w.restored(), 'deep context blocks end as they began')


def spec_group_of_keyed_hook_raises():
    """a hook of a field given with its key or pattern raises"""
    hook = choose('compute', 'munge', 'validate', 'resolve', 'parse')
    ex = choose(Boom('x'), ValueError('x'))
    field = raising(hook, ex, pilo.Field())
    key = choose('g', re.compile('g|h'))

    class In(pilo.Form):
        a = fields.Group((key, field))

    class F(pilo.Form):
        s = fields.SubForm(In)
        a = fields.Group((key, field))
    run(F().map, choose({'g': 1}, {'f': 0, 'g': 1, 'h': 2}, {'s': {'g': 1}}))
