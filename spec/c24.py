"""C24: concurrent mappings in different threads do not affect each other."""
from base import *
from pilo.source import JsonSource, UnionSource, MountSource, ConfigSource


class Everything(pilo.Form):
    """a form class both threads map; declared before either starts"""
    a = pilo.Field(default=None).tag('t')
    b = fields.Integer(default=0).min(1)
    c = fields.List(fields.SubForm(Inner), default=list)
    d = fields.Dict(fields.String(), fields.Integer(), default=dict)
    e = fields.PolymorphicSubForm(Animal.kind, optional=True)
    g = fields.Group(('g', fields.String()))
    s = fields.String().format('{x}', x='b')
    h = pilo.Field(default='h')

    @h.munge
    def h(self, value):
        return (value, self.b)


def go(cls, data, how='map'):
    f = cls()
    if how == 'raise':
        try:
            f.map(data, error='raise')
        except fields.FormError:
            pass
    elif how == 'capture':
        f.map(data, unmapped='capture')
    elif how == 'tags':
        f.map(data, tags=['t'], reset=True)
    else:
        f.map(data)
    return f


def spec_scalars():
    """mapping any data with any scalar field writes to nothing that existed before"""
    field, _ = build(choose(*SCALARS), default=choose(NOT_SET, None, list))
    F = form_with(field)
    x = any_value('x')
    there = choose(True, False)
    freeze('mapping scalars touches no shared object')
    data = {'a': x} if there else {}
    in_thread(go, F, data)
    unfreeze()


def spec_containers():
    kind = choose(*CONTAINERS)
    field, _ = build(kind)
    F = form_with(field)
    x, y = any_value('x', 'None', 'int', 'str', 'object'), any_value('y', 'None', 'int', 'object')
    shape = choose('sequence', 'mapping', 'bare', 'absent')
    sub = choose('cat', 'dog', 'cow')
    freeze('mapping containers touches no shared object')
    if shape == 'sequence':
        data = {'a': [x, y]}
    elif shape == 'mapping' and kind == 'SubForm':
        data = {'a': {'x': x, 'y': y}}
    elif shape == 'mapping' and kind == 'PolymorphicSubForm':
        data = {'a': {'kind': sub, 'lives': x, 'name': y}}
    elif shape == 'mapping':
        data = {'a': {'p': x, 'q': y}}
    elif shape == 'bare':
        data = {'a': y}
    else:
        data = {}
    in_thread(go, F, data)
    unfreeze()


def spec_features():
    """one form with many features, mapped in each way"""
    x, y = any_value('x', 'int', 'str', 'None'), any_value('y', 'int', 'object')
    how = choose('map', 'raise', 'capture', 'tags')
    sub = choose('cat', 'cow')
    freeze('mapping a form in any mode touches no shared object')
    in_thread(go, Everything, {'a': x, 'b': y, 'c': [{'x': 1}], 'd': {'k': x}, 'e': {'kind': sub}, 'g': 'G', 'z': 1}, how)
    unfreeze()


def spec_hooks():
    """a field with each hook"""
    hook = choose('compute', 'resolve', 'parse', 'default', 'munge', 'filter', 'validate')
    field = pilo.Field()

    def none(self):
        return None if hook == 'resolve' else 1

    def value(self, value):
        return value

    def path(self, path):
        return path.primitive(None)
    func = none if hook in ('compute', 'resolve', 'default') else path if hook == 'parse' else value
    getattr(field, hook)(func)
    F = form_with(field)
    there = choose(True, False)
    x = any_value('x')
    freeze('running hooks touches no shared object')
    in_thread(go, F, {'a': x} if there else {})
    unfreeze()


def spec_options():
    """translations, ignores, parents, nullability"""
    field = choose(pilo.Field(translate={'i': 'j'}), pilo.Field(ignore='i', optional=True), pilo.Field(nullable=False),
                   pilo.Field(default=dict), fields.SubForm(Inner, attach_parent=True), fields.SubForm(Inner, flat=True),
                   fields.String().capture('(x)'), fields.Integer().pattern('x'), pilo.Field().constant(3),
                   pilo.Field('v').from_context())
    F = form_with(field)
    x = choose(any_value('x', 'str', 'None'), {'x': any_value('y', 'int', 'None')})
    freeze('mapping with any option touches no shared object')
    in_thread(go, F, {'a': x, 'x': 1})
    unfreeze()


def spec_sources():
    """each kind of source, built by the thread itself"""
    kind = choose('json', 'union', 'mount', 'config', 'default', 'aliases')
    F = form_with(choose(fields.Integer(), fields.List(fields.String()), fields.Dict(pilo.Field(), pilo.Field())))
    x = any_value('x', 'int', 'str', 'None')

    def run():
        if kind == 'json':
            src = JsonSource('{"a": [1, "x"]}')
        elif kind == 'union':
            src = UnionSource([{'a': [x]}, {'a': ['1']}], merge=choose('first', 'combine'))
        elif kind == 'mount':
            src = MountSource(a={'a': x}, b=DefaultSource({}))
        elif kind == 'config':
            src = ConfigSource('[s]\na = 1 2\nb[k] = v\n', section='s', defaults={'c': 1})
        elif kind == 'aliases':
            src = DefaultSource({'z': x}, aliases={'a': 'z'}, ignores=['q.r'], location='here')
        else:
            src = DefaultSource({'a': {'k': x}})
        f = F()
        try:
            f.map(src)
        except pilo.SourceError:
            pass
    freeze('mapping from any source touches no shared object')
    in_thread(run)
    unfreeze()


def spec_reads():
    """attribute reads, copies and views of a thread's own form"""
    op = choose('read', 'copy', 'munge', 'filter', 'flatten', 'has', 'probe')

    def run():
        f = Everything()
        f.map({'a': 1, 'b': 2, 'e': {'kind': 'cat'}})
        if op == 'read':
            del f['h']
            f.h
        elif op == 'copy':
            f.copy()
        elif op == 'munge':
            f.munge(lambda form, field, value: value)
        elif op == 'filter':
            f.filter('t')
        elif op == 'flatten':
            list(f.flatten())
        elif op == 'has':
            f.has('a')
        else:
            Animal.kind.probe({'kind': 'dog'})
    freeze('reading, copying and probing touches no shared object')
    in_thread(run)
    unfreeze()


def spec_interleaved():
    """another thread maps the same class while this one is inside a hook"""
    x, y = any_value('x', 'int', 'list'), any_value('y', 'int', 'list')
    other = []

    class F(pilo.Form):
        p = fields.Integer()
        q = fields.List(fields.Integer())
        r = fields.Integer(default=7)

        @p.munge
        def p(self, value):
            if not other:
                other.append(None)
                stack, path = list(pilo.ctx.stack), [k.key for k in pilo.ctx.src_path.parts]
                n = len(pilo.ctx.errors)
                other.append(in_thread(elsewhere))
                check(len(stack) == len(pilo.ctx.stack) and path == [k.key for k in pilo.ctx.src_path.parts],
                      'the other thread leaves the context of this one alone')
                check(len(pilo.ctx.errors) == n, 'the other thread records nothing here')
                check(pilo.ctx.form is self, 'the form being mapped is still this one')
            return value

    def elsewhere():
        check(len(pilo.ctx.stack) == 1 and pilo.ctx.src is None, 'the other thread starts with a context of its own')
        g = F()
        errs = g.map({'p': y, 'q': [3], 'r': 8})
        return g, errs
    f = F()
    errs = f.map({'p': 1, 'q': [1, x]})
    g, gerrs = other[1]
    check(f['p'] == 1 and f['r'] == 7, 'this thread maps its own data')
    if isinstance(x, int):
        check(f['q'][0] == 1 and same(f['q'][1], x) and len(errs) == 0, 'and all of it')
    else:
        check(len(errs) >= 1, 'and reports its own errors')
    if isinstance(y, int):
        check(same(g['p'], y) and len(gerrs) == 0, 'the other thread maps its data')
    else:
        check('p' not in g and len(gerrs) == 1, 'the other thread reports its errors')
    check(g['q'] == [3] and g['r'] == 8, 'independently of this one')


def spec_context_variables():
    """variables pushed by one thread are not seen in mappings of the other"""
    F = form_with(pilo.Field('v', optional=True).from_context())

    def elsewhere():
        f = F()
        f.map({})
        return 'a' in f
    with pilo.ctx(v=1, ignore_missing=True, tags=set(['t'])):
        check(not in_thread(elsewhere), 'a mapping does not see the variables of another thread')
