"""C11: errors in nested forms surface in the enclosing form."""
from base import *
from pilo.source import JsonSource, UnionSource


class Leaf(pilo.Form):
    p = fields.Integer()
    q = fields.Integer()


class Mid(pilo.Form):
    one = fields.SubForm(Leaf)
    n = fields.Integer()
    two = fields.SubForm(Leaf)


def leaf(p, q):
    return {'p': p, 'q': q}


def expect(errs, *pairs):
    """the recorded errors are exactly these, in order"""
    check(len(errs) == len(pairs), 'every error is recorded exactly once')
    for e, (field, prefix) in zip(errs, pairs):
        check(e.field is field, 'errors are recorded in the order of the fields')
        check(str(e).startswith(prefix + ' - '), 'errors keep their location')


def bad(name):
    """an integer or something that is none"""
    return any_value(name, 'int', 'list')


def spec_sub_form():
    x, y = bad('x'), bad('y')
    field = fields.SubForm(Leaf)
    f, errs = mapped(field, {'a': leaf(x, y)})
    want = []
    if not isinstance(x, int):
        want.append((Leaf.p, 'a.p'))
    if not isinstance(y, int):
        want.append((Leaf.q, 'a.q'))
    expect(errs, *want)
    if want:
        check(got(f) is NONE, 'a sub-form with errors is not yielded')
    else:
        check(type(got(f)) is Leaf and got(f) == {'p': x, 'q': y}, 'a sub-form without errors is yielded, mapped')


def spec_depth():
    x, y, z = bad('x'), bad('y'), bad('z')
    field = fields.SubForm(Mid)
    f, errs = mapped(field, {'a': {'one': leaf(x, 1), 'n': y, 'two': leaf(1, z)}})
    want = []
    if not isinstance(x, int):
        want.append((Leaf.p, 'a.one.p'))
    if not isinstance(y, int):
        want.append((Mid.n, 'a.n'))
    if not isinstance(z, int):
        want.append((Leaf.q, 'a.two.q'))
    expect(errs, *want)
    if want:
        check(got(f) is NONE, 'a form with errors further down is not yielded')
    else:
        check(type(got(f)) is Mid and type(got(f)['one']) is Leaf and got(f)['two'] == {'p': 1, 'q': z},
              'nested forms are yielded whole')


def spec_siblings():
    """an error in one sub-form neither hides nor repeats those of the next fields"""
    x, y, z = bad('x'), bad('y'), bad('z')

    class F(pilo.Form):
        a = fields.SubForm(Leaf)
        b = fields.Integer()
        c = fields.SubForm(Leaf)
    f = F()
    errs = f.map({'a': leaf(x, 1), 'b': y, 'c': leaf(z, 1)})
    want = []
    if not isinstance(x, int):
        want.append((Leaf.p, 'a.p'))
    if not isinstance(y, int):
        want.append((F.b, 'b'))
    if not isinstance(z, int):
        want.append((Leaf.p, 'c.p'))
    expect(errs, *want)
    check(('a' in f) == isinstance(x, int) and ('b' in f) == isinstance(y, int) and ('c' in f) == isinstance(z, int),
          'exactly the fields without errors are held')


def spec_in_containers():
    x, y = bad('x'), bad('y')
    which = choose('list', 'list of form', 'dict', 'tuple', 'group')
    sub = fields.SubForm(Leaf)
    if which == 'list':
        field, data, at = fields.List(sub), [leaf(x, 1), leaf(1, y)], ('a[0]', 'a[1]')
    elif which == 'list of form':
        field, data, at = fields.List(Leaf), [leaf(x, 1), leaf(1, y)], ('a[0]', 'a[1]')
    elif which == 'dict':
        field, data, at = fields.Dict(fields.String(), sub), {'k': leaf(x, 1), 'l': leaf(1, y)}, ('a.k', 'a.l')
    elif which == 'tuple':
        field, data, at = fields.Tuple(sub, sub), (leaf(x, 1), leaf(1, y)), ('a[0]', 'a[1]')
    else:
        field, data, at = fields.Group(('a', sub), ('b', sub)), leaf(x, 1), ('a', 'b')
    if which == 'group':
        class F(pilo.Form):
            z = field
        f = F()
        errs = f.map({'a': leaf(x, 1), 'b': leaf(1, y)})
        r = got(f, 'z')
    else:
        f, errs = mapped(field, {'a': data})
        r = got(f)
    want, n = [], 2
    if not isinstance(x, int):
        want.append((Leaf.p, at[0] + '.p'))
        n -= 1
    if not isinstance(y, int):
        want.append((Leaf.q, at[1] + '.q'))
        n -= 1
    expect(errs, *want)
    check(r is not NONE and len(r) == n, 'a container holds the nested forms without errors')


def spec_missing_nested():
    field = fields.SubForm(Leaf)
    f, errs = mapped(field, {'a': {'q': 1}})
    check(len(errs) == 1 and type(errs[0]) is fields.Missing and errs[0].field is Leaf.p, 'a missing nested value surfaces')
    check(str(errs[0]).startswith('a.p - ') and got(f) is NONE, 'at its path, and the form is not yielded')


def spec_polymorphic():
    x = bad('x')
    field = fields.PolymorphicSubForm(Animal.kind)
    f, errs = mapped(field, {'a': {'kind': 'cat', 'lives': x}})
    if isinstance(x, int):
        check(len(errs) == 0 and type(got(f)) is Cat, 'a polymorphic sub-form without errors is yielded')
    else:
        expect(errs, (Cat.lives, 'a.lives'))
        check(got(f) is NONE, 'a polymorphic sub-form with errors is not yielded')


def spec_user_error():
    """errors a nested validate hook records, and those of a nested rejection"""
    class In(pilo.Form):
        p = fields.Integer()

        @p.validate
        def p(self, value):
            self.ctx.errors.invalid('never')
            return any_value('verdict', 'bool')
    f, errs = mapped(fields.SubForm(In), {'a': {'p': 1}})
    expect(errs, (In.p, 'a.p'))
    check(got(f) is NONE, 'a form with a recorded error is not yielded')


def spec_reset_option():
    """the nested form is mapped with the declared reset option"""
    seen = []

    class In(pilo.Form):
        p = fields.Integer(optional=True)

        def map(self, *args, **kwargs):
            seen.append(kwargs)
            return super(In, self).map(*args, **kwargs)
    reset, unmapped = choose(True, False), choose('ignore', 'capture')
    how = choose('constructor', 'options')
    if how == 'constructor':
        field = fields.SubForm(In, reset=reset, unmapped=unmapped)
    else:
        field = fields.SubForm(In).options(reset=reset, unmapped=unmapped)
    f, errs = mapped(field, {'a': {'p': 1, 'extra': 'e'}})
    check(len(errs) == 0 and ('extra' in got(f)) == (unmapped == 'capture'), 'unmapped keys are treated as declared')
    if len(seen) == 1 and 'reset' in seen[0]:
        check(bool(seen[0]['reset']) == reset, 'the reset option is handed on as declared')


def spec_reset_of_preset():
    """a nested form that starts out with values: reset forgets them, otherwise they are kept"""
    class In(pilo.Form):
        p = fields.Integer(optional=True)

        def __init__(self, *args, **kwargs):
            super(In, self).__init__(*args, **kwargs)
            self['p'] = 'preset'
    reset = choose(True, False)
    f, errs = mapped(fields.SubForm(In, reset=reset), {'a': {}})
    check(len(errs) == 0 and ('p' in got(f)) == (not reset), 'a nested form is reset exactly if declared so')


def spec_unmapped_polymorphic():
    unmapped = choose('ignore', 'capture')
    f, errs = mapped(fields.PolymorphicSubForm(Animal.kind, unmapped=unmapped), {'a': {'kind': 'cat', 'extra': 1}})
    check(len(errs) == 0 and ('extra' in got(f)) == (unmapped == 'capture'),
          'unmapped keys of a polymorphic form are treated as declared')


def spec_unmapped_error():
    """an error in a captured value surfaces as well"""
    v = bad('v')
    extra = fields.Integer()
    f, errs = mapped(fields.SubForm(Leaf, unmapped=extra), {'a': {'p': 1, 'q': 2, 'extra': v}})
    if isinstance(v, int):
        check(len(errs) == 0 and same(got(f)['extra'], v), 'a captured value is held by the nested form')
    else:
        expect(errs, (extra, 'a.extra'))
        check(got(f) is NONE, 'an error in a captured value turns the nested form down')


def spec_position():
    """the nested form reads from the position of its field"""
    where, field = choose(('own', fields.SubForm(Leaf)), ('key', fields.SubForm('other', Leaf)),
                          ('flat', fields.SubForm(Leaf, flat=True)), ('own', fields.SubForm(Leaf, flat=False)),
                          ('key', fields.SubForm('other', Leaf, flat=False)))
    f, errs = mapped(field, {'a': leaf(1, 2), 'other': leaf(3, 4), 'p': 5, 'q': 6})
    check(len(errs) == 0, 'a nested form finds its data')
    if where == 'own':
        check(got(f) == {'p': 1, 'q': 2}, 'a nested form is mapped from its own position')
    elif where == 'key':
        check(got(f) == {'p': 3, 'q': 4}, 'a nested form is mapped from its source key')
    else:
        check(got(f) == {'p': 5, 'q': 6}, 'a flat nested form is mapped from the position of its form')


def spec_other_sources():
    x = bad('x')
    which = choose('union', 'json')
    f = form_with(fields.List(Leaf))()
    if which == 'union':
        errs = f.map(UnionSource([{'a': [leaf(x, 1)]}, {'b': 2}]))
    else:
        assume(isinstance(x, list))
        errs = f.map(JsonSource('{"a": [{"p": [], "q": 1}]}'))
    if isinstance(x, int):
        check(len(errs) == 0 and got(f) == [{'p': x, 'q': 1}], 'nested forms of other sources are mapped')
    else:
        expect(errs, (Leaf.p, 'a[0].p'))


def spec_form_map_inside_hook():
    """a form mapped by hand inside a hook reports to the enclosing mapping as well"""
    x = bad('x')
    field = pilo.Field()

    @field.parse
    def parse(self, path):
        form = Leaf()
        errs = form.map()
        return form if not errs else ERROR
    f, errs = mapped(field, {'a': leaf(x, 1)})
    if isinstance(x, int):
        check(len(errs) == 0 and got(f) == {'p': x, 'q': 1}, 'a form mapped in a hook without errors')
    else:
        expect(errs, (Leaf.p, 'a.p'))


def spec_many_nested_errors():
    """any number of nested errors"""
    attrs, data, prefixes = {}, {}, []
    field = fields.List(fields.Integer())

    class In(pilo.Form):
        l = field
    n = 30
    f, errs = mapped(fields.SubForm(In), {'a': {'l': ['x'] * n}})
    expect(errs, *[(field.field, 'a.l[%d]' % i) for i in range(n)])
    check(got(f) is NONE, 'a sub-form with many errors is not yielded')


def spec_nested_under_any_circumstances():
    circumstances((
        (lambda: fields.SubForm(Hollow), {}, {}), (lambda: fields.SubForm(Hollow, default=None), {}, {}),
        (lambda: fields.SubForm(Hollow, default=7), {'z': 1}, {}), (lambda: fields.List(fields.SubForm(Hollow)), [{}, {}], [{}, {}]),
        (lambda: fields.SubForm(Hollow, optional=True), {}, {}),
        (lambda: fields.SubForm(Inner), {'x': 1}, {'x': 1, 'y': 'why'}), (lambda: fields.SubForm(Inner), {'x': 'no'}, REFUSED),
        (lambda: fields.SubForm(Inner), {'x': 0, 'y': ''}, {'x': 0, 'y': ''}), (lambda: fields.SubForm(Inner), 3, REFUSED),
        (lambda: fields.List(fields.SubForm(Inner)), [{'x': 1}, {'x': 'no'}], REFUSED),
        (lambda: fields.List(fields.SubForm(Inner)), [{'x': 1}, {'x': 2, 'y': 'z'}], [{'x': 1, 'y': 'why'}, {'x': 2, 'y': 'z'}]),
    ), ('ignore default', 'both ignored'))


class Hollow(pilo.Form):
    a = pilo.Field(optional=True)
