"""C13: mapping a form maps each selected field once, in order, and keeps exactly what mapped."""
from base import *


def logged(name, log, outcomes, *tags, **options):
    """a field that logs each mapping and yields outcomes[name]"""
    field = pilo.Field(**options)
    field.tag(*tags)

    @field.compute
    def compute(self):
        log.append(name)
        return outcomes[name]
    return field


def outcome(name):
    return choose(('value', any_value(name)), ('none', NONE), ('error', ERROR), ('not set', NOT_SET))


def three(log, outcomes):
    class F(pilo.Form):
        b = logged('b', log, outcomes, 'red', optional=True)
        a = logged('a', log, outcomes, 'red', 'blue', optional=True)
        c = logged('c', log, outcomes, optional=True)
    return F


def tag_argument():
    """(argument, names selected)"""
    return choose((None, ['b', 'a', 'c']), ([], ['b', 'a', 'c']), (['red'], ['b', 'a']), (set(['blue']), ['a']),
                  (['blue', 'red'], ['b', 'a']), (['green'], []), (['green', 'blue'], ['a']))


def spec_all_fields():
    log = []
    what = {'b': outcome('x'), 'a': outcome('y'), 'c': outcome('z')}
    F = three(log, dict((k, v[1]) for k, v in what.items()))
    f = F()
    errs = f.map({})
    check(log == ['b', 'a', 'c'], 'every field is mapped exactly once, in declaration order')
    for k in ('a', 'b', 'c'):
        if what[k][0] == 'value':
            check(k in f and same(f[k], what[k][1]), 'a form holds the value its field yielded')
        else:
            check(k not in f, 'a field that yielded nothing leaves no entry')
    check(len(f) == len([k for k in what if what[k][0] == 'value']), 'a form holds nothing else')
    check(len(errs) == 0, 'nothing is recorded when no field records anything')


def spec_tags():
    log = []
    x, y, z = any_value('x'), any_value('y'), any_value('z')
    F = three(log, {'b': x, 'a': y, 'c': z})
    f = F()
    old = choose({}, {'b': 'old', 'c': 'old'}, {'a': 'old', 'c': 'old'})
    for k in old:
        f[k] = old[k]
    tags, selected = tag_argument()
    how = choose('argument', 'context')
    if how == 'argument':
        errs = f.map({}, tags=tags)
    else:
        assume(tags is not None and not isinstance(tags, list))
        with pilo.ctx(tags=tags):
            errs = f.map({})
    check(log == selected, 'exactly the selected fields are mapped, in order')
    for k, v in (('b', x), ('a', y), ('c', z)):
        if k in selected:
            check(k in f and same(f[k], v), 'a selected field is stored')
        elif k in old:
            check(f[k] == 'old', 'a field that is not selected is not changed')
        else:
            check(k not in f, 'a field that is not selected does not appear')


def spec_failures_do_not_stop():
    x, y, z = any_value('x', 'int', 'list'), any_value('y', 'int', 'list'), any_value('z', 'int', 'None')

    class F(pilo.Form):
        a = fields.Integer()
        b = fields.Integer(nullable=False)
        m = fields.Integer()
        c = fields.Integer(nullable=False)
    f = F()
    errs = f.map({'a': x, 'b': y, 'c': z})
    check(('a' in f) == isinstance(x, int) and ('b' in f) == isinstance(y, int) and ('c' in f) == isinstance(z, int),
          'each field stands by itself')
    names = [e.field.name for e in errs]
    want = []
    for n, v in (('a', x), ('b', y), ('m', []), ('c', z)):
        if not isinstance(v, int):
            want.append(n)
    check(names == want, 'each field that fails records its error, in order')


def spec_inherited():
    log = []
    outs = {'p': 1, 'q': 2, 'r': 3, 'p2': 4}

    class A(pilo.Form):
        p = logged('p', log, outs)
        q = logged('q', log, outs)

    class B(A):
        r = logged('r', log, outs)
    which = choose('inherit', 'override')
    if which == 'inherit':
        f = B()
        f.map({})
        check(log == ['p', 'q', 'r'], 'inherited fields are mapped first, once')
        check(f == {'p': 1, 'q': 2, 'r': 3}, 'inherited fields are held by name')
    else:
        class C(B):
            p = logged('p2', log, outs)
        f = C()
        f.map({})
        check(log == ['p2', 'q', 'r'], 'an overriding field is mapped in the place of the overridden')
        check(f == {'p': 4, 'q': 2, 'r': 3}, 'an overriding field replaces the overridden')


def spec_names_and_keys():
    x, y = any_value('x'), any_value('y')

    class F(pilo.Form):
        a = pilo.Field('b')
        b = pilo.Field('a')
        c = pilo.Field('missing', default='D')
    f = F()
    errs = f.map({'a': x, 'b': y})
    check(same(f['a'], y) and same(f['b'], x) and f['c'] == 'D' and len(f) == 3 and len(errs) == 0,
          'values are stored under the name and read from the source key')


def spec_repeat():
    """mapping again maps again"""
    log = []
    outs = {'b': 1, 'a': 2, 'c': 3}
    F = three(log, outs)
    f = F()
    f.map({})
    outs['a'] = choose(5, NONE, ERROR)
    f.map({})
    check(log == ['b', 'a', 'c', 'b', 'a', 'c'], 'each mapping maps every field once')
    check(f['a'] == (5 if outs['a'] == 5 else 2), 'the last value that was yielded is held')


def spec_read_while_mapping():
    """a field read by a hook before its turn is still mapped once by the form"""
    log = []

    class F(pilo.Form):
        a = pilo.Field()
        b = pilo.Field()

        @a.munge
        def a(self, value):
            log.append('a')
            return (value, self.b)

        @b.munge
        def b(self, value):
            log.append('b')
            return value
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')
    f = F()
    errs = f.map({'a': x, 'b': y})
    check(same(f['b'], y) and same(f['a'][0], x) and same(f['a'][1], y) and len(f) == 2, 'both hold their own values')
    check(len(errs) == 0, 'reading ahead records nothing')


def spec_nested_tags():
    """the tags of the context select in nested forms as well"""
    log = []
    outs = {'p': 1, 'q': 2}

    class In(pilo.Form):
        p = logged('p', log, outs, 'red')
        q = logged('q', log, outs, 'blue')

    class F(pilo.Form):
        i = fields.SubForm(In).tag('red')
        j = fields.SubForm(In)
    f = F()
    how = choose('argument', 'context')
    if how == 'argument':
        f.map({'i': {}, 'j': {}}, tags=['red'])
        check(log == ['p', 'q'] and 'j' not in f, 'an argument selects the fields of this form')
    else:
        with pilo.ctx(tags=set(['red'])):
            f.map({'i': {}, 'j': {}})
        check(log == ['p'] and 'j' not in f, 'the tags of the context select in nested forms as well')


def spec_many_fields():
    """any number of fields and tags"""
    attrs, data = {}, {}
    for i in range(45):
        attrs['f%d' % i] = fields.Integer().tag('all', **{'t%d' % (i % 5): True})
        data['f%d' % i] = i
    F = type('F', (pilo.Form,), attrs)
    f = F()
    errs = f.map(data)
    check(len(errs) == 0 and dict(f) == data, 'every one of many fields is mapped')
    g = F()
    errs = g.map(data, tags=choose(['t0', 't2', 't3'], ['nope', 'no', 't0', 't2', 't3', 't2']))
    check(len(errs) == 0 and sorted(g.keys()) == sorted(k for k in data if data[k] % 5 in (0, 2, 3)),
          'fields of any of many tags are mapped')


def spec_failures_with_tags():
    """failures stop nothing, with tags neither"""
    log = []
    what = {'b': choose(ERROR, NONE, NOT_SET), 'a': choose(ERROR, 1), 'c': choose(ERROR, 2)}
    F = three(log, what)
    f = F()
    f.map({}, tags=choose(['red'], set(['blue', 'red'])))
    check(log == ['b', 'a'], 'every selected field is mapped')
    check(('a' in f) == (what['a'] == 1) and 'b' not in f and 'c' not in f, 'whatever became of the others')


def spec_tags_are_no_names():
    """tags select by tag, whatever the fields are called"""
    class F(pilo.Form):
        a = pilo.Field('k').tag('b')
        b = pilo.Field('l').tag('z')
        c = pilo.Field('b')
    f = F()
    errs = f.map({'k': 1, 'l': 2, 'b': 3}, tags=choose(['b'], ['b', 'c'], ['b', 'l']))
    check(len(errs) == 0 and dict(f) == {'a': 1}, 'only tagged fields are mapped')
