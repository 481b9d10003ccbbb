"""C20: field builders configure only their own field."""
from base import *

x = None


def behaviour(field, value):
    """observable behaviour of a field: what it yields for a value, for null and for nothing"""
    out = []
    for data in ({'a': value}, {'a': None}, {}):
        f, errs = mapped(field.clone() if field.is_attached else field, data)
        out.append((got(f), [type(e) for e in errs]))
    return out


def is_plain(field, value):
    """a field without any options"""
    assume(value is not None)
    (v, e), (n, en), (m, em) = behaviour(field, value)
    check(same(v, value) and e == [], 'a field no builder was called on keeps its values')
    check(n is None and en == [], 'a field no builder was called on keeps nulls')
    check(is_missing(m) and em == [fields.Missing], 'a field no builder was called on has no default')
    check(not field.has_tag('t') and not field.has_tag('u'), 'a field no builder was called on has no tags')


BUILDERS = ('nullable', 'default', 'default none', 'optional', 'ignore', 'ignore()', 'translate', 'translate()', 'tags',
            'tag()', 'attach_parent')


def apply(field, how, x):
    if how == 'nullable':
        return field.options(nullable=False)
    if how == 'default':
        return field.options(default='d')
    if how == 'default none':
        return field.options(default=None)
    if how == 'optional':
        return field.options(optional=True)
    if how == 'ignore':
        return field.options(ignore='i')
    if how == 'ignore()':
        return field.ignore('i', 'j')
    if how == 'translate':
        return field.options(translate={'i': 'j'})
    if how == 'translate()':
        return field.translate({'i': 'j'})
    if how == 'tags':
        return field.options(tags='t')
    if how == 'tag()':
        return field.tag('t', u=1)
    return field.options(attach_parent=True)


def spec_other_fields():
    """each builder on one field; fields created before and after stay plain"""
    x = any_value('x', 'str', 'int')
    before = pilo.Field()
    field = pilo.Field()
    how = choose(*BUILDERS)
    r = apply(field, how, x)
    check(r is field, 'a builder returns its field')
    after = pilo.Field()
    which = choose(before, after)
    is_plain(which, x)


def spec_clone_is_independent():
    """builders on a clone or on its original affect only that one"""
    x = any_value('x', 'str', 'int')
    field = pilo.Field()
    other = field.clone()
    how = choose(*BUILDERS)
    changed, kept = choose((field, other), (other, field))
    apply(changed, how, x)
    is_plain(kept, x)


def spec_clone_is_faithful():
    """a clone behaves like its original"""
    x = any_value('x', 'str', 'int')
    field = pilo.Field('a')
    apply(field, choose(*BUILDERS[:-1]), x)
    other = field.clone()
    check(not other.is_attached, 'a clone is not attached')
    a, b = behaviour(field, x), behaviour(other, x)
    for (v, e), (w, g) in zip(a, b):
        check(same(v, w) and e == g, 'a clone behaves like its original')
    check(field.has_tag('t') == other.has_tag('t') and field.has_tag('u') == other.has_tag('u'),
          'a clone has the tags of its original')


def spec_clone_hooks():
    """hooks of a clone and of its original are independent, too"""
    x = any_value('x')
    field = pilo.Field()
    had = choose(True, False)
    if had:
        @field.munge
        def munge(self, value):
            return 'old'
    other = field.clone()
    changed, kept = choose((field, other), (other, field))

    @changed.validate
    def validate(self, value):
        return False
    check(not kept.validate, 'registering a hook on one leaves the other alone')
    f, errs = mapped(kept, {'a': x})
    if had:
        check(got(f) == 'old', 'a clone keeps the hooks of its original')
    else:
        check(same(got(f), x), 'a clone of a field without hooks has none')
    g, errs = mapped(changed, {'a': x})
    check('a' not in g, 'a hook works on the field it was registered on')


def spec_constant():
    """a constant of an attached field is another field"""
    c, x = any_value('c'), any_value('x')
    assume(x is not None)

    class A(pilo.Form):
        a = pilo.Field()
    orig = A.a
    k = A.a.constant(c)
    check(k is not orig and not k.is_attached, 'the constant of a declared field is a new field')
    f = A()
    errs = f.map({'a': x})
    check(same(got(f), x) and len(errs) == 0, 'the declared field still maps its source')

    class B(A):
        a = k
    g = B()
    errs = g.map({'a': x})
    check(same(got(g), c) and len(errs) == 0, 'the derived field yields the constant')
    f = A()
    f.map({'a': x})
    check(same(got(f), x), 'the base form is not affected')
    check(A.fields[0] is orig and B.fields[0] is k, 'each class has its own field')
    c2 = any_value('c2')
    k2 = A.a.constant(c2)
    g = B()
    g.map({'a': x})
    check(same(got(g), c), 'a second constant does not affect the first')


def spec_constant_of_hooked():
    """the declared field has hooks itself"""
    class A(pilo.Form):
        a = pilo.Field()

        @a.compute
        def a(self):
            return 'computed'
    k = A.a.constant('const')

    class B(A):
        a = k
    f, g = A(), B()
    f.map({})
    g.map({})
    check(got(f) == 'computed' and got(g) == 'const', 'a constant replaces the computation of the derived field only')


def spec_unattached_constant():
    c, x = any_value('c'), any_value('x')
    before, field = pilo.Field(), pilo.Field()
    k = field.constant(c)
    after = pilo.Field()
    check(k is field, 'the constant of an undeclared field is that field')
    f, errs = mapped(field, {'a': x})
    check(same(got(f), c), 'it yields the constant')
    assume(x is not None)
    is_plain(choose(before, after), x)


def spec_options_left_out():
    """options left out keep their previous setting"""
    first = choose('nullable', 'default', 'optional', 'ignore', 'translate', 'tags')
    second = choose('nullable', 'default', 'optional', 'ignore2', 'translate2', 'tags2', 'nothing')
    assume(first != second and not (first in ('default', 'optional') and second in ('default', 'optional')))
    field = pilo.Field()
    apply(field, first, None)
    if second == 'ignore2':
        field.options(ignore='k')
    elif second == 'translate2':
        field.options(translate={'k': 'l'})
    elif second == 'tags2':
        field.options(tags='v')
    elif second == 'nothing':
        field.options()
    else:
        apply(field, second, None)
    if first == 'nullable':
        f, errs = mapped(field, {'a': None})
        check('a' not in f and len(errs) == 1, 'nullable stays as set')
    elif first == 'default':
        f, errs = mapped(field, {})
        check(got(f) == 'd' and len(errs) == 0, 'the default stays as set')
    elif first == 'optional':
        f, errs = mapped(field, {})
        check('a' not in f and len(errs) == 0, 'optional stays as set')
    elif first == 'ignore':
        f, errs = mapped(field, {'a': 'i'})
        check(got(f) != 'i', 'ignored values stay ignored')
    elif first == 'translate':
        f, errs = mapped(field, {'a': 'i'})
        check(got(f) == 'j', 'translations stay')
    else:
        check(field.has_tag('t'), 'tags stay')


def spec_accumulate():
    """ignores, translations and tags add up"""
    field = pilo.Field(optional=True).ignore('i').ignore('j').translate({'k': 1}).translate({'l': 2}).tag('t').tag('u')
    v = choose('i', 'j', 'k', 'l', 'm')
    f, errs = mapped(field, {'a': v})
    check(got(f) is {'i': NONE, 'j': NONE}.get(v, got(f)), 'all ignored values are ignored')
    if v in ('k', 'l', 'm'):
        check(got(f) == {'k': 1, 'l': 2, 'm': 'm'}[v], 'all translations apply')
    check(field.has_tag('t') and field.has_tag('u'), 'all tags are kept')


def spec_clone_of_captured():
    """what a clone captures is named like the clone"""
    one = fields.String('v', optional=True).capture('(?P<p>[ab]+)-(?P<q>[cd]+)')
    two = one.clone()
    if choose(True, False):
        one, two = two, one

    class F(pilo.Form):
        p = one
        q = two
    f = F()
    errs = f.map({'v': 'ab-dc'})
    check(len(errs) == 0 and f == {'p': 'ab', 'q': 'dc'}, 'each field captures the group of its own name')


def spec_caller_objects():
    """builders do not keep or change the objects they are given"""
    t = {'i': 'j'}
    a, b = pilo.Field(), pilo.Field()
    a.translate(t)
    b.translate(t)
    a.translate({'k': 'l'})
    check(t == {'i': 'j'}, 'the mapping given is not changed')
    f, errs = mapped(b, {'a': 'k'})
    check(got(f) == 'k', 'two fields given one mapping stay independent')


def spec_caller_options():
    """the same objects given to several fields as options"""
    lst, dct, pair = ['i'], {'i': 'j'}, ('t', 'u')
    how = choose('constructor', 'options')
    kind = choose('ignore', 'translate', 'tags')
    opts = {kind: {'ignore': lst, 'translate': dct, 'tags': pair}[kind]}
    a, b = (pilo.Field(**opts), pilo.Field(**opts)) if how == 'constructor' else \
        (pilo.Field().options(**opts), pilo.Field().options(**opts))
    data = choose('k', 'i')
    f, errs = mapped(b, {'a': data})
    want = got(f)
    a.ignore('k').translate({'k': 'l'}).tag('v')
    check(lst == ['i'] and dct == {'i': 'j'}, 'the objects given are not changed')
    f, errs = mapped(b, {'a': data})
    check(same(got(f), want) and len(errs) == 0 and not b.has_tag('v'), 'fields given the same options stay independent')
    dct['k'] = 'm'
    lst.append('k')
    f, errs = mapped(b, {'a': data})
    check(same(got(f), want), 'changing the objects given afterwards does not change the field')


def spec_constraints():
    """constraint builders"""
    kind = choose('Integer', 'Float', 'List', 'Date')
    x = any_value('x', 'int')
    if kind in ('Integer', 'Float'):
        make = fields.Integer
        data = {'a': x}
    elif kind == 'List':
        make = lambda: fields.List(pilo.Field())
        data = {'a': [1, 2, 3]}
    else:
        make = lambda: fields.Date()
        data = {'a': any_value('d', 'date')}
    before, field = make(), make()
    clone = field.clone()
    if kind == 'Date':
        field.between(any_value('lo', 'date'), any_value('hi', 'date'))
    else:
        field.range(5, 4)
    after = make()
    for other in (before, after, clone):
        f, errs = mapped(other, data)
        check(same(got(f), data['a']) if kind != 'List' else got(f) == [1, 2, 3],
              'a constraint applies to the field it was set on only')
        check(len(errs) == 0, 'and records nothing for the others')


def spec_constant_is_independent():
    """builders on the constant of a declared field or on that field affect only that one"""
    x = any_value('x', 'str')

    class A(pilo.Form):
        a = pilo.Field()
    orig = A.a
    k = orig.constant('i')
    how = choose('options', 'ignore', 'translate', 'tags', 'munge', 'filter', 'validate')
    changed, kept = choose((orig, k), (k, orig))
    if how == 'options':
        changed.options(nullable=False, default='d', attach_parent=False)
    elif how == 'ignore':
        changed.options(default='d').ignore('i', 'j')
    elif how == 'translate':
        changed.translate({'i': 'j'})
    elif how == 'tags':
        changed.tag('t')
    elif how == 'munge':
        @changed.munge
        def munge(self, value):
            return 'munged'
    elif how == 'filter':
        @changed.filter
        def filter(self, value):
            return False
    else:
        @changed.validate
        def validate(self, value):
            return False

    class B(A):
        a = k
    check(not kept.has_tag('t'), 'a tag is on the field it was put on only')
    if kept is k:
        f = B()
        errs = f.map({'a': x})
        check(f == {'a': 'i'} and len(errs) == 0, 'builders on a field do not affect a constant derived from it')
    else:
        f = A()
        errs = f.map({'a': x})
        check(same(got(f), x) and len(errs) == 0, 'builders on a constant do not affect the field it was derived from')
        f = A()
        errs = f.map({'a': None})
        check(got(f) is None and len(errs) == 0, 'nor whether it is nullable')
        f = A()
        errs = f.map({})
        check('a' not in f and len(errs) == 1, 'nor its default')


def spec_constant_keeps_the_rest():
    """a constant made of an attached field is that field in all else"""
    class F(pilo.Form):
        a = fields.Integer('src', default=9, nullable=False).ignore(5).translate({6: 7}).tag('t').min(3)
    how = choose('constant', 'clone', 'both')
    n, want = choose((5, 9), (6, 7), (2, NONE), (4, 4), (None, NONE))

    class G(pilo.Form):
        b = F.a.constant(n) if how == 'constant' else F.a.clone() if how == 'clone' else F.a.clone().constant(n)
    g = G()
    errs = g.map({'src': n}, tags=['t'])
    check(got(g, 'b') == want, 'ignores, translations, tags, key, bounds and default are those of the field')
    check(len(errs) == (1 if want is NONE else 0), 'what it refuses is refused')
    check(F.a.ignores == [5] and F.a.translations == {6: 7} and not F.a.compute, 'the field stays as it is')
