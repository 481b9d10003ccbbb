"""C19: hooks accept only matching signatures and run against the form."""
from base import *
from pilo.source import JsonSource

NOARG = ('compute', 'resolve', 'default')
VALUE = ('munge', 'filter', 'validate')
HOOKS = NOARG + VALUE + ('parse',)


def candidates():
    """functions of many signatures, with the hooks each of them fits"""
    def none(self):
        return None

    def value(self, value):
        return None

    def path(self, path):
        return None

    def key(self, key):
        return None

    def this(this):
        return None

    def this_value(this, value):
        return None

    def nothing():
        return None

    def two(self, value, other):
        return None

    def defaulted(self, value=None):
        return None

    def star(self, *value):
        return None

    def kwargs(self, **value):
        return None

    def trailing(self, value, **kwargs):
        return None

    def just_value(value):
        return None

    def extra(self, path, value):
        return None

    def stars(*args, **kwargs):
        return None
    return (('none', none, NOARG), ('value', value, VALUE), ('path', path, ('parse',)), ('key', key, ('key_filter',)),
            ('this', this, ()), ('this_value', this_value, ()), ('nothing', nothing, ()), ('two', two, ()),
            ('defaulted', defaulted, ()), ('star', star, ()), ('kwargs', kwargs, ()), ('trailing', trailing, ()),
            ('just_value', just_value, ()), ('extra', extra, ()), ('stars', stars, ()))


def registration(kind):
    field, _ = build(kind)
    hooks = HOOKS + (('key_filter',) if kind == 'Dict' else ())
    if kind == 'Type':
        # an identity's default is its own business
        hooks = tuple(h for h in hooks if h != 'default')
    for hook in hooks:
        if not isinstance(getattr(field, hook), fields.Hook):
            continue
        for name, func, fits in candidates():
            h = getattr(field, hook)
            try:
                r = h(func)
                accepted = True
            except TypeError:
                accepted = False
            if hook in fits:
                check(accepted, 'a function with the signature of the step is accepted', hook, name)
                check(r is field, 'registering returns the field', hook, name)
                check(bool(getattr(field, hook)), 'a registered hook is set')
                field, _ = build(kind)
            else:
                check(not accepted, 'a function with another signature raises a type error', hook, name)
                check(not getattr(field, hook), 'a hook that was refused stays unset', hook, name)


def spec_signatures_scalars():
    registration(choose('Field', 'String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'Time', 'Datetime', 'UUID',
                        'Code'))


def spec_signatures_containers():
    registration(choose('Tuple', 'List', 'Dict', 'SubForm', 'PolymorphicSubForm'))


def spec_refused_has_no_effect():
    """a refused registration leaves the field working"""
    hook = choose(*HOOKS)
    x = any_value('x')
    field = pilo.Field()

    def wrong(self, some, thing):
        return 'wrong'
    try:
        getattr(field, hook)(wrong)
        raised = False
    except TypeError:
        raised = True
    f, errs = mapped(field, {'a': x})
    check(raised and same(got(f), x) and len(errs) == 0, 'a refused hook is never invoked')


def spec_outermost():
    """registering on a nested field returns the field the attribute is about"""
    inner = pilo.Field()
    depth = choose(0, 1, 2, 'key', 'value')
    if depth == 0:
        outer = inner
    elif depth == 1:
        outer = fields.List(inner)
    elif depth == 2:
        outer = fields.List(fields.Dict(fields.String(), inner))
    elif depth == 'key':
        outer = fields.Dict(inner, fields.Integer())
    else:
        outer = fields.Dict(fields.String(), inner)

    def munge(self, value):
        return value

    def validate(self, value):
        return True

    def compute(self):
        return 1
    hook, func = choose(('munge', munge), ('validate', validate), ('compute', compute))
    check(getattr(inner, hook)(func) is outer, 'registering returns the outermost field')
    check(bool(getattr(inner, hook)), 'the hook is set on the field it was registered on')
    if depth != 0:
        check(not getattr(outer, hook), 'and not on the outermost')


def spec_arguments():
    """what a hook is called with"""
    x = any_value('x')
    assume(x is not None)
    calls = []

    class F(pilo.Form):
        a = pilo.Field()
        d = pilo.Field()
        r = pilo.Field()

        @a.parse
        def a(self, path):
            calls.append(('parse', self, path.value))
            return path.value

        @a.munge
        def a(self, value):
            calls.append(('munge', self, value))
            return value

        @a.filter
        def a(self, value):
            calls.append(('filter', self, value))
            return True

        @a.validate
        def a(self, value):
            calls.append(('validate', self, value))
            return True

        @d.default
        def d(self):
            calls.append(('default', self))
            return 1

        @r.resolve
        def r(self):
            calls.append(('resolve', self))
            return None

        @r.compute
        def r(self):
            calls.append(('compute', self))
            return 2
    f = F()
    nested = choose(True, False)
    if nested:
        class G(pilo.Form):
            i = choose(fields.SubForm(F), fields.List(F))
        g = G()
        g.map({'i': {'a': x} if isinstance(G.i, fields.SubForm) else [{'a': x}]})
        f = got(g, 'i')
        if isinstance(f, list):
            f = f[0]
    else:
        f.map({'a': x})
    check([c[0] for c in calls] == ['parse', 'munge', 'filter', 'validate', 'default', 'resolve', 'compute'],
          'every hook is invoked')
    for c in calls:
        check(c[1] is f, 'a hook is invoked with the form being mapped', c[0])
        if c[0] == 'parse':
            check(same(c[2], x), 'a parse hook is given the path of the value')
        elif len(c) == 3:
            check(same(c[2], x), 'a value hook is given the value')


def spec_nested_target():
    """hooks of fields nested in fields run against the form as well"""
    x = any_value('x')
    assume(x is not None)
    calls = []
    inner, key = pilo.Field(), pilo.Field()

    @inner.munge
    def munge(self, value):
        calls.append((self, value))
        return value

    @key.munge
    def munge(self, value):
        calls.append((self, value))
        return value
    which = choose('list', 'tuple', 'dict')
    outer = {'list': fields.List(inner), 'tuple': fields.Tuple([inner]), 'dict': fields.Dict(key, inner)}[which]

    class F(pilo.Form):
        a = outer
    f = F()
    f.map({'a': {'k': x} if which == 'dict' else [x]})
    check(len(calls) == (2 if which == 'dict' else 1), 'each nested hook is invoked once')
    for target, v in calls:
        check(target is f, 'a nested hook is invoked with the form')


def spec_attached():
    """a hook attached to a target is invoked with it"""
    x, target = any_value('x'), ['target']
    seen = []
    field = pilo.Field()

    def munge(self, value):
        seen.append((self, value))
        return value
    field.munge.attach(target)(munge)
    f, errs = mapped(field, {'a': x})
    check(len(seen) == 1 and seen[0][0] is target and same(seen[0][1], x), 'a hook runs against the target given')


def spec_key_filter_target():
    seen = []
    field = fields.Dict(fields.String(), pilo.Field())

    @field.key_filter
    def keep(self, key):
        seen.append((self, key))
        return True
    f, errs = mapped(field, {'a': {'k': 1}})
    check(len(seen) == 1 and seen[0][0] is f and seen[0][1] == 'k', 'a key filter is invoked with form and key')


def spec_one_field_only():
    """registering on one field leaves the others alone"""
    x, y = any_value('x'), any_value('y')
    kind = choose('Field', 'List', 'Dict')

    def make():
        return {'Field': pilo.Field, 'List': lambda: fields.List(pilo.Field()),
                'Dict': lambda: fields.Dict(pilo.Field(), pilo.Field())}[kind]()
    before, field, after = make(), make(), None
    hook = choose(*HOOKS)

    def none(self):
        return None if hook == 'resolve' else 'hooked'

    def value(self, value):
        return 'hooked'

    def path(self, path):
        return 'hooked'
    func = none if hook in NOARG else value if hook in VALUE else path
    getattr(field, hook)(func)
    after = make()
    for other in (before, after):
        for h in HOOKS:
            check(not getattr(other, h), 'a hook registered on one field is not set on another')
    if kind == 'List':
        check(not getattr(field.field, hook), 'nor on a nested one')
        check(not getattr(before.field, hook), 'nor on one nested in another')


def spec_hooks_of_one_field():
    """setting one hook leaves the other hooks of the field unset"""
    field = pilo.Field()
    hook = choose(*HOOKS)

    def none(self):
        return 1

    def value(self, value):
        return 1

    def path(self, path):
        return 1
    getattr(field, hook)(none if hook in NOARG else value if hook in VALUE else path)
    for h in HOOKS:
        check(bool(getattr(field, h)) == (h == hook), 'exactly the hook registered on is set')


def spec_inherited_form():
    """a hook of an inherited field runs against the sub-class' form"""
    seen = []

    class A(pilo.Form):
        a = pilo.Field()

        @a.munge
        def a(self, value):
            seen.append(self)
            return value

    class B(A):
        b = pilo.Field(default=1)
    f = B()
    f.map({'a': 1})
    check(len(seen) == 1 and seen[0] is f, 'an inherited hook runs against the form being mapped')


def spec_read_target():
    """reading an attribute invokes hooks with the form read"""
    seen = []

    class F(pilo.Form):
        a = pilo.Field()

        @a.compute
        def a(self):
            seen.append(self)
            return 1
    f, g = F(), F()
    f.a
    check(len(seen) == 1 and seen[0] is f, 'a hook runs against the form that is read')
    g.a
    check(len(seen) == 2 and seen[1] is g, 'and then against the other')


def spec_callable_value():
    """a value hook given a callable value is invoked, not registered again"""
    def fn():
        return 1
    seen = []
    field = pilo.Field()

    @field.munge
    def munge(self, value):
        seen.append(value)
        return value
    f, errs = mapped(field, {'a': fn})
    check(len(seen) == 1 and seen[0] is fn and got(f) is fn, 'a callable value goes through a hook like any other')


def spec_target_survives_clone():
    """a hook attached to something runs against that, also in a clone"""
    class Target(object):
        pass
    t = Target()
    seen = []
    field = pilo.Field()

    def munge(self, value):
        seen.append(self)
        return value
    own = choose(True, False)
    field.munge.attach(field if own else t)(munge)
    other = field.clone()
    f, errs = mapped(other, {'a': 1})
    check(len(errs) == 0 and got(f) == 1, 'the clone is mapped')
    check(len(seen) == 1 and seen[0] is (other if own else t), 'the hook of the clone runs against its target')
    del seen[:]
    f, errs = mapped(field, {'a': 1})
    check(len(seen) == 1 and seen[0] is (field if own else t), 'the hook of the original against its own')


def spec_functions_as_values():
    """a value that is a function is a value"""
    seen = []

    def value(self, value):
        seen.append('never')
        return 1
    hook = choose('munge', 'filter', 'validate')
    field = pilo.Field()

    def func(self, value):
        seen.append(value)
        return value
    getattr(field, hook)(func)
    f, errs = mapped(field, {'a': value})
    check(len(errs) == 0 and got(f) is value and len(seen) == 1 and seen[0] is value,
          'a hook called with a function is called with it')
    check(getattr(field, hook).func is func, 'and stays what it is')
    f, errs = mapped(field, {'a': 3})
    check(got(f) == 3 and len(seen) == 2, 'also afterwards')
