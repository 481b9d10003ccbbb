"""C47: a form tells which fields it has, and nested values know their parent."""
from base import *


class Nested(pilo.Form):
    d = fields.Integer(optional=True)


def spec_has_held():
    """a value that is held"""
    x = any_value('x')
    assume(not is_missing(x))
    log = []

    class F(pilo.Form):
        a = pilo.Field()

        @a.compute
        def a(self):
            log.append(1)
            return 'computed'
    f = F()
    f['a'] = x
    how = choose('name', 'field')
    r = f.has('a' if how == 'name' else F.a)
    if x is not None:
        check(r is True, 'a form has the fields it holds a value of')
    elif how == 'name':
        check(r is True, 'a form has the names it holds')
    check(log == [] and len(f) == 1 and same(got(f), x), 'asking for a value that is held maps nothing')


def spec_has_other_entry():
    """an entry that is not a declared field"""
    f = Nested()
    f['other'] = any_value('x')
    check(f.has('other') is True, 'a form has the names it holds')
    check(f.has('nothing') is False, 'a form does not have what is neither declared nor held')
    check(f.has(choose('keys', 'map', 'fields', 'ctx', '__class__', '')) is False,
          'methods and attributes of the class are no fields')
    check(len(f) == 1, 'asking adds nothing for names that are not declared')


def spec_has_mappable():
    """a field that is not mapped yet"""
    what = choose('value', 'none', 'missing', 'invalid', 'error', 'default')
    x = any_value('x', 'int', 'str', 'bool', 'list')

    class F(pilo.Form):
        a = pilo.Field(nullable=(what != 'invalid'))
        if what == 'default':
            a.default = 'd'

        @a.compute
        def a(self):
            return {'value': x, 'none': None, 'missing': NONE, 'invalid': None, 'error': ERROR, 'default': NONE}[what]
    f = F()
    where = choose('outside', 'collecting', 'raising')
    ask = F.a if choose(True, False) else 'a'
    if where == 'outside':
        r = f.has(ask)
    else:
        errors = fields.CollectErrors() if where == 'collecting' else fields.RaiseErrors()
        with pilo.ctx(src=DefaultSource({}), form=f, parent=f, errors=errors):
            r = f.has(ask)
    if what in ('value', 'default'):
        check(r is True, 'a form has a field that can be mapped')
        check(same(got(f), x if what == 'value' else 'd'), 'and holds its value from then on')
    else:
        check(r is False, 'a form does not have a field that cannot be mapped to a value')
        if what != 'none':
            check(len(f) == 0, 'and holds nothing for it')


def spec_has_lookup():
    """a hook that looks something up that is not there"""
    ex = choose(KeyError('k'), IndexError('i'), AttributeError('b'))

    class F(pilo.Form):
        a = pilo.Field()
        b = pilo.Field(default=1)

        @choose(a.compute, a.default)
        def a(self):
            raise ex
    f = F()
    check(f.has(choose('a', F.a)) is False, 'a form does not have what the hooks of a field find nothing for')
    check(len(f) == 0 and f.has('b') is True, 'and nothing is left behind')


def spec_has_from_source():
    """asked by a hook while the form is mapped"""
    seen = []
    data = choose({'a': 1, 'b': 2}, {'a': 1}, {'a': 1, 'b': None}, {'a': 1, 'b': 0})

    class F(pilo.Form):
        a = fields.Integer()
        b = fields.Integer(optional=True)

        @a.munge
        def a(self, value):
            seen.append(self.has('b'))
            return value
    f = F()
    errs = f.map(data)
    check(seen == [data.get('b') is not None], 'a form being mapped has the fields its source has a value for')
    check(len(errs) == 0 and ('b' in f) == ('b' in data), 'asking does not change what is mapped')


def spec_has_inherited():
    class G(Nested):
        e = fields.Integer(default=3)
    g = G()
    check(g.has('e') is True and g.has(G.d) is False, 'inherited and own fields are asked for alike')
    errs = g.map({'d': 1})
    check(len(errs) == 0 and g.has('d') is True and g.has(Nested.d) is True, 'inherited and own fields are asked for alike')


def spec_has_inherited_mappable():
    class Low(pilo.Form):
        a = fields.Integer(default=3)

    class High(Low):
        b = fields.Integer(default=4)
    f = High()
    name = choose('a', 'b')
    check(f.has(name) is True and len(f) == 1, 'inherited and own fields are asked for alike')
    check(f.has(Low.a) is True and f.has(High.b) is True and f == {'a': 3, 'b': 4}, 'inherited and own fields are asked for alike')


def spec_has_of_something_else():
    x = any_value('x', 'int', 'None', 'list', 'object', 'bool')
    f = Nested()
    f['d'] = 1
    try:
        f.has(x)
    except TypeError:
        reach('only names and fields can be asked for')
        return
    fail('asking for what is neither name nor field is a type error')


def spec_has_stack():
    """asking leaves the context as it was"""
    class F(pilo.Form):
        a = fields.Integer()
    f = F()
    outside = len(pilo.ctx.stack)
    r = f.has(choose('a', 'b', F.a))
    check(r is False and len(pilo.ctx.stack) == outside, 'asking leaves no frames behind')


def tree(attach):
    class Out(pilo.Form):
        a = fields.SubForm(Nested, attach_parent=attach)
        b = pilo.Field(default=1)
    return Out


def spec_parent():
    attach = choose(True, False)
    x = any_value('x', 'int')
    Out = tree(attach)
    f = Out()
    errs = f.map({'a': {'d': x}, 'b': 5})
    check(len(errs) == 0, 'attaching is no error')
    a = got(f)
    check(hasattr(a, 'parent') == attach, 'exactly values of fields that attach their parent have one')
    if attach:
        check(a.parent.get('b') == 5, 'the parent is the form the value belongs to')
        a.parent['b'] = 6
        check(got(f, 'b') == 6, 'the parent is the form the value belongs to')
        check(type(a) is Nested and len(a) == 1 and same(got(a, 'd'), x), 'attaching changes no entry')


def spec_parent_of_each():
    """in several forms each value has its own parent"""
    Out = tree(True)

    class Outer(pilo.Form):
        l = fields.List(fields.SubForm(Out))
        b = pilo.Field()
    f = Outer()
    errs = f.map({'l': [{'a': {}, 'b': 1}, {'a': {'d': 2}, 'b': 2}], 'b': 'outer'})
    check(len(errs) == 0, 'attaching is no error')
    one, two = got(f, 'l')
    check(got(one).parent.get('b') == 1 and got(two).parent.get('b') == 2, 'each value is attached to its own form')
    check(not hasattr(one, 'parent'), 'exactly values of fields that attach their parent have one')


def spec_parent_poly():
    class Out(pilo.Form):
        a = fields.PolymorphicSubForm(Animal.kind, attach_parent=True)
        b = pilo.Field(default=1)
    f = Out()
    errs = f.map({'a': {'kind': choose('cat', 'dog'), 'name': 'n'}})
    check(len(errs) == 0 and got(f).parent.get('b', 7) == 1, 'the parent is the form the value belongs to')


def spec_parent_absent():
    """without a value there is nothing to attach"""
    how = choose('missing', 'null', 'invalid', 'default none')
    Out = tree(True)
    if how == 'default none':
        class Out(Out):
            a = fields.SubForm(Nested, attach_parent=True, default=None)
    f = Out()
    errs = f.map({'missing': {}, 'null': {'a': None}, 'invalid': {'a': {'d': []}}, 'default none': {}}[how])
    if how in ('null', 'default none'):
        check(len(errs) == 0 and 'a' in f and got(f) is None, 'a null has no parent')
    else:
        check(len(errs) == 1 and 'a' not in f, 'a missing or invalid value has no parent')


def spec_parent_by_reading():
    """the value is mapped by reading the attribute"""
    class Out(pilo.Form):
        a = pilo.Field(attach_parent=True)
        b = pilo.Field(default=1)

        @a.compute
        def a(self):
            return Nested()
    f, g = Out(), Out()
    g['b'] = 2
    a, b = f.a, g.a
    check(b.parent.get('b') == 2, 'a value mapped by reading is attached to the form it was read from')
    f['b'] = 9
    check(a.parent.get('b') == 9, 'a value mapped by reading is attached to the form it was read from')


def spec_parent_default():
    """defaults are attached as well"""
    nested = Nested()

    class Out(pilo.Form):
        a = pilo.Field(attach_parent=True, default=lambda: nested)
        b = pilo.Field()
    f = Out()
    errs = f.map({'b': 3})
    check(len(errs) == 0 and got(f) is nested and nested.parent.get('b') == 3, 'a default is attached to its form')


def spec_parent_alone():
    """a field mapped on its own has no form"""
    field = fields.SubForm(Nested, attach_parent=True)
    with mapping_context({'d': 3}) as errors:
        value = field.map()
    check(len(errors) == 0 and got(value, 'd') == 3 and value.parent is None, 'a value mapped outside of forms has no parent')


def spec_parent_derived():
    """copies of the field attach as well"""
    class Out(pilo.Form):
        a = fields.SubForm(Nested, attach_parent=True)

    class Other(pilo.Form):
        z = Out.a.clone()
        b = pilo.Field()
    f = Other()
    errs = f.map({'a': {'d': 1}, 'b': 4})
    check(len(errs) == 0 and got(f, 'z').parent.get('b') == 4, 'a copy attaches to the form it is in')


def spec_parent_by_reading_elsewhere():
    """a hook of one form reads an attribute of another, which is not being mapped"""
    class Out(pilo.Form):
        a = pilo.Field(attach_parent=True)
        b = pilo.Field(default=1)

        @a.compute
        def a(self):
            return Nested()
    other = Out()
    other['b'] = 2

    class Reader(pilo.Form):
        r = pilo.Field()

        @r.compute
        def r(self):
            return other.a.parent.get('b')
    f = Reader()
    errs = f.map({})
    check(len(errs) == 0 and got(f, 'r') == 2, 'a value mapped by reading is attached to the form it was read from')
    check(other.a.parent.get('b') == 2, 'a value mapped by reading is attached to the form it was read from')
