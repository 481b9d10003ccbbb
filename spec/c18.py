"""C18: declared fields are complete, named, and ordered by declaration."""
from base import *


def is_list(cls, *declared):
    """cls.fields is exactly the given fields in that order"""
    if len(cls.fields) != len(declared):
        return False
    for x, y in zip(cls.fields, declared):
        if x is not y:
            return False
    return True


def spec_order():
    """any order of names"""
    first, second, third = choose(('a', 'b', 'c'), ('c', 'b', 'a'), ('b', 'c', 'a'), ('z', '_y', 'X'))
    p, q, r = pilo.Field(), fields.Integer(), fields.List(fields.String())
    F = type('F', (pilo.Form,), {third: r, first: p, second: q})
    check(is_list(F, p, q, r), 'fields are listed once, in the order they were created')
    for f, n in ((p, first), (q, second), (r, third)):
        check(f.name == n and f.src == n, 'a field knows its attribute name and defaults its source key to it')
        check(getattr(F, n) is f and f.is_attached and f.parent is F, 'a field belongs to its form class')


def spec_source_key():
    key = any_value('key', 'str', 'int')
    how = choose('given', 'none', 'default')
    if how == 'given':
        f = choose(pilo.Field(key), fields.Integer(key), fields.String(src=key))
        assume(isinstance(key, str) or not isinstance(f, fields.String) or True)
    elif how == 'none':
        f = pilo.Field(None)
    else:
        f = pilo.Field()

    class F(pilo.Form):
        a = f
        b = pilo.Field('a')
    check(F.a.name == 'a' and F.b.name == 'b', 'a field is named by its attribute')
    if how == 'given':
        check(same(F.a.src, key), 'an explicit source key is never renamed')
    elif how == 'none':
        check(F.a.src is None, 'an explicitly absent source key stays absent')
    else:
        check(F.a.src == 'a', 'the source key defaults to the attribute name')
    check(F.b.src == 'a', 'another field may use the same source key')


def spec_inherit():
    class A(pilo.Form):
        x = pilo.Field()
        y = pilo.Field()
    x, y = A.x, A.y

    class B(A):
        z = pilo.Field()
    check(is_list(A, x, y), 'sub-classing does not change the base')
    check(is_list(B, x, y, B.z), 'inherited fields come first, each once')
    check(x.parent is A and y.parent is A and B.z.parent is B, 'an inherited field stays attached to its class')
    check(B.x is x and B.z.name == 'z', 'an inherited field is the same field')


def spec_declared_before_base_fields():
    """a field created before the base's fields"""
    early = pilo.Field()

    class A(pilo.Form):
        x = pilo.Field()

    class B(A):
        e = early
        w = pilo.Field()
    check(is_list(B, early, A.x, B.w), 'the order is that of declaration')


def spec_override():
    class A(pilo.Form):
        x = pilo.Field()
        y = pilo.Field()
        z = pilo.Field()
    x, y, z = A.x, A.y, A.z
    which = choose('x', 'y', 'z')
    o, n = fields.Integer(), pilo.Field()
    B = type('B', (A,), {which: o, 'n': n})
    expected = [o if k == which else f for k, f in (('x', x), ('y', y), ('z', z))] + [n]
    check(is_list(B, *expected), 'an overriding field takes the place of the overridden one')
    check(is_list(A, x, y, z), 'overriding does not change the base')
    check(o.name == which and o.src == which and o.parent is B, 'an overriding field is named like the overridden')
    C = type('C', (B,), {})
    check(is_list(C, *expected), 'a further sub-class inherits the same list')
    p = pilo.Field()
    D = type('D', (C,), {which: p})
    check(is_list(D, *[p if f is o else f for f in expected]), 'overriding again keeps the place')
    check(is_list(B, *expected), 'overriding again leaves the classes in between alone')


def spec_override_of_later_base():
    """the field that is overridden is one of a base that is not the first"""
    class A(pilo.Form):
        x = pilo.Field()

    class B(pilo.Form):
        y = pilo.Field()
        z = pilo.Field()

    class M(object):
        w = 1
    o = pilo.Field()
    which = choose('y', 'z')
    C = type('C', choose((A, B), (M, B), (M, A, B)), {which: o})
    head = [A.x] if issubclass(C, A) else []
    check(is_list(C, *(head + [o if which == 'y' else B.y, o if which == 'z' else B.z])),
          'an overriding field takes the place of the overridden one, whichever base that is of')
    check(is_list(B, B.y, B.z), 'the base keeps its list')


def spec_override_two():
    class A(pilo.Form):
        x = pilo.Field()
        y = pilo.Field()
    y2, x2 = pilo.Field(), pilo.Field()
    B = type('B', (A,), {'x': x2, 'y': y2})
    check(is_list(B, x2, y2), 'overriding fields keep the order of the base, not their own')


def spec_multiple():
    class A(pilo.Form):
        x = pilo.Field()

    class B(pilo.Form):
        y = pilo.Field()

    class C(A, B):
        z = pilo.Field()
    check(is_list(C, A.x, B.y, C.z), 'the fields of all bases are listed once')

    class Base(pilo.Form):
        p = pilo.Field()

    class L(Base):
        q = pilo.Field()

    class R(Base):
        r = pilo.Field()

    class D(L, R):
        pass
    check(is_list(D, Base.p, L.q, R.r), 'a field reached by two ways is listed once')
    check(is_list(Base, Base.p) and is_list(L, Base.p, L.q), 'the bases keep their lists')


def spec_removed():
    """an attribute of a sub-class hides an inherited field"""
    class A(pilo.Form):
        x = pilo.Field()
        y = pilo.Field()

    class B(A):
        x = None
    check(is_list(B, A.y) and len(A.fields) == 2, 'a hidden field is not listed')


def spec_alias():
    f = pilo.Field()

    class A(pilo.Form):
        x = f
        y = f
        z = pilo.Field()
    check(is_list(A, f, A.z), 'a field bound to two names is listed once')
    check(f.name in ('x', 'y') and f.src == f.name, 'it knows one of its names')


def spec_not_fields():
    class A(pilo.Form):
        limit = 3
        names = ['a']
        x = pilo.Field()

        def method(self):
            return self.limit

        @property
        def prop(self):
            return 1
    check(is_list(A, A.x), 'only fields are listed')
    check(is_list(pilo.Form), 'the base form has no fields')


def spec_from_fields():
    p, q = pilo.Field(), fields.Integer('k')
    F = pilo.Form.from_fields(b=p, a=q)
    check(is_list(F, p, q) and issubclass(F, pilo.Form), 'a form made from fields lists them in declaration order')
    check(p.name == 'b' and p.src == 'b' and q.name == 'a' and q.src == 'k', 'and names them')
    check(is_list(pilo.Form), 'the base is left alone')
    r = pilo.Field()
    G = F.from_fields(c=r)
    check(is_list(G, p, q, r) and is_list(F, p, q), 'a form derived from fields extends its base')
    s = fields.SubForm.from_fields(x=pilo.Field())
    check([f.name for f in s.form_type.fields] == ['x'], 'a sub-form made from fields lists them')


def spec_decorated():
    """registering a hook under the attribute name keeps the field"""
    class A(pilo.Form):
        x = pilo.Field()
        y = fields.List(fields.Integer())

        @x.munge
        def x(self, value):
            return value

        @y.field.munge
        def y(self, value):
            return value
    check([f.name for f in A.fields] == ['x', 'y'], 'decorating keeps the attribute and its place')
    check(isinstance(A.y, fields.List) and isinstance(A.x, pilo.Field), 'decorating keeps the field')


def spec_nested_not_listed():
    inner = fields.Integer()

    class A(pilo.Form):
        x = fields.List(inner)
        y = fields.Dict(fields.String(), fields.Integer())
    check(is_list(A, A.x, A.y), 'fields nested in fields are not listed')
    check(inner.parent is A.x, 'a nested field belongs to the field it is nested in')


def spec_positional():
    """sequences fill the fields in that order"""
    class A(pilo.Form):
        b = pilo.Field()
        a = pilo.Field()

    class B(A):
        c = pilo.Field()
        b = pilo.Field()
    p, q, r = any_value('p'), any_value('q'), any_value('r')
    f = B()
    errs = f.map([p, q, r])
    check(len(errs) == 0 and same(f['b'], p) and same(f['a'], q) and same(f['c'], r),
          'positions follow the declared order')


def spec_override_of_two():
    """several bases declare the name: the place of the one that is overridden is taken over"""
    class A(pilo.Form):
        x = pilo.Field()
        y = pilo.Field()

    class B(pilo.Form):
        z = pilo.Field()
        x = pilo.Field()
    o = pilo.Field()
    if choose(True, False):
        C = type('C', (A, B), {'x': o})
        check(is_list(C, o, A.y, B.z), 'an overriding field takes the place of the field it hides')
    else:
        C = type('C', (B, A), {'x': o})
        check(is_list(C, A.y, B.z, o), 'an overriding field takes the place of the field it hides')
    check(is_list(A, A.x, A.y) and is_list(B, B.z, B.x), 'the bases keep their lists')


def spec_unusual_names():
    """fields of any name, any number of them"""
    class F(pilo.Form):
        __p = pilo.Field(optional=True)
        _q = pilo.Field(optional=True)
        R = pilo.Field(optional=True)
        s9 = pilo.Field(optional=True)
        __t__ = pilo.Field(optional=True)
    check([f.name for f in F.fields] == ['_F__p', '_q', 'R', 's9', '__t__'], 'fields are fields whatever they are called')
    for f in F.fields:
        check(f.src == f.name and f.is_attached and getattr(F, f.name) is f, 'each is attached under its name')
    attrs = {}
    for i in range(45):
        attrs['f%d' % (44 - i)] = pilo.Field(optional=True)
    G = type('G', (pilo.Form,), attrs)
    check(len(G.fields) == 45 and sorted([f.name for f in G.fields]) == sorted(attrs.keys()), 'a form may have any number of fields')
