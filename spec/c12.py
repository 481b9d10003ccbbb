"""C12: polymorphic forms are dispatched by their declared identity."""
from base import *


class Shape(pilo.Form):
    tag = fields.Type.abstract()


class Round(Shape):
    tag = fields.Type.constant('round')
    r = fields.Integer()


class Angular(Shape):
    tag = fields.Type.instance('angular', 'pointy')
    n = fields.Integer(default=3)


class Square(Angular):
    tag = fields.Type.constant('square')
    side = fields.Integer(default=1)


class Plain(Angular):
    """inherits its identities"""
    m = fields.Integer(default=0)


TABLE = {'round': Round, 'angular': Angular, 'pointy': Angular, 'square': Square}


def spec_cast_any():
    t = any_value('t')
    try:
        cls = Shape.tag.cast({'tag': t})
    except ValueError:
        check(not isinstance(t, str) or t not in TABLE, 'a declared identity is dispatchable')
        return
    check(isinstance(t, str) and t in TABLE, 'only declared identities are dispatched')
    check(cls is TABLE[t], 'the class that declares the identity is picked')


def spec_cast_absent():
    data = choose({}, {'other': 1}, {'tag': None})
    try:
        Shape.tag.cast(data)
    except ValueError:
        reach('an identity that cannot be determined is a value error')
        return
    fail('no class is picked without an identity')


def spec_probe():
    t = any_value('t', 'str')
    check(same(Shape.tag.probe({'tag': t}), t), 'probing finds the identity in the value')


def spec_sub_form_any():
    t = any_value('t')
    v = any_value('v', 'int')
    field = fields.PolymorphicSubForm(Shape.tag)
    f, errs = mapped(field, {'a': {'tag': t, 'r': v, 'n': v, 'side': v}})
    r = got(f)
    if isinstance(t, str) and t in TABLE:
        check(type(r) is TABLE[t] and len(errs) == 0, 'a declared identity yields a form of the class declaring it')
        check(r['tag'] == t, 'the form holds its identity')
        if t == 'round':
            check(r == {'tag': 'round', 'r': v}, 'the form is mapped completely with its class')
        elif t == 'square':
            check(r == {'tag': 'square', 'n': v, 'side': v}, 'including inherited fields')
        else:
            check(r['n'] == v and len(r) == 2, 'and nothing of the sub-classes')
    elif t is None:
        check(r is NONE and len(errs) >= 1 or r is None, 'a null identity yields no form')
    else:
        check(r is NONE and len(errs) == 1 and type(errs[0]) is fields.Invalid, 'an undeclared identity is invalid')
        check(errs[0].field is field or errs[0].field.name == 'tag', 'reported on the field or its identity')


def spec_sub_form_undetermined():
    data = choose({}, {'r': 1})
    field = fields.PolymorphicSubForm(Shape.tag)
    f, errs = mapped(field, {'a': data})
    check(got(f) is NONE and len(errs) == 1 and type(errs[0]) is fields.Invalid, 'an undetermined identity is invalid')


class Parcel(pilo.Form):
    tag = fields.Type.instance('parcel', 'box')


class Letter(Parcel):
    tag = fields.Type.constant('letter')


def spec_optional_identity():
    """an identity that is optional still has to be there to be dispatched on"""
    data = choose({}, {'r': 1})
    base = choose(Parcel, Angular)
    field = fields.PolymorphicSubForm(base.tag)
    f, errs = mapped(field, {'a': data})
    check(got(f) is NONE and len(errs) == 1 and type(errs[0]) is fields.Invalid and errs[0].field is field,
          'an identity that is not there is invalid')
    try:
        base.tag.cast(data)
        fail('no class is picked without an identity')
    except ValueError:
        reach('an identity that cannot be determined is a value error')


def spec_probe_default():
    """probing can fall back to a default"""
    d = any_value('d', 'str', 'None', 'int')
    base = choose(Shape, Parcel)
    types = pilo.Types.map(base.tag)
    check(same(types.probe({'r': 1}, d), d), 'what cannot be determined is the default')
    check(types.probe({'tag': 'box'}, d) == 'box', 'what is there is no default')


def spec_in_list():
    field = fields.List(fields.PolymorphicSubForm(Shape.tag))
    f, errs = mapped(field, {'a': [{'tag': 'round', 'r': 1}, {'tag': 'square'}, {'tag': 'pointy'}]})
    check(len(errs) == 0 and [type(x) for x in got(f)] == [Round, Square, Angular], 'each item is dispatched by itself')


def spec_inherited_identity():
    """a sub-class that merely inherits an identity does not take it over"""
    t = choose('angular', 'pointy')
    check(Shape.tag.cast({'tag': t}) is Angular, 'an inherited identity stays with the class declaring it')


def spec_inherited_by_two_ways():
    """a class that inherits an identity by another base than the one it is found by first"""
    class A(pilo.Form):
        t = fields.Type.abstract()

    class L(A):
        x = fields.Integer(default=1)

    class R(A):
        t = fields.Type.instance('r', 's')

    class X(*choose((L, R), (R, L))):
        y = fields.Integer(default=2)

    class Z(X):
        t = fields.Type.constant('z')
    k, cls = choose(('r', R), ('s', R), ('z', Z))
    check(A.t.cast({'t': k}) is cls, 'the class that declares the identity is picked, however others inherit it')
    f, errs = mapped(fields.PolymorphicSubForm(A.t), {'a': {'t': k}})
    check(type(got(f)) is cls and len(errs) == 0, 'and mapped')


def spec_indirect_depth():
    class A(pilo.Form):
        t = fields.Type.abstract()

    class B(A):
        x = fields.Integer(default=1)

    class C(B):
        y = fields.Integer(default=2)

    class D(C):
        t = fields.Type.constant('deep')

    class E(D):
        t = fields.Type.constant('deeper')
    which = choose(('deep', D), ('deeper', E))
    check(A.t.cast({'t': which[0]}) is which[1], 'indirect sub-classes are found')
    f, errs = mapped(fields.PolymorphicSubForm(A.t), {'a': {'t': which[0], 'x': 5}})
    check(type(got(f)) is which[1] and got(f)['x'] == 5 and len(errs) == 0, 'and mapped with everything they inherit')


def spec_sibling_branches():
    class A(pilo.Form):
        t = fields.Type.abstract()

    class B(A):
        t = fields.Type.instance('b', 'b2', 'b3')

    class C(A):
        t = fields.Type.instance('c')

    class D(C):
        t = fields.Type.instance('d', 'd2')

    class E(A):
        t = fields.Type.constant('e')
    k, cls = choose(('b', B), ('b2', B), ('b3', B), ('c', C), ('d', D), ('d2', D), ('e', E))
    check(A.t.cast({'t': k}) is cls, 'every choice declared by a class is dispatched to it')


def spec_declared_later():
    """forms declared after the first dispatch are found"""
    class A(pilo.Form):
        t = fields.Type.abstract()

    class B(A):
        t = fields.Type.constant('b')
    check(A.t.cast({'t': 'b'}) is B, 'the first dispatch works')

    class C(A):
        t = fields.Type.constant('c')
    check(A.t.cast({'t': 'c'}) is C, 'a class declared later is dispatched')
    check(A.t.cast({'t': 'b'}) is B, 'the earlier ones stay')
    try:
        A.t.cast({'t': 'd'})
    except ValueError:
        reach('an undeclared identity is still a value error')


def spec_base_with_identity():
    """the base class may declare an identity itself"""
    class A(pilo.Form):
        t = fields.Type.instance('a', 'z')

    class B(A):
        t = fields.Type.constant('b')
    k, cls = choose(('a', A), ('z', A), ('b', B))
    check(A.t.cast({'t': k}) is cls, 'a base that declares an identity is dispatched to')


def spec_computed_identity():
    """an identity computed from other fields of the value"""
    class A(pilo.Form):
        first = fields.String()
        t = fields.Type.abstract()

        @t.compute
        def t(self):
            return self.first + '!'

    class B(A):
        t = fields.Type.constant('b!')

    class C(A):
        t = fields.Type.constant('c!')
    s = any_value('s', 'str')
    try:
        cls = A.t.cast({'first': s})
    except ValueError:
        check(s != 'b' and s != 'c', 'a computed identity is dispatchable')
        return
    if cls is B:
        check(s + '!' == 'b!', 'a computed identity picks the class declaring it')
    else:
        check(cls is C and s + '!' == 'c!', 'a computed identity picks no other class')


def spec_other_key():
    class A(pilo.Form):
        t = fields.Type.abstract('type')

    class B(A):
        t = fields.Type.constant('b')
    check(A.t.cast({'type': 'b', 't': 'x'}) is B, 'the identity is read from its source key')


def spec_value_property():
    check(Round.tag.value == 'round' and Square.tag.value == 'square', 'a constant identity knows its value')
    for field in (Angular.tag,):
        try:
            field.value
        except TypeError:
            reach('an identity that is not unique has no value')
            continue
        fail('a polymorphic identity has no value')


def spec_form_source():
    """dispatching on a form, an object with the attribute, or a source"""
    which = choose('form', 'source')
    if which == 'form':
        v = Round({'r': 1})
        check(Shape.tag.cast(v) is Round, 'a form is dispatched by its identity')
    else:
        check(Shape.tag.cast(DefaultSource({'tag': 'square'})) is Square, 'a source is dispatched by the identity in it')


def spec_many_generations():
    """classes any number of generations and siblings down"""
    class Root(pilo.Form):
        tag = fields.Type.abstract()
    base, made = Root, {}
    for i in range(14):
        base = type('Gen%d' % i, (base,), {'tag': fields.Type.constant('g%d' % i)})
        made['g%d' % i] = base
    for i in range(12):
        made['s%d' % i] = type('Sib%d' % i, (Root,), {'tag': fields.Type.instance('s%d' % i)})
    field = Root.tag
    for t in made:
        check(field.cast({'tag': t}) is made[t], 'identities are declared any number of generations down')
    f, errs = mapped(fields.PolymorphicSubForm(field), {'a': {'tag': choose('g13', 's11')}})
    check(len(errs) == 0 and type(got(f)) in (made['g13'], made['s11']), 'and dispatched to')


def spec_mixins():
    """whichever base of a class comes first"""
    class Root(pilo.Form):
        tag = fields.Type.abstract()

    class Mixin(pilo.Form):
        extra = pilo.Field(default=1)

    class Plain(object):
        pass

    class One(Mixin, Root):
        tag = fields.Type.constant('one')

    class Two(Root, Mixin):
        tag = fields.Type.constant('two')

    class Three(Plain, Root):
        tag = fields.Type.instance('three', 'drei')

    class Four(Plain, One):
        tag = fields.Type.constant('four')
    for t, cls in (('one', One), ('two', Two), ('three', Three), ('drei', Three), ('four', Four)):
        f, errs = mapped(fields.PolymorphicSubForm(Root.tag), {'a': {'tag': t}})
        check(len(errs) == 0 and type(got(f)) is cls, 'a sub-class is found by any of its bases')


def spec_many_declared_later():
    """however many there were before"""
    class A(pilo.Form):
        t = fields.Type.abstract()
    made = {}
    for i in range(4):
        made['b%d' % i] = type('B%d' % i, (A,), {'t': fields.Type.constant('b%d' % i)})
    for k in made:
        check(A.t.cast({'t': k}) is made[k], 'the first dispatches work')
    made['c'] = type('C', (made['b0'],), {'t': fields.Type.constant('c')})
    made['d'] = type('D', (A,), {'t': fields.Type.instance('d')})
    f, errs = mapped(fields.PolymorphicSubForm(A.t), {'a': {'t': choose('c', 'd')}})
    check(len(errs) == 0 and type(got(f)) in (made['c'], made['d']), 'classes declared later are mapped')
    for k in made:
        check(A.t.cast({'t': k}) is made[k], 'and each is still found')


def spec_dispatch_under_any_circumstances():
    circumstances((
        (lambda: fields.PolymorphicSubForm(Animal.kind), {'kind': 'cat'}, {'kind': 'cat', 'lives': 9}),
        (lambda: fields.PolymorphicSubForm(Animal.kind), {'kind': 'dog', 'name': 'x'}, {'kind': 'dog', 'name': 'x'}),
        (lambda: fields.PolymorphicSubForm(Animal.kind), {'kind': 'cow'}, REFUSED),
        (lambda: fields.PolymorphicSubForm(Animal.kind), {'kind': 'cat', 'lives': 'x'}, REFUSED),
        (lambda: fields.PolymorphicSubForm(Animal.kind), ABSENT, MISSING),
    ), ('ignore default', 'both ignored'))
