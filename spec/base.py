"""Shared vocabulary of the specifications."""
import pilo
from pilo import fields
from pilo.source import DefaultSource
from vf import *

NONE, ERROR, NOT_SET = pilo.NONE, pilo.ERROR, pilo.NOT_SET
IGNORE = (NONE, ERROR, NOT_SET)


def form_with(field):
    class F(pilo.Form):
        a = field
    return F


def mapped(field, data):
    """maps a form declaring `field` as `a` from `data`"""
    f = form_with(field)()
    errors = f.map(data)
    return f, errors


def is_missing(x):
    return x is NONE or x is ERROR or x is NOT_SET


def got(form, name='a'):
    """the value a form holds under a name, or NONE; by the plain dictionary"""
    return dict.get(form, name, NONE)


def same_items(xs, ys):
    """element-wise `same` of two sequences of known length"""
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if not same(x, y):
            return False
    return True


def errors_of(form, data, **kw):
    return form.map(data, **kw)


def only_invalid(errs, field):
    return len(errs) == 1 and type(errs[0]) is fields.Invalid and errs[0].field is field


def only_missing(errs, field):
    return len(errs) == 1 and type(errs[0]) is fields.Missing and errs[0].field is field


class mapping_context(object):
    """what a field needs to be mapped on its own: a source, an error list"""

    def __init__(self, data, **more):
        self.errors = fields.CollectErrors()
        self.data = data
        self.more = more

    def __enter__(self):
        self.close = pilo.ctx(src=DefaultSource(self.data), errors=self.errors, **self.more)
        self.close.__enter__()
        return self.errors

    def __exit__(self, *exc):
        return self.close.__exit__(*exc)


class Inner(pilo.Form):
    x = fields.Integer()
    y = fields.String(default='why')


class Animal(pilo.Form):
    kind = fields.Type.abstract()


class Cat(Animal):
    kind = fields.Type.constant('cat')
    lives = fields.Integer(default=9)


class Dog(Animal):
    kind = fields.Type.constant('dog')
    name = fields.String()


SCALARS = ('Field', 'String', 'Integer', 'Float', 'Decimal', 'Boolean', 'Date', 'DateFmts', 'Time', 'Datetime',
           'DatetimeIso', 'UUID', 'Code', 'Type')
CONTAINERS = ('Tuple', 'List', 'ListAllow', 'Dict', 'SubForm', 'PolymorphicSubForm')


def build(name, **o):
    """(field, the fields nested in it) of a built-in type"""
    if name == 'Field':
        return pilo.Field(**o), ()
    if name == 'String':
        return fields.String(**o), ()
    if name == 'Integer':
        return fields.Integer(**o), ()
    if name == 'Float':
        return fields.Float(**o), ()
    if name == 'Decimal':
        return fields.Decimal(**o), ()
    if name == 'Boolean':
        return fields.Boolean(**o), ()
    if name == 'Date':
        return fields.Date(format='%Y', **o), ()
    if name == 'DateFmts':
        return fields.Date(format=['%Y', 'iso8601', '%d'], **o), ()
    if name == 'Time':
        return fields.Time(format='%H', **o), ()
    if name == 'Datetime':
        return fields.Datetime(format='%Y', **o), ()
    if name == 'DatetimeIso':
        return fields.Datetime(format='iso8601', **o), ()
    if name == 'UUID':
        return fields.UUID(**o), ()
    if name == 'Code':
        return fields.Code(**o), ()
    if name == 'Type':
        return fields.Type.abstract(**o), ()
    if name == 'Tuple':
        i, j = fields.Integer(), fields.Boolean()
        return fields.Tuple(i, j, **o), (i, j)
    if name == 'List':
        i = fields.Integer()
        return fields.List(i, **o), (i,)
    if name == 'ListAllow':
        i = fields.Integer()
        return fields.List(i, allow_field=True, **o), (i,)
    if name == 'Dict':
        k, i = fields.String(), fields.Integer()
        return fields.Dict(k, i, **o), (k, i)
    if name == 'SubForm':
        return fields.SubForm(Inner, **o), (Inner.x, Inner.y)
    if name == 'PolymorphicSubForm':
        return fields.PolymorphicSubForm(Animal.kind, **o), (Cat.kind, Cat.lives, Dog.kind, Dog.name)
    return None, ()


def plain(name):
    """any key without the special meaning of C35: no call, no dotted path"""
    k = any_value(name, 'str')
    assume(not k.endswith('()') and '.' not in k)
    return k


REFUSED, ABSENT, MISSING, NOTHING = object(), object(), object(), object()

CIRCUMSTANCES = ('plain', 'ignore missing', 'ignore default', 'both ignored', 'no tags', 'tag selected', 'nested', 'deeper',
                 'in list', 'in dict', 'mapped again', 'after another', 'after invalid', 'with reset', 'clone', 'inherited',
                 'overridden', 'read', 'has', 'raise', 'joined', 'joined second', 'mounted', 'source key',
                 'constructor', 'keywords', 'by position', 'among others', 'failing before', 'optional', 'with default',
                 'pass-through hooks', 'no-op translate', 'copied', 'below an alias')


def circumstances(table, skip=()):
    """the verdict on a value is the same whatever else is going on

    skip: circumstances that do make a difference; table: (function making the field, value in the source or ABSENT, mapped value, REFUSED, MISSING or NOTHING)
    """
    make, x, want = table[choose(*range(len(table)))]
    how = choose(*CIRCUMSTANCES)
    assume(how not in skip)
    verdict(make, x, want, how)


def verdict(make, x, want, how):
    data = {} if x is ABSENT else {'a': x}
    field = make()
    form = form_with(field)
    f = form()
    errs = None
    if x is ABSENT or want is MISSING or want is NOTHING:
        assume(how not in ('ignore missing', 'ignore default', 'both ignored', 'by position', 'keywords', 'optional', 'with default'))
    if how == 'plain':
        errs = f.map(data)
    elif how == 'ignore missing':
        with pilo.ctx(ignore_missing=True):
            errs = f.map(data)
    elif how == 'ignore default':
        with pilo.ctx(ignore_default=True):
            errs = f.map(data)
    elif how == 'both ignored':
        with pilo.ctx(ignore_default=True, ignore_missing=True):
            errs = f.map(data)
    elif how == 'no tags':
        with pilo.ctx(tags=None):
            errs = f.map(data, tags=[])
    elif how == 'tag selected':
        field.tag('t', 'u')
        errs = f.map(data, tags=['u', 'z'])
    elif how in ('nested', 'deeper', 'in list', 'in dict'):
        class Outer(pilo.Form):
            s = fields.SubForm(form)
            l = fields.List(fields.SubForm(form), default=list)
            d = fields.Dict(fields.String(), fields.SubForm(form), default=dict)

            @l.filter
            def l(self, value):
                return True

        class Outest(pilo.Form):
            o = fields.SubForm(Outer)
        if how == 'deeper':
            g = Outest()
            errs = g.map({'o': {'s': data}})
            if not (want is REFUSED or want is MISSING):
                f = g['o']['s']
        else:
            g = Outer()
            if how == 'nested':
                errs = g.map({'s': data})
                if not (want is REFUSED or want is MISSING):
                    f = g['s']
            elif how == 'in list':
                Outer.s.options(default=None)
                errs = g.map({'l': [data]})
                if not (want is REFUSED or want is MISSING):
                    f = g['l'][0]
            else:
                Outer.s.options(default=None)
                errs = g.map({'d': {'k': data}})
                if not (want is REFUSED or want is MISSING):
                    f = g['d']['k']
    elif how == 'mapped again':
        f.map(data)
        f.pop('a', None)
        errs = f.map(data)
    elif how == 'after another':
        form().map(data)
        errs = f.map(data)
    elif how == 'after invalid':
        form().map({'a': object()})
        form().map({'a': None})
        form().map({})
        errs = f.map(data)
    elif how == 'with reset':
        f.map(data)
        errs = f.map(data, reset=True)
    elif how == 'clone':
        twin = field.clone()
        field.options(default=41, optional=True).ignore('zz', x if isinstance(x, (int, str)) else None)
        field = twin
        f = form_with(twin)()
        errs = f.map(data)
    elif how == 'inherited':
        class Sub(form):
            b = pilo.Field(default=1)
        f = Sub()
        errs = f.map(data)
    elif how == 'overridden':
        field = make()

        class Over(form):
            a = field
        f = Over()
        errs = f.map(data)
    elif how in ('read', 'has'):
        problems = fields.CollectErrors()
        with pilo.ctx(form=f, parent=f, src=DefaultSource(data), errors=problems):
            if how == 'has':
                f.has('a')
            else:
                try:
                    f.a
                except AttributeError:
                    pass
        errs = list(problems)
    elif how == 'raise':
        try:
            check(f.map(data, error='raise') is f, 'the form is returned')
            errs = []
        except fields.FormError as ex:
            errs = list(ex.field_errors)
    elif how == 'joined':
        errs = f.map(pilo.source.UnionSource([DefaultSource(data), DefaultSource({'b': 1})]))
    elif how == 'joined second':
        errs = f.map(pilo.source.UnionSource([DefaultSource({'b': 1}), DefaultSource(data)]))
    elif how == 'mounted':
        class Top(pilo.Form):
            m = fields.SubForm(form)
        g = Top()
        errs = g.map(pilo.source.MountSource(m=DefaultSource(data)))
        if not (want is REFUSED or want is MISSING):
            f = g['m']
    elif how == 'source key':
        field.src = 'other'
        errs = f.map({'a': 'not this'} if x is ABSENT else {'other': x, 'a': 'not this'})
    elif how in ('constructor', 'keywords', 'by position'):
        try:
            f = form(data) if how == 'constructor' else form(**data) if how == 'keywords' else form([x])
            errs = []
        except fields.FormError as ex:
            errs = list(ex.field_errors)
    elif how == 'among others':
        class Wide(pilo.Form):
            z = pilo.Field(default=None)
            b = fields.Integer()
            a = make()
            c = fields.List(fields.Integer())
        f = Wide()
        errs = f.map(dict(data, b=1, c=[1]))
        check(got(f, 'b') == 1 and got(f, 'c') == [1], 'the others are mapped')
    elif how == 'failing before':
        class Wide(pilo.Form):
            b = fields.Integer()
            a = make()
            c = fields.Integer()
        f = Wide()
        errs = f.map(dict(data, b='x', c='x'))
        check(len(errs) >= 2 and errs[0].field is Wide.b and errs[-1].field is Wide.c, 'the others fail')
        errs = errs[1:-1]
    elif how == 'optional':
        field.options(optional=True)
        errs = f.map(data)
    elif how == 'with default':
        assume(x is not None)
        field.options(default=41)
        errs = f.map(data)
    elif how == 'pass-through hooks':
        @field.munge
        def a(self, value):
            return value

        @field.filter
        def a(self, value):
            return True

        @field.validate
        def a(self, value):
            return True
        errs = f.map(data)
    elif how == 'no-op translate':
        field.translate({'never': 1}).ignore('never either')
        errs = f.map(data)
    elif how == 'copied':
        errs = f.map(data)
        f = f.copy()
    else:
        errs = f.map(DefaultSource({} if x is ABSENT else {'data': x}, aliases={'a': 'data'}))
    if want is MISSING:
        check(len(errs) >= 1 and (len(errs) == 1 or how == 'raise') and isinstance(errs[0], fields.Missing),
              'missing under any circumstances')
        check('a' not in f, 'does not appear under any circumstances')
    elif want is NOTHING:
        check(len(errs) == 0 and 'a' not in f, 'without value under any circumstances')
    elif want is REFUSED:
        check(len(errs) >= 1 and (len(errs) == 1 or how == 'raise') and isinstance(errs[0], fields.Invalid),
              'refused under any circumstances')
        if isinstance(x, (int, str)):
            check('a' not in f, 'does not appear under any circumstances')
    else:
        check(len(errs) == 0, 'accepted under any circumstances')
        check('a' in f and got(f) == want and (type(got(f)) is type(want) or type(want) is dict and isinstance(got(f), dict)), 'kept under any circumstances')
