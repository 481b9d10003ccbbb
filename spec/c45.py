"""C45: options put in the context govern every mapping below, innermost first, until their block ends."""
from base import *


class OwnMissing(fields.Missing):
    pass


class OwnInvalid(fields.Invalid):
    pass


class OtherMissing(fields.Missing):
    pass


class OtherInvalid(fields.Invalid):
    pass


HOWS = ('SubForm', 'List', 'Tuple', 'Dict', 'Group', 'deep', 'poly')


class Base(pilo.Form):
    kind = fields.Type.abstract()


class Leaf(Base):
    kind = fields.Type.constant('leaf')
    p = fields.Integer(default=7).tag('red', 'blue')
    q = fields.Integer().tag('red')
    r = pilo.Field(optional=True).tag('blue')


def nested_in(how):
    """a form that holds a Leaf below `a`, tagged so that it is selected, and the data that reaches it"""
    if how == 'SubForm':
        field, data = fields.SubForm(Leaf), lambda d: {'a': d}
    elif how == 'List':
        field, data = fields.List(fields.SubForm(Leaf)), lambda d: {'a': [d]}
    elif how == 'Tuple':
        field, data = fields.Tuple(fields.SubForm(Leaf), fields.Integer()), lambda d: {'a': [d, 1]}
    elif how == 'Dict':
        field, data = fields.Dict(fields.String(), fields.SubForm(Leaf)), lambda d: {'a': {'k': d}}
    elif how == 'Group':
        field, data = fields.Group(('k', fields.SubForm(Leaf))), lambda d: {'k': d}
    elif how == 'poly':
        def data(d):
            d = dict(d)
            d['kind'] = 'leaf'
            return {'a': d}
        field = fields.PolymorphicSubForm(Base.kind)
    else:
        class Between(pilo.Form):
            z = fields.SubForm(Leaf).tag('red', 'blue')
        field, data = fields.SubForm(Between), lambda d: {'a': {'z': d}}
    field.tag('red', 'blue')
    return form_with(field), data


def leaf_of(how, form):
    """the Leaf mapped"""
    a = got(form)
    if how in ('SubForm', 'poly'):
        return a
    if how in ('List', 'Tuple'):
        return a[0]
    if how == 'Dict':
        return a['k']
    if how == 'Group':
        return a[0][2]
    return got(a, 'z')


def spec_tags():
    how = choose(*HOWS)
    F, data = nested_in(how)
    x = any_value('x', 'int')
    tags, names = choose((['red'], ('p', 'q')), (set(['blue']), ('p', 'r')), (set(['red', 'blue']), ('p', 'q', 'r')))
    f = F()
    with pilo.ctx(tags=tags):
        errs = f.map(data({'p': x, 'q': x, 'r': x}))
    check(len(errs) == 0, 'fields not selected cannot fail')
    leaf = leaf_of(how, f)
    for name in ('p', 'q', 'r'):
        check((name in leaf) == (name in names), 'tags in the context select fields of every form mapped')
    check('kind' not in leaf, 'tags in the context select fields of every form mapped')
    g = F()
    g.map(data({'p': x, 'q': x, 'r': x}))
    check(all(n in leaf_of(how, g) for n in ('p', 'q', 'r', 'kind')), 'tags of a block that ended select nothing')


def spec_tags_innermost():
    F, data = nested_in('SubForm')
    f = F()
    with pilo.ctx(tags=['red']):
        with pilo.ctx(tags=['blue']):
            errs = f.map(data({'p': 1, 'q': 'bad', 'r': 3}))
        g = F()
        errs2 = g.map(data({'p': 1, 'q': 2, 'r': 3}))
    check(len(errs) == 0 and 'q' not in got(f) and got(got(f), 'r') == 3, 'the innermost tags count')
    check(len(errs2) == 0 and 'r' not in got(g) and got(got(g), 'q') == 2, 'tags of a block that ended no longer count')


def spec_tags_argument():
    """an argument comes before the context"""
    class F(pilo.Form):
        a = pilo.Field(optional=True).tag('red')
        b = pilo.Field(optional=True).tag('blue')
    f = F()
    with pilo.ctx(tags=choose(['red'], set(['red']))):
        errs = f.map({'a': 1, 'b': 2}, tags=choose(['blue'], set(['blue'])))
    check(len(errs) == 0 and 'a' not in f and got(f, 'b') == 2, 'tags given as argument come before those of the context')


def spec_tags_argument_empty():
    """an argument that selects nothing is like none"""
    class F(pilo.Form):
        a = pilo.Field(optional=True).tag('red')
        b = pilo.Field(optional=True)
    f = F()
    with pilo.ctx(tags=choose(['red'], set(['red']))):
        errs = f.map({'a': 1, 'b': 2}, tags=choose(None, [], set(), ()))
    check(len(errs) == 0 and got(f, 'a') == 1 and 'b' not in f, 'without tags given the ones of the context select')


def spec_tags_none():
    """empty or no tags in an inner block select everything"""
    class F(pilo.Form):
        a = pilo.Field(optional=True).tag('red')
        b = pilo.Field(optional=True)
    f = F()
    with pilo.ctx(tags=['red']):
        with pilo.ctx(tags=choose(None, [])):
            errs = f.map({'a': 1, 'b': 2})
    check(len(errs) == 0 and got(f, 'a') == 1 and got(f, 'b') == 2, 'no tags in the innermost block select all fields')


def spec_ignore_default():
    how = choose(*HOWS)
    F, data = nested_in(how)
    f = F()
    silent = choose(True, False)
    with pilo.ctx(ignore_default=True, ignore_missing=silent):
        errs = f.map(data({'q': 5, 'kind': 'leaf'}))
    leaf_errors = [e for e in errs if e.field is Leaf.p or e.field is Leaf.r]
    if silent:
        check(len(errs) == 0, 'missing values are not reported anywhere')
        leaf = leaf_of(how, f)
        check('p' not in leaf and got(leaf, 'q') == 5 and 'r' not in leaf, 'defaults are suppressed at every depth')
    else:
        check(len(leaf_errors) == 2, 'without its default a nested field is missing')
    g = F()
    errs = g.map(data({'q': 5}))
    check(len(errs) == 0 and got(leaf_of(how, g), 'p') == 7, 'defaults count again once the block ended')


def spec_ignore_missing():
    how = choose(*HOWS)
    F, data = nested_in(how)
    f = F()
    with pilo.ctx(ignore_missing=True):
        errs = f.map(data({'r': 1}))
    check(len(errs) == 0, 'missing values are not reported anywhere')
    leaf = leaf_of(how, f)
    check('q' not in leaf and got(leaf, 'p') == 7 and got(leaf, 'r') == 1, 'the other fields are mapped as usual')
    g = F()
    errs = g.map(data({'r': 1}))
    check(len(errs) == 1 and errs[0].field is Leaf.q, 'missing values are reported again once the block ended')


def spec_ignore_innermost():
    """an inner block can turn the switches back"""
    class F(pilo.Form):
        a = pilo.Field(default='d')
        b = pilo.Field()
    f = F()
    with pilo.ctx(ignore_default=True, ignore_missing=True):
        with pilo.ctx(ignore_default=False, ignore_missing=False):
            errs = f.map({})
        g = F()
        errs2 = g.map({})
    check(got(f) == 'd' and len(errs) == 1 and errs[0].field is F.b, 'the innermost switch counts')
    check(len(g) == 0 and len(errs2) == 0, 'the switches of the outer block count again')


def spec_ignore_invalid():
    """invalid values are always reported"""
    how = choose(*HOWS)
    F, data = nested_in(how)
    x = any_value('x', 'list', 'dict', 'object', 'bool')
    f = F()
    with pilo.ctx(ignore_missing=True, ignore_default=choose(True, False)):
        errs = f.map(data({'q': x, 'kind': 'leaf'}))
    check(any(e.field is Leaf.q and type(e) is fields.Invalid for e in errs), 'invalid values are reported all the same')


def spec_error_classes():
    how = choose(*HOWS)
    F, data = nested_in(how)
    which = choose('both', 'missing', 'invalid')
    more = {'both': {'Missing': OwnMissing, 'Invalid': OwnInvalid}, 'missing': {'Missing': OwnMissing},
            'invalid': {'Invalid': OwnInvalid}}[which]
    f = F()
    with pilo.ctx(**more):
        errs = f.map(data({'p': any_value('x', 'list', 'bool')}))
    found = dict((e.field.name, e) for e in errs if e.field is Leaf.p or e.field is Leaf.q)
    check(len(found) == 2, 'both nested errors are reported')
    check(type(found['q']) is more.get('Missing', fields.Missing), 'missing values are reported by the class in the context')
    check(type(found['p']) is more.get('Invalid', fields.Invalid), 'invalid values are reported by the class in the context')
    g = F()
    errs = g.map(data({'p': 'not a number'}))
    check(all(type(e) in (fields.Missing, fields.Invalid) for e in errs), 'error classes of a block that ended are not used')


def spec_error_classes_of_raise():
    class F(pilo.Form):
        a = fields.Integer()
        b = fields.Integer()
    data = choose({'a': 'x'}, {'b': 'x'}, {})
    with pilo.ctx(Missing=OwnMissing, Invalid=OwnInvalid):
        with pilo.ctx(Missing=choose(OwnMissing, OtherMissing), Invalid=OtherInvalid) as frame:
            want = pilo.ctx.Missing
            try:
                F().map(data, error='raise')
            except fields.FormError as ex:
                err = ex.field_errors[0]
            else:
                err = None
    check(err is not None, 'raising mappings raise')
    check(type(err) is (OtherInvalid if 'a' in data else want), 'the innermost error classes are used when raising as well')


def spec_error_factory():
    """anything callable with the arguments of the class will do"""
    made = []

    def factory(field):
        made.append(field)
        return OwnMissing(field)

    def invalid(field, violation):
        made.append((field, violation))
        return OwnInvalid(field, violation)

    class F(pilo.Form):
        a = pilo.Field()
        b = fields.Integer().min(3)
    f = F()
    with pilo.ctx(Missing=factory, Invalid=invalid):
        errs = f.map({'b': 1})
    check(len(errs) == 2 and len(made) == 2, 'each error is made once')
    check(made[0] is F.a and type(errs[0]) is OwnMissing, 'missing values are made from the field')
    check(made[1][0] is F.b and type(errs[1]) is OwnInvalid and errs[1].violation is made[1][1],
          'invalid values are made from the field and what is wrong')


def spec_errors_of_other_classes():
    """what the context makes errors of need not be field errors"""
    class F(pilo.Form):
        a = pilo.Field()
        b = pilo.Field()

    def factory(field):
        return KeyError(field.name)
    how = choose('collect', 'raise', 'construct', 'read')
    data = choose({}, {'a': 1})
    first = 'b' if data else 'a'
    f = F()
    with pilo.ctx(Missing=factory):
        if how == 'collect':
            errs = f.map(data)
            check([e.args[0] for e in errs] == (['b'] if data else ['a', 'b']), 'each error is collected')
            return
        try:
            if how == 'raise':
                f.map(data, error='raise')
            elif how == 'construct':
                F(data)
            else:
                first = 'a'
                f.a
        except KeyError as ex:
            check(ex.args[0] == first, 'the first error is raised as it is')
            return
    fail('errors of other classes are raised as well')


def spec_read_in_block():
    """a field read as attribute within a hook is under the same options"""
    class F(pilo.Form):
        a = pilo.Field(default='d')
        b = pilo.Field(default='e')

        @a.munge
        def a(self, value):
            return value
        c = fields.Integer(optional=True)

        @c.compute
        def c(self):
            try:
                return [self.b]
            except AttributeError:
                return 'missing'
    f = F()
    with pilo.ctx(ignore_default=choose(True, False), ignore_missing=True):
        off = pilo.ctx.ignore_default
        f.map({})
    check(('b' in f) == (not off), 'a field read by a hook is mapped under the options in force')


def spec_switches_default():
    """without any block defaults count and missing values are reported"""
    check(pilo.ctx.ignore_default is False and pilo.ctx.ignore_missing is False, 'both switches are off to begin with')
    with pilo.ctx.reset():
        check(pilo.ctx.ignore_default is False and pilo.ctx.ignore_missing is False, 'both switches are off to begin with')
    with pilo.ctx(ignore_missing=True):
        with pilo.ctx.reset():
            check(pilo.ctx.ignore_missing is True, 'a reset leaves the options in force')


REFUSED = (
    (lambda: pilo.Field(nullable=False), None), (lambda: fields.Integer(nullable=False), None),
    (lambda: fields.String(nullable=False), None), (lambda: fields.List(pilo.Field(), nullable=False), None),
    (lambda: fields.Dict(pilo.Field(), pilo.Field(), nullable=False), None), (lambda: fields.Integer(), 'x'),
    (lambda: fields.Integer(min_value=3), 2), (lambda: fields.Integer(max_value=3), 4),
    (lambda: fields.String(min_length=2), 'x'), (lambda: fields.String(max_length=2), 'xyz'),
    (lambda: fields.String(pattern='a'), 'x'), (lambda: fields.String(choices=['a']), 'x'),
    (lambda: fields.String(alphabet='ab'), 'x'), (lambda: fields.List(pilo.Field(), min_length=2), [1]),
    (lambda: fields.List(pilo.Field(), max_length=0), [1]), (lambda: fields.List(pilo.Field()), 3),
    (lambda: fields.Tuple(pilo.Field(), pilo.Field()), [1]), (lambda: fields.SubForm(Refusing), 3),
    (lambda: fields.Dict(pilo.Field(), pilo.Field(), required_keys=['q']), {}),
    (lambda: fields.Dict(pilo.Field(), pilo.Field(), max_keys=0), {'k': 1}),
    (lambda: fields.Date(), 'zzz'), (lambda: fields.Time(), 'zzz'), (lambda: fields.Datetime(), 'zzz'),
    (lambda: fields.Code(), '!!'), (lambda: fields.UUID(), 'zzz'), (lambda: fields.Boolean(), 'zzz'),
    (lambda: fields.Decimal(), 'zzz'), (lambda: fields.Float(), 'zzz'), (lambda: fields.SubForm(Refusing), {'r': 'x'}),
    (lambda: fields.List(fields.Integer()), ['x']), (lambda: fields.Dict(pilo.Field(), fields.Integer()), {'k': 'x'}),
    (lambda: fields.Tuple([fields.Integer()]), ['x']), (lambda: fields.List(fields.Integer(), allow_field=True), 'x'),
)


class Refusing(pilo.Form):
    r = fields.Integer()


def spec_invalid_under_any_options():
    """what is refused is refused under any options, however the field is declared"""
    i = choose(*range(len(REFUSED)))
    make, x = REFUSED[i]
    field = make()
    field.options(**choose({}, {'optional': True}, {'default': 7}))
    f = form_with(field)()
    with pilo.ctx(**choose({'ignore_missing': True}, {'ignore_default': True}, {'ignore_missing': True, 'ignore_default': True},
                           {'tags': None}, {'tags': []})):
        errs = f.map({'a': x})
    check(len(errs) == 1 and type(errs[0]) is fields.Invalid, 'an invalid value is reported whatever is ignored')
    if type(x) in (int, str) and not isinstance(field, fields.List):
        check('a' not in f, 'and does not appear')
