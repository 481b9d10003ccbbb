"""C15: errors are collected completely or raised, as asked."""
from base import *
from pilo.source import JsonSource, SourceError


class In(pilo.Form):
    p = fields.Integer()
    q = fields.Integer(nullable=False)


class F(pilo.Form):
    a = fields.Integer()
    i = fields.SubForm(In)
    l = fields.List(fields.Integer())
    d = fields.Integer(default=4)


def data():
    return {'a': any_value('x', 'int', 'list'), 'i': {'p': 1, 'q': any_value('y', 'int', 'None')},
            'l': [1, any_value('z', 'int', 'dict')], 'd': any_value('w', 'int', 'list')}


def faults(d):
    """fields at fault, in order"""
    out = []
    if not isinstance(d['a'], int):
        out.append(F.a)
    if not isinstance(d['i']['q'], int):
        out.append(In.q)
    if not isinstance(d['l'][1], int):
        out.append(F.l.field)
    if not isinstance(d['d'], int):
        out.append(F.d)
    return out


def fields_of(errs):
    return [e.field for e in errs]


def same_fields(errs, expected):
    errs = list(errs)
    if len(errs) != len(expected):
        return False
    for e, f in zip(errs, expected):
        if e.field is not f:
            return False
    return True


def spec_collect():
    d = data()
    f = F()
    errs = f.map(d) if choose(True, False) else f.map(d, error='collect')
    check(isinstance(errs, list), 'collecting returns a list')
    check(same_fields(errs, faults(d)), 'all errors are returned, and only if something was invalid')
    for e in errs:
        check(isinstance(e, fields.FieldError), 'each is a field error')


def spec_raise():
    d = data()
    f = F()
    try:
        r = f.map(d, error='raise')
    except fields.FormError as ex:
        check(len(faults(d)) > 0, 'valid data raises nothing')
        check(len(ex.field_errors) > 0, 'a form error carries field errors')
        for e in ex.field_errors:
            check(isinstance(e, fields.FieldError) and (e.field in faults(d) or e.field is F.l or e.field is F.i),
                  'those that were recorded')
        check(ex.field_errors[0].field is faults(d)[0], 'beginning with the first')
        return
    check(r is f, 'raising returns the form if everything was valid')
    check(len(faults(d)) == 0, 'invalid data raises a form error')
    check(f['a'] == d['a'] and f['l'] == d['l'], 'and the form is mapped')


def spec_construct():
    d = data()
    how = choose('dict', 'keywords', 'source')
    try:
        if how == 'dict':
            f = F(d)
        elif how == 'keywords':
            f = F(**d)
        else:
            f = F(DefaultSource(d))
    except fields.FormError as ex:
        check(len(faults(d)) > 0, 'constructing from valid data raises nothing')
        check(same_fields(ex.field_errors, faults(d)), 'the form error carries all errors')
        return
    check(len(faults(d)) == 0, 'constructing from invalid data raises a form error')
    check(f['a'] == d['a'] and f['i'] == d['i'] and f['l'] == d['l'] and f['d'] == d['d'] and len(f) == 4,
          'a constructed form is fully mapped')
    check(type(f['i']) is In, 'with its nested forms')


def spec_construct_sequence():
    class G(pilo.Form):
        a = fields.Integer()
        b = fields.Integer()
    x, y = any_value('x', 'int', 'list'), any_value('y', 'int', 'list')
    try:
        f = G(choose([x, y], (x, y)))
    except fields.FormError as ex:
        check(not isinstance(x, int) or not isinstance(y, int), 'constructing from a valid sequence raises nothing')
        check(len(ex.field_errors) == (not isinstance(x, int)) + (not isinstance(y, int)), 'it carries one error per fault')
        return
    check(f == {'a': x, 'b': y} and isinstance(x, int) and isinstance(y, int), 'fields take their values by position')


def spec_construct_empty():
    f = F()
    check(len(f) == 0, 'constructing without data maps nothing')
    g = choose(F, pilo.Form)()
    check(len(g) == 0, 'and raises nothing')


def spec_missing():
    class G(pilo.Form):
        a = fields.Integer()
        b = fields.Integer(default=1)
        c = fields.Integer(optional=True)
        d = fields.Integer()
    how = choose('collect', 'construct', 'raise')
    if how == 'collect':
        errs = G().map({})
        check(len(errs) == 2 and errs[0].field is G.a and errs[1].field is G.d, 'missing values are collected')
    elif how == 'construct':
        try:
            G({})
        except fields.FormError as ex:
            check(len(ex.field_errors) == 2 and type(ex.field_errors[0]) is fields.Missing, 'missing values are raised')
            return
        fail('missing values do not go unnoticed')
    else:
        try:
            G().map({}, error='raise')
        except fields.FormError as ex:
            check(ex.field_errors[0].field is G.a, 'the first missing value is raised')
            return
        fail('a missing value does not go unnoticed')


def spec_form_error_is_value_error():
    errs = F().map({'a': [], 'i': {}, 'l': 5, 'd': 1})
    ex = fields.FormError(*errs)
    check(isinstance(ex, ValueError) and len(ex.field_errors) == len(errs), 'a form error is a value error with its errors')
    for e in errs:
        check(str(e) in str(ex), 'whose message tells each of them')


def spec_nested_collect():
    """collecting inside another mapping returns the errors of that form"""
    seen = []
    field = pilo.Field()
    x = any_value('x', 'int', 'list')

    @field.parse
    def parse(self, path):
        f = In()
        errs = f.map()
        seen.append((f, errs))
        return 'done'
    f, errs = mapped(field, {'a': {'p': x, 'q': 1}})
    check(len(seen) == 1 and len(seen[0][1]) == (0 if isinstance(x, int) else 1), 'a nested mapping returns its own errors')
    check(len(errs) == len(seen[0][1]) and got(f) == 'done', 'and these are part of those of the enclosing mapping')


def spec_root():
    """a root that is no mapping"""
    v = any_value('v', 'int', 'str', 'float', 'object')
    f = F()
    try:
        f.map(v, tags=choose(None, ['red']))
    except ValueError:
        reach('what is no source is a value error')
        return
    fail('what is no source is not accepted')


def spec_root_no_mapping():
    """a source the root of which is no mapping"""
    class T(pilo.Form):
        a = pilo.Field(optional=True).tag('red')
        b = pilo.Field(optional=True).tag('blue')
    f = T()
    src = choose(JsonSource(choose('[]', '[1]', '1', '"x"', 'null')), DefaultSource([1]))
    try:
        f.map(src, tags=choose(None, [], ['red'], set(['blue']), ['green']), error=choose('collect', 'raise'))
    except SourceError:
        check(len(f) == 0, 'nothing is mapped')
        return
    fail('what is no mapping is not accepted, whatever is selected')


def spec_json():
    x = any_value('x', 'str')
    f = form_with(fields.Integer())()
    errs = f.map(JsonSource('{"a": [1]}'))
    check(len(errs) == 1 and 'a' not in f, 'errors of a JSON source are collected')


def spec_independent_inside():
    """a mapping with a source of its own inside another one reports its own errors only"""
    x, y = any_value('x', 'int', 'list'), any_value('y', 'int', 'list')
    seen = []

    class G(pilo.Form):
        a = fields.Integer()
        b = pilo.Field()
        c = fields.Integer()

        @b.munge
        def b(self, value):
            g = form_with(fields.Integer())()
            errs = g.map({'a': y})
            seen.append((g, errs, list(errs)))
            return value
    f = G()
    errs = f.map({'a': x, 'b': 1, 'c': x})
    g, inner, then = seen[0]
    ok = isinstance(y, int)
    check(len(then) == (0 if ok else 1) and ('a' in g) == ok, 'it returns the errors of its own data')
    check(len(inner) == len(then), 'and later errors of the enclosing mapping are not added to them')
    check(len(errs) == (0 if isinstance(x, int) else 2), 'its errors are not those of the enclosing mapping')


def spec_independent_raise():
    """the same with errors raised"""
    x, y = any_value('x', 'int', 'list'), any_value('y', 'int', 'list')
    seen = []

    class G(pilo.Form):
        a = fields.Integer()
        b = pilo.Field()

        @b.munge
        def b(self, value):
            H = form_with(fields.Integer())
            try:
                g = H({'a': y}) if choose(True, False) else H().map({'a': y}, error='raise')
            except fields.FormError as ex:
                check(not isinstance(y, int) and len(ex.field_errors) == 1, 'it raises its own errors')
                return value
            check(isinstance(y, int) and got(g) == y, 'it raises nothing if its own data is valid')
            return value
    f = G()
    errs = f.map({'a': x, 'b': 1})
    check(len(errs) == (0 if isinstance(x, int) else 1) and f['b'] == 1, 'the enclosing mapping reports its own errors')


def spec_many_errors():
    """any number of errors"""
    n = 130
    field = fields.List(fields.Integer())
    f, errs = mapped(field, {'a': ['x'] * n})
    check(len(errs) == n and type(errs) is fields.CollectErrors, 'every error is collected')
    c = fields.CollectErrors()
    made = []
    for i in range(n):
        e = ValueError(str(i))
        made.append(e)
        c(e)
    check(len(c) == n and same_items(c, made), 'every error is kept, in order')


def spec_other_errors_among_field_errors():
    """what hooks record themselves does not hide what is invalid"""
    other = choose(ValueError('x'), KeyError('k'))
    when = choose('before', 'after')

    class G(pilo.Form):
        p = pilo.Field(optional=True)
        q = fields.Integer()
        r = pilo.Field(optional=True)

        @p.munge
        def p(self, value):
            if when == 'before':
                pilo.ctx.errors(other)
            return value

        @r.munge
        def r(self, value):
            if when == 'after':
                pilo.ctx.errors(other)
            return value
    data = {'p': 1, 'q': 'x', 'r': 1}
    errs = G().map(data)
    check(len(errs) == 2 and other in list(errs), 'every error is collected')
    try:
        G(data)
    except fields.FormError as ex:
        check([e.field for e in ex.field_errors] == [G.q], 'the form error carries the field errors')
        return
    fail('constructing a form from invalid data raises a form error')


def spec_raise_returns_the_form():
    """without errors the form is returned, also an empty one"""
    class F(pilo.Form):
        a = pilo.Field(optional=True)

    class G(pilo.Form):
        pass
    form = choose(F, G)()
    check(form.map(choose({}, {'z': 1}), error='raise') is form and len(form) == 0, 'an empty form is returned')
    check(form.map({}) == [], 'and has no errors')
    f = F()
    check(f.map({'a': choose(None, 0, '')}, error='raise') is f and 'a' in f, 'a form of falsy values is returned')
