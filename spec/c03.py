"""C03: absent, null and falsy values are told apart."""
from base import *
import json
from pilo.source import SourceError, JsonSource, UnionSource, MountSource, ConfigSource


def expect_value(f, errs, present, v, field):
    """untyped field with default 'D'"""
    r = got(f)
    if not present:
        check(r == 'D', 'an absent key counts as missing')
    elif v is None:
        check(r is None, 'an existing null yields None')
    else:
        check(same(r, v), 'every other value is kept')
    check(len(errs) == 0, 'telling them apart records no error')


def spec_native():
    v = any_value('v')
    field = pilo.Field(default='D')
    present = choose(True, False)
    f, errs = mapped(field, {'a': v} if present else {'b': v})
    expect_value(f, errs, present, v, field)


def spec_json():
    text = any_value('text', 'str')
    try:
        data = json.loads(text)
    except ValueError:
        return
    assume(isinstance(data, dict))
    field = pilo.Field(default='D')
    f = form_with(field)()
    errs = f.map(JsonSource(text, strict=choose(False, True)))
    present = 'a' in data
    expect_value(f, errs, present, data['a'] if present else None, field)


def spec_mounted_and_joined():
    v = any_value('v')
    present = choose(True, False)
    data = {'a': v} if present else {'b': v}
    which = choose('union', 'mount')
    field = pilo.Field(default='D')
    if which == 'union':
        f = form_with(field)()
        errs = f.map(UnionSource([data, {'c': 1}]))
    else:
        G = form_with(field)

        class F(pilo.Form):
            m = fields.SubForm(G)
        top = F()
        errs = top.map(MountSource(m=data))
        f = got(top, 'm')
        check(f is not NONE, 'the mounted form is mapped')
    expect_value(f, errs, present, v, field)


def spec_typed_falsy():
    """falsy values of the field's own type are kept, not defaulted"""
    cls, v = choose((fields.Integer, 0), (fields.Float, 0.0), (fields.Boolean, False), (fields.String, ''),
                    (pilo.Field, ()), (fields.Decimal, 0))
    v = {'a': v}['a']
    nullable = choose(True, False)
    f, errs = mapped(cls(default=choose('D', None), nullable=nullable), {'a': v})
    check(got(f) == v and got(f) is not None, 'a falsy value is parsed and kept')
    check(len(errs) == 0, 'a falsy value records no error')


def spec_falsy_containers():
    which = choose('list', 'dict', 'tuple', 'form')
    if which == 'list':
        f, errs = mapped(fields.List(fields.Integer(), default='D'), {'a': choose([], ())})
        check(got(f) == [], 'an empty sequence is kept')
    elif which == 'dict':
        f, errs = mapped(fields.Dict(fields.String(), fields.Integer(), default='D'), {'a': {}})
        check(got(f) == {}, 'an empty mapping is kept')
    elif which == 'tuple':
        f, errs = mapped(fields.Tuple([], default='D'), {'a': []})
        check(got(f) == (), 'an empty tuple is kept')
    else:
        class E(pilo.Form):
            z = fields.Integer(default=1)
        f, errs = mapped(fields.SubForm(E, default='D'), {'a': {}})
        check(got(f) == {'z': 1}, 'an empty mapping makes a sub-form')
    check(len(errs) == 0, 'an empty container records no error')


class OtherSourceError(SourceError):
    pass


class OtherValueError(ValueError):
    pass


def spec_failing_parse():
    """a parse hook or source that fails with a value or source error"""
    which = choose('value', 'sub-value', 'unicode', 'source', 'sub-source')
    v = any_value('v')
    opts = choose({}, {'default': 'D'}, {'optional': True}, {'default': None})
    field = choose(pilo.Field(**opts), fields.Integer(**opts), fields.List(fields.Integer(), **opts))
    ran = []

    @field.parse
    def parse(self, path):
        ran.append(path)
        if which == 'value':
            raise ValueError('no')
        if which == 'sub-value':
            raise OtherValueError('no')
        if which == 'unicode':
            raise UnicodeError('no')
        if which == 'source':
            raise SourceError(path, 'no')
        raise OtherSourceError(path, 'no')
    f = form_with(field)()
    errs = f.map({'a': v})
    if v is None:
        check(len(ran) == 0, 'a null is not parsed')
        check(got(f) is None and len(errs) == 0, 'a null yields None without parsing')
    else:
        check(len(ran) == 1, 'a value is parsed once')
        check(got(f) is NONE, 'a failed parse yields no value')
        check(only_invalid(errs, field), 'a failed parse records exactly one Invalid')
        check(str(errs[0]).startswith('a - '), 'the Invalid names the path of the field')


def spec_null_not_parsed():
    field = choose(pilo.Field(), fields.Integer(), fields.String(), fields.Dict(fields.String(), fields.Integer()))
    ran = []

    @field.parse
    def parse(self, path):
        ran.append(path)
        return 5
    present = choose(True, False)
    f = form_with(field)()
    errs = f.map({'a': None} if present else {})
    check(len(ran) == 0, 'neither null nor absence is parsed')
    if present:
        check('a' in f and f['a'] is None and len(errs) == 0, 'a null is stored as None')
    else:
        check('a' not in f and only_missing(errs, field), 'an absent value is Missing')


def spec_failing_builtin_parse():
    name = choose(*SCALARS)
    marker = []
    field, _ = build(name, **choose({'default': marker}, {'optional': True}, {}, {'default': None, 'ignore': 'x'}))
    with_null = field.default is None
    v = any_value('v')
    f, errs = mapped(field, {'a': v})
    if got(f) is NONE:
        check(only_invalid(errs, field), 'a built-in parse that fails records exactly one Invalid')
    else:
        check(got(f) is not marker, 'a value that cannot be parsed is not defaulted')
        if with_null and v is not None and name != 'Code':
            check(got(f) is not None or v == 'x', 'nor turned into null')
        check(len(errs) == 0, 'a parsed value records no error')


def spec_falsy_under_any_circumstances():
    circumstances((
        (lambda: fields.Integer(default=7, nullable=False), None, REFUSED), (lambda: pilo.Field(optional=True, nullable=False), None, REFUSED),
        (lambda: pilo.Field(default=7), 0, 0), (lambda: pilo.Field(default=7), '', ''), (lambda: pilo.Field(default=7), None, None),
        (lambda: fields.Boolean(default=True), False, False), (lambda: fields.List(pilo.Field(), default=7), [], []),
        (lambda: fields.Dict(pilo.Field(), pilo.Field(), default=7), {}, {}), (lambda: pilo.Field(default=7), ABSENT, 7),
        (lambda: pilo.Field(optional=True), None, None), (lambda: fields.Integer(default=7), None, None),
    ))
