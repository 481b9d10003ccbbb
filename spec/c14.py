"""C14: undeclared source keys are ignored or captured, never clobbering fields."""
from base import *
from pilo.source import JsonSource


class F(pilo.Form):
    a = pilo.Field()
    b = pilo.Field('bee', default='B')
    c = pilo.Field(optional=True)


def directive():
    return choose('ignore', None, 'capture', 'field', 'pair')


def arg(kind, value_field, key_field):
    if kind == 'field':
        return value_field
    if kind == 'pair':
        return (key_field, value_field)
    return kind


def spec_any_source():
    """any further keys"""
    v = any_value('v', 'dict')
    for k in v.keys():
        assume(not k.endswith('()') and '.' not in k)
    kind = choose('ignore', None, 'capture')

    class G(pilo.Form):
        a = pilo.Field(optional=True)
    f = G()
    errs = f.map(v, unmapped=kind)
    if kind == 'capture':
        for k in v.keys():
            check(k in f and same(f[k], v[k]), 'every source key is captured, with its own value')
        check(len(f) == len(v), 'nothing else is captured')
    else:
        check('a' in f and len(f) == 1 or len(f) == 0, 'without capture a form holds nothing but its fields')
    if 'a' in v:
        check(same(f['a'], v['a']), 'a declared field keeps its value')
    check(len(errs) == 0, 'undeclared keys record nothing')


def spec_directives():
    x, e = any_value('x'), any_value('e', 'int', 'str', 'list', 'None')
    kind = directive()
    key, value = fields.String(), pilo.Field()

    @key.munge
    def munge(self, value):
        return value + '!'

    @value.munge
    def munge2(self, value):
        return (value,)
    f = F()
    errs = f.map({'a': x, 'bee': 1, 'extra': e}, unmapped=arg(kind, value, key))
    check(same(f['a'], x) and f['b'] == 1 and 'c' not in f, 'declared fields are as mapped')
    if kind == 'ignore' or kind is None:
        check(len(f) == 2, 'ignored keys do not appear')
    elif kind == 'capture':
        check(same(f['extra'], e) and f['bee'] == 1 and len(f) == 4, 'captured keys appear as they are')
    elif kind == 'field':
        check(f['extra'] == (e,) and f['bee'] == (1,) and len(f) == 4, 'a value field maps captured values')
    else:
        check('extra!' in f and f['extra!'] == (e,), 'a pair of fields maps captured keys and values')
    check(len(errs) == 0, 'captured keys record nothing')


def spec_never_clobbers():
    """keys equal to entries, also after key mapping"""
    kind = choose('capture', 'field', 'pair')
    target = choose('a', 'b', 'c')
    key, value = fields.String(), pilo.Field()

    @key.munge
    def munge(self, value):
        return target
    f = F()
    old = choose(True, False)
    if old:
        f['c'] = 'kept'
    src = {'a': 1, 'bee': 2, 'b': 'clobber', 'extra': 'clobber'}
    errs = f.map(src, unmapped=arg(kind, value, key))
    check(f['a'] == 1 and f['b'] == 2, 'an entry of a declared field is never overwritten')
    if old:
        check(f['c'] == 'kept', 'an entry that was there is kept')
    check(len(errs) == 0, 'nothing is recorded')


def spec_entries_are_left_alone():
    """keys that are entries already, declared or not, are not mapped as captured"""
    x, y = any_value('x'), any_value('y')
    seen = []
    value, key = pilo.Field(), fields.String()

    @value.munge
    def munge(self, value):
        seen.append(pilo.ctx.src_path.name)
        return value
    how = choose('preset', 'hook')

    class G(pilo.Form):
        a = pilo.Field()

        @a.munge
        def a(self, value):
            if how == 'hook':
                self['other'] = 'mine'
            return value

    f = G()
    if how == 'preset':
        f['other'] = 'mine'
    errs = f.map({'a': x, 'other': y, 'more': y}, unmapped=choose(value, (key, value)))
    check(seen == ['more'], 'a value field sees exactly the keys that are not entries')
    check(f['other'] == 'mine' and same(f['a'], x) and same(f['more'], y) and len(f) == 3, 'entries stay as they were')
    check(len(errs) == 0, 'and record nothing')


def spec_failed_field():
    """the key of a field that failed is not one of the entries"""
    class G(pilo.Form):
        n = fields.Integer()
    f = G()
    v = any_value('v', 'list', 'dict')
    errs = f.map({'n': v}, unmapped='capture')
    check(len(errs) == 1 and errs[0].field is G.n, 'the error of the field is recorded')


def spec_captured_errors():
    """values a value field turns down are reported and not captured"""
    v = any_value('v', 'int', 'list')
    extra = fields.Integer()
    key = fields.String(max_length=5)
    kind = choose('field', 'pair')
    f = F()
    errs = f.map({'a': 1, 'extra': v, 'other': 5, 'longer': 2}, unmapped=arg(kind, extra, key))
    check(f['other'] == 5, 'other keys are captured')
    if kind == 'pair':
        check('longer' not in f, 'a key that is turned down is not captured')
    else:
        check(f['longer'] == 2, 'a key is captured')
    if isinstance(v, int):
        check(same(f['extra'], v), 'a captured value that maps is held')
    else:
        check('extra' not in f, 'a captured value that does not map is not held')
        check(str(errs[0]).startswith('extra - ') and errs[0].field is extra, 'and is reported')
    check(len(errs) == (1 if kind == 'pair' else 0) + (0 if isinstance(v, int) else 1), 'once each')


def spec_other_strings():
    s = any_value('s', 'str')
    f = F()
    try:
        errs = f.map({'a': 1, 'extra': 2}, unmapped=s)
    except ValueError:
        check(s != 'capture' and s != 'ignore' and s != '', 'the known directives are accepted')
        return
    check(s == 'capture' or s == 'ignore' or s == '', 'any other string is rejected')
    check(('extra' in f) == (s == 'capture') and len(errs) == 0, 'a directive does what it says')


def spec_nested():
    """a sub-form is told its own directive"""
    outer, inner = choose('ignore', 'capture'), choose('ignore', 'capture')

    class In(pilo.Form):
        p = pilo.Field()

    class G(pilo.Form):
        i = fields.SubForm(In, unmapped=inner)
    f = G()
    errs = f.map({'i': {'p': 1, 'x': 2}, 'y': 3}, unmapped=outer)
    check(('y' in f) == (outer == 'capture') and ('x' in f['i']) == (inner == 'capture'), 'each form has its own directive')
    check(f['i']['p'] == 1 and len(errs) == 0, 'and its fields')


def spec_default_directive():
    f = F()
    f.map({'a': 1, 'extra': 2})
    g = F({'a': 1, 'extra': 2})
    check('extra' not in f and 'extra' not in g and len(f) == 2 and len(g) == 2, 'without directive keys are ignored')


def spec_tags_and_capture():
    """capture does not add declared fields that were not selected under their name"""
    class G(pilo.Form):
        a = pilo.Field().tag('t')
        b = pilo.Field()
    f = G()
    f.map({'a': 1, 'b': 2, 'x': 3}, tags=['t'], unmapped='ignore')
    check(f == {'a': 1}, 'ignored keys do not appear when tags select')


def spec_json():
    f = F()
    errs = f.map(JsonSource('{"a": 1, "x": [1], "y": null}'), unmapped='capture')
    check(f == {'a': 1, 'b': 'B', 'x': [1], 'y': None} and len(errs) == 0, 'keys of a JSON source are captured')


def spec_no_fields():
    """a form class without declared fields"""
    x = any_value('x')
    kind = directive()

    class G(pilo.Form):
        pass
    f = choose(G, pilo.Form)()
    errs = f.map({'extra': x}, unmapped=arg(kind, pilo.Field(), fields.String()))
    check(len(errs) == 0, 'keys of a form without fields record nothing')
    if kind == 'ignore' or kind is None:
        check(len(f) == 0, 'ignored keys do not appear')
    else:
        check(len(f) == 1 and same(f['extra'], x), 'captured keys appear without declared fields as well')


def spec_captured_as_declared():
    """a key that is mapped to the name of a field leaves the field its value, whatever that is"""
    x = choose(0, None, '', False, 'x', 3)

    class G(pilo.Form):
        a = pilo.Field()
        z = pilo.Field(optional=True)
    key = fields.String().translate({'other': 'a', 'more': 'z'})
    g = G()
    errs = g.map({'a': x, 'other': 'no', 'more': 5}, unmapped=(key, pilo.Field()))
    check(len(errs) == 0 and g['a'] is x, 'the field keeps its value')
    check(g['z'] == 5 and len(g) == 2, 'where the field has no value the captured one is held')


def spec_nested_directives():
    """sub-forms of any kind have directives of their own"""
    x = any_value('x', 'int', 'str')

    class Base(pilo.Form):
        kind = fields.Type.abstract()

    class One(Base):
        kind = fields.Type.constant('one')
    field = choose(fields.PolymorphicSubForm(Base.kind, unmapped='capture'), fields.SubForm(One).options(unmapped='capture'))
    f, errs = mapped(field, {'a': {'kind': 'one', 'x': x}, 'b': 1})
    check(len(errs) == 0 and len(got(f)) == 2 and same(got(f)['x'], x), 'the nested form captures')
    check('b' not in f, 'the enclosing one does not')
    field = choose(fields.PolymorphicSubForm(Base.kind), fields.SubForm(One))
    f = form_with(field)()
    errs = f.map({'a': {'kind': 'one', 'x': x}, 'b': 1}, unmapped='capture')
    check(len(errs) == 0 and len(got(f)) == 1 and f['b'] == 1, 'what the enclosing form captures the nested one need not')
