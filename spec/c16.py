"""C16: resetting a form forgets exactly the selected fields."""
from base import *


class F(pilo.Form):
    a = pilo.Field(optional=True).tag('red')
    b = fields.Integer(default='B').tag('red', 'blue')
    c = fields.Integer(optional=True)


def preset():
    f = F()
    f['a'], f['b'], f['c'], f['other'] = 'oa', 'ob', 'oc', 'oo'
    return f


def tag_argument():
    return choose((None, 'abc'), ([], 'abc'), (['red'], 'ab'), (set(['blue']), 'b'), (['green'], ''),
                  (['red', 'blue'], 'ab'), (['blue', 'green'], 'b'))


def spec_reset():
    """a form with previous values is mapped from any source"""
    f = preset()
    src = {}
    if choose(True, False):
        src['a'] = any_value('x')
    if choose(True, False):
        src['c'] = any_value('z', 'int', 'list')
    reset = choose(True, False)
    tags, selected = tag_argument()
    errs = f.map(src, reset=reset, tags=tags)
    # a
    if 'a' not in selected:
        check(f['a'] == 'oa', 'a field outside the tags is never removed')
    elif 'a' in src:
        check(same(f['a'], src['a']), 'a new value replaces the old')
    elif reset:
        check('a' not in f, 'no stale value survives a reset')
    else:
        check(f['a'] == 'oa', 'without reset a previous value is kept')
    # b: not in the source, defaulted
    if 'b' in selected:
        check(f['b'] == 'B', 'a default replaces the old value')
    else:
        check(f['b'] == 'ob', 'a field outside the tags keeps its value')
    # c: may fail
    if 'c' not in selected:
        check(f['c'] == 'oc' and len(errs) == 0, 'a field outside the tags is neither removed nor mapped')
    elif 'c' in src and isinstance(src['c'], int):
        check(same(f['c'], src['c']), 'a new number replaces the old')
    elif reset:
        check('c' not in f, 'no stale value survives a reset when the new one is invalid')
    else:
        check(f['c'] == 'oc', 'without reset a previous value is kept when the new one is invalid')
    check(f['other'] == 'oo', 'entries that are no fields are left alone')


def spec_before_mapping():
    """the values are gone before anything is mapped"""
    seen = []

    class G(pilo.Form):
        a = pilo.Field(optional=True)
        b = pilo.Field(optional=True)

        @a.compute
        def a(self):
            seen.append(('a' in self, 'b' in self))
            return NONE
    f = G()
    f['a'], f['b'] = 1, 2
    reset = choose(True, False)
    f.map({}, reset=reset)
    check(seen == [(not reset, not reset)], 'a reset happens before mapping, and only when asked for')
    check(('b' in f) == (not reset), 'the other fields are treated alike')


def spec_default_is_no_reset():
    f = preset()
    f.map({})
    check(f['a'] == 'oa' and f['c'] == 'oc', 'mapping does not reset unless asked to')


def spec_context_tags():
    f = preset()
    with pilo.ctx(tags=set(['blue'])):
        f.map({}, reset=True)
    check(f['a'] == 'oa' and f['c'] == 'oc' and f['b'] == 'B', 'the tags of the context limit a reset as well')


def spec_reset_absent():
    """resetting a form without previous values"""
    f = F()
    errs = f.map({'c': 1}, reset=True)
    check(f == {'b': 'B', 'c': 1} and len(errs) == 0, 'resetting an empty form changes nothing')


def spec_inherited():
    class G(F):
        d = pilo.Field(optional=True)
    f = G()
    f['a'], f['b'], f['d'] = 1, 2, 3
    f.map({}, reset=True)
    check(f == {'b': 'B'}, 'inherited fields are reset as well')


def spec_nested():
    """nested forms start afresh in either case"""
    class In(pilo.Form):
        p = pilo.Field(optional=True)

    class G(pilo.Form):
        i = fields.SubForm(In, optional=True)
    f = G()
    f.map({'i': {'p': 1}})
    reset = choose(True, False)
    how = choose('absent', 'empty')
    f.map({} if how == 'absent' else {'i': {}}, reset=reset)
    if how == 'empty':
        check(f['i'] == {}, 'a nested form is mapped afresh')
    elif reset:
        check('i' not in f, 'a nested form is forgotten')
    else:
        check(f['i'] == {'p': 1}, 'a nested form is kept')


def spec_any_previous():
    """whatever the previous value was"""
    old = choose(any_value('old'), None, 0, '', [], False)
    f = F()
    f['a'] = old
    f['other'] = old
    reset = choose(True, False)
    f.map({}, reset=reset)
    check(('a' in f) == (not reset), 'a reset forgets any previous value, be it null or falsy')
    check(same(f['other'], old), 'entries that are no fields are left alone')
    if not reset:
        check(same(f['a'], old), 'without reset it is kept')


def spec_inside():
    """a form mapped from the position of an enclosing mapping"""
    f = preset()
    tags, selected = tag_argument()
    reset = choose(True, False)
    seen = []
    outer = pilo.Field()

    @outer.parse
    def parse(self, path):
        seen.append(f.map(tags=tags, reset=reset))
        return 'done'
    g, errs = mapped(outer, {'a': {'c': 'no number'}})
    check(len(seen) == 1, 'it is mapped once')
    check(f['other'] == 'oo', 'entries that are no fields are left alone')
    if 'a' in selected and reset:
        check('a' not in f, 'no stale value survives a reset')
    else:
        check(f['a'] == 'oa', 'a previous value is kept')
    check(f['b'] == ('B' if 'b' in selected else 'ob'), 'a default replaces the old value of a selected field only')
    if 'c' in selected and reset:
        check('c' not in f, 'no stale value survives a reset when the new one is invalid')
    else:
        check(f['c'] == 'oc', 'a previous value is kept')


def spec_reset_then_invalid():
    """what is not replaced does not survive, whatever the field is declared with"""
    opts = choose({}, {'default': None}, {'default': 7}, {'default': list}, {'optional': True}, {'nullable': True},
                  {'nullable': False}, {'default': 0, 'ignore': 4})

    class F(pilo.Form):
        a = fields.Integer(**opts).tag('t')
    f = F()
    f['a'] = choose(5, 0, None, 'old')
    errs = f.map({'a': 'x'}, reset=True, tags=choose(None, ['t']))
    check(len(errs) == 1 and 'a' not in f, 'no stale value survives an invalid one')
