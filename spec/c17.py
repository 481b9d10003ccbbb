"""C17: reading a form attribute maps it at most once and caches the value."""
from base import *


def spec_stored():
    """a stored value is returned as it is"""
    log = []

    class F(pilo.Form):
        a = pilo.Field()

        @a.compute
        def a(self):
            log.append(1)
            return 'computed'
    f = F()
    x = any_value('x')
    how = choose('item', 'attribute')
    if how == 'item':
        f['a'] = x
    else:
        f.a = x
    where = choose('outside', 'inside its own context', 'inside another context')
    if where == 'outside':
        v = f.a
    elif where == 'inside its own context':
        with pilo.ctx(src=DefaultSource({'a': 1}), form=f, parent=f, errors=fields.CollectErrors()):
            v = f.a
    else:
        other = F()
        with pilo.ctx(src=DefaultSource({'a': 1}), form=other, parent=other, errors=fields.CollectErrors()):
            v = f.a
    check(same(v, x), 'a stored value is returned')
    check(log == [], 'a stored value is not mapped again')
    check(len(f) == 1 and same(f['a'], x), 'reading a stored value changes nothing')


def spec_computed_once():
    """outside of any mapping"""
    log = []
    out = choose(('value', any_value('x')), ('none', NONE), ('error', ERROR), ('not set', NOT_SET))

    class F(pilo.Form):
        a = pilo.Field(optional=True)
        b = pilo.Field(default=1)

        @a.compute
        def a(self):
            log.append(self)
            return out[1]
    f = F()
    try:
        v = f.a
        raised = False
    except AttributeError:
        raised = True
    check(raised == (out[0] != 'value'), 'reading raises exactly if nothing could be mapped')
    check(len(log) == 1 and log[0] is f, 'reading maps the field once, for the form')
    if raised:
        check(len(f) == 0, 'a read that fails stores nothing')
    else:
        check(same(v, out[1]) and len(f) == 1 and same(f['a'], out[1]), 'the value read is stored')
        again = f.a
        check(len(log) == 1 and same(again, v), 'the second read returns the stored value')


def spec_missing_raises():
    class F(pilo.Form):
        a = fields.Integer()
    f = F()
    try:
        f.a
        raised = False
    except (pilo.fields.FormError, AttributeError):
        raised = True
    check(raised and len(f) == 0, 'reading a missing required field raises and stores nothing')


def spec_default_read():
    d = any_value('d')
    assume(not callable(d))

    class F(pilo.Form):
        a = fields.Integer(default=d)
    f = F()
    v = f.a
    check(same(v, d) and same(f['a'], d), 'reading a field without source yields and stores its default')


def spec_own_source():
    """a form that knows its source is read from it"""
    x = any_value('x')

    class F(pilo.Form):
        src = DefaultSource({'a': x, 'k': 1})
        a = pilo.Field()
    f = F()
    v = f.a
    check(same(v, x) and same(f['a'], x), 'a read outside a mapping uses the source of the form')


def spec_invalid_read():
    x = any_value('x', 'int', 'list', 'str')

    class F(pilo.Form):
        src = DefaultSource({'a': x})
        a = fields.Integer()
    f = F()
    try:
        v = f.a
        raised = False
    except (pilo.fields.FormError, AttributeError):
        raised = True
    if isinstance(x, int):
        check(not raised and same(f['a'], x), 'a valid value is read')
    elif isinstance(x, list):
        check(raised and len(f) == 0, 'an invalid value raises and is not stored')
    else:
        check(raised == ('a' not in f), 'a value is stored exactly if the read succeeds')


def spec_sibling():
    """a hook reads a field of the form being mapped"""
    x, y = any_value('x'), any_value('y')
    log, seen = [], []

    class F(pilo.Form):
        a = pilo.Field()
        b = pilo.Field()

        @a.munge
        def a(self, value):
            seen.append(self.b)
            seen.append(self.b)
            return value

        @b.parse
        def b(self, path):
            log.append([part.key for part in path.parts])
            return path.primitive(None)
    f = F()
    where = choose('root', 'nested')
    assume(x is not None and y is not None)
    if where == 'root':
        errs = f.map({'a': x, 'b': y})
        prefix = []
    else:
        class G(pilo.Form):
            i = fields.SubForm(F)
        g = G()
        errs = g.map({'i': {'a': x, 'b': y}, 'b': 'wrong'})
        f = got(g, 'i')
        prefix = ['i']
    check(len(errs) == 0, 'reading a sibling records no error')
    check(same_items(seen, [y, y]), 'a sibling is read from the position of the form')
    check(log[0] == prefix + ['b'], 'a sibling is mapped below the form, not below the field that reads it')
    check(len(log) <= 2, 'reading twice maps once')
    check(same(f['a'], x) and same(f['b'], y), 'both fields are held')


def spec_outer():
    """a hook of a nested form reads a field of the outer form"""
    y, x = any_value('y'), any_value('x')
    assume(x is not None and y is not None)
    seen, log, outer = [], [], []

    class In(pilo.Form):
        p = pilo.Field()

        @p.munge
        def p(self, value):
            before = [part.key for part in pilo.ctx.src_path.parts]
            seen.append(outer[0].b)
            seen.append(outer[0].b)
            log.append((before, [part.key for part in pilo.ctx.src_path.parts]))
            return value

    class Out(pilo.Form):
        i = choose(fields.SubForm(In), fields.List(fields.SubForm(In)))
        b = pilo.Field()
        paths = []

        @b.parse
        def b(self, path):
            self.paths.append([part.key for part in path.parts])
            return path.primitive(None)
    o = Out()
    outer.append(o)
    errs = o.map({'i': {'p': x} if isinstance(Out.i, fields.SubForm) else [{'p': x}], 'b': y})
    check(len(errs) == 0, 'reading an outer field records no error')
    check(same_items(seen, [y, y]), 'an outer field is read from the position of its form')
    for p in Out.paths:
        check(p == ['b'], 'an outer field is mapped at its own path')
    check(len(Out.paths) <= 2, 'reading an outer field twice maps it once')
    check(log[0][0] == log[0][1], 'reading an outer field leaves the path as it was')
    check(same(o['b'], y), 'the outer field is held')


def spec_outer_fails():
    """nothing can be mapped for the outer field"""
    outer, seen = [], []

    class In(pilo.Form):
        p = pilo.Field()

        @p.munge
        def p(self, value):
            try:
                seen.append(outer[0].b)
            except AttributeError:
                seen.append('raised')
            return value

    class Out(pilo.Form):
        i = fields.SubForm(In)
        b = fields.Integer(optional=True)
    o = Out()
    outer.append(o)
    x = any_value('x', 'int', 'list')
    data = {'i': {'p': 1}}
    if choose(True, False):
        data['b'] = x
    stored = []
    errs = o.map(data)
    if 'b' not in data:
        check(seen == ['raised'] and 'b' not in o, 'an outer field without value raises')
    elif isinstance(x, int):
        check(same(seen[0], x), 'an outer field with a value is read')
    else:
        check(seen == ['raised'] and 'b' not in o, 'an outer field with an invalid value raises')
        check(len(errs) >= 1, 'an outer field with an invalid value is reported')


def spec_unrelated():
    """a form that is not being mapped is read while another is"""
    class G(pilo.Form):
        b = pilo.Field(default='fallback')
    g = G()
    seen = []

    class F(pilo.Form):
        a = pilo.Field()

        @a.munge
        def a(self, value):
            seen.append(g.b)
            return value
    f = F()
    x = choose(1, {'b': 'not yours either'})
    errs = f.map({'a': x, 'b': 'not yours'})
    check(seen == ['fallback'] and g['b'] == 'fallback', 'an unrelated form is not read from the current source')
    check(len(errs) == 0 and f == {'a': x}, 'the form being mapped is not disturbed')


def spec_set_delete():
    class F(pilo.Form):
        a = pilo.Field(optional=True)
        b = pilo.Field(optional=True)
    f = F()
    x, y = any_value('x'), any_value('y')
    f['b'] = y
    f.a = x
    check(len(f) == 2 and same(f['a'], x) and same(f['b'], y), 'assigning sets exactly that entry')
    z = any_value('z')
    f.a = z
    check(len(f) == 2 and same(f['a'], z) and same(f['b'], y), 'assigning again replaces it')
    del f.a
    check(len(f) == 1 and 'a' not in f and same(f['b'], y), 'deleting removes exactly that entry')
    del f.a
    check(len(f) == 1 and same(f['b'], y), 'deleting an absent entry does nothing')


def spec_other_name():
    """the entry is the attribute name, whatever the source key"""
    x = any_value('x')

    class F(pilo.Form):
        src = DefaultSource({'k': x, 'a': 'wrong'})
        a = pilo.Field('k')
    f = F()
    v = f.a
    check(same(v, x) and len(f) == 1 and same(f['a'], x), 'a read stores under the attribute name')
    f.a = 1
    check(f == {'a': 1}, 'assigning stores under the attribute name')
    del f.a
    check(len(f) == 0, 'deleting removes the attribute name')


def spec_class_access():
    class F(pilo.Form):
        a = pilo.Field()
    check(isinstance(F.a, pilo.Field) and F.a.name == 'a', 'reading from the class yields the field')
    check(F.a is F.fields[0], 'the field of the class is the declared one')


def spec_null_default_read():
    """a null is a value"""
    how = choose('hook', 'callable', 'compute')
    field = pilo.Field(nullable=how == 'compute')
    made = []

    def null(self):
        made.append(1)
        return None
    if how == 'hook':
        field.default(null)
    elif how == 'callable':
        field = pilo.Field(default=lambda: null(None), nullable=False)
    else:
        field.compute(null)
    f = form_with(field)()
    check(f.a is None and f.a is None, 'a null that was mapped is the value of the attribute')
    check('a' in f and len(made) == 1, 'and is stored')


def spec_entries_of_other_names():
    """what a form holds under the key of a field is not the value of the field"""
    x, y = any_value('x', 'int', 'str'), any_value('y', 'int', 'str')

    class F(pilo.Form):
        a = pilo.Field('other')

    f = F()
    f['other'] = y
    with pilo.ctx(form=f, parent=f, src=DefaultSource({'other': x}), errors=fields.CollectErrors()):
        check(same(f.a, x), 'the field is mapped from the source')
    check(same(f['a'], x) and same(f['other'], y) and len(f) == 2, 'and stored under its name')
