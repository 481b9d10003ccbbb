"""C23: context variables resolve innermost first."""
from base import *

NOTHING = ['nothing']


def pushes(n):
    """n frames each of which may define v; the values defined, outermost first"""
    closers, values = [], []
    for i in range(n):
        how = choose('defines', 'other', 'empty')
        if how == 'defines':
            v = choose(any_value('v%d' % i), None, False, 0)
            closers.append(pilo.ctx(v=v, w=i))
            values.append(v)
        elif how == 'other':
            closers.append(pilo.ctx(w=i))
        else:
            closers.append(pilo.ctx())
    return closers, values


def spec_lookup():
    closers, values = pushes(3)
    if values:
        check(hasattr(pilo.ctx, 'v') and same(pilo.ctx.v, values[-1]), 'the innermost definition counts, even if falsy')
    else:
        try:
            pilo.ctx.v
            fail('an undefined variable raises')
        except AttributeError:
            reach('an undefined variable raises an attribute error')
        check(not hasattr(pilo.ctx, 'v') and getattr(pilo.ctx, 'v', 'dflt') == 'dflt', 'an undefined variable is absent')
    all_v = pilo.ctx.values_for('v')
    check(same_items(list(all_v), values), 'all values are listed outermost first')
    for c in reversed(closers):
        c.__exit__(None, None, None)
    check(not hasattr(pilo.ctx, 'v') and list(pilo.ctx.values_for('v')) == [], 'a variable ends with its block')


def spec_names():
    """variables may have the name of a dictionary method, or one of the context's own variables"""
    name = choose('items', 'get', 'keys', 'update', 'pop', 'copy', 'errors', 'form', 'parent', 'tags', 'field')
    x, y = any_value('x'), any_value('y')
    with pilo.ctx(**{name: x}):
        check(same(getattr(pilo.ctx, name), x), 'a variable of any name is found')
        with pilo.ctx(other=1):
            check(same(getattr(pilo.ctx, name), x), 'also below frames that do not define it')
            with pilo.ctx(**{name: y}):
                check(same(getattr(pilo.ctx, name), y), 'an inner definition hides the outer')
                check(same_items(list(pilo.ctx.values_for(name)), [x, y]), 'both are listed')
            check(same(getattr(pilo.ctx, name), x), 'the outer definition is back')
    check(list(pilo.ctx.values_for(name)) == [], 'only frames that define a name contribute')


def spec_initial():
    """what is defined without any frame"""
    check(pilo.ctx.src is None and pilo.ctx.src_path is None, 'there is no source at first')
    check(pilo.ctx.ignore_default is False and pilo.ctx.ignore_missing is False, 'the switches are off at first')
    with pilo.ctx(ignore_missing=True):
        check(pilo.ctx.ignore_missing is True and pilo.ctx.ignore_default is False, 'a switch can be set in a block')
    check(pilo.ctx.ignore_missing is False, 'and is off again afterwards')


def spec_sources():
    """what each push does to the path"""
    a, b = DefaultSource({'k': {'l': 1}}), DefaultSource({})
    with pilo.ctx(src=a):
        p = pilo.ctx.src_path
        check(pilo.ctx.src is a and len(p) == 0 and p.src is a, 'pushing a source starts a new root path')
        with pilo.ctx(v=1):
            check(pilo.ctx.src_path is p and len(p) == 0 and pilo.ctx.src is a, 'any other push leaves the path alone')
        with pilo.ctx():
            check(pilo.ctx.src_path is p and len(p) == 0, 'so does an empty push')
        key = choose('k', 0, 'l', '')
        with pilo.ctx(src=key, v=2):
            check(pilo.ctx.src_path is p and [q.key for q in p.parts] == [key], 'pushing a key extends the path by it')
            check(pilo.ctx.src == key and pilo.ctx.v == 2, 'the key is the source of that frame')
            with pilo.ctx(src='l'):
                check([q.key for q in p.parts] == [key, 'l'], 'keys add up')
                with pilo.ctx(src=b):
                    q = pilo.ctx.src_path
                    check(q is not p and len(q) == 0 and q.src is b, 'an inner source has a path of its own')
                    with pilo.ctx(src='z'):
                        check([r.key for r in q.parts] == ['z'] and [r.key for r in p.parts] == [key, 'l'],
                              'keys extend the innermost path only')
                    check(len(q) == 0, 'and are taken off it')
                check(pilo.ctx.src_path is p and [r.key for r in p.parts] == [key, 'l'], 'the outer path is back')
            check([q.key for q in p.parts] == [key], 'one key is taken off per block')
        check(len(p) == 0 and pilo.ctx.src is a, 'the path is empty at the end')
    check(pilo.ctx.src is None and pilo.ctx.src_path is None, 'the source ends with its block')


def spec_call_is_push():
    closing = choose(pilo.ctx.push, pilo.ctx)
    with closing(v=any_value('v')):
        check(same(pilo.ctx.v, any_value('v')), 'pushing and calling are the same')
        check(len(pilo.ctx.stack) == 2, 'either adds one frame')
    check(len(pilo.ctx.stack) == 1, 'either removes it')


def spec_reset():
    """a reset hides the source but no other variable"""
    with pilo.ctx(src=DefaultSource({}), v=any_value('v')):
        with pilo.ctx.reset():
            check(pilo.ctx.src is None and pilo.ctx.src_path is None, 'a reset hides the source')
            check(same(pilo.ctx.v, any_value('v')), 'a reset does not hide variables')
        check(pilo.ctx.src_path is not None, 'the source is back')


def spec_mixin():
    """forms and fields see the context"""
    f, field = pilo.Form(), pilo.Field()
    with pilo.ctx(v=any_value('v')):
        check(same(f.ctx.v, any_value('v')) and same(field.ctx.v, any_value('v')), 'forms and fields see the same context')
        check(f.ctx is pilo.ctx and field.ctx is pilo.ctx, 'which is the one of the thread')


def spec_threads():
    """another thread does not see these variables"""
    def look():
        return hasattr(pilo.ctx, 'v'), pilo.ctx.src, len(pilo.ctx.stack)
    with pilo.ctx(src=DefaultSource({}), v=1):
        seen = in_thread(look)
        check(seen == (False, None, 1), 'variables of one thread are not defined in another')
        check(pilo.ctx.v == 1 and pilo.ctx.src is not None, 'and stay as they are')


def spec_hook_sees():
    """variables of the mapping are visible to hooks"""
    x = any_value('x')
    seen = []

    class F(pilo.Form):
        a = pilo.Field()

        @a.munge
        def a(self, value):
            seen.append((pilo.ctx.v, pilo.ctx.form, pilo.ctx.field, pilo.ctx.parent))
            return value
    f = F()
    with pilo.ctx(v=x):
        f.map({'a': 1})
    v, form, field, parent = seen[0]
    check(same(v, x) and form is f and field is F.a and parent is F.a, 'a hook sees the form, the field and user variables')


class Keyish(object):
    """a key that looks like a source in parts"""

    path = 'path'
    error = ValueError
    data = None


def spec_key_kinds():
    """whatever is not a source is a key"""
    key = choose('', 0, 1, -1, None, False, 1.5, ('a',), Keyish(), Keyish)
    with pilo.ctx(src=DefaultSource({'k': 1})):
        p = pilo.ctx.src_path
        with pilo.ctx(src=key):
            check(pilo.ctx.src_path is p and len(p) == 1 and p[0].key is key, 'pushing a key of any kind extends the path')
            check(pilo.ctx.src is key, 'and makes it the source')
        check(len(p) == 0 and pilo.ctx.src_path is p, 'and it is taken off again')
