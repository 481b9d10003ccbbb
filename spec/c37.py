"""C37: copies and filtered views are faithful and leave the form alone."""
from base import *


class In(pilo.Form):
    x = pilo.Field(default=None).tag('red')
    y = pilo.Field(default=None).tag('blue', 'red')
    z = pilo.Field(default=None)


class Out(pilo.Form):
    a = pilo.Field(default=None).tag('red')
    sub = fields.SubForm(In, default=None).tag('red', 'blue')
    many = fields.List(fields.SubForm(In), default=None).tag('blue')
    b = pilo.Field(default=None)


def inner(x=NONE, y=NONE, z=NONE):
    f = In()
    if x is not NONE:
        f['x'] = x
    if y is not NONE:
        f['y'] = y
    if z is not NONE:
        f['z'] = z
    return f


def outer(**kw):
    f = Out()
    for k, v in kw.items():
        f[k] = v
    return f


def some_value(name):
    return any_value(name, 'None', 'int', 'str', 'bool', 'float')


def items_of(form):
    return [(k, dict.__getitem__(form, k)) for k in dict.keys(form)]


def unchanged(before, form):
    """same keys, in order, with the same objects"""
    now = items_of(form)
    if len(now) != len(before):
        return False
    for i in range(len(now)):
        if now[i][0] != before[i][0] or not same(now[i][1], before[i][1]):
            return False
    return True


def spec_copy():
    x, y = any_value('x'), any_value('y')
    which = choose(0, 1, 2, 3)
    f = [outer(), outer(a=x), outer(a=x, b=y), outer(sub=inner(x), many=[inner(y)], a=None)][which]
    if choose(True, False):
        f['captured'] = y
    before = items_of(f)
    g = f.copy()
    check(type(g) is Out, 'a copy has the class of the form')
    check(g is not f, 'a copy is another form')
    check(unchanged(before, g), 'a copy holds the same entries')
    check(unchanged(before, f), 'copying leaves the form alone')
    g['a'] = 'changed'
    g['new'] = 1
    check(unchanged(before, f), 'changing the copy does not change the form')
    f['fresh'] = 'other'
    check('fresh' not in g, 'changing the form does not change the copy')


def spec_copy_class():
    """of sub-classes too"""
    class Sub(Out):
        c = pilo.Field(default=None)
    f = Sub()
    f['c'] = some_value('c')
    g = f.copy()
    check(type(g) is Sub and same(g['c'], f['c']), 'a copy of a sub-class is one of the sub-class')


def spec_munge_calls():
    """the function sees every field once, in order, with its value or nothing"""
    x, y = some_value('x'), some_value('y')
    f = outer(b=y) if choose(True, False) else outer(b=y, a=x)
    seen = []

    def func(form, field, value):
        seen.append((form, field, value))
        return value
    before = items_of(f)
    g = f.munge(func)
    check([s[1] for s in seen] == [Out.a, Out.sub, Out.many, Out.b], 'every field is asked for once, in declaration order')
    for form, field, value in seen:
        check(form is g, 'the function gets the new form')
        if field.name in f:
            check(same(value, f[field.name]), 'the function gets the value of the field')
        else:
            check(value is NONE, 'the function is told that there is no value')
    check(type(g) is Out and g is not f, 'munging yields another form of the class')
    check(len(g) == len(f) and same(g['b'], f['b']), 'keeping everything keeps the entries')
    check(unchanged(before, f), 'munging leaves the form alone')


def spec_munge_result():
    """exactly what the function returns"""
    x, r = some_value('x'), some_value('r')
    f = outer(a=x, b=x)
    f['captured'] = 1

    def func(form, field, value):
        if field is Out.a:
            return choose(NONE, r)
        if field is Out.sub:
            return r
        return NONE
    before = items_of(f)
    g = f.munge(func)
    check('b' not in g and 'many' not in g, 'what the function drops is not in the result')
    check(same(g['sub'], r), 'what the function supplies is in the result')
    check(('a' not in g) or same(g['a'], r), 'what the function replaces is replaced')
    check('captured' not in g, 'entries that are no fields are not in the result')
    check(unchanged(before, f), 'munging leaves every entry of the form alone')


def spec_munge_mixed():
    """forms among other values in a sequence"""
    x, y = some_value('x'), some_value('y')
    f = outer(a=x)
    forms = [inner(x, z=y), inner(y, z=x)]
    where = choose(0, 1, 2)
    items = list(forms)
    items.insert(where, 'other')
    f['many'] = items if choose(True, False) else tuple(items)
    before = items_of(f)
    g = f.munge(drop_z)
    check(type(g['many']) is type(f['many']) and len(g['many']) == 3, 'a sequence stays one of the same length')
    for i in range(3):
        if i == where:
            check(g['many'][i] == 'other', 'values that are no forms stay')
        else:
            check('z' not in g['many'][i] and 'z' in items[i] and g['many'][i] is not items[i],
                  'each form in a sequence is munged, whatever else is in it')
    check(unchanged(before, f), 'munging leaves every entry of the form alone')


def drop_z(form, field, value):
    return NONE if field.name == 'z' else value


def spec_munge_nested():
    x, y, z = some_value('x'), some_value('y'), some_value('z')
    n = inner(x, NONE, z)
    m = inner(NONE, y, z)
    seq = choose([n, m], (n, m), [n, 5, m], [])
    f = outer(sub=n, many=seq)
    bn, bm, bf = items_of(n), items_of(m), items_of(f)
    g = f.munge(drop_z)
    check(type(g['sub']) is In and g['sub'] is not n, 'a nested form is munged into another form of its class')
    check(same(g['sub']['x'], x) and 'z' not in g['sub'] and 'y' not in g['sub'], 'with exactly the entries kept')
    check(type(g['many']) is type(seq) and len(g['many']) == len(seq), 'a sequence of forms stays a sequence of the kind')
    for i in range(len(seq)):
        if isinstance(seq[i], In):
            check(type(g['many'][i]) is In and g['many'][i] is not seq[i] and 'z' not in g['many'][i], 'each form of it is munged')
        else:
            check(g['many'][i] == seq[i], 'what is no form stays')
    if seq:
        check(same(g['many'][0]['x'], x), 'in order (first)')
        check(same(g['many'][-1]['y'], y), 'in order (last)')
    check(unchanged(bn, n) and unchanged(bm, m) and unchanged(bf, f), 'munging leaves nested forms alone')


def spec_munge_deep():
    """forms in forms in forms"""
    class Deep(pilo.Form):
        o = fields.SubForm(Out, default=None)
    x, z = some_value('x'), some_value('z')
    f = Deep()
    n = inner(x, NONE, z)
    f['o'] = outer(sub=n, many=[inner(z=z)])
    g = f.munge(drop_z)
    check('z' not in g['o']['sub'] and same(g['o']['sub']['x'], x) and 'z' not in g['o']['many'][0], 'at any depth')
    check(same(n['z'], z) and same(f['o']['sub']['z'], z), 'leaving the originals alone at any depth')


def tagged(field, tags, inv):
    hit = False
    for t in tags:
        if t in field.tags:
            hit = True
    return hit != inv


def verify_filter(f, g, tags, inv):
    """g is the filtered view of f"""
    check(type(g) is type(f) and g is not f, 'filtering yields another form of the class')
    for field in type(f).fields:
        name = field.name
        if name not in f or not tagged(field, tags, inv):
            check(name not in g, 'a field without the tags is not in the result')
        else:
            check(name in g, 'a field with one of the tags is in the result')
            if not isinstance(f[name], (pilo.Form, list, tuple)):
                check(same(g[name], f[name]), 'with its value')
    check(len(g) <= len(type(f).fields), 'nothing else is in the result')


def spec_filter():
    x, y = some_value('x'), some_value('y')
    f = inner(choose(NONE, x), choose(NONE, y), choose(NONE, x))
    f['captured'] = 1
    before = items_of(f)
    tags = choose((), ('red',), ('blue',), ('red', 'blue'), ('green',), ('green', 'blue'))
    inv = choose(None, False, True)
    g = f.filter(*tags) if inv is None else f.filter(*tags, inv=inv)
    verify_filter(f, g, tags, bool(inv))
    check('captured' not in g, 'entries that are no fields are filtered out')
    check(unchanged(before, f), 'filtering leaves the form alone')


def spec_filter_nested():
    x, y, z = some_value('x'), some_value('y'), some_value('z')
    n, m = inner(x, y, z), inner(x, NONE, z)
    f = outer(a=x, sub=n, many=[m, n], b=y)
    before, bn, bm = items_of(f), items_of(n), items_of(m)
    tags, inv = choose((('red',), False), (('blue',), False), (('blue',), True), (('green',), True))
    g = f.filter(*tags, inv=inv)
    verify_filter(f, g, tags, inv)
    if 'sub' in g:
        verify_filter(n, g['sub'], tags, inv)
    if 'many' in g:
        check(len(g['many']) == 2, 'a filtered sequence of forms keeps its length')
        verify_filter(m, g['many'][0], tags, inv)
        verify_filter(n, g['many'][1], tags, inv)
    check(unchanged(before, f) and unchanged(bn, n) and unchanged(bm, m), 'filtering leaves nested forms alone')


def spec_flatten():
    x, y, z = some_value('x'), some_value('y'), some_value('z')
    f = Out()
    want = []
    if choose(True, False):
        f['b'] = z
    if choose(True, False):
        f['a'] = x
        want.append(([Out.a], x))
    how = choose('none', 'empty', 'one', 'two')
    if how != 'none':
        f['sub'] = {'empty': inner(), 'one': inner(y=y), 'two': inner(x=x, z=z)}[how]
    if how == 'one':
        want.append(([Out.sub, In.y], y))
    elif how == 'two':
        want.append(([Out.sub, In.x], x))
        want.append(([Out.sub, In.z], z))
    if 'b' in f:
        want.append(([Out.b], z))
    f['captured'] = 1
    before = items_of(f)
    leaves = list(f.flatten())
    check(len(leaves) == len(want), 'every stored leaf is listed once')
    for i in range(len(want)):
        path, value = leaves[i]
        check(len(path) == len(want[i][0]), 'a leaf has one field per level')
        for k in range(len(path)):
            check(path[k] is want[i][0][k], 'leaves are listed with their field path, in declaration order')
        check(same(value, want[i][1]), 'a leaf is listed with its value')
    check(unchanged(before, f), 'flattening leaves the form alone')


def spec_flatten_deep():
    class Deep(pilo.Form):
        p = pilo.Field()
        o = fields.SubForm(Out)
        q = pilo.Field()
    x, y = some_value('x'), some_value('y')
    f = Deep()
    f['q'] = y
    f['o'] = outer(sub=inner(x=x, y=y), b=x)
    f['p'] = x
    leaves = list(f.flatten())
    want = [([Deep.p], x), ([Deep.o, Out.sub, In.x], x), ([Deep.o, Out.sub, In.y], y), ([Deep.o, Out.b], x), ([Deep.q], y)]
    check(len(leaves) == 5, 'every leaf at any depth is listed once')
    for i in range(5):
        check(list(leaves[i][0]) == want[i][0] and same(leaves[i][1], want[i][1]), 'leaves of any depth in declaration order')


def spec_flatten_steps():
    """each path is a list of its own"""
    f = outer(sub=inner(x=1, y=2), b=3)
    paths = []
    for path, value in f.flatten():
        paths.append(list(path))
        path.append('garbage')
    check(paths == [[Out.sub, In.x], [Out.sub, In.y], [Out.b]], 'a path that was handed out is not used again')


def spec_flatten_abandoned():
    """flattening twice, and flattening partly"""
    f = outer(sub=inner(x=1, y=2), b=3)
    for path, value in f.flatten():
        break
    check(len(list(f.flatten())) == 3, 'a form can be flattened again')


def spec_views_of_mapped():
    """of a form that was mapped"""
    x = any_value('x', 'int', 'str')
    f = Out()
    errs = f.map({'a': x, 'sub': {'x': x, 'y': 0}, 'many': [{'z': ''}], 'b': False}, unmapped=choose('ignore', 'capture'))
    check(len(errs) == 0, 'mapped')
    g = f.copy()
    check(g == f and type(g) is Out, 'a copy of a mapped form is equal')
    h = f.munge(lambda form, field, value: value)
    check(h == f and h['sub'] is not f['sub'], 'keeping everything yields an equal form')
    r = f.filter('red')
    check(sorted(r) == ['a', 'sub'] and sorted(r['sub']) == ['x', 'y'], 'filtering keeps tagged entries, falsy ones included')
    check(r['sub']['y'] == 0, 'falsy values are kept')


def spec_has():
    """asking for a field"""
    x = some_value('x')
    f = outer(a=x)
    check(f.has('a'), 'a stored entry is there, by name')
    try:
        f.has(choose(1, None, ()))
        fail('only names and fields can be asked for')
    except TypeError:
        reach('asking for anything else is a type error')
    check(not f.has('nothing'), 'a name that is neither entry nor attribute is not there')


def spec_flatten_leaves():
    """whatever a leaf holds"""
    x = choose({}, [], '', 0, False, None, (), {'k': 1}, [1])
    f = outer(sub=inner(x=x), b=x)
    leaves = list(f.flatten())
    check(len(leaves) == 2, 'empty and falsy leaves are listed')
    check(same(leaves[0][1], x) and same(leaves[1][1], x), 'with their values')


def supply(form, field, value):
    if value is NONE:
        return 'supplied'
    return value


def spec_munge_supplies():
    """values the function supplies for fields that have none, in nested forms as well"""
    how = choose('sub', 'many', 'both')
    f = outer(a=1)
    if how != 'many':
        f['sub'] = inner()
    if how != 'sub':
        f['many'] = [inner(), inner(x=1)]
    before = items_of(f)
    g = f.munge(supply)
    check(g['b'] == 'supplied' and g['a'] == 1, 'values are supplied')
    if how != 'many':
        check(g['sub'] == {'x': 'supplied', 'y': 'supplied', 'z': 'supplied'}, 'values are supplied in an empty nested form')
    if how != 'sub':
        check(g['many'][0] == {'x': 'supplied', 'y': 'supplied', 'z': 'supplied'} and g['many'][1]['x'] == 1,
              'values are supplied in forms of sequences')
    check(unchanged(before, f) and (how == 'many' or len(f['sub']) == 0), 'supplying leaves the originals alone')


def spec_many_levels():
    """forms nested to any depth"""
    class Leaf(pilo.Form):
        v = fields.Integer()
    F, data = Leaf, {'v': 1}
    for i in range(7):
        F = type('N%d' % i, (pilo.Form,), {'n%d' % i: fields.SubForm(F)})
        data = {'n%d' % i: data}
    f = F(data)
    flat = list(f.flatten())
    check(len(flat) == 1 and flat[0][1] == 1 and [p.name for p in flat[0][0]] == ['n%d' % (6 - i) for i in range(7)] + ['v'],
          'flattened to any depth')
    check(f.copy() == f, 'copied at any depth')


def spec_tag_values():
    """a tag is a tag whatever value it has"""
    v = choose(True, False, None, 0, 'x')

    class F(pilo.Form):
        a = pilo.Field(default=1).tag(t=v)
        b = pilo.Field(default=2).tag('u')
    f = F({})
    check(F.a.has_tag('t') and not F.b.has_tag('t'), 'a field has its tags')
    check(f.filter('t') == {'a': 1} and f.filter('t', inv=True) == {'b': 2}, 'a tag counts whatever its value')
    g = F()
    g.map({}, tags=['t'])
    check(dict(g) == {'a': 1}, 'also where forms are mapped')


def spec_nothing_left():
    """a nested form nothing is left of is still there"""
    x = some_value('x')

    class In(pilo.Form):
        x = pilo.Field(default=None)

    class Out2(pilo.Form):
        s = fields.SubForm(In).tag('t')
        l = fields.List(fields.SubForm(In)).tag('t')
    f = Out2()
    f['s'] = In()
    f['s']['x'] = x
    f['l'] = [In(), f['s']]
    g = f.filter('t')
    check(type(g['s']) is In and len(g['s']) == 0, 'the nested form is empty, not gone')
    check(len(g['l']) == 2 and type(g['l'][0]) is In and len(g['l'][1]) == 0, 'the nested form is empty, not gone')
    check(same(f['s']['x'], x), 'the original keeps its entries')
