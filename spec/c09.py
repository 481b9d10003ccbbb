"""C09: sequence fields map every element once, in order, at its own position."""
from base import *
from pilo.source import JsonSource, UnionSource


def keys_of(path):
    return [part.key for part in path.parts]


class Recorder(object):
    """logs what an item field was asked to parse and yields a chosen outcome"""

    def __init__(self, field, *outcomes):
        self.seen = []
        rec = self

        @field.parse
        def parse(self, path):
            i = len(rec.seen)
            rec.seen.append((keys_of(path), path.value))
            return outcomes[i]


def spec_order_and_position():
    x, y, z = any_value('x'), any_value('y'), any_value('z')
    assume(x is not None and y is not None and z is not None)
    items = choose([x, y, z], (x, y, z))
    item = pilo.Field()
    rec = Recorder(item, any_value('p', 'int', 'str', 'list'), any_value('q', 'int'), any_value('r', 'str', 'bool'))
    f, errs = mapped(fields.List(item), {'a': items})
    check(len(rec.seen) == 3, 'each item is mapped exactly once')
    for i in range(3):
        check(rec.seen[i][0] == ['a', i], 'an item is mapped at its own position, in source order')
        check(same(rec.seen[i][1], items[i]), 'the item found there is the one at that position')
    check(same_items(got(f), [any_value('p'), any_value('q'), any_value('r')]), 'the list holds what the items mapped to')
    check(len(errs) == 0, 'nothing is recorded for items that mapped')


def spec_items_without_value():
    """exactly the items that produced a value appear"""
    outs = (choose('p', NONE, ERROR), choose('q', NONE, ERROR, NOT_SET), choose(None, NONE, 0))
    item = pilo.Field(optional=True)
    rec = Recorder(item, *outs)
    f, errs = mapped(fields.List(item), {'a': [1, 2, 3]})
    expected = []
    for o in outs:
        if not is_missing(o):
            expected.append(o)
    check(len(rec.seen) == 3, 'an item without value does not stop the others')
    check(same_items(got(f), expected), 'exactly the items that produced a value appear, in order')
    check(len(errs) == 0, 'optional items record nothing')


def spec_failing_items():
    """an item that does not parse is reported at its position, the others are kept"""
    x, y = any_value('x', 'int', 'str', 'None'), any_value('y', 'int', 'bool', 'list')
    item = fields.Integer()
    field = fields.List(item)
    f, errs = mapped(field, {'a': [x, y, 3]})
    r = got(f)
    check(r is not NONE and len(r) + len(errs) == 3, 'each item yields a value or an error')
    check(r[len(r) - 1] == 3, 'the last item is mapped whatever the others do')
    for e in errs:
        check(type(e) is fields.Invalid and e.field is item, 'an item that fails is an Invalid of the item field')
        check(str(e).startswith('a[0] - ') or str(e).startswith('a[1] - '), 'the error is at the position of the item')


def spec_any_list():
    v = any_value('v', 'list', 'tuple')
    item = pilo.Field()
    f, errs = mapped(fields.List(item), {'a': v})
    r = got(f)
    check(type(r) is list, 'a list field yields a list')
    check(len(r) == len(v), 'as many items as the source has')
    for i in range(len(r)):
        check(same(r[i], v[i]), 'item by item')
    check(len(errs) == 0, 'a sequence of anything records no error')


def spec_not_a_sequence():
    v = any_value('v', 'int', 'float', 'bool', 'dict', 'object', 'None')
    field = fields.List(pilo.Field())
    f, errs = mapped(field, {'a': v})
    if v is None:
        check(got(f) is None and len(errs) == 0, 'a null is null')
    else:
        check(got(f) is NONE and only_invalid(errs, field), 'a non-sequence is one Invalid')


def spec_single_item():
    v = any_value('v', 'int', 'float', 'bool', 'dict', 'object')
    item = pilo.Field(optional=True)
    out = choose('p', NONE, ERROR, None, [])
    rec = Recorder(item, out)
    f, errs = mapped(fields.List(item, allow_field=True, optional=True), {'a': v})
    check(len(rec.seen) == 1 and rec.seen[0][0] == ['a'], 'a single item is mapped once, where it is')
    check(same(rec.seen[0][1], v), 'the single item is the value itself')
    if is_missing(out):
        check(got(f) is NONE, 'a single item without value yields no list')
    else:
        check(same_items(got(f), [out]), 'a single item becomes a list of one')
    check(len(errs) == 0, 'a single item records no error')


def spec_single_item_sequence():
    """with single items allowed a sequence is still mapped item by item"""
    item = pilo.Field()
    rec = Recorder(item, 'p', 'q')
    f, errs = mapped(fields.List(item, allow_field=True), {'a': choose([5, 6], (5, 6))})
    check(len(rec.seen) == 2 and rec.seen[0][0] == ['a', 0] and rec.seen[1][0] == ['a', 1],
          'a sequence is mapped item by item where single items are allowed')
    check(same_items(got(f), ['p', 'q']) and len(errs) == 0, 'the sequence holds its items')


def spec_single_item_invalid():
    item = fields.Integer()
    v = any_value('v', 'float', 'bool', 'dict', 'object')
    f, errs = mapped(fields.List(item, allow_field=True), {'a': v})
    if got(f) is NONE:
        check(only_invalid(errs, item), 'a single item that fails is one Invalid of the item field')
    else:
        check(len(got(f)) == 1 and len(errs) == 0, 'a single item that maps is a list of one')


def spec_nested_lists():
    x = any_value('x')
    assume(x is not None)
    item = pilo.Field()
    rec = Recorder(item, 1, 2, 3)
    f, errs = mapped(fields.List(fields.List(item)), {'a': [[x], [], ['y', 'z']]})
    check([s[0] for s in rec.seen] == [['a', 0, 0], ['a', 2, 0], ['a', 2, 1]], 'nested items are mapped at nested positions')
    check(got(f) == [[1], [], [2, 3]], 'nested lists keep their shape')
    check(len(errs) == 0, 'nested lists record nothing')


def spec_tuple_positions():
    x, y = any_value('x'), any_value('y')
    assume(x is not None and y is not None)
    a, b = pilo.Field(), pilo.Field()
    ra, rb = Recorder(a, any_value('p', 'int', 'list')), Recorder(b, any_value('q', 'str'))
    f, errs = mapped(choose(fields.Tuple(a, b), fields.Tuple([a, b]), fields.Tuple((a, b))), {'a': choose([x, y], (x, y))})
    check(len(ra.seen) == 1 and ra.seen[0][0] == ['a', 0] and same(ra.seen[0][1], x), 'item 0 is mapped by field 0')
    check(len(rb.seen) == 1 and rb.seen[0][0] == ['a', 1] and same(rb.seen[0][1], y), 'item 1 is mapped by field 1')
    check(type(got(f)) is tuple and same_items(got(f), [any_value('p'), any_value('q')]), 'a tuple holds its mapped items')
    check(len(errs) == 0, 'a tuple that maps records nothing')


def spec_tuple_size():
    v = any_value('v', 'list', 'tuple')
    field = fields.Tuple(pilo.Field(), pilo.Field())
    f, errs = mapped(field, {'a': v})
    if len(v) == 2:
        check(same_items(got(f), [v[0], v[1]]) and len(errs) == 0, 'a tuple of the right size is kept')
    else:
        check(got(f) is NONE and only_invalid(errs, field), 'a tuple of another size is one Invalid')


def spec_tuple_same_field():
    """one field for several items maps each of them; no items make an empty tuple"""
    x, y, z = any_value('x', 'int', 'str'), any_value('y', 'int', 'str'), any_value('z', 'int', 'str')
    item = pilo.Field()
    rec = []

    @item.munge
    def munge(self, value):
        rec.append(list(p.key for p in pilo.ctx.src_path))
        return (value,)
    f, errs = mapped(fields.Tuple(item, item, item), {'a': [x, y, z]})
    check(got(f) == ((x,), (y,), (z,)) and rec == [['a', 0], ['a', 1], ['a', 2]], 'one field maps several items')
    f, errs = mapped(fields.Tuple([], **choose({}, {'default': 'D'}, {'optional': True})), {'a': choose([], ())})
    check(got(f) == () and len(errs) == 0, 'a tuple without items is an empty tuple')
    v = choose(NONE, ERROR)
    first, second = pilo.Field(optional=True), pilo.Field(optional=True)

    @first.munge
    def munge(self, value):
        return v if value == 1 else value

    @second.munge
    def munge2(self, value):
        return v if value == 1 else value
    a, b = choose(1, 0), choose(1, 0)
    f, errs = mapped(fields.Tuple(first, second, default='D'), {'a': [a, b]})
    check(got(f) == tuple(e for e in (a, b) if e != 1) and len(errs) == 0, 'items that yield nothing are left out')


def spec_tuple_not_sequence():
    v = any_value('v', 'int', 'float', 'bool', 'dict', 'object')
    field = fields.Tuple(pilo.Field(), pilo.Field())
    f, errs = mapped(field, {'a': v})
    check(got(f) is NONE and only_invalid(errs, field), 'a tuple needs a sequence')


def spec_tuple_source_key():
    field = fields.Tuple('other', pilo.Field(), pilo.Field())
    f, errs = mapped(field, {'other': [1, 2], 'a': [3, 4]})
    check(got(f) == (1, 2) and len(errs) == 0, 'a tuple is read from its source key')


def spec_tuple_failing_item():
    i, j = fields.Integer(), fields.Integer()
    x = any_value('x', 'dict', 'list', 'object')
    f, errs = mapped(fields.Tuple(i, j), {'a': choose([x, 1], [1, x])})
    check(len(errs) == 1 and type(errs[0]) is fields.Invalid, 'a tuple item that fails is one Invalid')
    check(errs[0].field is i and str(errs[0]).startswith('a[0] - ') or
          errs[0].field is j and str(errs[0]).startswith('a[1] - '), 'at the position of the item, with its field')


def spec_other_sources():
    item = pilo.Field()
    rec = Recorder(item, 'p', 'q', 'r')
    which = choose('json', 'union', 'union combine')
    if which == 'json':
        src, n = JsonSource('{"a": [7, {"k": 1}, "s"]}'), 3
    elif which == 'union':
        src, n = UnionSource([{'a': [7, 8]}, {'a': [9]}]), 2
    else:
        src, n = UnionSource([{'a': [7, 8]}, {'a': [9]}], merge='combine'), 3
    f = form_with(fields.List(item))()
    errs = f.map(src)
    check(got(f) == ['p', 'q', 'r'][:n] and len(rec.seen) == n, 'items of another source are mapped once each, in order')
    for i in range(n):
        check(rec.seen[i][0] == ['a', i], 'items of another source are mapped at their position')
    check(len(errs) == 0, 'items of another source record nothing')


def spec_config():
    from pilo.source import ConfigSource
    f = form_with(fields.List(fields.String()))()
    errs = f.map(ConfigSource('[s]\na = x y\n  z\n', section='s'))
    check(got(f) == ['x y', 'z'] and len(errs) == 0, 'items of a config option are mapped in order')


def spec_many_items():
    """sequences of any size"""
    n = choose(17, 120)
    f, errs = mapped(fields.List(pilo.Field()), {'a': list(range(n))})
    check(len(errs) == 0 and got(f) == list(range(n)), 'every item of a long sequence is mapped')
    names = [pilo.Field() for _ in range(9)]
    f, errs = mapped(fields.Tuple(names), {'a': list(range(9))})
    check(len(errs) == 0 and got(f) == tuple(range(9)), 'every item of a long tuple is mapped')
    logs = []
    for i, field in enumerate(names):
        logs.append(Recorder(field, 'r%d' % i))
    f, errs = mapped(fields.Tuple(names), {'a': list(range(9))})
    check(got(f) == tuple(['r%d' % i for i in range(9)]), 'item i of a long tuple is mapped by field i')
    check([log.seen for log in logs] == [[(['a', i], i)] for i in range(9)], 'each field of a long tuple maps its own item')


def spec_tuple_size_with_defaults():
    """exactly as many, whatever is declared besides"""
    opts = choose({}, {'allow_field': True}, {'optional': True}, {'default': None}, {'allow_field': True, 'default': 1})
    field = fields.Tuple(pilo.Field(), pilo.Field(default=1), pilo.Field(default=None), **opts)
    n = choose(0, 1, 2, 3, 4, 5)
    f, errs = mapped(field, {'a': ['x'] * n})
    if n == 3:
        check(len(errs) == 0 and got(f) == ('x', 'x', 'x'), 'exactly as many items are taken')
    else:
        check(got(f) is NONE and only_invalid(errs, field), 'no other number of items is')


def spec_items_under_any_circumstances():
    circumstances((
        (lambda: fields.List(fields.Integer()), ['1', 2, 0], [1, 2, 0]), (lambda: fields.List(fields.Integer()), [1, 'x', 3], REFUSED),
        (lambda: fields.List(fields.Integer()), 3, REFUSED), (lambda: fields.List(fields.Integer(), allow_field=True), '3', [3]),
        (lambda: fields.Tuple(fields.Integer(), fields.String()), ['1', 'b'], (1, 'b')),
        (lambda: fields.Tuple(fields.Integer(), fields.String()), [1], REFUSED),
        (lambda: fields.Tuple(fields.Integer(), fields.String()), [1, 'b', 'c'], REFUSED),
        (lambda: fields.List(fields.List(fields.Integer())), [[1], [], [2, '3']], [[1], [], [2, 3]]),
    ))
