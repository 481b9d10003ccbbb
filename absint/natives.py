"""Abstract semantics of the built-ins the analysed program uses."""
import builtins as _py
import collections
import datetime
import decimal
import importlib
import importlib.util
import re as _re
import sys
import time
import types
import uuid

from .values import Opq, Ref, Tup, BT, NF, BM, NM, UM, SuperV, Obj, is_const, valkey, term_str
from .engine import (
    Inf, Unsup, PyExc, Unwind, ALL_TAGS, NUMERIC, SIZED, FRAME_NF, TAG_PYTYPE, is_exc_bt, ALL_AND_MORE, bt_mro,
    EXTRA_EXC,
)

PYTYPES = {
    'NoneType': type(None), 'function': types.FunctionType, 'method': types.MethodType,
    'generator': types.GeneratorType, 'module': types.ModuleType, 'date': datetime.date,
    'datetime': datetime.datetime, 'time': datetime.time, 'timedelta': datetime.timedelta,
    'struct_time': time.struct_time, 'Decimal': decimal.Decimal, 'UUID': uuid.UUID,
    'defaultdict': collections.defaultdict, 'OrderedDict': collections.OrderedDict, 'dict_keys': type({}.keys()),
    'dict_values': type({}.values()), 'dict_items': type({}.items()), 'iterator': type(iter([])),
    'builtin_function_or_method': type(len), 'tzinfo': datetime.tzinfo,
}
SKIP = frozenset(['__class__', '__doc__', '__module__', '__dict__', '__weakref__', '__slots__', '__hash__'])
BUILTIN_TYPES = ['object', 'type', 'int', 'float', 'complex', 'bool', 'str', 'bytes', 'bytearray', 'list', 'tuple',
                 'dict', 'set', 'frozenset', 'property', 'classmethod', 'staticmethod', 'super', 'range', 'slice']


def pytype(n):
    t = PYTYPES.get(n)
    if t is None:
        t = getattr(_py, n, None)
        if not isinstance(t, type):
            t = None
    return t


def stdlib_module(name):
    try:
        return importlib.util.find_spec(name) is not None
    except (ImportError, ValueError, AttributeError):
        return False


def nf(name):
    def deco(fn):
        NATIVES[name] = NF(name, fn)
        return fn
    return deco


NATIVES = {}
MISSING = object()


def arg(m, a, kw, i, name, default=MISSING):
    if i is not None and i < len(a):
        return a[i]
    if name in kw:
        return kw[name]
    if default is MISSING:
        raise m.exc('TypeError', 'missing argument %r' % name)
    return default


def cstr(m, v):
    """constant string or None"""
    if isinstance(v, str):
        return v
    if isinstance(v, Opq):
        e = m.eqc(v)
        if e is not None and isinstance(e[0], str):
            return e[0]
    return None


# -- functions -------------------------------------------------------------------------------------------------


@nf('len')
def _len(m, a, kw):
    if len(a) != 1:
        raise m.exc('TypeError', 'len() takes exactly one argument')
    return m.len_(a[0])


@nf('isinstance')
def _isinstance(m, a, kw):
    v, c = a
    if isinstance(v, Ref) and isinstance(c, (Ref, BT)):
        return m.isinstance_(v, c)
    return m.isinstance_(v, c)


@nf('issubclass')
def _issubclass(m, a, kw):
    if isinstance(a[0], Opq):
        if m.has_tag(a[0], ['object', 'callable']):
            return m.pred(('issubclass', a[0].t, valkey(a[1])))
        raise m.exc('TypeError', 'issubclass() arg 1 must be a class')
    if not m.is_class(a[0]):
        raise m.exc('TypeError', 'issubclass() arg 1 must be a class')
    return m.issub(a[0], a[1])


@nf('getattr')
def _getattr(m, a, kw):
    name = a[1]
    if isinstance(name, Opq):
        name = attr_name(m, a[0], name)
        if name is None:
            if len(a) > 2:
                if m.pred(('hasattr', valkey(a[0]), a[1].t)):
                    return Opq(('attr', valkey(a[0]), a[1].t))
                return a[2]
            if not m.pred(('hasattr', valkey(a[0]), a[1].t)):
                raise m.exc('AttributeError', a[1])
            return Opq(('attr', valkey(a[0]), a[1].t))
    if not isinstance(name, str):
        raise m.exc('TypeError', 'attribute name must be string')
    if len(a) > 2:
        try:
            return m.getattr(a[0], name)
        except PyExc as ex:
            if m.exc_matches(ex.val, BT('AttributeError')):
                return a[2]
            raise
    return m.getattr(a[0], name)


def attr_name(m, obj, name):
    """constant attribute name equal to an opaque one, where the possible names are known"""
    e = m.eqc(name)
    if e is not None:
        return e[0]
    if name.t[0] != 'rope' and not m.has_tag(name, ['str']):
        return 0
    if isinstance(obj, Opq):
        return None
    for n in known_attrs(m, obj):
        if m.eq_const(name, n):
            return n
    return None


def known_attrs(m, obj):
    if isinstance(obj, Ref):
        o = m.st.get(obj.a)
        names = set(k for k in o.attrs if not k.startswith('$'))
        if o.kind == 'inst':
            for c in m.mro(o.cls):
                if isinstance(c, Ref):
                    names |= set(m.st.get(c.a).attrs)
        return sorted(names)
    return []


@nf('hasattr')
def _hasattr(m, a, kw):
    name = a[1]
    if isinstance(name, Opq):
        n = attr_name(m, a[0], name)
        if n is None:
            return m.pred(('hasattr', valkey(a[0]), name.t))
        name = n
    if not isinstance(name, str):
        raise m.exc('TypeError', 'hasattr(): attribute name must be string')
    return m.hasattr(a[0], name)


@nf('setattr')
def _setattr(m, a, kw):
    if not isinstance(a[1], str):
        n = cstr(m, a[1])
        if n is None:
            raise Unsup('setattr with unknown name')
        a[1] = n
    m.setattr(a[0], a[1], a[2])
    return None


@nf('delattr')
def _delattr(m, a, kw):
    m.delattr(a[0], a[1])
    return None


@nf('callable')
def _callable(m, a, kw):
    v = a[0]
    if isinstance(v, (NF, NM, UM, BM, BT)):
        return True
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind in ('func', 'class'):
            return True
        if o.kind == 'inst':
            return m.lookup_type(o.cls, '__call__') is not None
        return False
    if isinstance(v, Opq):
        if v.t[0] == 'rope':
            return False
        if m.has_tag(v, ['object', 'callable']):
            return m.tags(v) == frozenset(['callable']) or m.pred(('callable', v.t))
        return False
    return False


@nf('id')
def _id(m, a, kw):
    return Opq(('id', valkey(a[0])))


@nf('hash')
def _hash(m, a, kw):
    m.check_hashable(a[0])
    return Opq(('hash', valkey(a[0])))


@nf('repr')
def _repr(m, a, kw):
    return m.to_repr(a[0])


@nf('ascii')
def _ascii(m, a, kw):
    return m.to_repr(a[0])


@nf('print')
def _print(m, a, kw):
    for x in a:
        m.to_str(x)
    return None


@nf('abs')
def _abs(m, a, kw):
    v = a[0]
    if is_const(v):
        try:
            return abs(v)
        except TypeError as ex:
            raise m.exc('TypeError', str(ex))
    if isinstance(v, Opq) and m.has_tag(v, NUMERIC):
        return v if m.order(v, '>=', 0) else m.binop(__import__('ast').Sub, 0, v)
    raise m.exc('TypeError', 'bad operand type for abs()')


@nf('round')
def _round(m, a, kw):
    if all(is_const(x) for x in a):
        try:
            return round(*a)
        except (TypeError, ValueError, OverflowError) as ex:
            raise m.exc(type(ex).__name__, str(ex))
    if not m.has_tag(a[0], NUMERIC):
        raise m.exc('TypeError', 'round')
    v = Opq(('round',) + tuple(valkey(x) for x in a))
    m.st.facts.setdefault(('tags', v.t), frozenset(['int'] if len(a) == 1 else m.tags(a[0])))
    return v


@nf('divmod')
def _divmod(m, a, kw):
    import ast
    return Tup([m.binop(ast.FloorDiv, a[0], a[1]), m.binop(ast.Mod, a[0], a[1])])


@nf('pow')
def _pow(m, a, kw):
    import ast
    return m.binop(ast.Pow, a[0], a[1])


@nf('ord')
def _ord(m, a, kw):
    if isinstance(a[0], str):
        try:
            return ord(a[0])
        except TypeError as ex:
            raise m.exc('TypeError', str(ex))
    v = Opq(('ord', valkey(a[0])))
    m.st.facts.setdefault(('tags', v.t), frozenset(['int']))
    return v


@nf('chr')
def _chr(m, a, kw):
    if isinstance(a[0], int):
        return chr(a[0])
    return Opq(('sop', 'chr', valkey(a[0])))


@nf('format')
def _format(m, a, kw):
    return m.str_format('{0:%s}' % a[1] if len(a) > 1 and a[1] else '{0}', [a[0]], {})


@nf('iter')
def _iter(m, a, kw):
    if len(a) == 2:
        raise Unsup('iter(callable, sentinel)')
    v = a[0]
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind == 'gen':
            return v
        if o.kind == 'inst' and o.cls == BT('iterator'):
            return v
        if o.kind == 'inst':
            f = m.lookup_type(o.cls, '__iter__')
            if f is not None and not isinstance(f, UM):
                return m.call(m.bind(f, v, o.cls), [])
    return make_iter(m, list(m.iterate(v)))


def make_iter(m, items):
    return m.st.alloc(Obj('inst', BT('iterator'), {'pos': 0}, tuple(items)))


@nf('next')
def _next(m, a, kw):
    v = a[0]
    o = m.st.get(v.a) if isinstance(v, Ref) else None
    if o is None:
        raise m.exc('TypeError', 'object is not an iterator')
    if o.kind == 'gen':
        if '$list' not in o.attrs:
            items = m.run_gen_list(v) if not o.attrs['used'] else []
            it = make_iter(m, items)
            w = m.st.w(v.a)
            w.attrs['$list'] = it
        v = m.st.get(v.a).attrs['$list']
        o = m.st.get(v.a)
    if o.kind == 'inst' and o.cls == BT('iterator'):
        p = o.attrs['pos']
        if p < len(o.data):
            m.st.w(v.a).attrs['pos'] = p + 1
            return o.data[p]
    else:
        f = m.lookup_type(o.cls, '__next__') if o.kind == 'inst' else None
        if f is None:
            raise m.exc('TypeError', 'object is not an iterator')
        try:
            return m.call(m.bind(f, v, o.cls), [])
        except PyExc as ex:
            if len(a) > 1 and m.exc_matches(ex.val, BT('StopIteration')):
                return a[1]
            raise
    if len(a) > 1:
        return a[1]
    raise m.exc('StopIteration')


def _short(m, v, stop):
    """any/all with the short cut of the language"""
    if isinstance(v, Ref) and m.st.get(v.a).kind == 'gen':
        def handler(ip, st, val, fr):
            out = []
            for kind, t, s in ip.explore(st, lambda mm: mm.truth(val)):
                if kind == 'val':
                    out.append(('SC', True, s) if t == stop else ('N', None, s))
                else:
                    out.append(('XU', t, s))
            return out
        outs = m.memo_call(lambda: m.ip.run_gen(m.st.fork(), v, handler))
        try:
            m.take(outs)
        except Unwind as ex:
            if ex.payload[0] == 'SC':
                return stop
            if ex.payload[0] == 'XU':
                raise PyExc(ex.payload[1])
            raise
        return not stop
    for x in m.iterate(v):
        if m.truth(x) == stop:
            return stop
    return not stop


@nf('any')
def _any(m, a, kw):
    return _short(m, a[0], True)


@nf('all')
def _all(m, a, kw):
    return _short(m, a[0], False)


@nf('sum')
def _sum(m, a, kw):
    import ast
    r = a[1] if len(a) > 1 else kw.get('start', 0)
    for x in m.iterate(a[0]):
        r = m.binop(ast.Add, r, x)
    return r


def _best(m, a, kw, op):
    items = list(m.iterate(a[0])) if len(a) == 1 else list(a)
    if not items:
        if 'default' in kw:
            return kw['default']
        raise m.exc('ValueError', 'arg is an empty sequence')
    key = kw.get('key')
    kf = (lambda x: m.call(key, [x])) if key is not None else (lambda x: x)
    best, bk = items[0], kf(items[0])
    for x in items[1:]:
        k = kf(x)
        if m.less(op, k, bk):
            best, bk = x, k
    return best


@nf('min')
def _min(m, a, kw):
    return _best(m, a, kw, '<')


@nf('max')
def _max(m, a, kw):
    return _best(m, a, kw, '>')


def sort_items(m, items, kw):
    key = kw.get('key')
    keyed = [(m.call(key, [x]) if key is not None else x, x) for x in items]
    rev = m.truth(kw.get('reverse', False))
    out = []
    for k, x in keyed:
        i = len(out)
        while i > 0 and (m.less('<', k, out[i - 1][0]) if not rev else m.less('<', out[i - 1][0], k)):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


@nf('sorted')
def _sorted(m, a, kw):
    return m.new_list(sort_items(m, list(m.iterate(a[0])), kw))


@nf('reversed')
def _reversed(m, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind == 'inst':
            f = m.lookup_type(o.cls, '__reversed__')
            if f is not None and not isinstance(f, UM):
                return m.call(m.bind(f, v, o.cls), [])
            if m.payload_kind(o.cls) is None and m.lookup_type(o.cls, '__len__') is not None:
                n = m.len_(v)
                if isinstance(n, int):
                    return make_iter(m, [m.getitem(v, i) for i in range(n - 1, -1, -1)])
        elif o.kind == 'gen':
            raise m.exc('TypeError', 'object is not reversible')
    return make_iter(m, list(m.iterate(v))[::-1])


@nf('enumerate')
def _enumerate(m, a, kw):
    start = arg(m, a, kw, 1, 'start', 0)
    return make_iter(m, [Tup([start + i, x]) for i, x in enumerate(m.iterate(a[0]))])


def endless(m, x):
    return isinstance(x, Ref) and m.st.get(x.a).kind == 'inst' and m.lookup_type(
        m.st.get(x.a).cls, '_endless') is not None and m.truth(m.getattr(x, '_endless'))


def columns(m, its):
    """what the iterables hold at each position"""
    open_ended = [endless(m, x) for x in its]
    if its and all(open_ended):
        raise Unsup('iterables without end')
    ls = [None if e else list(m.iterate(x)) for x, e in zip(its, open_ended)]
    n = min([len(l) for l in ls if l is not None]) if its else 0
    for i, x in enumerate(its):
        if ls[i] is None:
            ls[i] = [m.call_method(x, '__next__') for _ in range(n)]
    return list(zip(*ls))


@nf('zip')
def _zip(m, a, kw):
    return make_iter(m, [Tup(t) for t in columns(m, a)])


@nf('map')
def _map(m, a, kw):
    return make_iter(m, [m.call(a[0], list(t)) for t in columns(m, a[1:])])


@nf('filter')
def _filter(m, a, kw):
    f = a[0]
    return make_iter(m, [x for x in list(m.iterate(a[1])) if m.truth(x if f is None else m.call(f, [x]))])


@nf('vars')
def _vars(m, a, kw):
    return m.getattr(a[0], '__dict__')


@nf('dir')
def _dir(m, a, kw):
    v = a[0]
    names = set()
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind != 'class':
            names |= set(k for k in o.attrs if not k.startswith('$'))
        for c in m.mro(v if o.kind == 'class' else m.class_of(v)):
            if isinstance(c, Ref):
                names |= set(m.st.get(c.a).attrs)
            else:
                t = pytype(c.n)
                if t is not None:
                    names |= set(vars(t)) - SKIP
    return m.new_list(sorted(names))


def _frame(name):
    def deco(fn):
        FRAME_NF[name] = fn
        NATIVES[name] = NF(name, lambda m, a, kw: fn(m, a, kw, None))
        return fn
    return deco


@_frame('locals')
def _locals(m, a, kw, fr):
    return m.new_dict([(k, v) for k, v in m.st.get(fr.env).attrs.items() if not k.startswith('$')])


@_frame('globals')
def _globals(m, a, kw, fr):
    return m.ip.inst_dict(m, Ref(fr.mod))


@nf('exec')
def _exec(m, a, kw):
    """exec of program text the analysis does not know: binds unknown names in the given namespace"""
    code = a[0]
    g = a[1] if len(a) > 1 else kw.get('globals')
    if isinstance(code, Opq) and code.t[0] == 'code':
        code = Opq(code.t[1])
    if isinstance(code, Opq) and code.t[0] != 'rope' and not m.has_tag(code, ['str', 'bytes']):
        raise m.exc('TypeError', 'exec() arg 1 must be a string, bytes or code object')
    if not is_const(code) and not isinstance(code, Opq):
        raise m.exc('TypeError', 'exec() arg 1 must be a string, bytes or code object')
    if not m.pred(('compiles', valkey(code))):
        raise m.exc('SyntaxError', 'invalid syntax')
    if not m.pred(('runs', valkey(code))):
        raise PyExc(m.st.alloc(Obj('inst', BT('Exception'), {'args': Tup([Opq(('execerr', valkey(code)))])})))
    if g is None:
        m.ip.log.setdefault('exec-nowhere', []).append(m.st.loc)
        m.st.facts[('execd', valkey(code), None)] = True
        return None
    if not (isinstance(g, Ref) and m.payload_is(g, 'dict')):
        raise m.exc('TypeError', 'exec() globals must be a dict')
    m.dict_in(g)
    given = [k for k, _ in m.st.get(g.a).data if isinstance(k, str) and not k.startswith('_') and k != 'EXECUTED']
    if given:
        # what the code could refer to
        m.dict_set(g, 'GIVEN', Tup(sorted(given)))
    m.dict_set(g, 'EXECUTED', Opq(('exec', valkey(code))))
    o = m.st.get(g.a)
    if '$dictof' in o.attrs:
        m.st.w(o.attrs['$dictof'].a).attrs['EXECUTED'] = Opq(('exec', valkey(code)))
    return None


@nf('compile')
def _compile(m, a, kw):
    src = a[0]
    if not m.pred(('compiles', valkey(src))):
        raise m.exc('SyntaxError', 'invalid syntax')
    return Opq(('code', valkey(src)))


@nf('eval')
def _eval(m, a, kw):
    raise Unsup('eval')


@nf('open')
def _open(m, a, kw):
    mod = m.ip.modules.get('io')
    if mod is None:
        raise Unsup('open')
    return m.call(m.st.get(mod.a).attrs['open'], list(a), dict(kw))


@nf('__import__')
def _dunder_import(m, a, kw):
    return import_by_name(m, a[0], top=True)


def import_by_name(m, name, top):
    """import by run-time name: an unknown module either exists or not"""
    c = cstr(m, name)
    if c is not None:
        if not c:
            raise m.exc('ValueError', 'Empty module name')
        mod = m.ip.modules.get(c.split('.')[0] if top else c)
        if mod is not None and m.ip.modules.get(c) is not None:
            return mod
        raise m.exc('ImportError', 'No module named %s' % c)
    if isinstance(name, Opq):
        if name.t[0] != 'rope' and not m.has_tag(name, ['str']):
            raise m.exc('TypeError' if top else 'AttributeError', '__import__() argument 1 must be str')
        if not m.pred(('importable', name.t), lambda: 'module %r can be imported' % name):
            raise m.exc('ImportError', name)
        if top and m.contains(name, '.'):
            v = Opq(('topmodule', name.t))
        else:
            v = Opq(('module', name.t))
        m.st.facts.setdefault(('tags', v.t), frozenset(['object']))
        return v
    raise m.exc('TypeError' if top else 'AttributeError', '__import__() argument 1 must be str')


@nf('input')
def _input(m, a, kw):
    raise Unsup('input')


# -- types: construction ---------------------------------------------------------------------------------------


def to_int(m, v, base=None):
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (float, str, bytes)):
        try:
            return int(v) if base is None else int(v, base)
        except (ValueError, OverflowError, TypeError) as ex:
            raise m.exc(type(ex).__name__, str(ex))
    if isinstance(v, Opq):
        e = m.eqc(v)
        if e is not None:
            return to_int(m, e[0])
        if v.t[0] == 'rope':
            g = 3
        else:
            g = m.narrow(v, [frozenset(['bool']), frozenset(['int']), frozenset(['float', 'Decimal']),
                             frozenset(['str', 'bytes']), frozenset(['complex']) | (ALL_AND_MORE - frozenset(
                                 ['bool', 'int', 'float', 'Decimal', 'str', 'bytes', 'complex']))])
        if g == 0:
            return 1 if m.eq_const(v, True) else 0
        if g == 1:
            return v
        if g == 2:
            if m.pred(('isnan', v.t), lambda: '%r is nan' % v):
                raise m.exc('ValueError', 'cannot convert float NaN to integer')
            if m.pred(('isinf', v.t), lambda: '%r is infinite' % v):
                raise m.exc('OverflowError', 'cannot convert float infinity to integer')
            if m.pred(('integral', v.t), lambda: '%r is integral' % v):
                r, rel = Opq(('toint', v.t)), frozenset('=')
            else:
                r, rel = Opq(('trunc', v.t)), frozenset('<>')
            m.st.facts.setdefault(('tags', r.t), frozenset(['int']))
            poss = m.pair_rel(v.t, r.t)
            if not poss <= rel:
                if not poss & rel:
                    raise Inf()
                m.set_pair_rel(v.t, r.t, poss & rel)
            return r
        if g == 3:
            if not m.pred(('isint', v.t), lambda: '%r is integer text' % v):
                raise m.exc('ValueError', 'invalid literal for int() with base 10')
            return Opq(('toint', v.t))
        raise m.exc('TypeError', 'int() argument must be a string or a number')
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind == 'inst':
            f = m.lookup_user(o.cls, '__int__')
            if f is not None:
                return m.call(m.bind(f, v, o.cls), [])
    raise m.exc('TypeError', 'int() argument must be a string or a number')


def to_float(m, v):
    if isinstance(v, (bool, int, float)):
        try:
            return float(v)
        except OverflowError as ex:
            raise m.exc('OverflowError', str(ex))
    if isinstance(v, (str, bytes)):
        try:
            return float(v)
        except ValueError as ex:
            raise m.exc('ValueError', str(ex))
    if isinstance(v, Opq):
        e = m.eqc(v)
        if e is not None:
            return to_float(m, e[0])
        if v.t[0] == 'rope':
            g = 3
        else:
            g = m.narrow(v, [frozenset(['bool']), frozenset(['int', 'Decimal']), frozenset(['float']),
                             frozenset(['str', 'bytes']), ALL_AND_MORE - frozenset(
                                 ['bool', 'int', 'float', 'Decimal', 'str', 'bytes'])])
        if g == 0:
            return 1.0 if m.eq_const(v, True) else 0.0
        if g == 1:
            if m.pred(('hugeint', v.t), lambda: '%r is too large for a float' % v):
                raise m.exc('OverflowError', 'int too large to convert to float')
            return Opq(('tofloat', v.t))
        if g == 2:
            return v
        if g == 3:
            if not m.pred(('isfloat', v.t), lambda: '%r is numeric text' % v):
                raise m.exc('ValueError', 'could not convert string to float')
            return Opq(('tofloat', v.t))
        raise m.exc('TypeError', 'float() argument must be a string or a number')
    raise m.exc('TypeError', 'float() argument must be a string or a number')


def to_decimal(m, v):
    if isinstance(v, Opq):
        e = m.eqc(v)
        if e is not None:
            v = e[0]
    if is_const(v):
        try:
            r = decimal.Decimal(v)
        except decimal.InvalidOperation:
            raise m.exc('InvalidOperation', 'ConversionSyntax')
        except (TypeError, ValueError) as ex:
            raise m.exc(type(ex).__name__, str(ex))
        return Opq(('dec', ('c', 'str', str(r))))
    if isinstance(v, Opq):
        if v.t[0] == 'rope':
            g = 1
        else:
            g = m.narrow(v, [frozenset(['bool', 'int', 'float', 'Decimal']), frozenset(['str']),
                             frozenset(['tuple', 'list', 'struct_time']),
                             ALL_AND_MORE - frozenset(['bool', 'int', 'float', 'Decimal', 'str', 'tuple', 'list',
                                                       'struct_time'])])
        if g == 0:
            if m.tags(v) == frozenset(['Decimal']):
                return v
            return Opq(('dec', v.t))
        if g == 1:
            if not m.pred(('isdec', v.t), lambda: '%r is decimal text' % v):
                raise m.exc('InvalidOperation', 'ConversionSyntax')
            return Opq(('dec', v.t))
        if g == 2:
            raise m.exc('ValueError', 'argument must be a sequence of length 3')
    raise m.exc('TypeError', 'conversion to Decimal is not supported')


def to_uuid(m, v):
    if isinstance(v, Opq) and v.t[0] != 'rope':
        e = m.eqc(v)
        if e is not None:
            v = e[0]
        elif not m.has_tag(v, ['str']):
            raise m.exc('AttributeError', 'replace')
    if isinstance(v, str):
        try:
            uuid.UUID(v)
        except ValueError as ex:
            raise m.exc('ValueError', str(ex))
        return Opq(('uuid', valkey(v)))
    if isinstance(v, Opq):
        if not m.pred(('isuuid', v.t), lambda: '%r is uuid text' % v):
            raise m.exc('ValueError', 'badly formed hexadecimal UUID string')
        return Opq(('uuid', v.t))
    raise m.exc('AttributeError', 'replace')


def construct(m, n, args, kw):
    ip = m.ip
    if n == 'type':
        if len(args) == 1:
            return m.class_of(args[0])
        mt = ip.find_meta(m, args[1]) if len(args) == 3 and isinstance(args[1], Tup) else None
        if mt is not None:
            return m.call(mt, args, kw)
        return ip.type_new(m, BT('type'), args, kw)
    if n == 'str':
        if not args and not kw:
            return ''
        return m.to_str(args[0])
    if n == 'int':
        if not args:
            return 0
        return to_int(m, args[0], args[1] if len(args) > 1 else kw.get('base'))
    if n == 'float':
        return to_float(m, args[0]) if args else 0.0
    if n == 'bool':
        return m.truth(args[0]) if args else False
    if n == 'complex':
        if all(is_const(x) for x in args):
            return complex(*args)
        return Opq(('complex',) + tuple(valkey(x) for x in args))
    if n == 'list':
        return m.new_list(list(m.iterate(args[0])) if args else [])
    if n == 'tuple':
        return Tup(m.iterate(args[0])) if args else Tup(())
    if n in ('set', 'frozenset'):
        return m.new_set(list(m.iterate(args[0])) if args else [])
    if n in ('dict', 'OrderedDict'):
        d = m.new_dict([])
        if n != 'dict':
            m.st.get(d.a).cls = BT(n)
        dict_update(m, d, args, kw)
        return d
    if n == 'defaultdict':
        d = m.st.alloc(Obj('inst', BT('defaultdict'), {'$factory': args[0] if args else None}, (), site=m.st.loc))
        dict_update(m, d, args[1:], kw)
        return d
    if n == 'object':
        if args or kw:
            raise m.exc('TypeError', 'object() takes no arguments')
        return m.st.alloc(Obj('inst', BT('object'), site=m.st.loc))
    if n == 'property':
        names = ['fget', 'fset', 'fdel', 'doc']
        attrs = dict(zip(names, args))
        attrs.update(kw)
        for k in names:
            attrs.setdefault(k, None)
        return m.st.alloc(Obj('prop', None, attrs))
    if n in ('classmethod', 'staticmethod'):
        return m.st.alloc(Obj('cm' if n == 'classmethod' else 'sm', None, {'f': args[0]}))
    if n == 'super':
        return SuperV(args[0], args[1])
    if n == 'range':
        r = []
        for x in args:
            if isinstance(x, Opq):
                e = m.eqc(x)
                if e is None:
                    if not m.has_tag(x, ['int', 'bool']):
                        raise m.exc('TypeError', 'object cannot be interpreted as an integer')
                    if not m.order(x, '>', 0):
                        e = (0,)
                    else:
                        for k in range(1, ip.K + 1):
                            if m.eq_const(x, k):
                                e = (k,)
                                break
                        else:
                            ip.truncated.add('range of more than %d' % ip.K)
                            raise Inf()
                x = e[0]
            if not isinstance(x, int):
                raise m.exc('TypeError', 'object cannot be interpreted as an integer')
            r.append(x)
        return m.st.alloc(Obj('inst', BT('range'), {}, tuple(range(*r)), site=m.st.loc))
    if n == 'slice':
        a = list(args)
        if len(a) == 1:
            a = [None, a[0], None]
        while len(a) < 3:
            a.append(None)
        return m.st.alloc(Obj('slice', None, {'start': a[0], 'stop': a[1], 'step': a[2]}))
    if n == 'Decimal':
        return to_decimal(m, args[0] if args else 0)
    if n == 'UUID':
        return to_uuid(m, arg(m, args, kw, 0, 'hex', None))
    if n == 'NoneType':
        return None
    if n == 'bytes':
        if all(is_const(x) for x in args):
            return bytes(*args)
        return Opq(('bytes',) + tuple(valkey(x) for x in args))
    if n in ('date', 'datetime', 'time', 'timedelta', 'struct_time'):
        v = Opq((n,) + tuple(valkey(x) for x in args) + tuple((k, valkey(x)) for k, x in sorted(kw.items())))
        m.st.facts.setdefault(('tags', v.t), frozenset([n if n != 'timedelta' else 'object']))
        return v
    if n == 'module':
        return m.st.alloc(Obj('module', None, {'__name__': args[0]}, {'file': None, 'package': ''},
                              args[0] if isinstance(args[0], str) else '<dynamic>', site=m.st.loc))
    if n in ('NoneType', 'function', 'generator'):
        raise m.exc('TypeError', 'cannot create %r instances' % n)
    if is_exc_bt(n):
        o = Obj('inst', BT(n), {'args': Tup(args)}, site=m.st.loc)
        return m.st.alloc(o)
    raise Unsup('construct %s' % n)


def object_new(m, cls, args, kw):
    """instance of a user class, payload by its built-in base"""
    kind = m.payload_kind(cls)
    o = Obj('inst', cls, {}, None, site=m.st.loc)
    if kind in ('list', 'dict', 'set'):
        o.data = ()
        for c in m.mro(cls):
            if c == BT('defaultdict'):
                o.attrs['$factory'] = None
    elif kind == 'tuple':
        o.data = tuple(m.iterate(args[0])) if args else ()
    elif kind in ('str', 'int', 'float'):
        raise Unsup('subclass of %s' % kind)
    if BT('BaseException') in m.mro(cls):
        o.attrs['args'] = Tup(args)
    return m.st.alloc(o)


def dict_update(m, d, args, kw):
    if args:
        src = args[0]
        if isinstance(src, Ref) and (m.payload_is(src, 'dict') or (
                m.st.get(src.a).kind == 'inst' and m.lookup_type(m.st.get(src.a).cls, 'keys') is not None)):
            pairs = m.items_of(src)
        elif isinstance(src, Opq) and src.t[0] != 'rope' and m.tags(src) & frozenset(['dict']) and m.has_tag(
                src, ['dict']):
            pairs = m.items_of(src)
        else:
            pairs = []
            for p in list(m.iterate(src)):
                it = list(m.iterate(p))
                if len(it) != 2:
                    raise m.exc('ValueError', 'dictionary update sequence element has length %d' % len(it))
                pairs.append(tuple(it))
        for k, v in pairs:
            m.dict_set(d, k, v)
    for k, v in kw.items():
        m.dict_set(d, k, v)


# -- types: methods --------------------------------------------------------------------------------------------


def view(m, recv, name, items):
    o = Obj('inst', BT(name), {'$of': recv, '$n': len(items)}, tuple(items))
    return m.st.alloc(o)


def dict_method(m, r, name, a, kw):
    m.dict_in(r)
    o = m.st.get(r.a)
    live = '$dictof' in o.attrs
    if live and name in ('copy', '__copy__'):
        return m.new_dict(o.data)
    res = _dict_method(m, r, o, name, a, kw)
    if live:
        m.dict_out(r)
    return res


def _dict_method(m, r, o, name, a, kw):
    if name == 'keys':
        return view(m, r, 'dict_keys', [k for k, _ in o.data])
    if name == 'values':
        return view(m, r, 'dict_values', [v for _, v in o.data])
    if name == 'items':
        return view(m, r, 'dict_items', [Tup([k, v]) for k, v in o.data])
    if name == 'get':
        m.check_hashable(a[0])
        i = m.dict_find(o, a[0])
        return (a[1] if len(a) > 1 else None) if i is None else o.data[i][1]
    if name == '__getitem__':
        return m.dict_getitem(r, a[0])
    if name == '__setitem__':
        return m.dict_set(r, a[0], a[1])
    if name == '__delitem__':
        return m.dict_del(r, a[0])
    if name == '__contains__':
        m.check_hashable(a[0])
        return m.dict_find(o, a[0]) is not None
    if name == '__len__':
        return len(o.data)
    if name == '__iter__':
        return make_iter(m, [k for k, _ in o.data])
    if name == '__init__' or name == 'update':
        if o.cls != BT('dict') and '$factory' in o.attrs and name == '__init__':
            m.st.w(r.a).attrs['$factory'] = a[0] if a else None
            a = a[1:]
        dict_update(m, r, a, kw)
        return None
    if name == 'pop':
        m.check_hashable(a[0])
        i = m.dict_find(o, a[0])
        if i is None:
            if len(a) > 1:
                return a[1]
            raise m.exc('KeyError', a[0])
        v = o.data[i][1]
        w = m.wr(r.a, 'pop')
        w.data = w.data[:i] + w.data[i + 1:]
        return v
    if name == 'popitem':
        if not o.data:
            raise m.exc('KeyError', 'dictionary is empty')
        w = m.wr(r.a, 'popitem')
        k, v = w.data[-1]
        w.data = w.data[:-1]
        return Tup([k, v])
    if name == 'setdefault':
        i = m.dict_find(o, a[0])
        if i is not None:
            return o.data[i][1]
        v = a[1] if len(a) > 1 else None
        m.dict_set(r, a[0], v)
        return v
    if name == 'clear':
        m.wr(r.a, 'clear').data = ()
        return None
    if name in ('copy', '__copy__'):
        cls = o.cls if isinstance(o.cls, BT) else BT('dict')
        n = Obj('inst', cls, {'$factory': o.attrs['$factory']} if '$factory' in o.attrs else {}, o.data)
        return m.st.alloc(n)
    if name == '__repr__':
        return Opq(('repr', ('ref', r.a)))
    if name in ('__eq__', '__ne__'):
        r2 = a[0]
        if isinstance(r2, Ref) and m.payload_is(r2, 'dict'):
            ob = m.st.get(r2.a)
            same = len(o.data) == len(ob.data)
            if same:
                for k, v in o.data:
                    j = m.dict_find(ob, k)
                    if j is None or not m.same_or_eq(v, ob.data[j][1]):
                        same = False
                        break
            return same if name == '__eq__' else not same
        return m.ip.NotImpl
    if name == 'fromkeys':
        d = m.new_dict([])
        for k in m.iterate(a[0]):
            m.dict_set(d, k, a[1] if len(a) > 1 else None)
        return d
    if name == 'move_to_end':
        i = m.dict_find(o, a[0])
        if i is None:
            raise m.exc('KeyError', a[0])
        w = m.wr(r.a, 'move_to_end')
        w.data = w.data[:i] + w.data[i + 1:] + (w.data[i],)
        return None
    return MISSING


def list_method(m, r, name, a, kw):
    o = m.st.get(r.a)
    if isinstance(o.cls, BT) and o.cls.n not in ('list',):
        if name == 'isdisjoint':
            return not any(m.same_or_eq(x, y) for x in o.data for y in m.iterate(a[0]))
        if name == '__next__':
            return NATIVES['next'].fn(m, [r], {})
        if name == '__iter__':
            return r if o.cls.n == 'iterator' else make_iter(m, o.data)
        if name == '__len__':
            return len(o.data)
        if name == '__contains__':
            return any(m.same_or_eq(a[0], x) for x in o.data)
        if name in ('index', 'count', '__getitem__', '__reversed__'):
            pass
        else:
            return MISSING
    if name == 'append':
        w = m.wr(r.a, 'append')
        w.data = w.data + (a[0],)
        return None
    if name in ('extend', '__iadd__'):
        items = tuple(m.iterate(a[0]))
        w = m.wr(r.a, 'extend')
        w.data = w.data + items
        return None if name == 'extend' else r
    if name == 'insert':
        i = a[0]
        if isinstance(i, Opq):
            e = m.eqc(i)
            if e is None:
                if not m.has_tag(i, ['int', 'bool']):
                    raise m.exc('TypeError', 'object cannot be interpreted as an integer')
                raise Unsup('insert at unknown index')
            i = e[0]
        l = list(o.data)
        l.insert(i, a[1])
        m.wr(r.a, 'insert').data = tuple(l)
        return None
    if name == 'pop':
        if not o.data:
            raise m.exc('IndexError', 'pop from empty list')
        i = m.seq_index(a[0] if a else -1, len(o.data))
        w = m.wr(r.a, 'pop')
        v = w.data[i]
        w.data = w.data[:i] + w.data[i + 1:]
        return v
    if name == 'remove':
        for i, x in enumerate(o.data):
            if m.same_or_eq(x, a[0]):
                w = m.wr(r.a, 'remove')
                w.data = w.data[:i] + w.data[i + 1:]
                return None
        raise m.exc('ValueError', 'list.remove(x): x not in list')
    if name == 'clear':
        m.portable('list.clear()', '2.7')
        m.wr(r.a, 'clear').data = ()
        return None
    if name in ('copy', '__copy__'):
        if name == 'copy':
            m.portable('list.copy()', '2.7')
        return m.new_list(o.data)
    if name == 'reverse':
        w = m.wr(r.a, 'reverse')
        w.data = w.data[::-1]
        return None
    if name == 'sort':
        items = sort_items(m, list(o.data), kw)
        m.wr(r.a, 'sort').data = tuple(items)
        return None
    if name == 'index':
        for i, x in enumerate(o.data):
            if m.same_or_eq(x, a[0]):
                return i
        raise m.exc('ValueError', 'not in list')
    if name == 'count':
        return sum(1 for x in o.data if m.same_or_eq(x, a[0]))
    if name == '__init__':
        m.wr(r.a, 'init').data = tuple(m.iterate(a[0])) if a else ()
        return None
    if name == '__len__':
        return len(o.data)
    if name == '__contains__':
        return any(m.same_or_eq(a[0], x) for x in o.data)
    if name == '__iter__':
        return make_iter(m, o.data)
    if name == '__reversed__':
        return make_iter(m, o.data[::-1])
    if name == '__getitem__':
        i = a[0]
        if m.is_slice(i):
            return m.new_list(o.data[m.py_slice(i)])
        return o.data[m.seq_index(i, len(o.data))]
    if name == '__setitem__':
        return m.list_setitem(r, a[0], a[1])
    if name == '__delitem__':
        items = list(o.data)
        if m.is_slice(a[0]):
            del items[m.py_slice(a[0])]
        else:
            del items[m.seq_index(a[0], len(items))]
        m.wr(r.a, 'item deletion').data = tuple(items)
        return None
    if name in ('__add__', '__mul__'):
        import ast
        return m.binop(ast.Add if name == '__add__' else ast.Mult, r, a[0])
    if name == '__repr__':
        return Opq(('repr', ('ref', r.a)))
    if name in ('__eq__', '__ne__'):
        if isinstance(a[0], Ref) and m.payload_is(a[0], 'list'):
            ob = m.st.get(a[0].a)
            same = len(o.data) == len(ob.data) and all(m.same_or_eq(x, y) for x, y in zip(o.data, ob.data))
            return same if name == '__eq__' else not same
        return m.ip.NotImpl
    return MISSING


def set_method(m, r, name, a, kw):
    o = m.st.get(r.a)
    its = [list(m.iterate(x)) for x in a] if name in (
        'union', 'difference', 'intersection', 'symmetric_difference', 'update', 'difference_update',
        'intersection_update', 'issubset', 'issuperset', 'isdisjoint', '__init__') else None
    inn = lambda x, s: any(m.same_or_eq(x, y) for y in s)
    if name == 'add':
        m.check_hashable(a[0])
        if not inn(a[0], o.data):
            w = m.wr(r.a, 'add')
            w.data = w.data + (a[0],)
        return None
    if name in ('discard', 'remove'):
        for i, x in enumerate(o.data):
            if m.same_or_eq(x, a[0]):
                w = m.wr(r.a, name)
                w.data = w.data[:i] + w.data[i + 1:]
                return None
        if name == 'remove':
            raise m.exc('KeyError', a[0])
        return None
    if name == 'pop':
        if not o.data:
            raise m.exc('KeyError', 'pop from an empty set')
        w = m.wr(r.a, 'pop')
        v = w.data[0]
        w.data = w.data[1:]
        return v
    if name == 'clear':
        m.wr(r.a, 'clear').data = ()
        return None
    if name == 'copy':
        return m.new_set(o.data)
    if name in ('union',):
        return m.new_set(list(o.data) + [x for i in its for x in i])
    if name in ('update', '__init__'):
        xs = list(o.data) if name == 'update' else []
        for i in its:
            for x in i:
                m.check_hashable(x)
                if not inn(x, xs):
                    xs.append(x)
        m.wr(r.a, name).data = tuple(xs)
        return None
    if name in ('difference', 'difference_update'):
        xs = [x for x in o.data if not any(inn(x, i) for i in its)]
        if name == 'difference':
            return m.new_set(xs)
        m.wr(r.a, name).data = tuple(xs)
        return None
    if name in ('intersection', 'intersection_update'):
        xs = [x for x in o.data if all(inn(x, i) for i in its)]
        if name == 'intersection':
            return m.new_set(xs)
        m.wr(r.a, name).data = tuple(xs)
        return None
    if name == 'symmetric_difference':
        return m.set_op('^', o.data, its[0])
    if name == 'issubset':
        return all(inn(x, its[0]) for x in o.data)
    if name == 'issuperset':
        return all(inn(x, o.data) for x in its[0])
    if name == 'isdisjoint':
        return not any(inn(x, o.data) for x in its[0])
    if name == '__len__':
        return len(o.data)
    if name == '__contains__':
        return inn(a[0], o.data)
    if name == '__iter__':
        return make_iter(m, o.data)
    return MISSING


STR_BOOL = frozenset(['startswith', 'endswith', 'isdigit', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower',
                      'isidentifier', 'isnumeric', 'isdecimal', 'istitle', 'isprintable', 'isascii'])
STR_STR = frozenset(['lower', 'upper', 'strip', 'lstrip', 'rstrip', 'title', 'capitalize', 'casefold', 'replace',
                     'swapcase', 'center', 'ljust', 'rjust', 'zfill', 'expandtabs', 'translate', 'removeprefix',
                     'removesuffix'])


def const_of(m, v):
    """(constant,) if v is known"""
    if is_const(v):
        return (v,)
    if isinstance(v, Opq):
        return m.eqc(v)
    if isinstance(v, Tup):
        xs = [const_of(m, i) for i in v.items]
        if all(x is not None for x in xs):
            return (tuple(x[0] for x in xs),)
    return None


def to_abs(m, v):
    if isinstance(v, list):
        return m.new_list([to_abs(m, x) for x in v])
    if isinstance(v, tuple):
        return Tup([to_abs(m, x) for x in v])
    return v


def part_eq(m, t, c):
    """a slice or an item of a text compared with a constant, where that is a question about the whole text"""
    def num(k):
        return k[2] if k[0] == 'c' and k[1] in ('int', 'NoneType') else MISSING
    n = len(c)
    if t[1] == 'at':
        i, v = num(t[3]), Opq(t[2])
        if n != 1:
            return False
        if i == 0:
            return str_op(m, v, 'startswith', [c])
        if i == -1:
            return str_op(m, v, 'endswith', [c])
        return None
    if t[1] != 'slice':
        return None
    v, start, stop, step = Opq(t[2]), num(t[3]), num(t[4]), num(t[5])
    if step not in (None, 1) or start is MISSING or stop is MISSING:
        return None
    start = start or None
    if start is None and stop is None:
        return m.eq(v, c)
    if start is None and stop >= 0:
        return m.eq(v, c) if n < stop else n == stop and str_op(m, v, 'startswith', [c])
    if stop is None and start < 0:
        return m.eq(v, c) if n < -start else n == -start and str_op(m, v, 'endswith', [c])
    if stop is None and start > 0 and not c:
        return m.order(Opq(('len', t[2])), '<=', start)
    return None


def str_op(m, v, name, a, kw=None):
    kw = kw or {}
    if name == 'getitem':
        c = const_of(m, v)
        i = a[0]
        if m.is_slice(i):
            so = m.st.get(i.a)
            if c is not None:
                return c[0][m.py_slice(i)]
            if so.attrs['step'] in (None, 1):
                start, stop = so.attrs['start'], so.attrs['stop']
                if isinstance(stop, Opq):
                    if stop.t == ('len', v.t):
                        stop = None
                start = None if const_of(m, start) == (0,) else start
                if start is None and stop is None:
                    return v
                so = Obj('slice', None, {'start': start, 'stop': stop, 'step': None})
            depth, t = 0, v.t
            while t[0] == 'sop' and t[1] == 'slice':
                depth, t = depth + 1, t[2]
            if depth >= m.ip.K:
                m.ip.truncated.add('text cut apart more than %d times' % depth)
                raise Inf()
            return Opq(('sop', 'slice', valkey(v), valkey(so.attrs['start']), valkey(so.attrs['stop']),
                        valkey(so.attrs['step'])))
        if c is not None:
            return c[0][m.seq_index(i, len(c[0]))]
        k = const_of(m, i)
        if k is None:
            if m.pred(('inrange', valkey(v), valkey(i))):
                return Opq(('sop', 'at', valkey(v), valkey(i)))
            raise m.exc('IndexError', 'string index out of range')
        lt = Opq(('len', v.t))
        if not (m.order(lt, '>', k[0]) if k[0] >= 0 else m.order(lt, '>=', -k[0])):
            raise m.exc('IndexError', 'string index out of range')
        return Opq(('sop', 'at', valkey(v), valkey(k[0])))
    if name == 'join':
        parts = []
        for i, x in enumerate(list(m.iterate(a[0]))):
            if isinstance(x, Opq) and x.t[0] != 'rope' and not m.has_tag(x, ['str']):
                raise m.exc('TypeError', 'sequence item: expected str instance')
            if not isinstance(x, (str, Opq)):
                raise m.exc('TypeError', 'sequence item %d: expected str instance' % i)
            if i:
                parts.append(v)
            parts.append(x)
        return m.rope(parts)
    if name == 'format':
        c = const_of(m, v)
        if c is None:
            return Opq(('rope', (('fmtx', valkey(v)) + tuple(valkey(x) for x in a) + tuple(
                (k, valkey(x)) for k, x in sorted(kw.items())),)))
        return m.str_format(c[0], a, kw)
    c = const_of(m, v)
    ca = [const_of(m, x) for x in a]
    if c is not None and all(x is not None for x in ca):
        try:
            ckw = dict((k, const_of(m, x)[0]) for k, x in kw.items())
            return to_abs(m, getattr(c[0], name)(*[x[0] for x in ca], **ckw))
        except (ValueError, TypeError, AttributeError, IndexError, LookupError) as ex:
            raise m.exc(type(ex).__name__ if type(ex).__name__ in dir(_py) else 'ValueError', str(ex))
    for x in a:
        if name in ('startswith', 'endswith', 'count', 'split', 'find', 'index', 'replace', 'partition',
                    'strip') and x is not None:
            if isinstance(x, Ref) or (isinstance(x, (int, float)) and name in ('startswith', 'endswith')):
                raise m.exc('TypeError', '%s first arg must be str' % name)
    key = tuple(valkey(x) for x in a)
    if name in STR_BOOL:
        if name in ('startswith', 'endswith') and ca and ca[0] is not None and isinstance(ca[0][0], tuple):
            return any(str_op(m, v, name, [x]) for x in ca[0][0])
        if isinstance(v, Opq) and v.t[0] == 'rope' and ca and ca[0] is not None and len(a) == 1:
            p = v.t[1][0] if name == 'startswith' else v.t[1][-1]
            s = ca[0][0]
            if isinstance(p, str) and isinstance(s, str):
                if len(p) >= len(s):
                    return getattr(p, name)(s)
                if name == 'startswith' and not s.startswith(p) or name == 'endswith' and not s.endswith(p):
                    return False
        if name in ('startswith', 'endswith') and len(a) == 1 and ca[0] is not None and isinstance(ca[0][0], str):
            s = ca[0][0]
            if not s:
                return True
            if isinstance(v, Opq):
                lr = m.const_rel(('len', v.t), len(s))
                if lr == frozenset('<'):
                    return False
                if ('p', ('in', valkey(s), v.t)) in m.st.facts and not m.st.facts[('p', ('in', valkey(s), v.t))]:
                    return False
            r = m.pred(('sop', name, valkey(v)) + key, lambda: '%r.%s(%r)' % (v, name, s))
            if r and isinstance(v, Opq):
                poss = lr - frozenset('<')
                if not poss:
                    raise Inf()
                m.set_const_rel(('len', v.t), len(s), poss)
                m.st.facts[('p', ('in', valkey(s), v.t))] = True
            return r
        return m.pred(('sop', name, valkey(v)) + key, lambda: '%r.%s()' % (v, name))
    if name in STR_STR:
        return Opq(('sop', name, valkey(v)) + key + tuple((k, valkey(x)) for k, x in sorted(kw.items())))
    if name in ('split', 'rsplit'):
        sep = ca[0][0] if a and ca[0] is not None else None
        if sep is not None and isinstance(sep, str):
            if not m.contains(v, sep):
                return m.new_list([v])
            r = Opq(('sopl', 'split', valkey(v)) + key)
            m.st.facts.setdefault(('tags', r.t), frozenset(['list']))
            if m.const_rel(('len', r.t), 1) == frozenset('<=>'):
                m.set_const_rel(('len', r.t), 1, frozenset('>'))
            return r
        r = Opq(('sopl', name, valkey(v)) + key)
        m.st.facts.setdefault(('tags', r.t), frozenset(['list']))
        return r
    if name == 'splitlines':
        r = Opq(('sopl', name, valkey(v)) + key)
        m.st.facts.setdefault(('tags', r.t), frozenset(['list']))
        return r
    if name in ('partition', 'rpartition'):
        sep = a[0]
        if m.contains(v, sep):
            return Tup([Opq(('sop', name + '0', valkey(v)) + key), sep, Opq(('sop', name + '2', valkey(v)) + key)])
        return Tup([v, '', '']) if name == 'partition' else Tup(['', '', v])
    if name in ('count', 'find', 'index', 'rfind', 'rindex'):
        if not m.contains(v, a[0]):
            if name == 'count':
                return 0
            if name in ('find', 'rfind'):
                return -1
            raise m.exc('ValueError', 'substring not found')
        r = Opq(('count' if name == 'count' else 'strpos', name, valkey(v)) + key)
        m.st.facts.setdefault(('tags', r.t), frozenset(['int']))
        if name == 'count':
            if m.const_rel(r.t, 0) != frozenset('>'):
                m.set_const_rel(r.t, 0, frozenset('>'))
        else:
            if m.const_rel(r.t, 0) == frozenset('<=>'):
                m.set_const_rel(r.t, 0, frozenset('=>'))
        return r
    if name == 'encode':
        enc = ca[0][0] if ca and ca[0] is not None else kw.get('encoding', 'utf-8')
        errors = ca[1][0] if len(ca) > 1 and ca[1] is not None else kw.get('errors', 'strict')
        if isinstance(enc, str) and not enc.lower().replace('-', '').replace('_', '').startswith('utf') and errors == 'strict' \
                and not m.pred(('sop', 'encodes', valkey(v), enc), lambda: '%r has only characters of %s' % (v, enc)):
            raise m.exc('UnicodeEncodeError', 'character not in %s' % enc)
        r = Opq(('bytesof', valkey(v)))
        m.st.facts.setdefault(('tags', r.t), frozenset(['bytes']))
        return r
    if name == 'decode':
        return Opq(('sop', 'decode', valkey(v)) + key)
    if name == '__len__':
        return m.len_(v)
    if name == '__contains__':
        return m.contains(v, a[0])
    if name == '__getitem__':
        return m.getitem(v, a[0])
    if name == '__str__':
        return v
    if name == '__iter__':
        return make_iter(m, list(m.iterate(v)))
    if name == '__eq__':
        return m.eq(v, a[0])
    if name == '__add__':
        return m.rope([v, a[0]])
    if name == '__mod__':
        return m.percent(v, list(a[0].items) if isinstance(a[0], Tup) else [a[0]])
    raise Unsup('str.%s' % name)


def object_method(m, r, name, a, kw):
    """methods every object inherits"""
    if name == '__init__':
        return None
    if name == '__setattr__':
        m.wr(r.a, 'attribute assignment', a[0], (a[0], a[1])).attrs[a[0]] = a[1]
        return None
    if name == '__delattr__':
        o = m.st.get(r.a)
        if a[0] not in o.attrs:
            raise m.attr_error(r, a[0])
        del m.wr(r.a, 'attribute deletion', a[0]).attrs[a[0]]
        return None
    if name == '__getattribute__':
        return m.getattr(r, a[0])
    if name in ('__repr__',):
        return Opq(('repr', valkey(r)))
    if name == '__str__':
        if m.is_exception(r):
            o = m.st.get(r.a)
            args = o.attrs.get('args', Tup(()))
            if len(args.items) == 1:
                return m.to_str(args.items[0])
            if not args.items:
                return ''
            return Opq(('str', valkey(r)))
        return m.to_repr(r) if isinstance(r, Ref) else m.to_str(r)
    if name == '__eq__':
        return True if valkey(r) == valkey(a[0]) else m.ip.NotImpl
    if name == '__ne__':
        return False if valkey(r) == valkey(a[0]) else m.ip.NotImpl
    if name == '__hash__':
        return Opq(('hash', valkey(r)))
    if name == '__format__':
        return m.to_str(r)
    if name == '__init_subclass__':
        return None
    if name == '__dir__':
        return NATIVES['dir'].fn(m, [r], {})
    if name == 'with_traceback':
        return r
    if name in ('__reduce__', '__reduce_ex__', '__sizeof__', '__getstate__', '__setstate__'):
        raise Unsup('object.%s' % name)
    return MISSING


def opq_method(m, r, name, a, kw):
    """method of an opaque value, dispatched on its tag"""
    tag = m.one_tag(r)
    if tag == 'str':
        return str_op(m, r, name, a, kw)
    if tag == 'bytes':
        if name == 'decode':
            return Opq(('sop', 'decode', r.t))
        return str_op(m, r, name, a, kw)
    if tag == 'dict':
        if name in ('keys', '__iter__'):
            return Opq(('keysof', r.t)) if False else _opq_keys_view(m, r)
        if name == 'values':
            return m.new_list([m.item_of(r, k) for k in m.opq_keys(r)])
        if name == 'items':
            return m.new_list([Tup([k, m.item_of(r, k)]) for k in m.opq_keys(r)])
        if name == 'get':
            if m.opq_has(r, a[0]):
                return m.item_of(r, a[0])
            return a[1] if len(a) > 1 else None
        if name == '__getitem__':
            return m.opq_getitem(r, a[0])
        if name == '__contains__':
            return m.opq_has(r, a[0])
        if name == '__len__':
            return m.len_(r)
        if name in ('copy', '__copy__'):
            return m.new_dict([(k, m.item_of(r, k)) for k in m.opq_keys(r)])
        if name == 'pop' or name == 'setdefault' or name in ('update', 'clear', 'popitem', '__setitem__', '__delitem__'):
            m.ip.opq_written(m, r, name, None)
            if name in ('pop', 'setdefault'):
                if m.opq_has(r, a[0]):
                    return m.item_of(r, a[0])
                if len(a) > 1:
                    return a[1]
                if name == 'pop':
                    raise m.exc('KeyError', a[0])
            return None
    if tag in ('list', 'tuple', 'struct_time'):
        if name in ('append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__',
                    '__delitem__', '__iadd__') and tag == 'list':
            m.ip.opq_written(m, r, name, None)
            if name == 'pop':
                return Opq(('popped', r.t))
            return None
        if name == '__getitem__':
            return m.opq_getitem(r, a[0])
        if name == '__len__':
            return m.len_(r)
        if name == '__iter__':
            return make_iter(m, list(m.iterate(r)))
        if name == '__contains__':
            return m.contains(r, a[0])
        if name == 'count':
            return sum(1 for x in m.iterate(r) if m.same_or_eq(x, a[0]))
        if name == 'index':
            for i, x in enumerate(m.iterate(r)):
                if m.same_or_eq(x, a[0]):
                    return i
            raise m.exc('ValueError', 'not in list')
        if name in ('copy', '__copy__'):
            return m.new_list(list(m.iterate(r)))
    if tag == 'float' and name == 'is_integer':
        if m.eqc(r) is not None:
            return float(m.eqc(r)[0]).is_integer()
        if m.pred(('isnan', r.t), lambda: '%r is nan' % r) or m.pred(('isinf', r.t), lambda: '%r is infinite' % r):
            return False
        return m.pred(('integral', r.t), lambda: '%r is integral' % r)
    if tag in ('int', 'bool') and name == 'is_integer':
        return True
    if tag == 'int' and name == 'bit_length':
        v = Opq(('bits', r.t))
        m.st.facts.setdefault(('tags', v.t), frozenset(['int']))
        return v
    if tag in ('date', 'datetime', 'time') and name in ('strftime', 'isoformat', '__format__'):
        return Opq(('sop', name, r.t) + tuple(valkey(x) for x in a))
    if tag == 'datetime' and name in ('date', 'time', 'timetuple', 'replace', 'astimezone'):
        t = {'date': 'date', 'time': 'time', 'timetuple': 'struct_time'}.get(name, 'datetime')
        if name == 'date':
            return Opq(('todate', r.t))
        v = Opq(('dt' + name, r.t) + tuple(valkey(x) for x in a))
        m.st.facts.setdefault(('tags', v.t), frozenset([t]))
        return v
    if name == '__class__':
        return m.class_of(r)
    if name in ('__str__', '__repr__'):
        return m.to_str(r) if name == '__str__' else m.to_repr(r)
    if name == '__hash__':
        return Opq(('hash', r.t))
    if name == '__eq__':
        return m.eq(r, a[0])
    v = Opq(('call', name, r.t) + tuple(valkey(x) for x in a) + tuple((k, valkey(x)) for k, x in sorted(kw.items())))
    return v


def _opq_keys_view(m, r):
    return m.st.alloc(Obj('inst', BT('dict_keys'), {}, tuple(m.opq_keys(r))))


def native_method(m, r, tn, name, a, kw):
    if tn == 'opq':
        return opq_method(m, r, name, a, kw)
    if tn == 'property':
        o = m.st.get(r.a)
        attrs = dict(o.attrs)
        attrs[{'setter': 'fset', 'getter': 'fget', 'deleter': 'fdel'}[name]] = a[0]
        return m.st.alloc(Obj('prop', None, attrs))
    if tn == 'generator':
        if name in ('__iter__',):
            return r
        if name in ('__next__', 'next'):
            return NATIVES['next'].fn(m, [r], {})
        if name == 'close':
            m.st.w(r.a).attrs['used'] = True
            return None
        raise Unsup('generator.%s' % name)
    if tn == 'function' and name == '__call__':
        return m.call(r, a, kw)
    res = MISSING
    if isinstance(r, (str, bytes)) or (isinstance(r, Opq) and r.t[0] == 'rope'):
        return str_op(m, r, name, a, kw)
    if isinstance(r, Opq):
        return opq_method(m, r, name, a, kw)
    if isinstance(r, Tup):
        return tuple_method(m, r, name, a, kw)
    if is_const(r):
        cs = [const_of(m, x) for x in a]
        if all(x is not None for x in cs):
            try:
                return to_abs(m, getattr(r, name)(*[x[0] for x in cs]))
            except Exception as ex:
                raise m.exc(type(ex).__name__, str(ex))
        raise Unsup('%s.%s' % (tn, name))
    if isinstance(r, Ref):
        o = m.st.get(r.a)
        if o.kind == 'inst' and isinstance(o.data, tuple) and tn != 'object' and not is_exc_bt(tn):
            k = m.payload_kind(o.cls)
            if k == 'dict':
                res = dict_method(m, r, name, a, kw)
            elif k == 'list':
                res = list_method(m, r, name, a, kw)
            elif k == 'set':
                res = set_method(m, r, name, a, kw)
            elif k == 'tuple':
                res = tuple_method(m, Tup(o.data), name, a, kw)
        elif o.kind == 'class' and tn == 'type':
            if name == '__call__':
                return m.call(r, a, kw)
            if name == '__init__':
                return None
            if name == '__subclasses__':
                return m.new_list(o.data['subs'])
            if name == 'mro':
                return m.new_list(o.data['mro'])
            if name in ('__setattr__', '__delattr__'):
                return object_method(m, r, name, a, kw)
        elif is_exc_bt(tn) and name == '__init__':
            m.st.w(r.a).attrs['args'] = Tup(a)
            return None
        if res is MISSING:
            res = object_method(m, r, name, a, kw)
    elif res is MISSING:
        res = object_method(m, r, name, a, kw)
    if res is MISSING:
        raise Unsup('%s.%s' % (tn, name))
    return res


def tuple_method(m, r, name, a, kw):
    if name == 'index':
        for i, x in enumerate(r.items):
            if m.same_or_eq(x, a[0]):
                return i
        raise m.exc('ValueError', 'not in tuple')
    if name == 'count':
        return sum(1 for x in r.items if m.same_or_eq(x, a[0]))
    if name == '__len__':
        return len(r.items)
    if name == '__contains__':
        return m.contains(r, a[0])
    if name == '__getitem__':
        return m.getitem(r, a[0])
    if name == '__iter__':
        return make_iter(m, r.items)
    if name == '__add__':
        return Tup(r.items + a[0].items)
    if name == '__eq__':
        return m.eq(r, a[0])
    if name == '__init__':
        return None
    return MISSING


def unbound_native(m, tn, name, a, kw):
    if name == '__new__':
        cls = a[0]
        if tn == 'type':
            return m.ip.type_new(m, cls, a[1:], kw)
        if isinstance(cls, BT):
            if tn == 'object' and cls.n == 'object':
                return m.st.alloc(Obj('inst', BT('object'), site=m.st.loc))
            return construct(m, cls.n, a[1:], kw)
        return object_new(m, cls, a[1:], kw)
    if name == 'fromkeys':
        return dict_method(m, m.new_dict([]), name, a, kw)
    if name == '__init_subclass__':
        return None
    if name == 'maketrans':
        return Opq(('maketrans',) + tuple(valkey(x) for x in a))
    if tn == 'type' and name in ('__init__', '__call__'):
        if name == '__init__':
            return None
        return m.instantiate(a[0], m.st.get(a[0].a), a[1:], kw) if not is_user_call(m, a[0]) else plain_call(m, a, kw)
    if tn in ('datetime', 'date', 'time'):
        return dt_class_method(m, tn, name, a, kw)
    if tn == 'chain' and name == 'from_iterable':
        return make_iter(m, [x for it in m.iterate(a[0]) for x in m.iterate(it)])
    if not a:
        raise m.exc('TypeError', 'unbound method %s.%s needs an argument' % (tn, name))
    if tn == 'str' and isinstance(a[0], Opq) and a[0].t[0] != 'rope' and not m.has_tag(a[0], ['str']):
        raise m.exc('TypeError', "descriptor requires a 'str' object")
    return native_method(m, a[0], tn, name, a[1:], kw)


def is_user_call(m, cls):
    meta = m.st.get(cls.a).data.get('meta')
    return meta is not None and not isinstance(meta, BT) and m.lookup_user(meta, '__call__') is not None


def plain_call(m, a, kw):
    """type.__call__(cls, ...): instantiation without the metaclass's own __call__"""
    cls, args = a[0], a[1:]
    new = m.lookup_user(cls, '__new__')
    if new is not None:
        fo = m.st.get(new.a)
        obj = m.call(fo.attrs['f'] if fo.kind == 'sm' else new, [cls] + args, kw)
    else:
        obj = object_new(m, cls, args, kw)
    ocls = m.class_of(obj)
    if cls in m.mro(ocls):
        init = m.lookup_type(ocls, '__init__')
        if init is not None:
            m.call(m.bind(init, obj, ocls), args, kw)
    return obj


def dt_class_method(m, tn, name, a, kw):
    if name == 'strptime':
        text, fmt = a
        for x in (text, fmt):
            if isinstance(x, Opq) and x.t[0] != 'rope':
                if not m.has_tag(x, ['str']):
                    raise m.exc('TypeError', 'strptime() argument must be str')
            elif not isinstance(x, (str, Opq)):
                raise m.exc('TypeError', 'strptime() argument must be str')
        if not m.pred(('fits', valkey(text), valkey(fmt)), lambda: '%r fits format %r' % (text, fmt)):
            raise m.exc('ValueError', Opq(('strptimeerr', valkey(text), valkey(fmt))))
        return Opq(('strptime', valkey(text), valkey(fmt)))
    if a and (isinstance(a[0], Opq) or isinstance(a[0], Ref)) and name in ('strftime', 'isoformat', 'date', 'time'):
        return native_method(m, a[0], 'opq' if isinstance(a[0], Opq) else tn, name, a[1:], kw)
    if name in ('now', 'utcnow', 'today', 'fromtimestamp', 'utcfromtimestamp', 'combine', 'fromordinal',
                'fromisoformat'):
        v = Opq(('dtcls', tn, name) + tuple(valkey(x) for x in a))
        m.st.facts.setdefault(('tags', v.t), frozenset([tn]))
        return v
    raise Unsup('%s.%s' % (tn, name))


# -- installation ----------------------------------------------------------------------------------------------


def bt_has(n, name):
    if name in SKIP:
        return False
    if n == '_GCM':
        return name in ('__enter__', '__exit__')
    t = pytype(n)
    if t is None:
        if n in EXTRA_EXC:
            return False
        return False
    if n in ('dict_keys', 'dict_values', 'dict_items', 'range', 'iterator', 'generator', 'function', 'method'):
        return name in t.__dict__
    return name in t.__dict__


def bt_getattr(m, v, name):
    if name in ('__name__', '__qualname__'):
        return v.n
    if name == '__mro__':
        return Tup(m.mro(v))
    if name == '__class__':
        return BT('type')
    if name == '__bases__':
        return Tup([BT(x) for x in bt_mro(v.n)[1:2]])
    if name == '__module__':
        return 'builtins'
    if name == '__doc__':
        return None
    if name == '__subclasses__':
        return NF('__subclasses__', lambda m, a, kw: m.new_list([]))
    for n in bt_mro(v.n):
        if bt_has(n, name):
            t = pytype(n)
            x = t.__dict__[name] if t is not None else None
            if is_const(x) and not callable(x):
                return x
            if v.n in ('date', 'datetime', 'time') and name in ('min', 'max', 'resolution'):
                c = Opq(('dtconst', v.n, name))
                m.st.facts.setdefault(('tags', c.t), frozenset([v.n]))
                return c
            return UM(n, name)
    if v.n == 'chain' and name == 'from_iterable':
        return UM('chain', name)
    raise m.exc('AttributeError', 'type object %r has no attribute %r' % (v.n, name))


OPQ_OBJECT_NAMES = frozenset(dir(object))


def tag_has(tag, name):
    if tag in ('object',):
        return True if name in OPQ_OBJECT_NAMES else None
    t = {'None': type(None), 'date': datetime.date, 'datetime': datetime.datetime, 'time': datetime.time,
         'struct_time': time.struct_time, 'Decimal': decimal.Decimal, 'UUID': uuid.UUID,
         'callable': types.FunctionType}.get(tag) or TAG_PYTYPE.get(tag)
    if t is None:
        return None
    return hasattr(t, name)


def inst_dict(m, v):
    o = m.st.get(v.a)
    d = m.st.alloc(Obj('inst', BT('dict'), {'$dictof': v}, tuple((k, x) for k, x in o.attrs.items()
                                                               if not k.startswith('$'))))
    return d


def module_attr(m, v, o, name):
    """attribute of a module: loaded sub-module, or an attribute of the real library module"""
    full = o.name + '.' + name
    if full in m.ip.modules:
        return (m.ip.modules[full],)
    if o.data and o.data.get('native'):
        try:
            mod = importlib.import_module(o.name)
        except ImportError:
            return None
        if hasattr(mod, name):
            x = getattr(mod, name)
            if is_const(x):
                return (x,)
            if isinstance(x, type) and issubclass(x, BaseException):
                return (BT(x.__name__),)
            q = Opq(('lib', o.name, name))
            m.st.facts.setdefault(('tags', q.t), frozenset(['callable' if callable(x) else 'object']))
            return (q,)
    return None


def call_opaque(m, f, args, kw):
    r = Opq(('call', f.t) + tuple(valkey(x) for x in args) + tuple((k, valkey(x)) for k, x in sorted(kw.items())))
    if f.t[0] == 'lib':
        m.ip.log.setdefault('libcall', set()).add('%s.%s' % (f.t[1], f.t[2]))
    return r


def opq_written(m, v, what, name):
    if m.st.frozen:
        m.ip.report_write(m, repr(v), what, name)


def barrier_hit(m, a, what, name, new=None):
    """a write to an object that is frozen.  Three kinds of writes are no violation: to local variables, counting how
    many objects were created, and filling a cache with facts that depend on frozen objects (declarations) alone."""
    o = m.st.get(a)
    if o.kind == 'env':
        return
    if new is not None:
        k, v = new
        if name is None:
            i = m.dict_find(o, k)
            old = o.data[i][1] if i is not None else Inf
        else:
            old = o.attrs.get(name, Inf)
        if o.kind == 'class' and type(old) is int and type(v) is int and v == old + 1:
            return
        empty = old is Inf or old is None or isinstance(old, Ref) and (
            m.st.get(old.a).kind == 'inst' and m.cls_name(m.st.get(old.a).cls) == '_Constant')
        if declared(m, k) and declared(m, v):
            if empty or valkey(old) == valkey(v):
                return
            if isinstance(old, Ref) and isinstance(v, Ref) and old.a >= m.st.frozen:
                x, y = m.st.get(old.a), m.st.get(v.a)
                if x.kind == y.kind and x.cls == y.cls and declared(m, old):
                    return
    m.ip.report_write(m, obj_label(m, a), what, name)


TRANSIENT = frozenset(['Form', 'Path', 'MountPath', 'Frame', 'BaseException', 'Source'])


def declared(m, v):
    """whether a value is made of frozen objects and constants only: no input, no form, path, frame or error"""
    seen = set()

    def go(v):
        if is_const(v) or isinstance(v, (BT, NF, UM)):
            return True
        if isinstance(v, Tup):
            return all(go(i) for i in v.items)
        if isinstance(v, BM):
            return go(v.s)
        if not isinstance(v, Ref):
            return False
        if v.a in m.st.exempt:
            return False
        if v.a < m.st.frozen or v.a in seen:
            return True
        seen.add(v.a)
        o = m.st.get(v.a)
        if o.kind in ('class', 'func', 'prop', 'cm', 'sm', 'module'):
            return True
        if o.kind != 'inst':
            return False
        for c in m.mro(o.cls):
            if m.cls_name(c) in TRANSIENT:
                return False
        if isinstance(o.data, tuple):
            for x in o.data:
                if not (go(x[0]) and go(x[1]) if isinstance(x, tuple) else go(x)):
                    return False
        elif o.data is not None:
            return False
        return all(go(x) for n, x in o.attrs.items() if not n.startswith('$'))
    return go(v)


def obj_label(m, a):
    o = m.st.get(a)
    if o.kind == 'inst':
        return '%s object' % m.cls_name(o.cls)
    return '%s %s' % (o.kind, o.name)


def install(ip):
    ip.builtins = dict((n, v) for n, v in NATIVES.items())
    for n in BUILTIN_TYPES:
        ip.builtins[n] = BT(n)
    for n in dir(_py):
        t = getattr(_py, n)
        if isinstance(t, type) and issubclass(t, BaseException):
            ip.builtins[n] = BT(n)
    ip.builtins['NotImplemented'] = NF('NotImplemented', None)
    ip.builtins['__debug__'] = True
    ip.NotImpl = ip.builtins['NotImplemented']
    ip.log = {}
    for n, f in (('construct', construct), ('object_new', object_new), ('native_method', native_method),
                 ('unbound_native', unbound_native), ('bt_has', bt_has), ('bt_getattr', bt_getattr),
                 ('tag_has', tag_has), ('inst_dict', inst_dict), ('part_eq', part_eq), ('module_attr', module_attr),
                 ('call_opaque', call_opaque), ('opq_written', opq_written), ('barrier_hit', barrier_hit),
                 ('str_op', str_op)):
        setattr(ip, n, f)
