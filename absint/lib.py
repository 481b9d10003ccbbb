"""Native parts of the library stubs, and the intrinsics the property specifications are written with."""
import inspect as _inspect
import json as _json
import re as _re
import textwrap as _textwrap

from .values import Opq, Ref, Tup, BT, NF, BM, NM, UM, SuperV, Obj, is_const, valkey, term_str
from .engine import Inf, Unsup, PyExc, Machine, ALL_TAGS, TERM_TAGS
from . import natives
from .natives import arg, cstr, const_of

N = {}      # attributes of the module __native__
V = {}      # attributes of the module vf


def nat(fn):
    N[fn.__name__.lstrip('_')] = NF('native.' + fn.__name__.lstrip('_'), fn)
    return fn


def intr(fn):
    V[fn.__name__.lstrip('_')] = NF('vf.' + fn.__name__.lstrip('_'), fn)
    return fn


def tagged(m, v, *tags):
    m.st.facts.setdefault(('tags', v.t), frozenset(tags))
    return v


for _n in ('date', 'datetime', 'time', 'timedelta', 'tzinfo', 'struct_time', 'Decimal', 'UUID', 'defaultdict',
           'OrderedDict', 'InvalidOperation', 'function', 'method', 'generator', 'module', 'NoneType',
           'builtin_function_or_method', 'error', 'JSONDecodeError', 'ParseError'):
    N[_n] = BT(_n)


# -- re --------------------------------------------------------------------------------------------------------


@nat
def re_check(m, a, kw):
    """validates a pattern; a known one is compiled for its group table only"""
    p, flags = a
    c = cstr(m, p)
    if c is not None:
        try:
            return _re.compile(c, flags if isinstance(flags, int) else 0).groups
        except _re.error as ex:
            raise m.exc('error', str(ex))
    if isinstance(p, Opq):
        if p.t[0] != 'rope' and not m.has_tag(p, ['str', 'bytes']):
            raise m.exc('TypeError', 'first argument must be string or compiled pattern')
        if not m.pred(('validre', p.t), lambda: '%r is a valid pattern' % p):
            raise m.exc('error', 'bad pattern')
        return tagged(m, Opq(('regroups', p.t)), 'int')
    raise m.exc('TypeError', 'first argument must be string or compiled pattern')


@nat
def re_match(m, a, kw):
    """does `text` match?  None, or the tuple of (span text, ...) groups lazily named by terms"""
    kind, pat, flags, text = a
    if isinstance(text, Opq) and text.t[0] != 'rope':
        if not m.has_tag(text, ['str']):
            raise m.exc('TypeError', 'expected string or bytes-like object')
    elif not isinstance(text, (str, Opq)):
        raise m.exc('TypeError', 'expected string or bytes-like object')
    cp, ct = cstr(m, pat), cstr(m, text)
    if cp is not None and ct is not None:
        mo = getattr(_re.compile(cp, flags), kind)(ct)
        return mo is not None
    return m.pred(('re', kind, valkey(pat), flags, valkey(text)), lambda: '%r %ses /%s/' % (text, kind, cp or pat))


@nat
def re_group(m, a, kw):
    kind, pat, flags, text, g = a
    cp, ct = cstr(m, pat), cstr(m, text)
    cg = const_of(m, g)
    if cg is not None and not isinstance(cg[0], (int, str)):
        raise m.exc('IndexError', 'no such group')
    if cp is not None and cg is not None:
        cc = _re.compile(cp, flags)
        if isinstance(cg[0], str) and cg[0] not in cc.groupindex or (
                isinstance(cg[0], int) and not 0 <= cg[0] <= cc.groups):
            raise m.exc('IndexError', 'no such group')
        gi = cc.groupindex[cg[0]] if isinstance(cg[0], str) else cg[0]
        if ct is not None:
            return getattr(cc, kind)(ct).group(gi)
    else:
        gi = cg[0] if cg is not None else g
        if gi != 0 or isinstance(gi, bool):
            if not m.pred(('regroup?', valkey(pat), valkey(gi))):
                raise m.exc('IndexError', 'no such group')
    if isinstance(gi, int) and gi != 0 or not isinstance(gi, int):
        if not m.pred(('reset', kind, valkey(pat), flags, valkey(text), valkey(gi)),
                      lambda: 'group %r of /%s/ took part' % (gi, cp or pat)):
            return None
    return tagged(m, Opq(('grp', kind, valkey(pat), flags, valkey(text), valkey(gi))), 'str')


@nat
def re_pos(m, a, kw):
    """where a match or group starts or ends, and which group took part last"""
    what, kind, pat, flags, text, g = a
    cp, ct, cg = cstr(m, pat), cstr(m, text), const_of(m, g)
    if cp is not None and ct is not None and cg is not None:
        mo = getattr(_re.compile(cp, flags), kind)(ct)
        if what in ('lastindex', 'lastgroup'):
            return getattr(mo, what)
        try:
            return getattr(mo, what)(cg[0])
        except (IndexError, TypeError):
            raise m.exc('IndexError', 'no such group')
    if what in ('lastindex', 'lastgroup'):
        t = Opq(('re' + what, kind, valkey(pat), flags, valkey(text)))
        return tagged(m, t, *(('int', 'None') if what == 'lastindex' else ('str', 'None')))
    if what == 'start' and kind in ('match', 'fullmatch') and cg is not None and cg[0] == 0:
        return 0
    t = Opq(('re' + what, kind, valkey(pat), flags, valkey(text), valkey(g)))
    return tagged(m, t, 'int')


@nat
def re_groupindex(m, a, kw):
    cp = cstr(m, a[0])
    if cp is None:
        raise Unsup('groups of an unknown pattern')
    cc = _re.compile(cp, a[1])
    return Tup([cc.groups, Tup([Tup([k, v]) for k, v in sorted(cc.groupindex.items(), key=lambda kv: kv[1])])])


@nat
def re_other(m, a, kw):
    """findall / sub / split: unknown results"""
    kind = a[0]
    cs = [const_of(m, x) for x in a[1:]]
    if all(c is not None for c in cs):
        pat, flags = cs[0][0], cs[1][0]
        r = getattr(_re.compile(pat, flags), kind)(*[c[0] for c in cs[2:]])
        return natives.to_abs(m, r)
    t = Opq(('re' + kind,) + tuple(valkey(x) for x in a[1:]))
    return tagged(m, t, 'str' if kind == 'sub' else 'list')


# -- json / text -----------------------------------------------------------------------------------------------

JSON_TAGS = frozenset(['None', 'bool', 'int', 'float', 'str', 'list', 'dict'])


class Hooked(object):
    """a part of a document that a function given by the caller converts"""

    def __init__(self, which, text):
        self.which, self.text = which, text


def from_host(m, x, hooks=None):
    hooks = hooks or {}
    if isinstance(x, dict):
        pairs = [(k, from_host(m, v, hooks)) for k, v in x.items()]
        if hooks.get('object_pairs_hook') is not None:
            return m.call(hooks['object_pairs_hook'], [m.new_list([Tup([k, v]) for k, v in pairs])])
        r = m.new_dict(pairs)
        return m.call(hooks['object_hook'], [r]) if hooks.get('object_hook') is not None else r
    if isinstance(x, list):
        return m.new_list([from_host(m, v, hooks) for v in x])
    if isinstance(x, Hooked):
        return m.call(hooks[x.which], [x.text])
    return x


HOOKS = ('parse_int', 'parse_float', 'parse_constant', 'object_hook', 'object_pairs_hook')


@nat
def json_loads(m, a, kw):
    text = a[0]
    c = cstr(m, text)
    if c is None and isinstance(text, bytes):
        try:
            c = text.decode('utf-8')
        except UnicodeDecodeError:
            raise m.exc('UnicodeDecodeError', 'invalid')
    hooks = dict((k, v) for k, v in zip(HOOKS, a[1:]) if v is not None)
    if c is not None:
        try:
            doc = _json.loads(c, **dict((k, lambda s, k=k: Hooked(k, s)) for k in hooks if k.startswith('parse')))
        except ValueError as ex:
            raise m.exc('JSONDecodeError', str(ex))
        return from_host(m, doc, hooks)
    tags = set(JSON_TAGS)
    for which, tag in (('parse_int', 'int'), ('parse_float', 'float'), ('object_hook', 'dict'), ('object_pairs_hook', 'dict')):
        if which in hooks:
            tags.discard(tag)
            tags.add('object')
    if isinstance(text, Opq):
        if text.t[0] == 'jsontext' and not hooks:
            return json_copy(m, text.t[1])
        if text.t[0] != 'rope' and not m.has_tag(text, ['str', 'bytes']):
            raise m.exc('TypeError', 'the JSON object must be str, bytes or bytearray')
        if not m.pred(('validjson', text.t), lambda: '%r is valid JSON' % text):
            raise m.exc('JSONDecodeError', 'invalid')
        return tagged(m, Opq(('json', text.t) + tuple(sorted(hooks))), *tags)
    raise m.exc('TypeError', 'the JSON object must be str, bytes or bytearray')


def json_copy(m, k):
    """the value a rendered document denotes, given its valkey"""
    if k[0] != 'ref':
        raise Unsup('JSON text of %r' % (k,))

    def go(v):
        if isinstance(v, Ref):
            o = m.st.get(v.a)
            if o.kind == 'inst' and isinstance(o.cls, BT) and o.cls.n == 'dict':
                return m.new_dict([(a, go(b)) for a, b in o.data])
            if o.kind == 'inst' and isinstance(o.cls, BT) and o.cls.n == 'list':
                return m.new_list([go(a) for a in o.data])
            raise Unsup('JSON text of %s' % o.kind)
        return v
    return go(Ref(k[1]))


@nat
def text_split(m, a, kw):
    """shlex.split"""
    v, more = a[0], tuple(a[1:])
    c = cstr(m, v)
    if c is not None:
        import shlex
        if any(type(x) not in (bool, int) for x in more):
            raise Unsup('shlex.split with unknown options')
        try:
            return m.new_list(shlex.split(c, *more))
        except ValueError as ex:
            raise m.exc('ValueError', str(ex))
    if isinstance(v, Opq):
        if v.t[0] != 'rope' and not m.has_tag(v, ['str']):
            raise m.exc('AttributeError', 'read')
        if not m.pred(('shell', v.t) + more, lambda: '%r has balanced quotes' % v):
            raise m.exc('ValueError', 'No closing quotation')
        return tagged(m, Opq(('sopl', 'shlex', v.t) + more), 'list')
    raise m.exc('AttributeError', 'read')


@nat
def text_fn(m, a, kw):
    """some string function of a string: an unknown string"""
    if a[0] == 'dedent' and isinstance(a[1], str):
        return _textwrap.dedent(a[1])
    return tagged(m, Opq(('sop', a[0]) + tuple(valkey(x) for x in a[1:])), 'str')


@nat
def iso_parse(m, a, kw):
    """(ok, value)"""
    v = a[0]
    if isinstance(v, Opq) and v.t[0] != 'rope' and not m.has_tag(v, ['str']) or not isinstance(v, (str, Opq)):
        return Tup([False, None])
    if not m.pred(('fits', valkey(v), ('c', 'str', 'iso8601')), lambda: '%r is an ISO 8601 text' % v):
        return Tup([False, None])
    return Tup([True, tagged(m, Opq(('strptime', valkey(v), ('c', 'str', 'iso8601'))), 'datetime')])


@nat
def time_strptime(m, a, kw):
    text, fmt = a
    for x in (text, fmt):
        if isinstance(x, Opq) and x.t[0] != 'rope':
            if not m.has_tag(x, ['str']):
                raise m.exc('TypeError', 'strptime() argument must be str')
        elif not isinstance(x, (str, Opq)):
            raise m.exc('TypeError', 'strptime() argument must be str')
    if not m.pred(('fits', valkey(text), valkey(fmt)), lambda: '%r fits format %r' % (text, fmt)):
        raise m.exc('ValueError', Opq(('strptimeerr', valkey(text), valkey(fmt))))
    return tagged(m, Opq(('tstrptime', valkey(text), valkey(fmt))), 'struct_time')


@nat
def opaque_call(m, a, kw):
    """result of a library function about which nothing is known but its kind"""
    return tagged(m, Opq(('libcall', a[0]) + tuple(valkey(x) for x in a[2:])), *a[1].split('|'))


# -- objects ---------------------------------------------------------------------------------------------------


@nat
def gcm(m, a, kw):
    return m.st.alloc(Obj('inst', BT('_GCM'), {'gen': a[0]}, site=m.st.loc))


@nat
def copy(m, a, kw):
    v = a[0]
    if isinstance(v, Ref):
        o = m.st.get(v.a)
        if o.kind == 'inst':
            f = m.lookup_user(o.cls, '__copy__')
            if f is not None:
                return m.call(m.bind(f, v, o.cls), [])
            n = o.copy()
            n.site = m.st.loc
            return m.st.alloc(n)
        return v
    if isinstance(v, Opq) and m.tags(v) & frozenset(['list', 'dict']):
        if m.has_tag(v, ['list', 'dict']):
            if m.has_tag(v, ['dict']):
                return m.call_method(v, 'copy')
            return m.new_list(list(m.iterate(v)))
    return v


@nat
def deepcopy(m, a, kw):
    memo = {}

    def go(v):
        if isinstance(v, Ref):
            if v.a in memo:
                return memo[v.a]
            o = m.st.get(v.a)
            if o.kind != 'inst' or (isinstance(o.cls, BT) and not isinstance(o.data, tuple)
                                    and not natives.is_exc_bt(o.cls.n)):
                return v
            f = m.lookup_user(o.cls, '__deepcopy__')
            if f is not None:
                r = m.call(m.bind(f, v, o.cls), [m.new_dict([])])
                memo[v.a] = r
                return r
            n = o.copy()
            r = m.st.alloc(n)
            memo[v.a] = r
            attrs = dict((k, go(x)) for k, x in o.attrs.items())
            d = o.data
            if isinstance(d, tuple):
                d = tuple((go(x[0]), go(x[1])) if isinstance(x, tuple) else go(x) for x in d)
            w = m.st.w(r.a)
            w.attrs, w.data = attrs, d
            return r
        if isinstance(v, Tup):
            return Tup(go(i) for i in v.items)
        if isinstance(v, BM):
            return BM(v.f, go(v.s))
        return v
    return go(a[0])


@nat
def register_local(m, a, kw):
    """remembers a thread-local object together with its construction arguments"""
    o = m.st.w(a[0].a)
    o.attrs['$local'] = Tup([a[1], a[2]])
    m.ip.thread_locals.add(a[0].a)
    return None


@nat
def thread_id(m, a, kw):
    return m.st.facts.get(('thread',), 1)


@nat
def exc_info(m, a, kw):
    e = m.st.exc
    if e is None:
        return Tup([None, None, None])
    return Tup([m.class_of(e), e, None])


@nat
def argspec(m, a, kw):
    """(args, varargs, varkw, defaults, kwonlyargs, kwonlydefaults, annotations) of a callable"""
    f = a[0]
    for _ in range(4):
        if isinstance(f, BM):
            f = f.f
        elif isinstance(f, Ref) and m.st.get(f.a).kind in ('cm', 'sm'):
            f = m.st.get(f.a).attrs['f']
        elif isinstance(f, Ref) and m.st.get(f.a).kind == 'func' and '__wrapped__' in m.st.get(f.a).attrs \
                and not (len(a) > 1 and a[1]):
            break
        elif isinstance(f, Ref) and m.st.get(f.a).kind == 'class':
            g = m.lookup_user(f, '__init__')
            if g is None:
                raise m.exc('TypeError', 'unsupported callable')
            f = g
        elif isinstance(f, Ref) and m.st.get(f.a).kind == 'inst':
            g = m.lookup_user(m.st.get(f.a).cls, '__call__')
            if g is None:
                raise m.exc('TypeError', 'unsupported callable')
            f = g
        else:
            break
    if not (isinstance(f, Ref) and m.st.get(f.a).kind == 'func'):
        raise m.exc('TypeError', 'unsupported callable')
    o = m.st.get(f.a)
    d = o.data
    ar = d.node.args
    defaults = o.attrs['$defaults']
    kd = o.attrs['$kwdefaults'].items
    ann = m.new_dict([(x.arg, Opq(('annot', x.arg))) for x in list(ar.args) + list(ar.kwonlyargs)
                      if x.annotation is not None])
    return Tup([m.new_list(d.info.argnames), ar.vararg.arg if ar.vararg else None,
                ar.kwarg.arg if ar.kwarg else None, defaults if defaults.items else None,
                m.new_list([x.arg for x in ar.kwonlyargs]),
                m.new_dict([(p.items[0], p.items[1]) for p in kd]) if kd else None, ann])


@nat
def isfunc(m, a, kw):
    v = a[0]
    if a[1] == 'function':
        return isinstance(v, Ref) and m.st.get(v.a).kind == 'func'
    if a[1] == 'method':
        return isinstance(v, BM)
    if a[1] == 'class':
        return m.is_class(v)
    if a[1] == 'module':
        return isinstance(v, Ref) and m.st.get(v.a).kind == 'module'
    if a[1] == 'builtin':
        return isinstance(v, (NF, NM, UM))
    if a[1] == 'generator':
        return isinstance(v, Ref) and m.st.get(v.a).kind == 'gen'
    return False


@nat
def update_func(m, a, kw):
    """functools.update_wrapper"""
    w, f = a
    if isinstance(w, Ref) and m.st.get(w.a).kind == 'func':
        o = m.st.w(w.a)
        try:
            o.name = m.getattr(f, '__name__')
        except PyExc:
            pass
        for k in ('__doc__', '__module__'):
            try:
                o.attrs[k] = m.getattr(f, k)
            except PyExc:
                pass
        o.attrs['__wrapped__'] = f
    return w


@nat
def import_named(m, a, kw):
    return natives.import_by_name(m, a[0], top=False)


@nat
def abstract_methods(m, a, kw):
    return False


# -- intrinsics of the specifications --------------------------------------------------------------------------


@intr
def any_value(m, a, kw):
    """the value named a[0], of any kind (or of the kinds a[1:])"""
    v = Opq(('in', a[0]))
    if len(a) > 1:
        m.st.facts.setdefault(('tags', v.t), frozenset(a[1:]))
    return v


@intr
def any_json(m, a, kw):
    v = Opq(('json', a[0]))
    m.st.facts.setdefault(('tags', v.t), JSON_TAGS if len(a) < 2 else frozenset(a[1:]))
    return v


@intr
def json_text(m, a, kw):
    """a JSON document that denotes the dictionary or list a[0]"""
    return tagged(m, Opq(('jsontext', valkey(a[0]))), 'str')


@intr
def key_tags(m, a, kw):
    m.st.facts[('keytags', a[0].t)] = frozenset(a[1:])
    return None


@intr
def choose(m, a, kw):
    """one of the given declarations, each"""
    k = m.choose(len(a), lambda j: 'declaration: %s' % m.ip.show(m, a[j]))
    return a[k]


@intr
def check(m, a, kw):
    cond, label = a[0], a[1]
    ok = m.truth(cond)
    m.ip.checked[label] = m.ip.checked.get(label, 0) + 1
    if not ok:
        m.ip.record(m, label, a[2:] if len(a) > 2 else ())
        raise Inf()
    return None


@intr
def fail(m, a, kw):
    m.ip.checked[a[0]] = m.ip.checked.get(a[0], 0) + 1
    m.ip.record(m, a[0], a[1:])
    raise Inf()


@intr
def reach(m, a, kw):
    """a point of the specification that must be reachable"""
    m.ip.checked[a[0]] = m.ip.checked.get(a[0], 0) + 1
    return None


@intr
def assume(m, a, kw):
    if not m.truth(a[0]):
        raise Inf()
    return None


@intr
def freeze(m, a, kw):
    """from here on, a write to an object that exists now (except a[1:] and what they are) is reported as a[0]"""
    m.st.frozen = m.st.nxt
    m.st.frozen_label = a[0]
    ex = set()
    for x in a[1:]:
        if isinstance(x, Ref):
            ex.add(x.a)
    m.st.exempt = frozenset(ex)
    return None


@intr
def unfreeze(m, a, kw):
    m.st.frozen = 0
    m.st.exempt = frozenset()
    m.ip.checked[m.st.frozen_label] = m.ip.checked.get(m.st.frozen_label, 0) + 1
    return None


@intr
def reachable(m, a, kw):
    """objects reachable from a[0] (not through classes, functions or modules), as a tuple"""
    seen, out = set(), []

    def go(v):
        if isinstance(v, Ref):
            if v.a in seen:
                return
            seen.add(v.a)
            o = m.st.get(v.a)
            if o.kind != 'inst':
                return
            out.append(v)
            for k in sorted(o.attrs):
                go(o.attrs[k])
            if isinstance(o.data, tuple):
                for x in o.data:
                    if isinstance(x, tuple):
                        go(x[0])
                        go(x[1])
                    else:
                        go(x)
        elif isinstance(v, Tup):
            for i in v.items:
                go(i)
        elif isinstance(v, BM):
            go(v.s)
    go(a[0])
    return Tup(out)


@intr
def snapshot(m, a, kw):
    """structural snapshot of everything reachable from a value; equal structures give the same snapshot.
    Names starting with one of a[1:] are left out."""
    skip = tuple(a[1:])
    num = {}

    def go(v):
        if isinstance(v, Ref):
            o = m.st.get(v.a)
            if o.kind in ('class', 'func', 'module', 'env', 'prop', 'cm', 'sm'):
                return ('ref', v.a)
            if v.a in num:
                return ('seen', num[v.a])
            num[v.a] = len(num)
            d = o.data
            if isinstance(d, tuple):
                d = tuple((go(x[0]), go(x[1])) if isinstance(x, tuple) else go(x) for x in d)
            else:
                d = None
            return ('obj', o.kind, None if o.cls is None else valkey(o.cls), v.a,
                    tuple((k, go(o.attrs[k])) for k in sorted(o.attrs) if not k.startswith('$') and k not in skip), d)
        if isinstance(v, Tup):
            return ('tup',) + tuple(go(i) for i in v.items)
        return valkey(v)
    return tagged(m, Opq(('snap', hash_term(go(a[0])))), 'object')


_SNAPS = {}


def hash_term(t):
    """interned number of a term (so that snapshots do not keep addresses alive across renumbering)"""
    n = _SNAPS.get(t)
    if n is None:
        n = _SNAPS[t] = len(_SNAPS)
    return n


@intr
def in_thread(m, a, kw):
    """runs a[0](*a[1:]) as another thread would see it: every thread-local object starts fresh"""
    saved = []
    tid = m.st.facts.get(('thread',), 1)
    m.st.facts[('thread',)] = m.ip.next_thread(tid)
    for addr in sorted(m.ip.thread_locals):
        o = m.st.w(addr)
        saved.append((addr, m.new_dict([(k, v) for k, v in o.attrs.items()])))
        init = o.attrs['$local']
        frozen, m.st.frozen = m.st.frozen, 0
        m.st.w(addr).attrs = {'$local': init}
        f = m.lookup_type(o.cls, '__init__')
        m.call(m.bind(f, Ref(addr), o.cls), list(init.items[0].items),
               dict((m.key_const(k), v) for k, v in m.st.get(init.items[1].a).data))
        m.st.frozen = frozen
        m.st.exempt = m.st.exempt | frozenset([addr])

    def restore():
        for addr, d in saved:
            o = m.st.w(addr)
            o.attrs = dict(m.st.get(d.a).data)
        m.st.facts[('thread',)] = tid
    try:
        r = m.call(a[0], list(a[1:]), kw)
    except PyExc:
        restore()
        raise
    restore()
    return r


@intr
def same(m, a, kw):
    """the same abstract value (identity for mutable objects, equal kind and value for the others)"""
    x, y = a

    def go(x, y):
        if valkey(x) == valkey(y):
            return True
        if isinstance(x, Tup) and isinstance(y, Tup):
            return len(x.items) == len(y.items) and all(go(p, q) for p, q in zip(x.items, y.items))
        if isinstance(x, Opq) or isinstance(y, Opq):
            ex, ey = const_of(m, x), const_of(m, y)
            if ex is not None and ey is not None:
                tx = m.class_of(x)
                return tx == m.class_of(y) and ex[0] == ey[0]
            if isinstance(x, Opq) and isinstance(y, Opq) and 'rope' in (x.t[0], y.t[0]):
                return m.eq(x, y)
            if is_const(x) or is_const(y):
                o, c = (x, y) if isinstance(x, Opq) else (y, x)
                if c is None or isinstance(c, bool):
                    return m.is_(o, c)
                if not m.eq(o, c):
                    return False
                return m.class_of(o) == m.class_of(c)
            if isinstance(x, Opq) and isinstance(y, Opq):
                return m.is_(x, y)
            return False
        if is_const(x) and is_const(y):
            return type(x) is type(y) and x == y
        return False
    return go(x, y)


@intr
def deep_same(m, a, kw):
    """same, and structurally so through lists, dicts and plain instances"""
    seen = set()

    def go(x, y):
        if isinstance(x, Ref) and isinstance(y, Ref):
            if x == y or (x.a, y.a) in seen:
                return True
            seen.add((x.a, y.a))
            ox, oy = m.st.get(x.a), m.st.get(y.a)
            if ox.kind != oy.kind or ox.kind != 'inst' or ox.cls != oy.cls:
                return False
            if isinstance(ox.data, tuple) != isinstance(oy.data, tuple):
                return False
            if isinstance(ox.data, tuple):
                if len(ox.data) != len(oy.data):
                    return False
                if m.payload_kind(ox.cls) == 'dict':
                    for k, v in ox.data:
                        i = m.dict_find(oy, k)
                        if i is None or not go(v, oy.data[i][1]):
                            return False
                    return True
                for p, q in zip(ox.data, oy.data):
                    if not go(p, q):
                        return False
                return True
            return set(ox.attrs) == set(oy.attrs) and all(go(ox.attrs[k], oy.attrs[k]) for k in sorted(ox.attrs)
                                                         if k != '$loc')
        if isinstance(x, Tup) and isinstance(y, Tup):
            return len(x.items) == len(y.items) and all(go(p, q) for p, q in zip(x.items, y.items))
        return same(m, [x, y], {})
    return go(a[0], a[1])


@intr
def kind_of(m, a, kw):
    """name of the kind of a value (splits on it)"""
    v = a[0]
    if isinstance(v, Opq) and v.t[0] != 'rope':
        return m.one_tag(v)
    c = m.class_of(v)
    return m.cls_name(c)


@intr
def is_opaque(m, a, kw):
    return isinstance(a[0], Opq)


@intr
def holds(m, a, kw):
    """an unknown fact about the given values: any of both"""
    return m.pred(('fact',) + tuple(valkey(x) for x in a))


@intr
def fact_fits(m, a, kw):
    """the analysed program's question whether text fits a format"""
    return m.pred(('fits', valkey(a[0]), valkey(a[1])))


@intr
def fact_re(m, a, kw):
    return m.pred(('re', a[0], valkey(a[1]), 0, valkey(a[2])))


@intr
def opaque_function(m, a, kw):
    """a user function about which nothing is known: result named by its arguments, of the kinds a[1:]"""
    name = a[0]
    tags = [x for x in a[1:]]

    def fn(m, b, kwb):
        r = Opq(('ufn', name) + tuple(valkey(x) for x in b))
        m.st.facts.setdefault(('tags', r.t), frozenset(tags) if tags else ALL_TAGS)
        return r
    return NF('user.' + name, fn)


@intr
def result_of(m, a, kw):
    r = Opq(('ufn', a[0]) + tuple(valkey(x) for x in a[1:]))
    return r


@intr
def log_writes(m, a, kw):
    return None


@intr
def explain(m, a, kw):
    m.st.trail = ((m.st.loc, ' '.join(m.ip.show(m, x) for x in a)), m.st.trail)
    return None


@intr
def trace(m, a, kw):
    print('TRACE', m.st.loc, [m.ip.show(m, x) for x in a], 'frozen' if m.st.frozen else '')
    return None


@intr
def env_names(m, a, kw):
    """names bound in the namespace of a module object"""
    o = m.st.get(a[0].a)
    return Tup(sorted(k for k in o.attrs if not k.startswith('__')))


def install(ip):
    ip.thread_locals = set()
    ip.next_thread = lambda t: t + 1
