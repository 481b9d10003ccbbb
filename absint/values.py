"""Abstract values, heap objects and abstract states.

Domain
------
A value is one of
  * a Python constant (None, bool, int, float, str, bytes, Ellipsis)
  * Tup(items)            an immutable tuple of values
  * Ref(addr)             a heap object (instance, list, dict, class, function, module, ...)
  * BT(name)              a built-in type
  * NF(name) / NM / BM    native function, bound native method, bound method
  * Opq(term)             ANY value of the kinds ("tags") the state still admits for the term

A state is a heap plus a finite set of facts about opaque terms: possible type tags, (in)equality with
constants, order relation to other terms or constants, and truth of named predicates.  Facts are only ever
refined by the branch taken; there is no solver.
"""


class Opq(object):
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = hash(t)

    def __eq__(self, o):
        return isinstance(o, Opq) and o._h == self._h and o.t == self.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return self._h

    def __repr__(self):
        return '?' + term_str(self.t)


def term_str(t):
    if isinstance(t, tuple):
        if t and t[0] == 'in':
            return str(t[1])
        if t and t[0] == 'rope':
            return '"' + ''.join(p if isinstance(p, str) else '{%s}' % term_str(p) for p in t[1]) + '"'
        if t and t[0] == 'c' and len(t) == 3:
            return repr(t[2])
        return '(' + ' '.join(term_str(x) for x in t) + ')'
    return str(t)


class Ref(object):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('ref', self.a))

    def __repr__(self):
        return '@%d' % self.a


class Tup(object):
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return isinstance(o, Tup) and valkey(o) == valkey(self)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(valkey(self))

    def __repr__(self):
        return 'T%r' % (self.items,)


class BT(object):
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, BT) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('bt', self.n))

    def __repr__(self):
        return '<%s>' % self.n


class NF(object):
    """native function"""
    __slots__ = ('n', 'fn')

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __eq__(self, o):
        return isinstance(o, NF) and o.n == self.n

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('nf', self.n))

    def __repr__(self):
        return '<native %s>' % self.n


class BM(object):
    """bound method: func value + receiver"""
    __slots__ = ('f', 's')

    def __init__(self, f, s):
        self.f, self.s = f, s

    def __eq__(self, o):
        return isinstance(o, BM) and o.f == self.f and valkey(o.s) == valkey(self.s)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('bm', self.f, valkey(self.s)))

    def __repr__(self):
        return '<bound %r of %r>' % (self.f, self.s)


class NM(object):
    """bound native method: receiver, type name, method name"""
    __slots__ = ('s', 'tn', 'n')

    def __init__(self, s, tn, n):
        self.s, self.tn, self.n = s, tn, n

    def __eq__(self, o):
        return isinstance(o, NM) and (o.tn, o.n) == (self.tn, self.n) and valkey(o.s) == valkey(self.s)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('nm', self.tn, self.n, valkey(self.s)))

    def __repr__(self):
        return '<%s.%s of %r>' % (self.tn, self.n, self.s)


class UM(object):
    """unbound native method of a built-in type"""
    __slots__ = ('tn', 'n')

    def __init__(self, tn, n):
        self.tn, self.n = tn, n

    def __eq__(self, o):
        return isinstance(o, UM) and (o.tn, o.n) == (self.tn, self.n)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(('um', self.tn, self.n))

    def __repr__(self):
        return '<%s.%s>' % (self.tn, self.n)


class SuperV(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

    def __hash__(self):
        return hash(('super', self.cls, self.obj))

    def __eq__(self, o):
        return isinstance(o, SuperV) and o.cls == self.cls and o.obj == self.obj


CONST_TYPES = (type(None), bool, int, float, str, bytes, type(Ellipsis), complex)


def is_const(v):
    return isinstance(v, CONST_TYPES)


def valkey(v):
    """hashable key of a value, distinguishing True from 1"""
    if is_const(v):
        return ('c', type(v).__name__, v)
    if isinstance(v, Opq):
        return v.t
    if isinstance(v, Ref):
        return ('ref', v.a)
    if isinstance(v, Tup):
        return ('tup',) + tuple(valkey(i) for i in v.items)
    if isinstance(v, BT):
        return ('bt', v.n)
    if isinstance(v, NF):
        return ('nf', v.n)
    if isinstance(v, BM):
        return ('bm', valkey(v.f), valkey(v.s))
    if isinstance(v, NM):
        return ('nm', v.tn, v.n, valkey(v.s))
    if isinstance(v, UM):
        return ('um', v.tn, v.n)
    if isinstance(v, SuperV):
        return ('super', valkey(v.cls), valkey(v.obj))
    raise TypeError('no key for %r' % (v,))


class Obj(object):
    """heap object; kind in inst, func, class, module, env, prop, cm, sm, gen, slice"""
    __slots__ = ('kind', 'cls', 'attrs', 'data', 'name', 'site')

    def __init__(self, kind, cls=None, attrs=None, data=None, name=None, site=None):
        self.kind = kind
        self.cls = cls
        self.attrs = {} if attrs is None else attrs
        self.data = data
        self.name = name
        self.site = site

    def copy(self):
        return Obj(self.kind, self.cls, dict(self.attrs), self.data, self.name, self.site)


class State(object):
    __slots__ = ('base', 'heap', 'own', 'facts', 'nxt', 'fresh', 'trail', 'loc', 'depth', 'frozen', 'exempt',
                 'frozen_label', 'gens', 'exc', 'orders')

    def __init__(self, base):
        self.base = base          # addr -> Obj, shared, never written
        self.heap = {}
        self.own = set()
        self.facts = {}
        self.nxt = 1
        self.fresh = 0
        self.trail = None         # cons list (entry, rest)
        self.loc = None
        self.depth = 0
        self.frozen = 0           # objects below this address are frozen (write barrier), 0 = off
        self.exempt = frozenset()
        self.frozen_label = None
        self.gens = 0
        self.exc = None           # exception being handled
        self.orders = 0           # order relations that were open when asked for

    def fork(self):
        s = State.__new__(State)
        s.base = self.base
        s.heap = dict(self.heap)
        s.own = set()
        self.own = set()
        s.facts = dict(self.facts)
        s.nxt = self.nxt
        s.fresh = self.fresh
        s.trail = self.trail
        s.loc = self.loc
        s.depth = self.depth
        s.frozen = self.frozen
        s.exempt = self.exempt
        s.frozen_label = self.frozen_label
        s.gens = self.gens
        s.exc = self.exc
        s.orders = self.orders
        return s

    def get(self, a):
        o = self.heap.get(a)
        if o is None:
            o = self.base[a]
        return o

    def w(self, a):
        if a in self.own:
            return self.heap[a]
        o = self.get(a).copy()
        self.heap[a] = o
        self.own.add(a)
        return o

    def alloc(self, obj):
        a = self.nxt
        self.nxt += 1
        self.heap[a] = obj
        self.own.add(a)
        return Ref(a)

    def trail_list(self):
        out = []
        t = self.trail
        while t:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out
