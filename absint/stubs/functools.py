from __native__ import update_func


def update_wrapper(wrapper, wrapped, **kw):
    return update_func(wrapper, wrapped)


def wraps(wrapped, **kw):
    def deco(wrapper):
        return update_func(wrapper, wrapped)
    return deco


_none = object()


def reduce(function, sequence, initial=_none):
    it = list(sequence)
    if initial is _none:
        if not it:
            raise TypeError('reduce() of empty sequence with no initial value')
        acc = it[0]
        it = it[1:]
    else:
        acc = initial
    for x in it:
        acc = function(acc, x)
    return acc


class partial(object):

    def __init__(self, func, *args, **keywords):
        self.func = func
        self.args = args
        self.keywords = keywords

    def __call__(self, *args, **keywords):
        kw = dict(self.keywords)
        kw.update(keywords)
        return self.func(*(self.args + args), **kw)


def cmp_to_key(cmp):
    class K(object):
        def __init__(self, obj):
            self.obj = obj

        def __lt__(self, other):
            return cmp(self.obj, other.obj) < 0

        def __gt__(self, other):
            return cmp(self.obj, other.obj) > 0
    return K


def lru_cache(maxsize=128, typed=False):
    def deco(fn):
        memo = {}

        def wrapper(*args):
            if args not in memo:
                memo[args] = fn(*args)
            return memo[args]
        return update_func(wrapper, fn)
    if maxsize is not None and not isinstance(maxsize, int):
        fn = maxsize
        maxsize = 128
        return deco(fn)
    return deco


def total_ordering(cls):
    return cls


class cached_property(object):

    def __init__(self, func):
        self.func = func
        self.attrname = None

    def __set_name__(self, owner, name):
        self.attrname = name

    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        val = self.func(instance)
        instance.__dict__[self.attrname] = val
        return val


def singledispatch(fn):
    raise NotImplementedError
