def itemgetter(*items):
    def get(obj):
        if len(items) == 1:
            return obj[items[0]]
        return tuple([obj[i] for i in items])
    return get


def attrgetter(*attrs):
    def resolve(obj, attr):
        for name in attr.split('.'):
            obj = getattr(obj, name)
        return obj

    def get(obj):
        if len(attrs) == 1:
            return resolve(obj, attrs[0])
        return tuple([resolve(obj, a) for a in attrs])
    return get


def methodcaller(name, *args, **kw):
    def call(obj):
        return getattr(obj, name)(*args, **kw)
    return call


def lt(a, b):
    return a < b


def le(a, b):
    return a <= b


def gt(a, b):
    return a > b


def ge(a, b):
    return a >= b


def eq(a, b):
    return a == b


def ne(a, b):
    return a != b


def not_(a):
    return not a


def is_(a, b):
    return a is b


def is_not(a, b):
    return a is not b


def add(a, b):
    return a + b


def sub(a, b):
    return a - b


def contains(a, b):
    return b in a


def getitem(a, b):
    return a[b]
