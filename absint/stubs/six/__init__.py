from functools import wraps
from io import StringIO

PY2 = False
PY3 = True
PY34 = True
string_types = (str,)
integer_types = (int,)
class_types = (type,)
text_type = str
binary_type = bytes
MAXSIZE = 9223372036854775807


def iteritems(d, **kw):
    return iter(d.items(**kw))


def iterkeys(d, **kw):
    return iter(d.keys(**kw))


def itervalues(d, **kw):
    return iter(d.values(**kw))


def viewkeys(d):
    return d.keys()


def viewvalues(d):
    return d.values()


def viewitems(d):
    return d.items()


def u(s):
    return s


def b(s):
    return s.encode('latin-1')


def ensure_str(s, encoding='utf-8', errors='strict'):
    if isinstance(s, str):
        return s
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    raise TypeError('not expecting type')


ensure_text = ensure_str


def callable(obj):
    return hasattr(obj, '__call__')


def next(it):
    return it.__next__()


advance_iterator = next


def exec_(_code_, _globs_=None, _locs_=None):
    exec(_code_, _globs_, _locs_)


def with_metaclass(meta, *bases):
    cls = type('temporary_class', (), {})
    setattr(cls, '$with_metaclass', meta)
    setattr(cls, '$with_bases', bases)
    return cls


def add_metaclass(metaclass):
    def wrapper(cls):
        d = dict(cls.__dict__)
        d.pop('__dict__', None)
        d.pop('__weakref__', None)
        return metaclass(cls.__name__, cls.__bases__, d)
    return wrapper


def python_2_unicode_compatible(cls):
    return cls


def raise_from(value, from_value):
    raise value


def reraise(tp, value, tb=None):
    if value is None:
        value = tp()
    raise value


def get_function_code(f):
    return f.__code__


def get_method_function(f):
    return f.__func__


def get_unbound_function(f):
    return f


import six.moves as moves
