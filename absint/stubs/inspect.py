from __native__ import argspec, isfunc, abstract_methods
from collections import namedtuple

FullArgSpec = namedtuple('FullArgSpec', 'args varargs varkw defaults kwonlyargs kwonlydefaults annotations')


def getfullargspec(func):
    return FullArgSpec(*argspec(func, True))


def isclass(obj):
    return isfunc(obj, 'class')


def isfunction(obj):
    return isfunc(obj, 'function')


def ismethod(obj):
    return isfunc(obj, 'method')


def ismodule(obj):
    return isfunc(obj, 'module')


def isbuiltin(obj):
    return isfunc(obj, 'builtin')


def isgenerator(obj):
    return isfunc(obj, 'generator')


def isroutine(obj):
    return isfunction(obj) or ismethod(obj) or isbuiltin(obj)


def isabstract(obj):
    return abstract_methods(obj)


def getmro(cls):
    return cls.__mro__


def getmembers(obj, predicate=None):
    results = []
    for key in dir(obj):
        try:
            value = getattr(obj, key)
        except AttributeError:
            continue
        if predicate is None or predicate(value):
            results.append((key, value))
    return results


def getdoc(obj):
    return obj.__doc__


def unwrap(f):
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return f


def isdatadescriptor(obj):
    return hasattr(type(obj), '__set__')
