from __native__ import json_loads, opaque_call
from errors_ import JSONDecodeError


def loads(s, cls=None, object_hook=None, parse_float=None, parse_int=None, parse_constant=None,
          object_pairs_hook=None, strict=True):
    if parse_int is int:
        parse_int = None
    if parse_float is float:
        parse_float = None
    if object_hook is dict:
        object_hook = None
    if object_pairs_hook is dict:
        object_pairs_hook = None
    return json_loads(s, parse_int, parse_float, parse_constant, object_hook, object_pairs_hook)


def dumps(obj, **kw):
    return opaque_call('json.dumps', 'str', obj)
