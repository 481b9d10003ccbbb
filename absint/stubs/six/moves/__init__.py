from functools import reduce
from io import StringIO
import configparser

cStringIO = StringIO
range = range
xrange = range
zip = zip
map = map
filter = filter
input = input
intern = str
reload_module = None


def zip_longest(*args, **kw):
    fill = kw.get('fillvalue')
    lists = [list(a) for a in args]
    n = max([len(a) for a in lists]) if lists else 0
    return iter([tuple(a[i] if i < len(a) else fill for a in lists) for i in range(n)])
