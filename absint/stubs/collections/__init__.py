from __native__ import defaultdict, OrderedDict
from collections.abc import (
    Container, Hashable, Iterable, Iterator, Sized, Callable, Collection, Sequence, MutableSequence, Set, MutableSet,
    Mapping, MutableMapping, MappingView, KeysView, ItemsView, ValuesView, Generator, Reversible,
)


def namedtuple(typename, field_names, **kw):
    if isinstance(field_names, str):
        field_names = field_names.replace(',', ' ').split()
    names = tuple(field_names)
    defaults = kw.get('defaults') or ()

    def new(cls, *args, **kwargs):
        vals = list(args)
        for i in range(len(vals), len(names)):
            n = names[i]
            if n in kwargs:
                vals.append(kwargs[n])
            elif i >= len(names) - len(defaults):
                vals.append(defaults[i - len(names) + len(defaults)])
            else:
                raise TypeError('missing argument')
        if len(vals) != len(names):
            raise TypeError('wrong number of arguments')
        return tuple.__new__(cls, vals)

    def _replace(self, **kwargs):
        return type(self)(*[kwargs.get(n, v) for n, v in zip(names, self)])

    def _asdict(self):
        return dict(zip(names, self))

    ns = {'__new__': new, '_fields': names, '_replace': _replace, '_asdict': _asdict}

    def getter(i):
        return property(lambda self: tuple.__getitem__(self, i))
    for i, n in enumerate(names):
        ns[n] = getter(i)
    return type(typename, (tuple,), ns)


class deque(list):

    def __init__(self, it=(), maxlen=None):
        list.__init__(self, it)

    def appendleft(self, x):
        self.insert(0, x)

    def popleft(self):
        return self.pop(0)

    def extendleft(self, it):
        for x in it:
            self.insert(0, x)


class Counter(dict):

    def __init__(self, it=()):
        dict.__init__(self)
        for x in it:
            self[x] = self.get(x, 0) + 1

    def __missing__(self, k):
        return 0


class ChainMap(Mapping):

    def __init__(self, *maps):
        self.maps = list(maps) or [{}]

    def __getitem__(self, k):
        for m in self.maps:
            if k in m:
                return m[k]
        raise KeyError(k)

    def __iter__(self):
        seen = []
        for m in reversed(self.maps):
            for k in m:
                if k not in seen:
                    seen.append(k)
        return iter(seen)

    def __len__(self):
        return len(list(iter(self)))


class UserDict(MutableMapping):

    def __init__(self, d=None, **kw):
        self.data = {}
        if d is not None:
            self.update(d)
        self.update(kw)

    def __getitem__(self, k):
        return self.data[k]

    def __setitem__(self, k, v):
        self.data[k] = v

    def __delitem__(self, k):
        del self.data[k]

    def __iter__(self):
        return iter(self.data)

    def __len__(self):
        return len(self.data)
