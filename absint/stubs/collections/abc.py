class Container(object):
    __abc_name__ = 'Container'


class Hashable(object):
    __abc_name__ = 'Hashable'


class Iterable(object):
    __abc_name__ = 'Iterable'


class Iterator(Iterable):
    __abc_name__ = 'Iterator'

    def __iter__(self):
        return self


class Generator(Iterator):
    __abc_name__ = 'Generator'


class Reversible(Iterable):
    __abc_name__ = 'Reversible'


class Sized(object):
    __abc_name__ = 'Sized'


class Callable(object):
    __abc_name__ = 'Callable'


class Collection(Sized, Iterable, Container):
    __abc_name__ = 'Collection'


class Sequence(Collection):
    __abc_name__ = 'Sequence'

    def __iter__(self):
        i = 0
        try:
            while True:
                v = self[i]
                yield v
                i += 1
        except IndexError:
            return

    def __contains__(self, value):
        for v in self:
            if v is value or v == value:
                return True
        return False

    def __reversed__(self):
        for i in reversed(range(len(self))):
            yield self[i]

    def index(self, value, start=0, stop=None):
        i = start
        while stop is None or i < stop:
            try:
                v = self[i]
            except IndexError:
                break
            if v is value or v == value:
                return i
            i += 1
        raise ValueError

    def count(self, value):
        return sum([1 for v in self if v is value or v == value])


class MutableSequence(Sequence):
    __abc_name__ = 'MutableSequence'

    def append(self, value):
        self.insert(len(self), value)

    def clear(self):
        try:
            while True:
                self.pop()
        except IndexError:
            pass

    def reverse(self):
        n = len(self)
        for i in range(n // 2):
            self[i], self[n - i - 1] = self[n - i - 1], self[i]

    def extend(self, values):
        if values is self:
            values = list(values)
        for v in values:
            self.append(v)

    def pop(self, index=-1):
        v = self[index]
        del self[index]
        return v

    def remove(self, value):
        del self[self.index(value)]

    def __iadd__(self, values):
        self.extend(values)
        return self


class Set(Collection):
    __abc_name__ = 'Set'


class MutableSet(Set):
    __abc_name__ = 'MutableSet'


class MappingView(Sized):
    __abc_name__ = 'MappingView'

    def __init__(self, mapping):
        self._mapping = mapping

    def __len__(self):
        return len(self._mapping)


class KeysView(MappingView, Set):
    __abc_name__ = 'KeysView'

    def __contains__(self, key):
        return key in self._mapping

    def __iter__(self):
        for k in self._mapping:
            yield k

    def __or__(self, other):
        return set(self) | set(other)

    def __and__(self, other):
        return set(k for k in self if k in other)

    def __sub__(self, other):
        return set(k for k in self if k not in other)


class ItemsView(MappingView, Set):
    __abc_name__ = 'ItemsView'

    def __iter__(self):
        for k in self._mapping:
            yield (k, self._mapping[k])


class ValuesView(MappingView, Collection):
    __abc_name__ = 'ValuesView'

    def __iter__(self):
        for k in self._mapping:
            yield self._mapping[k]


class Mapping(Collection):
    __abc_name__ = 'Mapping'
    __reversed__ = None

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        else:
            return True

    def keys(self):
        return KeysView(self)

    def items(self):
        return ItemsView(self)

    def values(self):
        return ValuesView(self)

    def __eq__(self, other):
        if not isinstance(other, Mapping):
            return NotImplemented
        return dict(self.items()) == dict(other.items())


class MutableMapping(Mapping):
    __abc_name__ = 'MutableMapping'

    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        else:
            del self[key]
            return value

    def clear(self):
        for k in list(self):
            del self[k]

    def update(self, other=(), **kwds):
        if isinstance(other, Mapping) or hasattr(other, 'keys'):
            for key in other.keys():
                self[key] = other[key]
        else:
            for key, value in other:
                self[key] = value
        for key, value in kwds.items():
            self[key] = value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default
