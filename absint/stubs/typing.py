TYPE_CHECKING = False


class _Any(object):

    def __getitem__(self, k):
        return self

    def __call__(self, *a, **k):
        return self


Any = Optional = Union = List = Dict = Tuple = Callable = Iterable = Iterator = Type = Set = Sequence = Mapping = _Any()


def cast(t, v):
    return v


def TypeVar(*a, **k):
    return Any
