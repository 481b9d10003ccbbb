class chain(object):

    def __init__(self, *its):
        self._its = list(its)

    def __iter__(self):
        for it in self._its:
            for x in it:
                yield x

    @classmethod
    def from_iterable(cls, its):
        return cls(*list(its))


def islice(it, *args):
    s = slice(*args)
    if getattr(it, '_endless', False):
        it = [next(it) for _ in range(s.stop)]
    return iter(list(it)[s])


class repeat(object):

    _endless = True

    def __init__(self, x, times=None):
        self._x = x
        self._endless = times is None
        if times is not None:
            self._left = len([None] * times)

    def __iter__(self):
        return self

    def __next__(self):
        if not self._endless:
            if self._left <= 0:
                raise StopIteration()
            self._left -= 1
        return self._x


class cycle(object):

    _endless = True

    def __init__(self, it):
        self._items = list(it)
        self._endless = bool(self._items)
        self._at = 0

    def __iter__(self):
        return self

    def __next__(self):
        if not self._items:
            raise StopIteration()
        x = self._items[self._at]
        self._at = (self._at + 1) % len(self._items)
        return x


def takewhile(pred, it):
    for x in it:
        if not pred(x):
            break
        yield x


def dropwhile(pred, it):
    drop = True
    for x in it:
        if drop and pred(x):
            continue
        drop = False
        yield x


def starmap(fn, it):
    for args in it:
        yield fn(*args)


class count(object):

    _endless = True

    def __init__(self, start=0, step=1):
        self._n = start
        self._step = step

    def __iter__(self):
        return self

    def __next__(self):
        n = self._n
        self._n = n + self._step
        return n


def product(*its):
    out = [()]
    for it in its:
        items = list(it)
        out = [p + (x,) for p in out for x in items]
    return iter(out)


def accumulate(it):
    acc = None
    first = True
    for x in it:
        acc = x if first else acc + x
        first = False
        yield acc


def groupby(it, key=None):
    out = []
    for x in it:
        k = x if key is None else key(x)
        if out and out[-1][0] == k:
            out[-1][1].append(x)
        else:
            out.append((k, [x]))
    return iter(out)


def zip_longest(*args, **kw):
    fill = kw.get('fillvalue')
    lists = [list(a) for a in args]
    n = max([len(a) for a in lists]) if lists else 0
    return iter([tuple(a[i] if i < len(a) else fill for a in lists) for i in range(n)])


def tee(it, n=2):
    items = list(it)
    return tuple([iter(items) for _ in range(n)])


def filterfalse(pred, it):
    for x in it:
        if not pred(x):
            yield x
