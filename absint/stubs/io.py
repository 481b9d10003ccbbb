class StringIO(object):

    def __init__(self, initial_value='', newline=None):
        self._text = initial_value

    def read(self):
        return self._text

    def getvalue(self):
        return self._text

    def __iter__(self):
        return iter(self._text.splitlines(True))

    def readline(self):
        raise NotImplementedError

    def close(self):
        return None


#: what the files of the analysed world hold; specifications fill it
FILES = {}


class TextFile(object):

    def __init__(self, name, text):
        self.name = name
        self.closed = False
        self._lines = text.splitlines(True)
        self._at = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed = True

    def close(self):
        self.closed = True

    def _check(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def __iter__(self):
        self._check()
        return self

    def __next__(self):
        self._check()
        if self._at >= len(self._lines):
            raise StopIteration
        self._at = self._at + 1
        return self._lines[self._at - 1]

    next = __next__

    def readline(self, size=-1):
        self._check()
        if self._at >= len(self._lines):
            return ''
        return self.__next__()

    def readlines(self, hint=-1):
        self._check()
        rest = self._lines[self._at:]
        self._at = len(self._lines)
        return rest

    def read(self, size=-1):
        return ''.join(self.readlines())


def open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if mode not in ('r', 'rt', 'rU', 'U'):
        raise NotImplementedError('mode of open')
    if file not in FILES:
        raise IOError(2, 'No such file or directory')
    return TextFile(file, FILES[file])
