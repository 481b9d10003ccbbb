from __native__ import re_check, re_match, re_group, re_groupindex, re_other, re_pos
from errors_ import error

I = IGNORECASE = 2
M = MULTILINE = 8
S = DOTALL = 16
X = VERBOSE = 64
U = UNICODE = 32
A = ASCII = 256


class Match(object):

    def __init__(self, kind, re, string):
        self._kind = kind
        self.re = re
        self.string = string

    def group(self, *groups):
        if not groups:
            groups = (0,)
        vals = [re_group(self._kind, self.re.pattern, self.re.flags, self.string, g) for g in groups]
        if len(vals) == 1:
            return vals[0]
        return tuple(vals)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        n, names = re_groupindex(self.re.pattern, self.re.flags)
        out = []
        for i in range(1, n + 1):
            v = self.group(i)
            out.append(default if v is None else v)
        return tuple(out)

    def groupdict(self, default=None):
        n, names = re_groupindex(self.re.pattern, self.re.flags)
        out = {}
        for name, i in names:
            v = self.group(i)
            out[name] = default if v is None else v
        return out

    def start(self, g=0):
        return re_pos('start', self._kind, self.re.pattern, self.re.flags, self.string, g)

    def end(self, g=0):
        return re_pos('end', self._kind, self.re.pattern, self.re.flags, self.string, g)

    def span(self, g=0):
        return self.start(g), self.end(g)

    @property
    def pos(self):
        return 0

    @property
    def endpos(self):
        return len(self.string)

    @property
    def lastindex(self):
        return re_pos('lastindex', self._kind, self.re.pattern, self.re.flags, self.string, 0)

    @property
    def lastgroup(self):
        return re_pos('lastgroup', self._kind, self.re.pattern, self.re.flags, self.string, 0)


class Pattern(object):

    def __init__(self, pattern, flags):
        self.pattern = pattern
        self.flags = flags
        self.groups = re_check(pattern, flags)

    @property
    def groupindex(self):
        n, names = re_groupindex(self.pattern, self.flags)
        return dict(names)

    def _run(self, kind, string, pos=0):
        if pos:
            # anchors apart, matching from a position is matching what is left
            string = string[pos:]
        if re_match(kind, self.pattern, self.flags, string):
            return Match(kind, self, string)
        return None

    def match(self, string, pos=0):
        return self._run('match', string, pos)

    def search(self, string, pos=0):
        return self._run('search', string, pos)

    def fullmatch(self, string, pos=0):
        return self._run('fullmatch', string, pos)

    def findall(self, string):
        return re_other('findall', self.pattern, self.flags, string)

    def sub(self, repl, string, count=0):
        return re_other('sub', self.pattern, self.flags, repl, string, count)

    def split(self, string, maxsplit=0):
        return re_other('split', self.pattern, self.flags, string, maxsplit)


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    return Pattern(pattern, flags)


def match(pattern, string, flags=0):
    return compile(pattern, flags).match(string)


def search(pattern, string, flags=0):
    return compile(pattern, flags).search(string)


def fullmatch(pattern, string, flags=0):
    return compile(pattern, flags).fullmatch(string)


def findall(pattern, string, flags=0):
    return compile(pattern, flags).findall(string)


def sub(pattern, repl, string, count=0, flags=0):
    return compile(pattern, flags).sub(repl, string, count)


def split(pattern, string, maxsplit=0, flags=0):
    return compile(pattern, flags).split(string, maxsplit)


def escape(s):
    return s
