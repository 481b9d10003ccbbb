"""C46: with whitespace preserved, text of several lines reads as it stands in the file."""
from base import *
from pilo.source import ConfigSource
import io

#: an option's lines and the text they stand for
BLOCKS = (
    ('t =\n    one\n      two\n', 'one\n  two\n'),
    ('t =\n\tone\n\ttwo\n\t\tthree\n', 'one\ntwo\n\tthree\n'),
    ('t =\n  one\n\n    two\n', 'one\n\n  two\n'),
    ('t: first\n  one\n    two\n', 'first\none\n  two\n'),
    ('t=\n    one = 1\n   [s]\n  ab: 2\n', '  one = 1\n [s]\nab: 2\n'),
    ('T =\n    one\n', 'one\n'),
    ('t =\n    one \n    two\n', 'one \ntwo\n'),
    ('t = a = b : c\n   one\n', 'a = b : c\none\n'),
    ('t : a=b\n   one\n    two: 3\n', 'a=b\none\n two: 3\n'),
)


def document(block, before, after):
    return before + '[s]\n' + choose('', 'ta = 1\n', 'ta =\n    other\n     text\n', 'a = t\n    t = 5\n') + block + after


def source(text, section='s', name='file.ini', **kw):
    io.FILES[name] = text
    how = choose('file', 'text')
    if how == 'file':
        return ConfigSource.from_file(name, section, preserve_whitespace=True, **kw)
    return ConfigSource(text, section, location=name, preserve_whitespace=True, **kw)


def read(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path.primitive(str)


def spec_text():
    block, want = choose(*BLOCKS)
    before = choose('', '[r]\nt =\n    not\n    this\n', '[r]\nu =\n    [s]\n    t = no\n', '[ss]\nt =\n  no\n  no\n')
    after = choose('', 'u = 3\n', '[z]\nt =\n   not\n   this\n', 'tb =\n    no\n')
    src = source(document(block, before, after))
    check(read(src, 't') == want, 'text of several lines is that of its own lines in the file')


def spec_neighbours():
    """the options around are read as they are"""
    block, want = choose(*BLOCKS)
    src = source(document(block, '', 'u = 3\nv =\n   x\n    y\n'), **choose({}, {'defaults': {'t': 'no\n no', 'w': '7'}}))
    check(read(src, 't') == want, 'text of several lines is that of its own lines in the file')
    check(read(src, 'u') == '3', 'text of a single line is left as it is parsed')
    check(read(src, 'v') == 'x\n y\n', 'each option has its own text')


def spec_without():
    """unless asked for, text is as parsed"""
    block, want = BLOCKS[0]
    io.FILES['file.ini'] = '[s]\n' + block
    src = choose(ConfigSource.from_file('file.ini', 's'), ConfigSource('[s]\n' + block, 's', location='file.ini'),
                 ConfigSource('[s]\n' + block, 's'))
    check(read(src, 't') == '\none\ntwo', 'without the option text is as parsed')


def spec_sections():
    """no section given: it is the first key"""
    block, want = choose(*BLOCKS)
    text = '[s]\n' + block + '[r]\nt =\n    or\n     this\n'
    src = source(text, None)
    check(read(src, 's', 't') == want and read(src, 'r', 't') == 'or\n this\n', 'text is looked for in the section of the key')


def spec_sub_options():
    text = '[s]\nt[k] =\n   one\n    two\nt[kk] =\n   three\n    four\nk =\n    no\n    no\n'
    src = source(text, choose('s', None))
    keys = ('t',) if src.section else ('s', 't')
    check(read(src, *(keys + ('k',))) == 'one\n two\n', 'sub-options have their own text')
    check(read(src, *(keys + ('kk',))) == 'three\n four\n', 'sub-options have their own text')


def spec_defaults():
    """text that is not in the file is left as it is"""
    text = choose('[s]\na = 1\n', '[s]\na = 1\n[r]\nt =\n  no\n   no\n', '[s]\nta =\n   no\n    no\n', '[s]\n')
    given = 'one\n  two'
    src = source(text, defaults={'t': given})
    check(read(src, 't') == given, 'defaults are left as they are')


def spec_default_section():
    """options of all sections"""
    src = source('[DEFAULT]\nt =\n   one\n    two\n[s]\na = 1\n[r]\nt =\n  no\n    no\n')
    check(read(src, 't') == '\none\ntwo', 'options of all sections are left as parsed')


def spec_case():
    text = '[s]\nAb =\n   one\n    two\nab =\n   three\n    four\n'
    io.FILES['file.ini'] = text
    src = ConfigSource.from_file('file.ini', 's', preserve_whitespace=True, preserve_case=True)
    check(read(src, 'Ab') == 'one\n two\n' and read(src, 'ab') == 'three\n four\n', 'names are told apart by case if that is preserved')
    src = source('[s]\nAb =\n   one\n    two\n')
    check(read(src, choose('ab', 'Ab')) == 'one\n two\n', 'unless preserved case does not matter')


def spec_other_types():
    """only text is affected"""
    src = source('[s]\nn = 5\nf = 1.5\nb = true\nl = a "b c"\nm =\n   x\n    y\n')
    path = src.path()
    path.append('n')
    check(path.primitive(int) == 5 and path.primitive(str) == '5', 'numbers are read as usual')
    path[0] = 'b'
    check(path.primitive(bool) is True, 'booleans are read as usual')
    path[0] = 'f'
    check(path.primitive(float) == 1.5, 'numbers are read as usual')
    path[0] = 'l'
    check(path.sequence() == 2, 'sequences are read as usual')
    path.append(1)
    check(path.primitive(str) == 'b c', 'items are read as usual')
    path[0] = 'm'
    check(path.primitive(str) == 'y', 'items are read as usual')


def spec_form():
    """in forms"""
    class F(pilo.Form):
        t = fields.String()
        u = fields.Integer()
        w = fields.Dict(fields.String(), fields.String())
    src = source('[s]\nu = 4\nt =\n   one\n    two\nw[t] =\n  x\n   y\nw[v] = z\n')
    f = F()
    errs = f.map(src)
    check(len(errs) == 0 and f == {'t': 'one\n two\n', 'u': 4, 'w': {'t': 'x\n y\n', 'v': 'z'}},
          'fields take text as it stands in the file')


def spec_from_file():
    """a file is as good as its text"""
    section, case = choose('s', None), choose(True, False)
    text = '[s]\nA = 1\nb = x\n[r]\nc = 3\n'
    io.FILES['some/where.ini'] = text
    src = ConfigSource.from_file('some/where.ini', section=section, preserve_case=case)
    other = ConfigSource(text, section, preserve_case=case)
    check(src.location == 'some/where.ini', 'a source read from a file knows where')
    keys = ('b',) if section else ('s', 'b')
    check(read(src, *keys) == read(other, *keys) == 'x', 'a file is as good as its text')
    check(sorted(src.path().mapping()) == sorted(other.path().mapping()), 'a file is as good as its text')
    path = src.path()
    path.append('zz')
    check(not path.exists and str(path) == 'some/where.ini:' + ('[s]:' if section else '') + 'zz', 'places in a file name it')


def spec_no_file():
    try:
        ConfigSource.from_file('not/there.ini')
    except (IOError, OSError):
        reach('a file that is not there cannot be read')
        return
    fail('a file that is not there cannot be read')


def spec_closed():
    """files are closed again"""
    opened = []
    plain = io.TextFile.__init__

    def init(self, *args):
        opened.append(self)
        plain(self, *args)
    io.TextFile.__init__ = init
    try:
        src = source('[s]\nt =\n   one\n    two\n')
        read(src, 't')
    finally:
        io.TextFile.__init__ = plain
    check(len(opened) > 0 and all(o.closed for o in opened), 'files are closed again')
