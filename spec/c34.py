"""C34: a config source exposes sections, options, sub-options and defaults."""
from base import *
from pilo.source import ConfigSource, SourceError
import six


def at(src, *keys):
    path = src.path()
    for k in keys:
        path.append(k)
    return path


def value(src, *keys):
    path = at(src, *keys)
    v = path.value
    check(path.exists == (v is not NONE), 'a config path exists exactly if it has a value')
    return v


def names(src, *keys):
    return sorted(set(at(src, *keys).mapping()))


TEXT = '''[one]
a = 1
b = two words
C = Case
m[x] = mx
m[y-z.w] = myz
n[x] = nx
multi =
  first line

  second   line
lines = zero
  one
quoted = "a b" c
blank =

[two]
a = 2
only = here
'''


def spec_sections():
    """without a section sections are mappings"""
    src = ConfigSource(TEXT)
    check(names(src) == ['one', 'two'], 'the root lists exactly the sections')
    check(names(src, 'two') == ['a', 'only'], 'a section lists exactly its options')
    check(value(src, 'one', 'a') == '1' and value(src, 'two', 'a') == '2', 'an option is read from its own section')
    check(value(src, 'two', 'b') is NONE, 'an option of another section does not exist')
    check(value(src, choose('three', 'a', 'ONE', 0, None)) is NONE, 'a section that is not there does not exist')
    check(at(src, 'one').exists and not at(src, 'one').is_null, 'a section exists')


def spec_section():
    """with a section its options are at the root"""
    which = choose('one', 'two')
    src = ConfigSource(TEXT, section=which)
    check(value(src, 'a') == ('1' if which == 'one' else '2'), 'the options of the section are at the root')
    check((value(src, 'only') == 'here') == (which == 'two'), 'options of other sections are not')
    check(value(src, choose('one', 'two')) is NONE, 'sections are not options')
    if which == 'two':
        check(names(src) == ['a', 'only'], 'the root lists exactly the options of the section')


def spec_any_option():
    """whatever the section holds"""
    key, text, other = plain('key'), any_value('text', 'str'), any_value('other', 'str')
    parser = six.moves.configparser.RawConfigParser()
    parser.add_section('s')
    parser.set('s', 'k', text)
    parser.set('s', 'l', other)
    src = ConfigSource(parser, section='s') if choose(True, False) else ConfigSource(parser)
    pre = () if src.section else ('s',)
    check(same(value(src, *(pre + ('k',))), text), 'an option is the text it is set to')
    check(same(value(src, *(pre + ('l',))), other), 'another option is the text that one is set to')
    check(names(src, *pre) == ['k', 'l'], 'exactly the options that are set are listed')
    check(value(src, *(pre + ('z',))) is NONE, 'an option that is not set does not exist')


def spec_sub_options():
    src = ConfigSource(TEXT, section='one')
    check(names(src, 'm') == ['x', 'y-z.w'], 'name[key] options appear together under the name')
    check(names(src, 'n') == ['x'], 'each name has its own sub-options')
    check(value(src, 'm', 'x') == 'mx' and value(src, 'n', 'x') == 'nx', 'a sub-option holds its own value')
    check(value(src, 'm', 'y-z.w') == 'myz', 'dashes and dots are part of the key')
    check(value(src, 'm', 'z') is NONE and value(src, 'o', 'x') is NONE, 'a sub-option that is not set does not exist')
    check('m' in names(src) and 'n' in names(src), 'the names are listed')
    other = ConfigSource(TEXT, section='two')
    check(value(other, 'm') is NONE, 'sub-options belong to their section')


def spec_no_sub_options():
    """options the name of which merely contains something in brackets"""
    name = choose('a.b[c]', 'm n[x]', 'm[x]y', 'm[]', 'm[x y]', 'm[x][y]', 'm]', 'm[x')
    src = ConfigSource('[p]\nother = w\n' + name + ' = v\n',
                       section='p')
    check(names(src) == sorted([name, 'other']), 'they are listed by their own name')
    check(value(src, name) == 'v', 'and hold their value')


def spec_sub_options_over_sections():
    src = ConfigSource('[p]\nm[a] = 1\n[q]\nm[b] = 2\nx = 3\n')
    check(names(src, 'p', 'm') == ['a'] and names(src, 'q', 'm') == ['b'], 'sections do not mix their sub-options')
    check(value(src, 'q', 'x') == '3', 'plain options beside sub-options')


def spec_defaults():
    """an option that is not set falls back to the defaults"""
    d = any_value('d')
    src = ConfigSource(TEXT, section='one', defaults={'dflt': d, 'a': 'from defaults'})
    check(same(value(src, 'dflt'), d), 'an option that is not set is taken from the defaults')
    check(value(src, 'a') == '1', 'an option that is set goes before the defaults')
    check(value(src, 'neither') is NONE, 'an option in neither does not exist')
    check(value(src, 'blank') == '', 'an option set to nothing is set')


def spec_section_defaults():
    """without section the defaults are per section"""
    d = any_value('d')
    src = ConfigSource(TEXT, defaults={'two': {'dflt': d, 'a': 'no'}})
    check(same(value(src, 'two', 'dflt'), d), 'the defaults of a section')
    check(value(src, 'two', 'a') == '2', 'what is set goes before the defaults of the section')
    check(value(src, 'one', 'dflt') is NONE, 'the defaults of one section do not show in another')
    check(value(src, 'one', 'a') == '1', 'a section without defaults')
    check(value(src, 'three', 'dflt') is NONE, 'defaults do not make a section')
    check(value(src, 'one', 'two') is NONE, 'the defaults of a section are no option of another')


def spec_defaults_of_sub_options():
    """sub-options that are set go before a default of their name, others do not"""
    d = any_value('d')
    src = ConfigSource('[s]\nq[x] = 1\n[t]\nr = 2\n', section='s', defaults={'q': {'x': d, 'y': d}, 'r': {'y': d}})
    check(value(src, 'q', 'x') == '1', 'a sub-option that is set goes before the defaults')
    check(value(src, 'q', 'y') is NONE, 'options set as a mapping are not completed by defaults')
    check(same(value(src, 'r', 'y'), d), 'defaults may be mappings')


def spec_no_defaults():
    src = ConfigSource(TEXT, section='one', defaults=choose(None, {}))
    check(value(src, 'neither') is NONE, 'without defaults an option that is not set does not exist')
    src = ConfigSource(TEXT, defaults=choose(None, {}))
    check(value(src, 'one', 'neither') is NONE, 'without defaults nothing falls back')


def items(src, *keys):
    path = at(src, *keys)
    out = []
    for i in range(path.sequence()):
        path.append(i)
        out.append(path.value)
        path.pop()
    return out


def spec_sequences():
    src = ConfigSource(TEXT, section='one')
    check(items(src, 'multi') == ['first line', 'second   line'], 'multi-line text is the sequence of its non-blank lines')
    check(items(src, 'lines') == ['zero', 'one'], 'text that starts on the first line has that line too')
    check(items(src, 'b') == ['two', 'words'], 'single-line text is the sequence of its words')
    check(items(src, 'quoted') == ['a b', 'c'], 'words are shell words')
    check(items(src, 'blank') == [], 'empty text has no words')
    check(items(src, 'a') == ['1'], 'one word')
    check(items(src, 'm', 'x') == ['mx'], 'sub-options are text too')


def spec_lines():
    """any lines"""
    one, two = any_value('one', 'str'), any_value('two', 'str')
    assume('\n' not in one and '\n' not in two)
    parser = six.moves.configparser.RawConfigParser()
    parser.add_section('s')
    parser.set('s', 'k', choose('p\nq', '\n p \n\n q\n', 'p\n\n', '\n', ' x y\n z '))
    src = ConfigSource(parser, section='s')
    text = at(src, 'k').primitive(str)
    want = []
    for line in text.split('\n'):
        if line.strip():
            want.append(line.strip())
    check(items(src, 'k') == want, 'exactly the non-blank lines, stripped')


def spec_positions():
    src = ConfigSource(TEXT, section='one')
    check(value(src, 'multi', 0) == 'first line' and value(src, 'multi', 1) == 'second   line', 'lines by position')
    check(value(src, 'b', 1) == 'words' and value(src, 'b', -1) == 'words', 'words by position')
    check(value(src, 'b', 2) is NONE and value(src, 'multi', 5) is NONE, 'positions beyond do not exist')


def spec_case():
    """option names are case-insensitive unless told otherwise"""
    src = ConfigSource(TEXT, section='one')
    check(value(src, 'c') == 'Case' and value(src, 'C') == 'Case', 'option names ignore case')
    src = ConfigSource(TEXT, section='one', preserve_case=True)
    check(value(src, 'C') == 'Case' and value(src, 'c') is NONE, 'with preserve_case option names keep their case')
    check('C' in names(src), 'and are listed as written')
    try:
        ConfigSource(six.moves.configparser.ConfigParser(), preserve_case=True)
        fail('preserve_case needs the text')
    except ValueError:
        reach('preserve_case of a parsed config is a value error')


def spec_whitespace_option():
    try:
        ConfigSource(TEXT, preserve_whitespace=True)
        fail('preserve_whitespace needs the location')
    except ValueError:
        reach('preserve_whitespace without location is a value error')


def spec_parser_given():
    """a parser is used as it is"""
    parser = six.moves.configparser.ConfigParser()
    parser.add_section('s')
    parser.set('s', 'k', 'v')
    parser.set('s', 'm[x]', 'w')
    src = ConfigSource(parser)
    check(names(src) == ['s'] and value(src, 's', 'k') == 'v', 'a parser that is given is exposed')
    check(value(src, 's', 'm', 'x') == 'w', 'with its sub-options')


class Opts(pilo.Form):
    a = fields.Integer()
    b = fields.List(fields.String())
    m = fields.Dict(fields.String(), fields.String(), default=None)
    multi = fields.List(fields.String(), default=None)
    only = fields.String(default='nowhere')
    d = pilo.Field(default='none')


def spec_form():
    which = choose('one', 'two')
    d = any_value('d', 'int', 'str', 'None')
    f = Opts()
    errs = f.map(ConfigSource(TEXT, section=which, defaults={'d': d, 'b': ['x']}))
    check(len(errs) == 0, 'a form maps a section')
    check(f['a'] == (1 if which == 'one' else 2), 'options are converted')
    check(f['b'] == (['two', 'words'] if which == 'one' else ['x']), 'words make a list, and so do defaults')
    check(f['m'] == ({'x': 'mx', 'y-z.w': 'myz'} if which == 'one' else None), 'sub-options make a mapping')
    check(f['multi'] == (['first line', 'second   line'] if which == 'one' else None), 'lines make a list')
    check(f['only'] == ('nowhere' if which == 'one' else 'here'), 'an option of this section only')
    check(same(f['d'], d), 'an option from the defaults')


def spec_form_over_sections():
    class Sec(pilo.Form):
        a = fields.Integer()

    class All(pilo.Form):
        one = fields.SubForm(Sec)
        two = fields.SubForm(Sec)
        three = fields.SubForm(Sec, default=None)
    f = All()
    errs = f.map(ConfigSource(TEXT))
    check(len(errs) == 0 and f['one']['a'] == 1 and f['two']['a'] == 2, 'sections map as sub-forms')
    check(f['three'] is None, 'a section that is not there is missing')


def spec_sub_options_win():
    """a plain option of the name of sub-options"""
    src = ConfigSource('[s]\nm = plain\nm[x] = 1\nn = other\n', section='s')
    check(names(src, 'm') == ['x'] and value(src, 'm', 'x') == '1', 'sub-options appear as mapping even beside an option of the name')
    check(value(src, 'n') == 'other', 'other options are unaffected')


def spec_sub_options_case():
    src = ConfigSource('[s]\nm[Key] = 1\nm[key] = 2\nM[z] = 3\n', section='s', preserve_case=True)
    check(names(src, 'm') == ['Key', 'key'] and value(src, 'm', 'Key') == '1' and value(src, 'm', 'key') == '2',
          'with preserve_case sub-options keep their case')
    check(names(src, 'M') == ['z'], 'and so do their names')
    src = ConfigSource('[s]\nm[Key] = 1\nM[z] = 3\n', section='s')
    check(names(src, 'm') == ['key', 'z'] and value(src, 'm', 'key') == '1', 'without preserve_case they do not')


def spec_odd_lines():
    """lines are lines whatever they look like"""
    src = ConfigSource('[s]\na =\n  - x\n  [y]\n  k = v\n  k: v\n  "q\n', section='s')
    path = src.path()
    path.append('a')
    want = ['- x', '[y]', 'k = v', 'k: v', '"q']
    check(src.sequence(path) == len(want), 'each non-blank line is an item')
    f, errs = mapped(fields.List(fields.String()), src)
    check(len(errs) == 0 and got(f) == want, 'whatever it looks like')
    src = ConfigSource('[s]\n', section='s', defaults={'a': '# x\n\n; y\n'})
    f, errs = mapped(fields.List(fields.String()), src)
    check(len(errs) == 0 and got(f) == ['# x', '; y'], 'also in defaults')


def spec_shell_words():
    """text on one line is split into words, nothing else"""
    text, want = choose(('a # b', ['a', '#', 'b']), ('a#b', ['a#b']), ('"a b" c', ['a b', 'c']), ('a,b c', ['a,b', 'c']),
                        ("x 'y z'", ['x', 'y z']), ('x=1 -y', ['x=1', '-y']))
    src = ConfigSource('[s]\na = ' + text + '\n', section='s')
    f, errs = mapped(fields.List(fields.String()), src)
    check(len(errs) == 0 and got(f) == want, 'the items are the words')
