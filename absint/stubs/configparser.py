"""The parts of configparser a source can use; interpolation is not modelled."""


class Error(Exception):
    pass


class NoSectionError(Error):
    pass


class NoOptionError(Error):
    pass


class MissingSectionHeaderError(Error):
    pass


class ParsingError(Error):
    pass


class RawConfigParser(object):

    def __init__(self, defaults=None, **kw):
        self._sections = {}
        self._defaults = {}
        for k, v in (defaults or {}).items():
            self._defaults[self.optionxform(k)] = v

    def optionxform(self, optionstr):
        return optionstr.lower()

    def defaults(self):
        return self._defaults

    def sections(self):
        return list(self._sections.keys())

    def has_section(self, section):
        return section in self._sections

    def add_section(self, section):
        self._sections[section] = {}

    def set(self, section, option, value=None):
        if section not in self._sections:
            raise NoSectionError(section)
        self._sections[section][self.optionxform(option)] = value

    def options(self, section):
        if section not in self._sections:
            raise NoSectionError(section)
        opts = dict(self._sections[section])
        opts.update(self._defaults)
        return list(opts.keys())

    def has_option(self, section, option):
        if not section:
            return self.optionxform(option) in self._defaults
        if section not in self._sections:
            return False
        option = self.optionxform(option)
        return option in self._sections[section] or option in self._defaults

    def get(self, section, option, raw=False, vars=None, fallback=None):
        if section not in self._sections:
            raise NoSectionError(section)
        option = self.optionxform(option)
        if option in self._sections[section]:
            return self._sections[section][option]
        if option in self._defaults:
            return self._defaults[option]
        raise NoOptionError(option)

    def items(self, section, raw=False, vars=None):
        if section not in self._sections:
            raise NoSectionError(section)
        d = dict(self._defaults)
        d.update(self._sections[section])
        return [(k, v) for k, v in d.items()]

    def read_dict(self, dictionary, source='<dict>'):
        for section, keys in dictionary.items():
            if section not in self._sections:
                self.add_section(section)
            for k, v in keys.items():
                self.set(section, k, v)

    def read_string(self, string, source='<string>'):
        self._read(string.splitlines())

    def read_file(self, f, source=None):
        self._read(list(f))

    def readfp(self, fp, filename=None):
        self._read(list(fp))

    def _read(self, lines):
        section = None
        option = None
        blank = ''
        for line in lines:
            text = line.strip()
            if not text:
                # blank lines within a value belong to it
                if option is not None and section is not None:
                    blank = blank + '\n'
                continue
            if text[0] in '#;':
                continue
            if line[0] in ' \t' and option is not None and section is not None:
                section[option] = section[option] + blank + '\n' + text
                blank = ''
                continue
            blank = ''
            if text[0] == '[':
                name = text[1:text.index(']')]
                if name == 'DEFAULT':
                    section = self._defaults
                else:
                    if name not in self._sections:
                        self._sections[name] = {}
                    section = self._sections[name]
                option = None
                continue
            if section is None:
                raise MissingSectionHeaderError(text)
            i = text.find('=')
            j = text.find(':')
            if i < 0 or 0 <= j < i:
                i = j
            if i < 0:
                raise ParsingError(text)
            option = self.optionxform(text[:i].rstrip())
            section[option] = text[i + 1:].strip()


class ConfigParser(RawConfigParser):
    pass


SafeConfigParser = ConfigParser
