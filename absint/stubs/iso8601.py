from __native__ import iso_parse
from errors_ import ParseError


def parse_date(datestring, default_timezone=None):
    ok, value = iso_parse(datestring)
    if not ok:
        raise ParseError('Unable to parse date string')
    return value


class UTC(object):
    pass
