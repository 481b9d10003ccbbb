#: the process-wide list of filters
_state = {'filters': ()}


class catch_warnings(object):

    def __init__(self, record=False, module=None):
        self._record = record

    def __enter__(self):
        self._saved = _state['filters']
        _state['filters'] = self._saved
        return [] if self._record else None

    def __exit__(self, t, v, tb):
        _state['filters'] = self._saved


def filterwarnings(action, message='', category=Warning, module='', lineno=0, append=False):
    _state['filters'] = ((action, message),)


def simplefilter(action, category=Warning, lineno=0, append=False):
    _state['filters'] = ((action, ''),)


def resetwarnings():
    _state['filters'] = ()


def warn(message, category=None, stacklevel=1, source=None):
    return None
