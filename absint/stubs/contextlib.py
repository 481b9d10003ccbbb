from __native__ import gcm
from functools import wraps


def contextmanager(func):
    @wraps(func)
    def helper(*args, **kwds):
        return gcm(func(*args, **kwds))
    return helper


class closing(object):

    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc_info):
        self.thing.close()


class suppress(object):

    def __init__(self, *exceptions):
        self._exceptions = exceptions

    def __enter__(self):
        return None

    def __exit__(self, exctype, excinst, exctb):
        return exctype is not None and issubclass(exctype, self._exceptions)


class nullcontext(object):

    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *excinfo):
        pass


class AbstractContextManager(object):

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, traceback):
        return None


class ExitStack(object):

    def __init__(self):
        self._exit_callbacks = []

    def enter_context(self, cm):
        result = cm.__enter__()
        self._exit_callbacks.append(cm.__exit__)
        return result

    def push(self, cm):
        if hasattr(cm, '__exit__'):
            self._exit_callbacks.append(cm.__exit__)
        else:
            self._exit_callbacks.append(cm)
        return cm

    def callback(self, func, *args, **kwds):
        def wrapper(t, v, tb):
            func(*args, **kwds)
        self._exit_callbacks.append(wrapper)
        return func

    def pop_all(self):
        new = type(self)()
        new._exit_callbacks = self._exit_callbacks
        self._exit_callbacks = []
        return new

    def close(self):
        self.__exit__(None, None, None)

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        received = t is not None
        suppressed = False
        pending = False
        while self._exit_callbacks:
            cb = self._exit_callbacks.pop()
            try:
                if cb(t, v, tb):
                    suppressed = True
                    pending = False
                    t = v = tb = None
            except BaseException as ex:
                pending = True
                t, v, tb = type(ex), ex, None
        if pending:
            raise v
        return received and suppressed
