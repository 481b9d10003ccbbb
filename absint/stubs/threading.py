from __native__ import register_local, thread_id


class local(object):

    def __new__(cls, *args, **kw):
        obj = object.__new__(cls)
        register_local(obj, args, kw)
        return obj


class _Lock(object):

    def __enter__(self):
        return True

    def __exit__(self, t, v, tb):
        return None

    def acquire(self, blocking=True, timeout=-1):
        return True

    def release(self):
        return None

    def locked(self):
        return False


def Lock():
    return _Lock()


def RLock():
    return _Lock()


def get_ident():
    return thread_id()


class _Thread(object):
    name = 'thread'

    @property
    def ident(self):
        return thread_id()


_current = _Thread()


def current_thread():
    return _current


currentThread = current_thread
