def proxy(obj, callback=None):
    return obj


class ref(object):

    def __init__(self, obj, callback=None):
        self._obj = obj

    def __call__(self):
        return self._obj


class WeakKeyDictionary(dict):
    pass


class WeakValueDictionary(dict):
    pass
