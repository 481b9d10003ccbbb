from __native__ import import_named


def import_module(name, package=None):
    return import_named(name)
