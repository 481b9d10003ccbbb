from __native__ import module


def new_module(name):
    return module(name)
