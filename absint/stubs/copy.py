from __native__ import copy, deepcopy


class Error(Exception):
    pass
