from __native__ import exc_info

version_info = (3, 9, 17, 'final', 0)
maxsize = 9223372036854775807
modules = {}
version = '3.9.17'
platform = 'linux'


def getrecursionlimit():
    return 1000


def intern(s):
    return s
