from __native__ import struct_time, time_strptime, opaque_call


def strptime(string, format):
    return time_strptime(string, format)


def strftime(format, t=None):
    return opaque_call('time.strftime', 'str', format, t)


def time():
    return opaque_call('time.time', 'float')


def sleep(n):
    return None
