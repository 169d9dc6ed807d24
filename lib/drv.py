"""Calls the C++ drivers of /verif/cpp, built next to the package."""
import ctypes
import os

import build

_libs = {}
CAP = 1 << 18


class DriverError(Exception):
    pass


_out = (ctypes.c_longlong * CAP)()
_err = ctypes.create_string_buffer(1000)


def run(name, what, prog):
    if name not in _libs:
        _libs[name] = ctypes.CDLL(os.path.join(os.environ["VERIF_PKG"], build.driver(name)))
        _libs[name].drv_run.restype = ctypes.c_longlong
    lib = _libs[name]
    a = (ctypes.c_longlong * len(prog))(*prog)
    n = lib.drv_run(what.encode(), a, ctypes.c_longlong(len(prog)), _out, ctypes.c_longlong(CAP), _err, ctypes.c_longlong(1000))
    if n < 0:
        raise DriverError(_err.value.decode())
    assert n <= CAP, n
    return Answers(_out[:n])


class Answers:
    def __init__(self, a):
        self.a, self.i = a, 0

    def __call__(self):
        self.i += 1
        return self.a[self.i - 1]

    def list(self):
        return [self() for _ in range(self())]

    def lists(self):
        return [self.list() for _ in range(self())]

    def done(self):
        return self.i == len(self.a)


def enc(l):
    return [len(l), *l]


def encdict(d):
    out = [len(d)]
    for k, v in d.items():
        out += [k, *enc(v)]
    return out
