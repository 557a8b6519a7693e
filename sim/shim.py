"""ctypes face of the preloaded storage seam (shim.c)."""
import ctypes
import errno
import os

from . import core

OPEN, READ, WRITE, CLOSE, MKDIR, RENAME, UNLINK, TRUNC, SYNC, STAT = range(10)
KINDS = ['open', 'read', 'write', 'close', 'mkdir', 'rename', 'unlink', 'truncate', 'sync', 'stat', 'line of code']
LINE = 10                           # not a file operation: an exception at a line of repository code
NONE, ERR, SHORT, CRASH, TORN, STICKY, AFTER = range(7)
FAULTS = ['none', 'error', 'short', 'crash before', 'torn', 'persistent error', 'crash after', 'KeyboardInterrupt', 'MemoryError']
CTRL_C, NO_MEMORY = 7, 8
CRASHED = 77

_lib = None


def lib():
    global _lib
    if _lib is None:
        if 'vsim' not in os.environ.get('LD_PRELOAD', ''):
            raise core.HarnessError('the storage seam is not loaded')
        _lib = ctypes.CDLL(None)
        for name in ('vs_count', 'vs_fired', 'vs_clock_calls', 'vs_entropy_calls', 'vs_log'):
            getattr(_lib, name).restype = ctypes.c_long
        _lib.vs_plan.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long]
        _lib.vs_clock.argtypes = [ctypes.c_longlong, ctypes.c_longlong]
        _lib.vs_clock_jump.argtypes = [ctypes.c_longlong]
        _lib.vs_entropy.argtypes = [ctypes.c_ulonglong]
        _lib.vs_arm_root.argtypes = [ctypes.c_char_p]
        _lib.vs_log.argtypes = [ctypes.c_char_p, ctypes.c_long]
        _lib.vs_baton.argtypes = [ctypes.c_int, ctypes.c_int]
    return _lib


def arm(root, faults=()):
    """faults: [[kind, n, fault, arg], ...]"""
    s = lib()
    s.vs_arm_root(os.path.realpath(root).encode())
    for k, n, f, a in faults:
        s.vs_plan(k, n, f, a)


def disarm():
    lib().vs_disarm()


def counts():
    return [lib().vs_count(k) for k in range(LINE)]


def fired(faults):
    return [bool(lib().vs_entry_fired(i)) for i in range(len(faults))]


def name(fault):
    k, n, f, a = fault
    s = '%s of %s' % (FAULTS[f], KINDS[k])
    if f in (ERR, STICKY):
        s += ' ' + errno.errorcode.get(a, str(a))
    return s
