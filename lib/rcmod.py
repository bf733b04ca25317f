"""Import of the freshly built module inside a worker process."""
import sys, os
import build

MODDIR = None


def parent_init(tier=None, variant='std'):
    global MODDIR
    MODDIR, _ = build.module(variant)


def load(threads=False):
    sys.path.insert(0, build.SITE)
    sys.path.insert(0, MODDIR)
    import numpy as np
    import riptide_cpp as rc
    if not threads:
        rc.ThreadingMode(1)
    np.seterr(all='ignore')
    return np, rc


class IO:
    """Control of the interposed file I/O of the 'io' variant (mc/iowrap.cpp)."""
    KINDS = ['open', 'pread', 'pwrite', 'close', 'ftruncate']

    def __init__(self):
        import ctypes, glob
        self.ct = ctypes
        self.lib = ctypes.CDLL(glob.glob(MODDIR + '/riptide_cpp*.so')[0])
        self.lib.vf_io_start.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int64]
        self.lib.vf_io_stop.restype = ctypes.c_int64
        self.lib.vf_io_get.argtypes = [ctypes.c_int64, ctypes.POINTER(ctypes.c_int64), ctypes.POINTER(ctypes.c_void_p)]

    def start(self, at=-1, kind=None, mode=-1):
        """the at-th call (of that kind) fails (mode -1), is half done (-2) or transfers mode bytes"""
        self.lib.vf_io_start(at, -1 if kind is None else self.KINDS.index(kind), mode)

    def stop(self, data=True):
        n = self.lib.vf_io_stop()
        out = []
        a = (self.ct.c_int64 * 5)()
        d = self.ct.c_void_p()
        for i in range(n):
            self.lib.vf_io_get(i, a, self.ct.byref(d))
            out.append((self.KINDS[a[0]], a[1], a[2], self.ct.string_at(d.value, a[3]) if data and a[3] else b'', a[4]))
        return out


class Guard:
    """Control of the allocators of the 'grd' variant (mc/guard.cpp)."""

    def __init__(self, np):
        import ctypes, glob
        self.ct = ctypes
        self.lib = ctypes.CDLL(glob.glob(MODDIR + '/riptide_cpp*.so')[0])
        self.lib.vf_g_protect.argtypes = [ctypes.c_void_p, ctypes.c_int]
        api = ctypes.pythonapi
        api.PyCapsule_GetPointer.restype = ctypes.c_void_p
        api.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        tab = ctypes.cast(api.PyCapsule_GetPointer(np.core.multiarray._ARRAY_API, None), ctypes.POINTER(ctypes.c_void_p))
        self.sethandler = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(tab[304])
        api.PyCapsule_New.restype = ctypes.py_object
        api.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        self.name = ctypes.create_string_buffer(b'mem_handler')
        self.cap = api.PyCapsule_New(ctypes.addressof(ctypes.c_char.in_dll(self.lib, 'vf_g_handler')), ctypes.cast(self.name, ctypes.c_char_p), None)
        self.sethandler(self.cap)

    def set(self, mode, fill):
        """mode 0: fill new memory with a byte; 1: blocks end at a guard page; 2: blocks start at one"""
        self.lib.vf_g_set(mode, fill)

    def stat(self):
        o = (self.ct.c_int64 * 3)()
        self.lib.vf_g_stat(o)
        return list(o)

    def protect(self, a, ro=True):
        return self.lib.vf_g_protect(a.__array_interface__['data'][0], int(ro))
