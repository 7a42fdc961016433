"""Arrays whose first or last byte lies against an inaccessible page: any access outside ends the process with SIGSEGV."""
import ctypes
import mmap

import numpy as np

PAGE = mmap.PAGESIZE
_libc = ctypes.CDLL(None, use_errno=True)
_libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
_libc.mmap.restype = ctypes.c_void_p
_libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
_libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]


class Guarded:
    """values kept as array; side 'end': followed by a guard page, 'start': preceded by one; readonly: the pages too"""

    def __init__(self, values, side='end', readonly=False, order='C'):
        values = np.asarray(values)
        n = values.nbytes
        pages = max(1, -(-n // PAGE))
        self.total = (pages + 2) * PAGE
        self.base = _libc.mmap(None, self.total, 3, 0x22, -1, 0)
        if self.base in (None, ctypes.c_void_p(-1).value):
            raise MemoryError
        inner = self.base + PAGE
        addr = inner + (pages * PAGE - n if side == 'end' else 0)
        whole = (ctypes.c_char * (pages * PAGE)).from_address(inner)
        self.inner = np.frombuffer(whole, dtype=np.uint8)
        self.inner[:] = 0xA5
        if n:
            raw = np.frombuffer((ctypes.c_char * n).from_address(addr), dtype=values.dtype)
            self.array = raw.reshape(values.shape, order=order)
            self.array[...] = values
        else:
            self.array = np.array(values, order=order)
        lo = addr - inner
        self.slack = np.r_[np.arange(0, lo), np.arange(lo + n, pages * PAGE)].astype(int)
        _libc.mprotect(self.base, PAGE, 0)
        _libc.mprotect(inner + pages * PAGE, PAGE, 0)
        self.pages, self.addr = pages, inner
        if readonly:
            _libc.mprotect(inner, pages * PAGE, 1)
            self.array.setflags(write=False)

    def untouched(self):
        """the bytes of the accessible pages beside the array are still the canary"""
        return bool((self.inner[self.slack] == 0xA5).all())

    def free(self):
        self.array = self.inner = None
        if self.base:
            _libc.munmap(self.base, self.total)
            self.base = None
