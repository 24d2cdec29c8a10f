"""ctypes access to cxx/helper.cpp (built with the library)."""
import ctypes, os
import cantera
import numpy as np
_lib = None
def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(cantera.__file__)), "libvp.so"))
        _lib.vp_error.restype = _lib.vp_text.restype = ctypes.c_char_p
    return _lib

class Error(Exception):
    pass

def arr(x):
    x = np.ascontiguousarray(x, dtype=float)
    return x, x.ctypes.data_as(ctypes.POINTER(ctypes.c_double))

def ok(r):
    if r == -1:
        raise Error(lib().vp_error().decode(errors="replace"))
    return r

def text():
    return lib().vp_text().decode(errors="replace")
