"""Floating point values for the executor.

Two interpretations of symbolic floats:
  mode "fp"   -- exact IEEE-754 (SMT FloatingPoint theory, round to nearest even)
  mode "real" -- every rounded operation is the exact real result times (1+e),
                 |e| <= 2^-24, plus an absolute underflow term |d| <= 2^-150
                 (the standard model of IEEE rounding; sound when no overflow/NaN
                 occurs, which the executor asserts separately).
Concrete floats are always computed exactly (numpy float32/float64; libm for
transcendental functions, the same glibc the real program calls).
"""
import ctypes
import struct
import numpy as np
import z3

np.seterr(all="ignore")
libm = ctypes.CDLL("libm.so.6")
_libm_cache = {}


def libm_call(name, w, args):
    key = (name, w)
    f = _libm_cache.get(key)
    if f is None:
        f = getattr(libm, name + ("f" if w == 32 else ""))
        ct = ctypes.c_float if w == 32 else ctypes.c_double
        f.restype = ct
        f.argtypes = [ct] * len(args)
        _libm_cache[key] = f
    return f(*[float(a) for a in args])


F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()


def sort_of(w):
    return F32 if w == 32 else F64


class Fl:
    __slots__ = ("w", "b", "fp", "r", "iv", "ps")

    def __init__(self, w, b=None, fp=None, r=None):
        self.w = w
        self.b = b      # int (concrete bits) or BitVecRef
        self.fp = fp    # FPRef
        self.r = r      # real expr (mode real): z3 ArithRef
        self.iv = None  # (lo, hi): never NaN, lo <= value <= hi; None: nothing known
        self.ps = False # the sign bit is known to be clear

    def conc(self):
        return type(self.b) is int

    def np(self):
        if self.w == 32:
            return np.array([self.b], dtype=np.uint32).view(np.float32)[0]
        return np.array([self.b], dtype=np.uint64).view(np.float64)[0]

    def to_fp(self):
        if self.fp is None:
            if type(self.b) is int:
                self.fp = z3.fpBVToFP(z3.BitVecVal(self.b, self.w), sort_of(self.w))
                self.fp = z3.simplify(self.fp)
            elif self.b is not None:
                self.fp = z3.fpBVToFP(self.b, sort_of(self.w))
            else:
                raise TypeError("real-mode float used as FP")
        return self.fp

    def __repr__(self):
        if self.conc():
            return "%r" % float(self.np())
        return "Fl(%s)" % (self.fp if self.fp is not None else self.b if self.b is not None else self.r)


def from_np(x, w):
    if w == 32:
        b = int(np.array([x], dtype=np.float32).view(np.uint32)[0])
    else:
        b = int(np.array([x], dtype=np.float64).view(np.uint64)[0])
    return Fl(w, b)


def from_py(x, w):
    return from_np(np.float32(x) if w == 32 else np.float64(x), w)


def pyfloat(fl):
    if fl.w == 32:
        return struct.unpack("<f", struct.pack("<I", fl.b))[0]
    return struct.unpack("<d", struct.pack("<Q", fl.b))[0]
