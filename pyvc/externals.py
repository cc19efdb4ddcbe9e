"""symbolic handlers for stdlib / third party callables"""
import contextlib
import copy
import posixpath
import z3
from . import rt
from .core import *  # noqa
from .core import STATE, SymStr, SymInt, SymBool, VDict, VSet, Unsupported, is_sym, mkstr
from .sym import SymSeq, SymMap, SymSet
from .rt import register, has_sym


@register(copy.deepcopy)
def _deepcopy(x, memo=None):
    if is_sym(x):
        if isinstance(x, (SymMap, SymSet)):
            return x.copy()
        return x
    t = type(x)
    if t is VDict:
        d = VDict()
        d._k = list(x._k)
        d._v = [_deepcopy(v) for v in x._v]
        return d
    if t is VSet:
        return x.copy()
    if t is list:
        return [_deepcopy(v) for v in x]
    if t is tuple:
        return tuple(_deepcopy(v) for v in x)
    return copy.deepcopy(x)


@register(copy.copy)
def _copy(x):
    if is_sym(x):
        return x.copy() if isinstance(x, (SymMap, SymSet)) else x
    return copy.copy(x)


import itertools  # noqa


@register(itertools.chain.from_iterable)
def _chain_from_iterable(it):
    if isinstance(it, rt.SymGen):
        return rt.SymChain(it)
    return itertools.chain.from_iterable(it)


# ---- struct / int.from_bytes: fixed width coding as an invertible function ----
import struct  # noqa

_INTFMT = {"i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False),
           "h": (2, True), "H": (2, False), "b": (1, True), "B": (1, False)}


def _intfmt(fmt):
    if len(fmt) != 2 or fmt[0] not in "!><" or fmt[1] not in _INTFMT:
        raise Unsupported("struct format %r" % fmt)
    return ("<" if fmt[0] == "<" else ">", *_INTFMT[fmt[1]])


class PackedInt:
    """fixed width bytes of a symbolic number"""

    def __init__(self, u, order, w):
        self.u, self.order, self.w = u, order, w      # u: unsigned value

    def __len__(self):
        return self.w

    def __bool__(self):
        return True

    def _no(self, *a, **k):
        raise Unsupported("operation on packed symbolic number")
    __add__ = __radd__ = __getitem__ = __iter__ = __contains__ = __eq__ = __mod__ = _no
    __hash__ = None

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("packed symbolic number: " + n)


@register(struct.pack)
def _pack(fmt, *vals):
    if not any(is_sym(v) for v in vals):
        return struct.pack(fmt, *vals)
    if len(vals) != 1 or type(vals[0]) is not SymInt:
        raise Unsupported("struct.pack of symbolic %s" % [type(v).__name__ for v in vals])
    order, w, signed = _intfmt(fmt)
    n = vals[0].e
    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
    if not STATE.engine.branch(z3.And(n >= lo, n <= hi)):
        raise struct.error("number out of range")
    return PackedInt(z3.If(n < 0, n + (1 << (8 * w)), n) if signed else n, order, w)


@register(struct.unpack)
def _unpack(fmt, b):
    if not isinstance(b, PackedInt):
        if is_sym(b):
            raise Unsupported("struct.unpack of symbolic bytes")
        return struct.unpack(fmt, b)
    order, w, signed = _intfmt(fmt)
    if (order, w) != (b.order, b.w):
        raise Unsupported("struct.unpack with another format")
    return (SymInt(z3.simplify(z3.If(b.u >= (1 << (8 * w - 1)), b.u - (1 << (8 * w)), b.u) if signed else b.u)),)


@register(int.from_bytes)
def _from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, PackedInt):
        w = b.w
        if (">" if byteorder == "big" else "<") != b.order:
            raise Unsupported("number read with another byte order")
        return SymInt(z3.simplify(z3.If(b.u >= (1 << (8 * w - 1)), b.u - (1 << (8 * w)), b.u) if signed else b.u))
    if is_sym(b):
        raise Unsupported("int.from_bytes of symbolic bytes")
    return int.from_bytes(b, byteorder, signed=signed)
