"""Random values for the leaves of C types: how C initialises them, how they are set and read
through a generated class."""
import ctypes
import random

from .cmodel import *

BITS = {'schar': 8, 'uchar': 8, 'short': 16, 'ushort': 16, 'int': 32, 'uint': 32, 'long': 64, 'ulong': 64,
        'llong': 64, 'ullong': 64}


def rand_int(r, bits, signed):
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    k = r.random()
    if k < .15:
        return lo
    if k < .3:
        return hi
    if k < .4:
        return min(hi, 1 << r.randrange(bits))
    if k < .45 and signed:
        return -1
    return r.randrange(lo, hi + 1)


def c_int(v):
    """C text of an integer constant with any 64-bit value"""
    if v == -(1 << 63):
        return '(-9223372036854775807LL - 1)'
    if v > (1 << 63) - 1:
        return '%dULL' % v
    return '%dLL' % v


def rand_float(r, kind):
    m = r.randrange(-(1 << 20), 1 << 20)
    e = r.choice([0, -4, -10, 3, 12, 40, -60])
    return float(m) * 2.0 ** e


class Leaf:
    """one scalar sub-object and its value"""

    def __init__(self, steps, cpath, t, v, bits=None):
        self.steps, self.cpath, self.t, self.v, self.bits = steps, cpath, t, v, bits

    def c(self):
        t = self.t
        if isinstance(t, Sc):
            if t.kind in ('float', 'double', 'ldouble'):
                return float(self.v).hex()
            if t.kind == 'bool':
                return '1' if self.v else '0'
            return c_int(self.v)
        if isinstance(t, Enum):
            return '(%s)%s' % (t.handle, c_int(self.v)) if t.tag else c_int(self.v)
        if isinstance(t, Ptr):
            return '(void*)%dULL' % self.v
        if isinstance(t, Arr):
            return '{ %s }' % ', '.join('(char)%d' % x for x in self.v)
        raise TypeError(t)


SUPPORTED = ('float', 'double', 'bool', 'char')


def leaf_value(r, t, bits, einfo):
    if isinstance(t, Sc):
        k = t.kind
        if k in ('float', 'double'):
            return rand_float(r, k)
        if k == 'bool':
            return r.random() < .6
        if k == 'char':
            return r.randrange(-128, 128)
        if k in BITS:
            return rand_int(r, bits or BITS[k], k in SIGNED)
        return None
    if isinstance(t, Enum):
        size, signed = einfo[t.tag]
        vals = [v for _, v in t.resolved()]
        return r.choice(vals)
    if isinstance(t, Ptr):
        return rand_int(r, 64, False) if r.random() < .5 else r.randrange(1, 1 << 47)
    return None


def leaves(r, t, einfo, steps=(), cpath='', limit=60):
    """random choice of leaves of an object of type t (one member of each union)"""
    out = []

    def rec(rc, st, cp):
        fs = [f for f in rc.fields]
        if rc.kind == 'union':
            fs = [r.choice(fs)] if fs else []
        for f in fs:
            if len(out) >= limit:
                return
            if f.name is None:
                if isinstance(f.t, Rec):
                    rec(f.t, st, cp)
                continue
            walk(f.t, st + (('f', f.name),), cp + '.' + f.name, f.bits)

    def walk(ty, st, cp, bits=None):
        ty = strip(ty)
        if isinstance(ty, Rec):
            rec(ty, st, cp)
        elif isinstance(ty, Arr) and isinstance(strip(ty.t), Sc) and strip(ty.t).kind == 'char' and st[-1][0] == 'f':
            # ctypes shows an array of characters that is a member as bytes
            k = r.randrange(0, ty.n + 1)
            out.append(Leaf(st, cp, ty, bytes(r.randrange(1, 256) for _ in range(k)) + bytes(ty.n - k)))
        elif isinstance(ty, Arr):
            for i in range(ty.n or 0):
                if len(out) >= limit:
                    return
                if ty.n > 4 and 0 < i < ty.n - 1 and r.random() < .6:
                    continue
                walk(ty.t, st + (('i', i),), '%s[%d]' % (cp, i))
        else:
            v = leaf_value(r, ty, bits, einfo)
            if v is not None:
                out.append(Leaf(st, cp, ty, v, bits))
    walk(t, tuple(steps), cpath)
    return out


def holder(obj, steps):
    for k, v in steps[:-1]:
        obj = getattr(obj, v) if k == 'f' else obj[v]
    return obj, steps[-1]


def py_type_at(cls, steps):
    from .layout import field_type
    t = cls
    for k, v in steps:
        if k == 'f':
            t = field_type(t, v)[0]
        else:
            t = t._type_
    return t


def to_py(leaf, pytype):
    t, v = leaf.t, leaf.v
    if isinstance(t, Arr):
        if pytype._type_ is ctypes.c_char:
            return v
        return pytype(*[x if pytype._type_(-1).value >= 0 else x - (x & 128) * 2 for x in v])
    if isinstance(t, Sc) and t.kind == 'char':
        if pytype is ctypes.c_char:
            return bytes([v & 255])
        return v if pytype(-1).value < 0 else v & 255
    if isinstance(t, Ptr):
        if pytype is ctypes.c_void_p:
            return v
        return ctypes.cast(v, pytype)
    return v


def set_leaf(obj, leaf):
    h, (k, v) = holder(obj, leaf.steps)
    x = to_py(leaf, py_type_at(type(obj), leaf.steps))
    if k == 'f':
        setattr(h, v, x)
    else:
        h[v] = x


def get_leaf(obj, leaf):
    h, (k, v) = holder(obj, leaf.steps)
    return getattr(h, v) if k == 'f' else h[v]


def same(got, leaf, pytype):
    """does a value read through the class equal the value of the leaf"""
    t, v = leaf.t, leaf.v
    if isinstance(t, Arr):
        if not isinstance(got, bytes):
            return bytes(x & 255 for x in got) == v
        return got == v.split(b'\0')[0]
    if isinstance(t, Ptr):
        if isinstance(got, int) or got is None:
            return (got or 0) == v
        return (ctypes.cast(got, ctypes.c_void_p).value or 0) == v
    if isinstance(t, Sc) and t.kind == 'char':
        if isinstance(got, bytes):
            return got == bytes([v & 255])
        return got == v or got == v & 255
    if isinstance(t, Sc) and t.kind == 'bool':
        return got is (v is True) or got == bool(v)
    if isinstance(t, Sc) and t.kind == 'float':
        return got == ctypes.c_float(v).value
    return got == v and not isinstance(got, bool)


def c_init(ls):
    return '{ %s }' % ', '.join('%s = %s' % (l.cpath, l.c()) for l in ls) if ls else '{ 0 }'
