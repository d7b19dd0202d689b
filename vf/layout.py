"""Layout points of a record: what C says (constant expressions) and where to read the same
thing from the generated class."""
import ctypes

from .cmodel import *


LIMIT = 160


def points(rec, max_depth=6):
    """yield (steps, c_path, type, field) for every reachable named sub-object.

    steps: python navigation, list of ('f', name) / ('i', index)
    c_path: C designator text after the object"""
    out = []

    def walk(r, steps, cpath, depth):
        for f in r.fields:
            if f.name is None:
                if isinstance(f.t, Rec):
                    walk(f.t, steps, cpath, depth)       # anonymous: members are promoted
                continue
            st = steps + [('f', f.name)]
            cp = cpath + '.' + f.name
            out.append((st, cp, f.t, f))
            sub(f.t, st, cp, depth, f)

    def sub(t, st, cp, depth, f):
        t = strip(t)
        if depth <= 0:
            return
        if isinstance(t, Arr) and t.n:
            last = t.n - 1
            for i in ({0, last} if t.n > 1 else {0}):
                st2 = st + [('i', i)]
                cp2 = '%s[%d]' % (cp, i)
                out.append((st2, cp2, t.t, None))
                sub(t.t, st2, cp2, depth - 1, None)
        elif isinstance(t, Rec):
            # a record with a name of its own is checked by itself: only look at its first level here
            walk(t, st, cp, depth - 1 if t.inline else min(depth - 1, 0))
    walk(rec, [], '', max_depth)
    if len(out) > LIMIT:
        # the first and last ones and an even choice in between
        step = len(out) / LIMIT
        out = [out[int(i * step)] for i in range(LIMIT - 1)] + [out[-1]]
    return out


def py_locate(cls, steps):
    """(offset, type, bits or None) of a sub-object of an instance of cls"""
    off = 0
    t = cls
    bits = None
    i = 0
    while i < len(steps):
        k, v = steps[i]
        if k == 'f':
            d = getattr(t, v)
            off += d.offset
            t2 = field_type(t, v)
            if t2 is None:
                raise AttributeError('%s has no field %s' % (t.__name__, v))
            t, bits = t2
        else:
            t = t._type_
            off += v * ctypes.sizeof(t)
        i += 1
    return off, t, bits


def field_type(cls, name):
    for f in cls._fields_:
        if f[0] == name:
            return f[1], (f[2] if len(f) > 2 else None)
    for a in getattr(cls, '_anonymous_', ()):
        for f in cls._fields_:
            if f[0] == a:
                r = field_type(f[1], name)
                if r:
                    return r
    return None


def probe_exprs(handle, pts):
    ex = ['sizeof(%s)' % handle]
    for st, cp, t, f in pts:
        if f is not None and f.bits is not None:
            continue
        ex.append('__builtin_offsetof(%s, %s)' % (handle, cp[1:]))
        ex.append('sizeof(((%s*)0)->%s)' % (handle, cp[1:]))
    return ex
