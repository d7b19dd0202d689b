"""Compare what a generated module says about a type with the C type that was declared."""
import ctypes

from .cmodel import *

SimpleCData = ctypes.c_int.__mro__[1]
PointerBase = ctypes.POINTER(ctypes.c_int).__mro__[1]
FuncBase = ctypes.CFUNCTYPE(None).__mro__[1]


def is_int_type(py, size, signed):
    if not (isinstance(py, type) and issubclass(py, SimpleCData)):
        return False
    if py in (ctypes.c_char, ctypes.c_wchar, ctypes.c_bool, ctypes.c_float, ctypes.c_double, ctypes.c_longdouble,
              ctypes.c_void_p, ctypes.c_char_p, ctypes.c_wchar_p):
        return False
    if ctypes.sizeof(py) != size:
        return False
    try:
        v = py(-1).value
    except Exception:
        return False
    return isinstance(v, int) and (v < 0) == signed


def desc(py):
    return getattr(py, '__name__', None) or repr(py)


class Mismatch(Exception):
    pass


class Matcher:
    """ns: the module namespace; tgt: sizes of the target"""

    def __init__(self, ns, tgt, enum_info=None):
        self.ns = ns
        self.tgt = tgt
        self.native = tgt['ptr'] == ctypes.sizeof(ctypes.c_void_p)
        self.seen = set()
        self.keep = []
        self.checked = 0
        self.enum_info = enum_info or {}     # tag -> (size, signed)
        self.rec_names = True

    def fail(self, path, why):
        raise Mismatch('%s: %s' % (path, why))

    def rec_class(self, rec):
        """class a user reaches for a declared record"""
        if getattr(rec, 'tag', None):
            return self.ns.get('%s_%s' % (rec.kind, rec.tag))
        return self.ns.get(rec.tdname)

    def match(self, py, t, path):
        self.checked += 1
        t = strip(t)
        tg = self.tgt
        if isinstance(t, Sc):
            k = t.kind
            if k == 'void':
                if py is not None:
                    self.fail(path, 'void expected, got %s' % desc(py))
                return
            if not isinstance(py, type):
                self.fail(path, '%s expected, got %r' % (k, py))
            if ctypes.sizeof(py) != tg[k]:
                self.fail(path, '%s is %d bytes, got %s of %d bytes' % (t.spell, tg[k], desc(py), ctypes.sizeof(py)))
            if k == 'bool':
                if py is not ctypes.c_bool:
                    self.fail(path, '_Bool expected, got %s' % desc(py))
            elif k == 'char':
                if not (py is ctypes.c_char or is_int_type(py, 1, tg['char_signed'])):
                    self.fail(path, 'char expected, got %s' % desc(py))
            elif k in ('float', 'double'):
                want = ctypes.c_float if tg[k] == 4 else ctypes.c_double
                if py is not want:
                    self.fail(path, '%s expected, got %s' % (k, desc(py)))
            elif k == 'ldouble':
                if is_int_type(py, ctypes.sizeof(py), True) or is_int_type(py, ctypes.sizeof(py), False) \
                        or py is ctypes.c_bool:
                    self.fail(path, 'long double expected, got %s' % desc(py))
            elif k in ('int128', 'uint128'):
                pass
            else:
                if not is_int_type(py, tg[k], k in SIGNED):
                    self.fail(path, '%s (%d bytes, %ssigned) expected, got %s' % (
                        t.spell, tg[k], '' if k in SIGNED else 'un', desc(py)))
            return
        if isinstance(t, Enum):
            size, signed = self.enum_info.get(t.tag) or (4, any(v < 0 for _, v in t.resolved()))
            if not is_int_type(py, size, signed):
                self.fail(path, 'enum %s (%d bytes, signed=%s) expected, got %s' % (t.tag, size, signed, desc(py)))
            return
        if isinstance(t, Arr):
            n = 0 if t.n is None else t.n
            if not (isinstance(py, type) and issubclass(py, ctypes.Array)):
                self.fail(path, 'array of %s expected, got %s' % (n, desc(py)))
            if py._length_ != n:
                self.fail(path, 'array length %d expected, got %d' % (n, py._length_))
            self.match(py._type_, t.t, path + '[]')
            return
        if isinstance(t, Ptr):
            p = strip(t.t)
            if isinstance(p, Fn):
                return self.match_fn(py, p, path)
            if self.native:
                if isinstance(p, Sc) and p.kind == 'void':
                    if not (py is ctypes.c_void_p):
                        self.fail(path, 'void* expected, got %s' % desc(py))
                    return
                if not (isinstance(py, type) and issubclass(py, PointerBase)):
                    self.fail(path, 'pointer expected, got %s' % desc(py))
                self.match(py._type_, p, path + '*')
            else:
                if not (isinstance(py, type) and ctypes.sizeof(py) == self.tgt['ptr']):
                    self.fail(path, 'pointer of %d bytes expected, got %s' % (self.tgt['ptr'], desc(py)))
                sub = getattr(py, '_subtype_', self)
                if sub is self:
                    self.fail(path, 'pointer expected, got %s' % desc(py))
                if isinstance(p, Sc) and p.kind == 'void':
                    if sub not in (None, type(None)):
                        self.fail(path, 'void* expected, got pointer to %s' % desc(sub))
                    return
                self.match(sub, p, path + '*')
            return
        if isinstance(t, Rec):
            if not (isinstance(py, type) and issubclass(py, ctypes.Structure if t.kind == 'struct' else ctypes.Union)):
                self.fail(path, '%s expected, got %s' % (t.kind, desc(py)))
            if t.tag and py.__name__ != '%s_%s' % (t.kind, t.tag):
                self.fail(path, '%s %s expected, got class %s' % (t.kind, t.tag, py.__name__))
            key = (id(py), id(t))
            if key in self.seen:
                return
            self.seen.add(key)
            self.keep.append((py, t))
            if t.fields:
                self.match_fields(py, t, path)
            return
        self.fail(path, 'unexpected model type %r' % t)

    def match_fn(self, py, fn, path):
        if not self.native:
            if not (isinstance(py, type) and ctypes.sizeof(py) == self.tgt['ptr']):
                self.fail(path, 'pointer of %d bytes expected, got %s' % (self.tgt['ptr'], desc(py)))
            py = getattr(py, '_subtype_', py)
        if not (isinstance(py, type) and issubclass(py, FuncBase)):
            self.fail(path, 'function pointer expected, got %s' % desc(py))
        self.match_proto(py._restype_, py._argtypes_, fn, path)

    def match_proto(self, restype, argtypes, fn, path):
        self.match(restype, fn.ret, path + '()')
        at = list(argtypes)
        if len(at) != len(fn.args):
            self.fail(path, '%d arguments expected, got %d' % (len(fn.args), len(at)))
        for i, (a, b) in enumerate(zip(at, fn.args)):
            if isinstance(strip(b), Arr):
                b = Ptr(strip(b).t)         # a parameter that is declared as an array
            elif isinstance(strip(b), Fn):
                b = Ptr(strip(b))
            self.match(a, b, '%s(arg%d)' % (path, i))

    def match_fields(self, py, rec, path):
        fields = {}
        order = []
        for f in py._fields_:
            if f[0].startswith('PADDING_'):
                continue
            fields[f[0]] = f
            order.append(f[0])
        named = [f for f in rec.fields if f.name]
        anon = [n for n in order if n not in {f.name for f in named}]
        ai = iter(anon)
        want_order = []
        for f in rec.fields:
            if f.name is None and f.bits is not None:
                continue
            if f.name is None:
                n = next(ai, None)
                if n is None:
                    self.fail(path, 'anonymous member missing')
                if n not in getattr(py, '_anonymous_', ()):
                    self.fail(path, 'anonymous member %s not declared anonymous' % n)
            else:
                n = f.name
                if n not in fields:
                    self.fail(path, 'field %s missing' % n)
            want_order.append(n)
            if f.bits is None:
                self.match(fields[n][1], f.t, '%s.%s' % (path, n))
        if want_order != order:
            self.fail(path, 'fields are %s, declared %s' % (order, want_order))
