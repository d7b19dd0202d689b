"""What a generated module means, as a comparable value: one description per exported name."""
import ctypes


def tsig(t):
    """description of a ctypes type; records are named, their members are described at the top level"""
    if t is None:
        return 'void'
    if not isinstance(t, type):
        return ('obj', type(t).__name__)
    if issubclass(t, (ctypes.Structure, ctypes.Union)):
        return ('rec', t.__name__)
    if issubclass(t, ctypes.Array):
        return ('arr', t._length_, tsig(t._type_))
    if issubclass(t, ctypes._Pointer):
        return ('ptr', tsig(getattr(t, '_type_', None)))
    if issubclass(t, ctypes._CFuncPtr):
        return ('fn', tsig(getattr(t, '_restype_', None)), tuple(tsig(a) for a in getattr(t, '_argtypes_', None) or ()))
    if issubclass(t, ctypes._SimpleCData):
        return ('sc', t._type_, ctypes.sizeof(t))
    return ('type', t.__name__)


def rec_sig(c, seen=None):
    out = []
    # getattr on a union without fields keeps saying so later (CPython's cache)
    for f in vars(c).get('_fields_') or ():
        d = getattr(c, f[0])
        out.append((f[0], d.offset, d.size, tsig(f[1])))
    return ('record', 'union' if issubclass(c, ctypes.Union) else 'struct', ctypes.sizeof(c), tuple(out),
            tuple(vars(c).get('_anonymous_', ())))


def sig(o, name=None):
    if isinstance(o, type):
        if issubclass(o, (ctypes.Structure, ctypes.Union)):
            return (o.__name__, rec_sig(o))
        if 'argtypes' in vars(o):
            # a function of a library that was not given
            return ('function', tsig(o.restype), tuple(tsig(a) for a in o.argtypes or ()))
        return tsig(o)
    if isinstance(o, (ctypes.Structure, ctypes.Union)):
        return ('object', tsig(type(o)), bytes(o))
    if isinstance(o, ctypes._CFuncPtr):
        return ('function', tsig(o.restype), tuple(tsig(a) for a in o.argtypes or ()))
    if isinstance(o, (ctypes._Pointer, ctypes.Array, ctypes._SimpleCData)):
        return ('object', tsig(type(o)))
    if isinstance(o, dict):
        return ('table', tuple(sorted(o.items(), key=repr)))
    if isinstance(o, float) and o.is_integer():
        # a number, however it is written
        o = int(o)
    return ('value', type(o).__name__, repr(o))


def module_sig(ns):
    return {n: sig(ns[n]) if n in ns else 'MISSING' for n in ns.get('__all__', ())}


def refs(o, out=None):
    """names of the records a type or value refers to"""
    out = set() if out is None else out
    t = o
    fn = 'argtypes' in vars(o) if isinstance(o, type) else isinstance(o, ctypes._CFuncPtr)
    if not isinstance(o, type) or fn:
        if fn:
            for a in [o.restype] + list(o.argtypes or ()):
                refs(a, out) if isinstance(a, type) else None
            return out
        if isinstance(o, (ctypes._Pointer, ctypes.Array, ctypes._SimpleCData, ctypes.Structure, ctypes.Union)):
            t = type(o)
        else:
            return out
    if issubclass(t, (ctypes.Structure, ctypes.Union)):
        out.add(t.__name__)
    elif issubclass(t, (ctypes.Array, ctypes._Pointer)):
        x = getattr(t, '_type_', None)
        if isinstance(x, type):
            refs(x, out)
    elif issubclass(t, ctypes._CFuncPtr):
        for a in [getattr(t, '_restype_', None)] + list(getattr(t, '_argtypes_', None) or ()):
            if isinstance(a, type):
                refs(a, out)
    return out


def diff(a, b, la='first', lb='second', names=None):
    """first difference between two module signatures, as text"""
    for n in sorted(set(a) | set(b)):
        if names is not None and n not in names:
            continue
        if n not in a:
            return '%s is only in the %s module' % (n, lb)
        if n not in b:
            return '%s is only in the %s module' % (n, la)
        if a[n] != b[n]:
            return '%s differs:\n %s: %s\n %s: %s' % (n, la, str(a[n])[:700], lb, str(b[n])[:700])
    return None
