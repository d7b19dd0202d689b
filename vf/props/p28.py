"""Real headers: everything the system has."""
import os
import random

from ..common import *
from ..sig import tsig

RULE = ('Headers installed on the system that compile on their own as C are translated with and without the files they include, with and without macros. The monitor imports the '
        'modules and compares every record, member, bit-field, enumerator, typedef and prototype with what the compiler reports for the translation unit; without the included files, '
        'everything the header itself declares must be there. A case counts by the header and the number of declarations compared.')
ASSUMPTIONS = ['headers with types ctypes has no counterpart for (_Complex, vectors, _Atomic, _Float16, __float128) are outside']
ROOT = '/usr/include'
# not C, or of a compiler of their own
NOT = ('/c++/', '/boost/', '/gtest/', '/gmock/', '/catch2/', '/benchmark/', '/rapidcheck', '/eigen3/', '/llvm/', '/clang/', '/mlir/', '/nodejs/', '/node/', '/range/', '/fmt/', '/absl/', '/v8', '/cppgc/', '/lld/', '/lldb/', '/clang-tidy/')


def headers():
    out = []
    for d, ds, fs in os.walk(ROOT):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if f.endswith('.h') and not any(x in p for x in NOT):
                out.append(p)
    return out


def cases(tier, seed):
    hs = headers()
    r = random.Random('headers%s' % seed)
    r.shuffle(hs)
    for i, h in enumerate(hs if tier != 'quick' else hs[:400]):
        yield dict(seed=seed * 1000003 + i, header=h, inc=i % 2 == 0, kinds=['cdefstu', 'cdefmstu'][i // 2 % 2])


def index():
    ct()
    from clang import cindex
    return cindex


class Unsupported(Exception):
    pass


def check_type(cx, t, seen):
    """does the type need something ctypes has not"""
    t = t.get_canonical()
    K = cx.TypeKind
    if t.kind in (K.COMPLEX, K.VECTOR, K.EXTVECTOR, K.FLOAT128, K.HALF) or t.kind.name in ('ATOMIC', 'IBM128', 'FLOAT16', 'BFLOAT16') or 'Atomic(' in t.spelling or '_Float16' in t.spelling or '__bf16' in t.spelling:
        raise Unsupported(t.spelling)
    if t.kind == K.POINTER:
        check_type(cx, t.get_pointee(), seen)
    elif t.kind in (K.CONSTANTARRAY, K.INCOMPLETEARRAY):
        check_type(cx, t.element_type, seen)
    elif t.kind in (K.FUNCTIONPROTO, K.FUNCTIONNOPROTO):
        check_type(cx, t.get_result(), seen)
        if t.kind == K.FUNCTIONPROTO:
            for a in t.argument_types():
                check_type(cx, a, seen)


def fit(cx, t, py):
    """is the ctypes type what the C type is, at one level"""
    K = cx.TypeKind
    t = t.get_canonical()
    if t.kind == K.VOID:
        return py is None
    if py is None:
        return False
    if t.kind in (K.INCOMPLETEARRAY, K.VARIABLEARRAY):
        return issubclass(py, (ctypes._Pointer, ctypes.Array)) or py is ctypes.c_void_p
    if t.get_size() >= 0 and t.kind not in (K.FUNCTIONPROTO, K.FUNCTIONNOPROTO) and ctypes.sizeof(py) != t.get_size():
        return False
    s = tsig(py)
    if t.kind in (K.POINTER, K.FUNCTIONPROTO, K.FUNCTIONNOPROTO):
        p = t.get_pointee().get_canonical() if t.kind == K.POINTER else t
        if p.kind in (K.FUNCTIONPROTO, K.FUNCTIONNOPROTO):
            return s[0] == 'fn' and fit(cx, p.get_result(), getattr(py, '_restype_', None)) and (p.kind != K.FUNCTIONPROTO or len(s[2]) == len(list(p.argument_types())))
        if s == ('sc', 'P', 8):
            return p.kind == K.VOID
        if s[0] != 'ptr':
            return False
        if p.kind == K.VOID:
            return s[1] == 'void'
        if p.kind == K.RECORD:
            return s[1][0] == 'rec'
        if p.kind == K.POINTER:
            return s[1][0] in ('ptr', 'fn') or s[1][:2] == ('sc', 'P')
        return fit(cx, p, py._type_) if p.get_size() >= 0 else True
    if t.kind == K.RECORD:
        return s[0] == 'rec'
    if t.kind == K.CONSTANTARRAY:
        return s[0] == 'arr' and s[1] == t.element_count and fit(cx, t.element_type, py._type_) or t.element_count == 0
    signed = dict(SHORT='h', INT='i', LONG='l', LONGLONG='l', SCHAR='b', INT128=None)
    unsigned = dict(USHORT='H', UINT='I', ULONG='L', ULONGLONG='L', UCHAR='B', BOOL='?', UINT128=None)
    real = dict(FLOAT='f', DOUBLE='d', LONGDOUBLE='g')
    k = t.kind.name
    for table in (signed, unsigned, real):
        if k in table and table[k]:
            return s[0] == 'sc' and (s[1] == table[k] or k == 'BOOL' and s[1] in '?B' or s[1] in 'lq' and table[k] == 'l' or s[1] in 'LQ' and table[k] == 'L')
    if k in ('CHAR_S', 'CHAR_U'):
        return s[0] == 'sc' and s[1] in 'cbB'
    return True


def check_record(cx, c, cls, where, src, text, obs, depth=0):
    t = c.type
    if ctypes.sizeof(cls) != t.get_size():
        fail('%s: %s has %d bytes, the class has %d' % (where, t.spelling, t.get_size(), ctypes.sizeof(cls)), src, text)
    obs.add('records')
    for f in t.get_fields():
        n = f.spelling
        if not n or f.is_anonymous():
            continue
        d = getattr(cls, n, None)
        if d is None or not hasattr(d, 'offset'):
            fail('%s: %s has no member %s' % (where, cls.__name__, n), src, text)
        bits = f.get_field_offsetof()
        if f.is_bitfield():
            lo, w = d.offset * 8 + (d.size & 0xffff), d.size >> 16
            if (lo, w) != (bits, f.get_bitfield_width()):
                # the compiler splits what ctypes keeps: P03 decides the bits
                if d.size >> 16 == 0 and ctypes.sizeof(dict((x[0], x[1]) for x in cls._fields_)[n]) * 8 == f.get_bitfield_width() and d.offset * 8 == bits:
                    continue
                fail('%s: bit-field %s.%s is at bit %d (%d bits), the class has it at %d (%d bits)' % (where, t.spelling, n, bits, f.get_bitfield_width(), lo, w), src, text)
            obs.add('bit-fields')
        else:
            if d.size >> 16:
                # ctypes expresses a member inside of a storage unit as a bit-field
                if (d.offset * 8 + (d.size & 0xffff), d.size >> 16) != (bits, f.type.get_size() * 8):
                    fail('%s: %s.%s is at bit %d, the class has it at %d' % (where, t.spelling, n, bits, d.offset * 8 + (d.size & 0xffff)), src, text)
                continue
            if d.offset * 8 != bits:
                fail('%s: %s.%s is at offset %d, the class has it at %d' % (where, t.spelling, n, bits // 8, d.offset), src, text)
            ft = f.type.get_canonical()
            py = dict((x[0], x[1]) for x in cls._fields_)[n]
            if ft.kind not in (cx.TypeKind.INCOMPLETEARRAY,) and not fit(cx, ft, py):
                fail('%s: %s.%s is %s, the class has %s' % (where, t.spelling, n, ft.spelling, desc(py)), src, text)
            dc = ft.get_declaration()
            if ft.kind == cx.TypeKind.RECORD and depth < 5 and issubclass(py, (ctypes.Structure, ctypes.Union)):
                check_record(cx, dc, py, where, src, text, obs, depth + 1)
            obs.add('members')


def run(case, obs):
    cx = index()
    h = case['header']
    src = '#include "%s"\n' % h
    tu = cx.Index.create().parse(h, ['-x', 'c'])
    if any(d.severity >= 3 for d in tu.diagnostics):
        raise Skip('does not compile on its own')
    decls = list(tu.cursor.get_children())
    C = cx.CursorKind

    def scan(c):
        if c.kind in (C.FUNCTION_DECL, C.VAR_DECL, C.TYPEDEF_DECL, C.FIELD_DECL):
            check_type(cx, c.type, None)
        if c.kind in (C.STRUCT_DECL, C.UNION_DECL):
            for x in c.get_children():
                scan(x)
    try:
        for c in decls:
            scan(c)
    except Unsupported as e:
        raise Skip('has %s' % e)
    what = '%s (%s, kinds %s)' % (h, 'with includes' if case['inc'] else 'alone', case['kinds'])
    try:
        text = translate_paths([h], [], case['kinds'], filter_location=not case['inc'])
    except Exception as e:
        fail('%s: translation fails: %s: %s' % (what, type(e).__name__, str(e)[:300]), src)
    try:
        ns = load(text)
    except BaseException as e:
        fail('%s: the module does not import: %s: %s' % (what, type(e).__name__, str(e)[:300]), src, text)
    names = set(ns.get('__all__', ()))
    for c in decls:
        mine = c.location.file is not None and c.location.file.name == h
        n = c.spelling
        if not n or c.is_anonymous():
            n = ''
        must = case['inc'] or mine
        if c.kind in (C.STRUCT_DECL, C.UNION_DECL) and n and ' ' not in n:
            py = ('struct_' if c.kind == C.STRUCT_DECL else 'union_') + n
            if not c.is_definition():
                continue
            if py not in names:
                if must:
                    fail('%s: %s is missing' % (what, py), src, text)
                continue
            check_record(cx, c, ns[py], what, src, text, obs)
        elif c.kind == C.TYPEDEF_DECL:
            if n not in names:
                if must and not n.startswith('__builtin'):
                    fail('%s: typedef %s is missing' % (what, n), src, text)
                continue
            t = c.underlying_typedef_type.get_canonical()
            if t.kind == cx.TypeKind.RECORD and t.get_size() >= 0:
                check_record(cx, t.get_declaration(), ns[n], what, src, text, obs)
            elif t.kind not in (cx.TypeKind.FUNCTIONPROTO, cx.TypeKind.FUNCTIONNOPROTO) and not fit(cx, t, ns[n]):
                fail('%s: typedef %s is %s, the module has %s' % (what, n, t.spelling, desc(ns[n])), src, text)
            obs.add('typedefs')
        elif c.kind == C.ENUM_DECL:
            for e in c.get_children():
                if e.kind != C.ENUM_CONSTANT_DECL:
                    continue
                if e.spelling not in names:
                    if must:
                        fail('%s: enumerator %s is missing' % (what, e.spelling), src, text)
                elif ns[e.spelling] != e.enum_value:
                    fail('%s: enumerator %s is %d, the module has %r' % (what, e.spelling, e.enum_value, ns[e.spelling]), src, text)
                obs.add('enumerators')
        elif c.kind == C.FUNCTION_DECL:
            if n not in names:
                if must:
                    fail('%s: function %s is missing' % (what, n), src, text)
                continue
            f = ns[n]
            ar = getattr(f, 'argtypes', None)
            at = [a.type for a in c.get_arguments()]
            if ar is None or len(ar) != len(at) or not fit(cx, c.result_type, f.restype):
                fail('%s: %s %s, the module has %s' % (what, n, c.type.spelling, (tsig(f.restype), ar)), src, text)
            for a, b in zip(at, ar):
                a = a.get_canonical()
                if a.kind == cx.TypeKind.CONSTANTARRAY:
                    continue
                if not fit(cx, a, b):
                    fail('%s: an argument of %s is %s, the module has %s' % (what, n, a.spelling, desc(b)), src, text)
            obs.add('functions')
        elif c.kind == C.VAR_DECL and n not in names and must:
            fail('%s: variable %s is missing' % (what, n), src, text)
    obs.add('headers')
    obs.key(h, case['inc'], case['kinds'])
    obs.sample(dict(header=h, names=len(names)))
