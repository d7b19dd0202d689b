"""A small model of C types and declarations, and how they are written in C.

The model is the reference side: it knows what was declared, independently of the
translator.  Nothing here looks at the code under test."""


class T:
    def is_rec(self):
        return False


class Sc(T):
    """scalar: kind is the canonical kind; spell is how C writes it"""
    # kind -> (category, ctypes-size rule)
    def __init__(self, kind, spell=None):
        self.kind = kind
        self.spell = spell or SPELL[kind][0]

    def __repr__(self):
        return 'Sc(%s)' % self.spell


# canonical kind -> accepted C spellings
SPELL = {
    'void': ['void'],
    'bool': ['_Bool'],
    'char': ['char'],
    'schar': ['signed char', 'char signed'],
    'uchar': ['unsigned char', 'char unsigned'],
    'short': ['short', 'short int', 'signed short', 'int short', 'signed short int'],
    'ushort': ['unsigned short', 'short unsigned int', 'unsigned short int'],
    'int': ['int', 'signed', 'signed int'],
    'uint': ['unsigned', 'unsigned int', 'int unsigned'],
    'long': ['long', 'long int', 'signed long', 'long signed int'],
    'ulong': ['unsigned long', 'unsigned long int', 'long unsigned', 'long int unsigned'],
    'llong': ['long long', 'long long int', 'signed long long', 'long signed long'],
    'ullong': ['unsigned long long', 'unsigned long long int', 'long unsigned long'],
    'float': ['float'],
    'double': ['double'],
    'ldouble': ['long double', 'double long'],
    'int128': ['__int128', 'signed __int128'],
    'uint128': ['unsigned __int128'],
}
INTS = ['schar', 'uchar', 'short', 'ushort', 'int', 'uint', 'long', 'ulong', 'llong', 'ullong']
SIGNED = {'schar', 'short', 'int', 'long', 'llong', 'int128'}


class Ptr(T):
    def __init__(self, t, qual=''):
        self.t = t
        self.qual = qual        # qualifier on the pointer itself


class Arr(T):
    def __init__(self, t, n):
        self.t = t
        self.n = n              # None: flexible / unsized

class Fn(T):
    def __init__(self, ret, args, variadic=False, noproto=False):
        self.ret = ret
        self.args = args        # list of T
        self.variadic = variadic
        self.noproto = noproto


class Qual(T):
    """const/volatile-qualified type; transparent for everything we check"""
    def __init__(self, t, q):
        self.t = t
        self.q = q


class Enum(T):
    def __init__(self, tag, vals, attr=''):
        self.tag = tag
        self.vals = vals        # [(name, value or None, text or None)]
        self.attr = attr
        self.untagged = False   # declared as typedef enum { ... } tag

    @property
    def handle(self):
        return self.tag if self.untagged else 'enum ' + self.tag

    def resolved(self):
        out, cur = [], -1
        for n, v, *_ in self.vals:
            cur = cur + 1 if v is None else v
            out.append((n, cur))
        return out


class TD(T):
    """reference to a typedef name"""
    def __init__(self, name, t):
        self.name = name
        self.t = t


class Field:
    def __init__(self, name, t, bits=None, align=None):
        self.name = name        # None: anonymous record member / unnamed bit-field
        self.t = t
        self.bits = bits
        self.align = align


class Rec(T):
    def __init__(self, kind, tag, fields, packed=False, align=None, pragma=None):
        self.kind = kind        # struct | union
        self.tag = tag          # None: no tag
        self.fields = fields
        self.packed = packed
        self.align = align
        self.pragma = pragma
        self.handle = None      # C spelling usable at file scope ("struct s", typedef name)
        self.inline = False     # body written where it is used (nested definition)

    def is_rec(self):
        return True


def strip(t):
    while isinstance(t, (TD, Qual)):
        t = t.t
    return t


def base_text(t, ind='    '):
    """text of the specifier part (non-declarator)"""
    if isinstance(t, Sc):
        return t.spell
    if isinstance(t, Qual):
        return t.q + ' ' + base_text(t.t, ind)
    if isinstance(t, TD):
        return t.name
    if isinstance(t, Enum):
        if getattr(t, 'inline', False):
            return enum_text(t)
        return t.handle
    if isinstance(t, Rec):
        if t.inline:
            return rec_text(t, ind)
        return t.handle or '%s %s' % (t.kind, t.tag)
    raise TypeError(t)


def enum_text(e):
    items = []
    for v in e.vals:
        n, val = v[0], v[1]
        text = v[2] if len(v) > 2 else None
        items.append(n if val is None else '%s = %s' % (n, text if text is not None else val))
    return 'enum %s%s{ %s }' % (e.attr + ' ' if e.attr else '', (e.tag + ' ') if e.tag and not e.untagged else '', ', '.join(items))


def decl(t, name, ind='    '):
    """C declarator for `t name`"""
    inner = name
    while True:
        if isinstance(t, Ptr):
            inner = '*' + ((t.qual + ' ') if t.qual else '') + inner
            if isinstance(t.t, (Arr, Fn)):
                inner = '(' + inner + ')'
            t = t.t
        elif isinstance(t, Arr):
            inner = '%s[%s]' % (inner, '' if t.n is None else t.n)
            t = t.t
        elif isinstance(t, Fn):
            if t.noproto:
                args = ''
            else:
                args = ', '.join(decl(a, n or '') for a, n in _argn(t))
                if t.variadic:
                    args += ', ...'
                if not t.args:
                    args = 'void'
            inner = '%s(%s)' % (inner, args)
            t = t.ret
        else:
            break
    return ('%s %s' % (base_text(t, ind), inner)).rstrip()


def _argn(f):
    names = getattr(f, 'argnames', None) or [None] * len(f.args)
    return list(zip(f.args, names))


def rec_text(r, ind='    '):
    attrs = []
    if r.packed:
        attrs.append('packed')
    if r.align:
        attrs.append('aligned(%d)' % r.align)
    at = ' __attribute__((%s))' % ', '.join(attrs) if attrs else ''
    out = ['%s%s%s {' % (r.kind, at, ' ' + r.tag if r.tag else '')]
    for f in r.fields:
        s = decl(f.t, f.name or '', ind + '    ')
        if f.bits is not None:
            s += ' : %d' % f.bits
        if f.align:
            s += ' __attribute__((aligned(%d)))' % f.align
        out.append(ind + s + ';')
    out.append(ind[4:] + '}')
    return '\n'.join(out)


def rec_def(r):
    s = rec_text(r) + ';'
    if r.pragma:
        s = '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (r.pragma, s)
    return s
