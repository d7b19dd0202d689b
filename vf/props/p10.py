"""Values of variables."""
import random
import struct

from ..common import *
from ..values import BITS, rand_int, rand_float

RULE = ('Random global variables: integers of every type in every base and suffix, signed and parenthesised, floats in every notation, '
        'characters, strings (concatenated, in arrays, through pointers), arrays of one and two dimensions, enumerators, '
        'expressions, variables of record and pointer types without a value, declared before or after their definition. The monitor compares '
        'the value in the module with the bytes clang emits for the variable. A case counts by the values observed.')
ASSUMPTIONS = ['initial values are constants that fit their type; negative literals of unsigned variables may keep their sign']
FMT = {'schar': 'b', 'uchar': 'B', 'short': 'h', 'ushort': 'H', 'int': 'i', 'uint': 'I', 'long': 'q', 'ulong': 'Q',
       'llong': 'q', 'ullong': 'Q', 'float': 'f', 'double': 'd', 'bool': '?', 'char': 'b'}

UNIT = {'int': 4, 'uint': 4, 'ushort': 2}


def cases(tier, seed):
    n = 1800 if tier == 'quick' else 80000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=6 + i % 10, via='file' if i % 3 == 0 else 'string')


def int_text(r, v, kind):
    neg, a = v < 0, abs(v)
    if v == -(1 << 63):
        return None
    k = r.random()
    if k < .5:
        s = str(a)
    elif k < .75:
        s = r.choice(['0x%x', '0X%X', '0x%08x']) % a
    elif k < .9:
        s = '0%o' % a
    else:
        s = r.choice(['0b', '0B']) + bin(a)[2:]
    if a >= 1 << 63:
        s += r.choice(['ULL', 'UL', 'ull', 'uLL'])
    elif a >= 1 << 31:
        s += r.choice(['L', 'LL', 'll', 'l'] + ([] if neg else ['UL', 'ull', 'LLU']))
    elif r.random() < .3:
        s += r.choice(['L', 'LL', 'l'] + ([] if neg else ['U', 'u', 'UL', 'ull', 'LLU', 'LU']))
    if r.random() < .1:
        s = '(' + s + ')'
    if neg:
        s = r.choice(['-', '- ', '-']) + s
    elif r.random() < .05:
        s = '+' + s
    if r.random() < .1:
        s = '(' + s + ')'
    return s


def float_text(r, v):
    neg, a = v < 0, abs(v)
    k = r.random()
    if k < .4:
        s = repr(a)
        if 'e' not in s and '.' not in s:
            s += '.0'
    elif k < .6:
        s = a.hex()
    elif k < .8:
        s = '%.17e' % a
    elif k < .9 and a == int(a) and a < 1e6:
        s = '%d.' % a
    else:
        s = r.choice(['.5', '.25e1', '5.', '1e3', '125.e-3', '0.0', '1E+5', '1e999', '(1.0/0.0)', '(0.0/0.0)', '__builtin_inf()', '__builtin_inff()', '__builtin_nan("")', '__builtin_huge_val()', '3e38', '1e-310', '1e-46'])
        if not s[-1].isdigit() and s[-1] != '.':
            return ('-' if neg else '') + s
    if r.random() < .2:
        s += r.choice(['f', 'F', 'l', 'L'])
    if r.random() < .1:
        s = '(%s)' % s
    return ('-' if neg else '') + s


ALPHA = ''.join(chr(c) for c in range(32, 127) if chr(c) not in '"\\?')


ESCAPES = ['\\n', '\\t', '\\\\', '\\"', "\\'", '\\0', '\\?', '\\a', '\\b', '\\f', '\\v', '\\r', '\\101', '\\7', '\\012', '\\x41', '\\xA', '\\u00e9', '\\U0001F600', '\\e',
           '\u00e9', '\u20ac', '%s', '\\303\\251', '{', '#', '//', '/*']
CESC = ["'\\n'", "'\\0'", "'\\''", "'\\\\'", "'\\x7e'", "'\\101'", "'\\t'", "'\"'", "'\\\"'", "'\\177'"]


def strings(r):
    s = [r.choice(ALPHA) for _ in range(r.choice([0, 1, 3, 8, 30]))]
    if r.random() < .3:
        for _ in range(r.randrange(1, 4)):
            s.insert(r.randrange(len(s) + 1), r.choice(ESCAPES))
    for i in range(len(s) - 1):
        if len(s[i]) > 1 and s[i + 1][0].isalnum():
            # no digit joins an escape
            s[i] += '.'
    return ''.join(s)


class Dress:
    """other spellings of the same constants"""

    def __init__(self, r, g):
        self.r, self.g, self.before = r, g, []

    def macro(self, t):
        n = self.g.name('VF_')
        self.before.append('#define %s %s' % (n, ' '.join(t.split('\n'))))
        return n

    def __call__(self, t, ty):
        """an arithmetic constant of a type"""
        r = self.r
        k = r.random()
        if k < .7:
            return t
        if k < .8:
            return self.macro(t)
        if k < .84:
            return self.macro(self.macro('(%s)' % t))
        if k < .88:
            return '(%s)%s' % (ty, t if t[0] not in '+-' else '(%s)' % t)
        if k < .91:
            n = self.g.name('VF_')
            self.before.append('#define %s(x) x' % n)
            return '%s(%s)' % (n, t)
        if k < .94:
            return '%d ? %s : %s' % (r.randrange(2), t, r.choice(['7', '0', t]))
        if k < .96 and ty not in ('float', 'double'):
            return '%s(%s)' % (r.choice(['!', '~', '-', '!!', '+']), r.randrange(0, 100))
        if k < .98 and ty not in ('float', 'double'):
            return r.choice(['sizeof(long)', "'a'", "'a' + 1", 'sizeof "abc"', '(int)2.5', '10 / 3', '7 > 3', '__builtin_bswap32(%d)' % r.randrange(1 << 32), '__builtin_constant_p(3)', '__builtin_strlen("abc")', '__builtin_popcount(%d)' % r.randrange(1000), '__builtin_offsetof(struct { char a; long b; }, b)', '__builtin_expect(4, 1)'])
        return '-' + self.macro('(%s)' % t.lstrip('+-')) if t.lstrip('+-')[0] != '9' else t


def designate(r, lit, n):
    at = r.sample(range(n), len(lit))
    return ['[%d] = %s' % (i, t) if k == 0 or at[k - 1] + 1 != i or r.random() < .5 else t for k, (i, t) in enumerate(zip(at, lit))]


def same(got, w, kind):
    # -1 is left as it is written for an unsigned variable
    return got == w or got != got and w != w or kind == 'uchar' and got == chr(w) or kind in BITS and kind not in SIGNED and isinstance(got, int) and got < 0 and got + (1 << BITS[kind]) == w


def r_decl(kind, nm):
    return '%s %s' % (SPELL[kind][0], nm)


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'], fptr=True)
    used = g.used
    g.program(r.randrange(1, 4), dict(rec=4, fwd=0, enum=3, td=1))
    head = g.text()
    out, vs = [], []
    dress, copies = Dress(r, g), []
    for i in range(case['n']):
        nm = g.name()
        k = r.random()
        qual = r.choice(['', '', '', 'const ', 'static ', 'static const ', 'volatile '])
        if k < .38:
            kind = r.choice(INTS)
            v = rand_int(r, BITS[kind], kind in SIGNED)
            t = int_text(r, v, kind)
            if t is None:
                continue
            ty = Sc(kind, r.choice(SPELL[kind]))
            out.append((nm, qual + decl(ty, nm), dress(t, ty.spell)))
            vs.append((nm, 'int', kind, qual))
        elif k < .50:
            kind = r.choice(['float', 'double'])
            t = float_text(r, rand_float(r, kind)) if r.random() < .85 else int_text(r, r.randrange(-99, 99), 'int')
            out.append((nm, qual + '%s %s' % (kind, nm), dress(t, kind)))
            vs.append((nm, 'float', kind, qual))
        elif k < .56:
            c = r.choice([c for c in ALPHA if c != "'"])
            kind = r.choice(['char', 'char', 'uchar'])
            if r.random() < .3:
                t = int_text(r, r.randrange(0, 128), 'int')
            else:
                t = "'%s'" % c if r.random() < .8 else r.choice(CESC)
            if r.random() < .2:
                t = dress.macro(t)
            out.append((nm, qual + decl(Sc(kind), nm), t))
            vs.append((nm, 'chr', kind, qual))
        elif k < .66:
            parts = [strings(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            s = ''.join(parts)
            t = r.choice([' ', '\n  ', '']).join('"%s"' % p for p in parts)
            if r.random() < .1:
                t = dress.macro(t)
            lit = t
            f = r.random()
            if f < .12:
                kind, pre = r.choice([('int', 'L'), ('uint', 'U'), ('ushort', 'u'), ('char', 'u8'), ('uchar', ''), ('schar', ''), ('uchar', 'u8')])
                lit = t = ' '.join('%s"%s"' % (pre, p) for p in parts)
                out.append((nm, qual + '%s %s[%s]' % (r.choice(SPELL[kind]), nm, r.choice(['', len(s) + 2])), t))
            elif f < .4:
                out.append((nm, qual + 'char %s[]' % nm, t))
            elif f < .6:
                out.append((nm, qual + 'char %s[%d]' % (nm, len(s) + r.randrange(1, 5)), t))
            else:
                out.append((nm, '%schar *%s' % (qual, nm), t))
            vs.append((nm, 'str', (len(copies), kind if f < .12 else 'char'), qual))
            copies.append(r_decl(kind if f < .12 else 'char', 'vf_copy%d[]' % len(copies)) + ' = %s;\n' % lit)
        elif k < .76:
            kind = r.choice(INTS)
            n = r.randrange(1, 6)
            m = r.randrange(1, n + 1)
            lit = [int_text(r, rand_int(r, BITS[kind], kind in SIGNED) or 1, kind) or '1' for _ in range(m)]
            lit = [dress(x, Sc(kind).spell) for x in lit]
            if r.random() < .2:
                lit = designate(r, lit, n)
            out.append((nm, qual + '%s %s[%s]' % (Sc(kind).spell, nm, n if r.random() < .6 else ''),
                        '{ %s%s }' % (', '.join(lit), r.choice(['', ',']))))
            vs.append((nm, 'arr', kind, qual))
        elif k < .79:
            kind = r.choice(['float', 'double'])
            lit = [dress(float_text(r, rand_float(r, kind)), kind) for _ in range(r.randrange(1, 5))]
            if r.random() < .2:
                lit = designate(r, lit, len(lit))
            out.append((nm, qual + '%s %s[]' % (kind, nm), '{ %s }' % ', '.join(lit)))
            vs.append((nm, 'arr', kind, qual))
        elif k < .82:
            kind = r.choice(INTS)
            a, b = r.randrange(1, 4), r.randrange(1, 4)
            lit = ', '.join('{ %s }' % ', '.join(str(r.randrange(0, 100)) for _ in range(b)) for _ in range(a))
            out.append((nm, qual + '%s %s[%d][%d]' % (Sc(kind).spell, nm, a, b), '{ %s }' % lit))
            vs.append((nm, 'arr2', (kind, b), qual))
        elif k < .86 and g.enums:
            e = r.choice(g.enums)
            n, v = r.choice(e.resolved())
            out.append((nm, qual + '%s %s' % (e.handle, nm), n))
            vs.append((nm, 'val', v, qual))
        elif k < .89:
            a, b, c = (r.randrange(1, 50) for _ in range(3))
            t = r.choice(['%d + %d * %d', '(%d + %d) * %d', '%d - %d - %d', '%d << 2 | %d ^ %d', '%d %% %d + %d', '-%d + %d & %d']) % (a, b, c)
            out.append((nm, qual + 'int %s' % nm, t))
            vs.append((nm, 'int', 'int', qual))
        else:
            # no value
            f = r.random()
            if f < .4:
                kind = r.choice(INTS + ['float', 'double', 'bool'])
                out.append((nm, decl(Sc(kind), nm), None))
                vs.append((nm, 'zero', kind, ''))
            elif f < .6 and g.recs:
                rec = r.choice(g.recs)
                out.append((nm, decl(rec, nm), None))
                vs.append((nm, 'rec', rec, ''))
            elif f < .7 and g.recs:
                rec = r.choice([x for x in g.recs])
                t = Arr(rec, r.randrange(1, 4))
                out.append((nm, decl(t, nm), None))
                vs.append((nm, 'recarr' if rec.kind == 'struct' else 'skip', t, ''))
            else:
                t = Ptr(r.choice([Sc(x) for x in INTS] + g.recs + [Sc('void')]))
                out.append((nm, decl(t, nm), None))
                vs.append((nm, 'null', t, ''))
    lines = dress.before
    for nm, d, t in out:
        full = d + (' = %s' % t if t is not None else '') + ';'
        k = r.random()
        if k < .12 and 'static' not in d:
            lines.append('extern ' + d + ';')
            lines.insert(r.randrange(len(lines), len(lines) + 1), full)
        elif k < .16 and 'static' not in d and 'const' not in d and not d.endswith('[]'):
            lines.append(d + ';')
            lines.append(full)
        elif k < .2 and 'static' not in d:
            lines.append(full)
            lines.append('extern ' + d + ';')
        else:
            lines.append(full)
    body = '\n'.join(lines) + '\n'
    src = head + body
    keep = 'const void *const vf_keep[] = { %s };\n' % ', '.join('&' + v[0] for v in vs)
    want = [v[0] for v in vs if v[1] in ('int', 'float', 'chr', 'arr', 'arr2')]
    keep += ''.join(copies)
    data, _ = probe_data(src + keep, want + ['vf_copy%d' % i for i in range(len(copies))])
    ref = Reference(g)
    ref.src = src
    ns, text = run_tr(ref, case, [])
    m = ref.matcher(ns)
    exported = all_of(ns)
    for nm, how, x, qual in vs:
        if nm not in ns:
            fail('variable %s is not in the module' % nm, src, text)
        if nm not in exported:
            fail('variable %s is not exported' % nm, src, text)
        got = ns[nm]
        obs.add('var:' + how)

        def bad(w):
            fail('%s is %r in C, %r in the module' % (nm, w, got), src, text)
        if how == 'int':
            w, = struct.unpack('<' + FMT[x], data[nm])
            if x == 'uchar' and got == chr(w):
                pass
            elif isinstance(got, bool) or not isinstance(got, int) or not same(got, w, x):
                bad(w)
        elif how == 'float':
            w, = struct.unpack('<' + FMT[x], data[nm])
            if not isinstance(got, (int, float)) or (ctypes.c_float(got).value if x == 'float' else float(got)) != w and not (got != got and w != w):
                bad(w)
        elif how == 'chr':
            w = data[nm][0]
            if not (got == chr(w) or got == w):
                bad(chr(w))
        elif how == 'str':
            w = data['vf_copy%d' % x[0]]
            u = UNIT.get(x[1], 1)
            if not isinstance(got, str):
                bad(w)
            if u == 1:
                b = got.encode('utf-8', 'surrogateescape')
            else:
                b = got.encode({2: 'utf-16-le', 4: 'utf-32-le'}[u])
            # the terminator is left out
            if b != w[:-u]:
                bad(w)
        elif how == 'arr':
            n = len(data[nm]) // struct.calcsize(FMT[x])
            w = list(struct.unpack('<%d%s' % (n, FMT[x]), data[nm]))
            if not isinstance(got, list) or not got or len(got) > n:
                bad(w)
            gg = [ctypes.c_float(v).value if x == 'float' else v for v in got]
            if not all(same(a, b, x) for a, b in zip(gg, w)) or any(w[len(gg):]):
                bad(w)
        elif how == 'arr2':
            kind, b = x
            n = len(data[nm]) // struct.calcsize(FMT[kind])
            w = list(struct.unpack('<%d%s' % (n, FMT[kind]), data[nm]))
            w = [w[i:i + b] for i in range(0, n, b)]
            if got != w:
                bad(w)
        elif how == 'val':
            w = x
            if got != x:
                bad(x)
        elif how == 'zero':
            w = 0
            if got != 0 and not (x in ('uchar', 'bool', 'char') and got == '\x00'):
                bad(0)
        elif how == 'rec':
            w = x.handle
            if not (got is m.rec_class(x) or isinstance(got, m.rec_class(x))):
                bad(w)
        elif how == 'recarr':
            w = 'array'
            if not isinstance(got, m.rec_class(x.t) * x.n) or any(bytes(got)):
                bad(decl(x, ''))
        elif how == 'null':
            w = None
            ok = not got if not isinstance(got, type) else False
            if not ok:
                bad('null')
            if not isinstance(got, int) and got is not None:
                try:
                    m.match(type(got), x, nm)
                except Mismatch as e:
                    fail(str(e), src, text)
        else:
            w = None
        obs.key(how, str(w))
    obs.sample(dict(source=body[:500]))
