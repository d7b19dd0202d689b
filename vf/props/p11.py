"""Values of macros."""
import random
import struct

from ..common import *

RULE = ('Random object-like macros (integers in every base and suffix, signed, parenthesised, arithmetic expressions in parentheses, floats, '
        'characters, strings with escapes and concatenation, references to earlier macros, redefinitions, no value, comments, continuation '
        'lines, conditional blocks) next to function-like macros and declarations that use the macros. The monitor compares the value in the module '
        'with the value clang gives the macro. A case counts by the values observed.')
ASSUMPTIONS = ['expressions are without overflow of signed integers', 'a reference comes after the definition it refers to']
NAMES = ['MAX', 'min', 'X', 'SIZE', 'kVal', '_A', '__B', 'VERSION', 'a1', 'FLAG_x', 'E', 'L', 'U', 'e1', 'x2', 'Name']


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 80000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=8 + i % 16, via=['string', 'file', 'cli', 'string'][i % 4])


def lit(r, v=None):
    if v is None:
        v = r.choice([0, 1, 7, 8, 9, 10, 255, 4096, 65535, 0xE, 0xF, 0xFE, r.randrange(100), r.randrange(1 << 16), r.randrange(1 << 31)])
    s = r.choice(['%d', '%d', '%d', '0x%x', '0X%X', '0%o', '0x%08X', 'b']) 
    s = ('0b' + bin(v)[2:]) if s == 'b' else s % v
    return s


def value(s):
    s = s.rstrip('lLuU')
    if s[:2] in ('0x', '0X', '0b'):
        return int(s, 0)
    return int(s, 8) if s[0] == '0' else int(s)


SUFF = ['', '', '', 'L', 'U', 'UL', 'LL', 'ULL', 'l', 'u', 'ull', 'LU', 'lu', 'LLU']


def flit(r):
    return r.choice(['%d.%d' % (r.randrange(1000), r.randrange(1000)), '.%d' % r.randrange(1, 100), '%d.' % r.randrange(100),
                     '%de%d' % (r.randrange(1, 99), r.randrange(0, 9)), '%d.%de-%d' % (r.randrange(9), r.randrange(99), r.randrange(1, 9)),
                     '%d.5E+%d' % (r.randrange(9), r.randrange(9))])


CH = [c for c in map(chr, range(32, 127)) if c not in '\'"\\?']
ESC = ['\\n', '\\t', '\\\\', '\\"', "\\'", '\\r', '\\a', '\\b', '\\f', '\\v', '\\101', '\\060', '\\x41', '\\x7e']


def string(r):
    parts = []
    for _ in range(r.choice([0, 1, 2, 5, 12, 30])):
        if r.random() < .12:
            e = r.choice(ESC)
            if e[1] in 'x':
                e += ' '
            parts.append(e)
        elif r.random() < .04:
            parts.append(r.choice('éß€漢'))
        else:
            parts.append(r.choice(CH + ["'"]))
    return '"%s"' % ''.join(parts)


class Mac:
    def __init__(self, kind, text):
        self.kind, self.text = kind, text


def expr(r, env, d=0):
    ints = [n for n, m in env.items() if m.kind == 'int' and m.small]
    k = r.random()
    if d > 2 or k < .4:
        v = r.randrange(0, 1000)
        s = lit(r, v) + r.choice(['', '', '', 'L', 'LL', 'u', 'UL'])
        if d and r.random() < .05:
            return "'%s'" % r.choice(['a', 'Z', '\\n', '0', '\\0'])
        if ints and r.random() < .35:
            return r.choice(ints)
        return s
    a, b = expr(r, env, d + 1), expr(r, env, d + 1)
    if k < .7:
        # what Python means otherwise
        f = r.randrange(8)
        if f < 2:
            t = '%s %s %s%d%s' % (a, r.choice('/%'), r.choice(['', '', '-']), r.randrange(1, 20), r.choice(['', '', 'u']))
        elif f < 4:
            t = '%s %s %s' % (a, r.choice(['<', '>', '<=', '>=', '==', '!=']), b)
        elif f == 4:
            t = '%s %s %s' % (a, r.choice(['&&', '||']), b)
        elif f == 5:
            t = '%s ? %s : %s' % (a, b, expr(r, env, d + 1))
        elif f == 6:
            t = '!%s' % a if a[0] in "('0123456789" else a
        else:
            t = '-(%s)' % a
        return '(%s)' % t
    if k < .9:
        op = r.choice(['+', '-', '*' if d == 2 else '+', '|', '&', '^', ' + ', ' - ', ' | '])
        if op == '-' and b.startswith('-'):
            op = ' - '
        t = '%s%s%s' % (a, op, b)
        return '(%s)' % t if r.random() < .6 or d == 0 else t
    if k < .95:
        return '(%s %s %d)' % (a if a[0] != '-' else '1', r.choice(['<<', '>>']), r.randrange(0, 5))
    return '(~%s)' % a if a[0].isdigit() else a


def new_macro(r, env):
    k = r.random()
    if k < .27:
        v = r.choice([None, None, None, r.randrange(1 << 63), r.randrange(1 << 40)])
        s = lit(r, v)
        if v is not None and v >= 1 << 31:
            s += r.choice(['L', 'LL', 'UL', 'ull', 'LLU'])
        else:
            s += r.choice(SUFF)
        m = Mac('int', s)
        m.small = 'u' not in s.lower() and value(s) < 1000
        return m
    if k < .34:
        m = Mac('int', '-' + lit(r, r.choice([1, 5, 255, 1 << 20])) + r.choice(['', 'L', 'LL']))
        m.small = False
        return m
    if k < .42:
        s = lit(r, r.randrange(1 << 20)) + r.choice(SUFF[:8])
        neg = r.random() < .3 and 'U' not in s
        s = '(%s%s)' % ('-' if neg else '', s)
        if r.random() < .15:
            s = '(%s)' % s
        m = Mac('int', s)
        m.small = 'U' not in s and len(s) < 7
        return m
    if k < .54:
        s = expr(r, env)
        if not s.startswith('('):
            s = '(%s)' % s
        m = Mac('int', s)
        m.small = False
        return m
    if k < .66:
        s = flit(r)
        f = r.random()
        if f < .25:
            s += r.choice('fFlL')
        elif f < .4:
            s = '(%s)' % s
        elif f < .55:
            s = '-' + s + r.choice(['', '', 'f'])
        elif f < .62:
            s = '(-%s)' % s
        return Mac('float', s)
    if k < .72:
        return Mac('char', r.choice(['', '', 'L']) + "'%s'" % r.choice(CH + ['"', '\\n', '\\0', "\\'", '\\\\', '\\t']))
    if k < .84:
        parts = [string(r) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        strs = [n for n, m in env.items() if m.kind == 'str' and m.plain]
        plain = True
        if strs and r.random() < .3:
            parts[r.randrange(len(parts))] = r.choice(strs)
            if len(parts) > 1:
                plain = False
        elif len(parts) == 1 and r.random() < .2:
            parts[0] = r.choice(['u8']) + parts[0]
            plain = False
        m = Mac('str', ' '.join(parts))
        m.plain = plain and len(parts) == 1
        return m
    if k < .92 and env:
        n = r.choice(list(env))
        o = env[n]
        if o.kind not in ('none', 'func') and (o.kind != 'str' or o.plain):
            if o.kind == 'int' and r.random() < .3 and o.text[0].isdigit():
                m = Mac('int', r.choice(['(%s)', '-%s', '(-%s)']) % n)
                m.small = False
                if 'u' in o.text.lower():
                    m = Mac('int', '(%s)' % n)
                    m.small = False
                return m
            m = Mac(o.kind, n)
            m.small = False
            m.plain = getattr(o, 'plain', False)
            return m
    if k < .96:
        return Mac('none', '')
    m = Mac('func', '')
    return m


def run(case, obs):
    r = random.Random(case['seed'])
    env, order, lines = {}, [], []
    dead = set()
    names = set()
    used_in = {}
    for i in range(case['n']):
        while True:
            nm = r.choice(NAMES) + r.choice(['', '', str(r.randrange(100)), '_', '_x'])
            if nm not in names:
                break
        names.add(nm)
        isdead, redef = r.random() < .05, False
        if env and not isdead and r.random() < .06:
            # another definition of a macro that nothing refers to
            cand = [n for n in env if n not in used_in]
            if cand:
                nm = r.choice(cand)
                if r.random() < .7:
                    lines.append('#undef ' + nm)
                del env[nm]
                redef = True
        m = new_macro(r, env)
        if m.kind == 'func':
            text = '%s(%s) %s' % (nm, r.choice(['x', 'a, b', '', '...', 'x, ...']), r.choice(['1', '(1 + 2)', '"s"', '', 'do { } while (0)', '(sizeof(int))']))
        else:
            text = nm + (' ' if m.text else '') + m.text
            for w in re_words(m.text):
                if w in env:
                    used_in[w] = nm
        f = r.random()
        if f < .06:
            text += ' /* %s */' % r.choice(['note', '"q"', '1', "don't"])
        elif f < .1:
            text += ' // %s' % r.choice(['note', '"q"', '(1'])
        elif f < .15 and m.text and m.kind != 'str':
            text = text.replace(' ', ' \\\n   ', 1)
        line = r.choice(['#define ', '#define ', '#define ', '# define  ', '#define\t', '  #define ']) + text
        f = r.random()
        if isdead:
            lines += [r.choice(['#if 0', '#ifdef VF_NOT']), line, '#endif']
            dead.add(nm)
            used_in.pop(nm, None)
            continue
        elif f < .1:
            lines += [r.choice(['#if 1' if redef else '#ifndef %s' % nm, '#if 1', '#ifndef VF_NOT_DEFINED', '#if !defined(VF_NOT)']), line, '#endif']
        else:
            lines.append(line)
        env[nm] = m
        dead.discard(nm)
        if r.random() < .25:
            lines.append(r.choice(['', '/* c */', 'int vf_v%d;' % i, 'struct vf_s%d { int a; };' % i, 'extern int vf_f%d(void);' % i]))
        if m.kind == 'int' and r.random() < .15 and m.text[0].isdigit():
            m.arr = 'vf_a%d' % i
            lines.append('typedef char %s[(%s) %% 100 + 1];' % (m.arr, nm))
    src = '\n'.join(lines) + '\n'
    want = {}
    ints = [n for n, m in env.items() if m.kind in ('int', 'char')]
    flts = [n for n, m in env.items() if m.kind == 'float']
    strs = [n for n, m in env.items() if m.kind == 'str']
    probe = src
    for j, n in enumerate(ints):
        probe += ('const struct { unsigned long long v; char uns; } vf_pi%d = { (unsigned long long)(%s), '
                  '((__typeof__(0 + (%s)))-1) > 0 };\n' % (j, n, n))
    for j, n in enumerate(flts):
        probe += 'const double vf_pd%d = %s;\n' % (j, n)
    for j, n in enumerate(strs):
        probe += 'const char vf_ps%d[] = %s;\n' % (j, n)
    wants = ['vf_pi%d' % j for j in range(len(ints))] + ['vf_pd%d' % j for j in range(len(flts))] + ['vf_ps%d' % j for j in range(len(strs))]
    arrs = [(m.arr, n) for n, m in env.items() if hasattr(m, 'arr')]
    data, _ = probe_data(probe, wants)
    asz = probe_ints(src, ['sizeof(%s)' % a for a, _ in arrs])
    kinds = 'cdefstum'
    # options that turn warnings into errors do not change a value
    strict = r.choice([[], [], [], [], ['-Wall', '-Werror', '-Wno-macro-redefined', '-Wno-unused'], ['-Weverything', '-pedantic'], ['-Wextra', '-Werror=parentheses'], ['-w']])
    if strict:
        try:
            valid_or_skip(src, ['-Wall', '-Werror'] + [o for o in strict if o.startswith('-Wno')])
        except Skip:
            strict = []
    try:
        if case['via'] == 'string':
            text = translate_str(src, strict, kinds)
        else:
            with tmpdir() as d:
                p = os.path.join(d, 'input.h')
                with open(p, 'w') as f:
                    f.write(src)
                if case['via'] == 'file':
                    text = translate_paths([p], strict, kinds)
                else:
                    text = cli_text(['-k', kinds, p] + (['--clang-args=' + ' '.join(strict)] if strict else []), d)
    except Violation:
        raise
    except Exception as e:
        fail('translation of a valid source fails: %s: %s' % (type(e).__name__, str(e)[:300]), src)
    try:
        ns = load(text)
    except Exception as e:
        fail('the generated module does not import: %s: %s' % (type(e).__name__, str(e)[:300]), src, text)
    exported = set(all_of(ns))

    def bad(n, w):
        fail('macro %s is %r in C, %r in the module' % (n, w, ns.get(n, 'absent')), src, text)
    for n, m in env.items():
        if m.kind == 'func':
            if n in exported:
                fail('function-like macro %s has a value in the module' % n, src, text)
            obs.add('function-like')
            continue
        if n not in ns or n not in exported:
            bad(n, m.text)
        if m.kind == 'none':
            if ns[n] is not True:
                bad(n, True)
            obs.add('no value')
    for n in dead - set(env):
        if n in exported or n in ns:
            fail('macro %s is not defined in C' % n, src, text)
    for j, n in enumerate(ints):
        v, uns = struct.unpack_from('<QB', data['vf_pi%d' % j])
        if not uns and v >= 1 << 63:
            v -= 1 << 64
        got = ns[n]
        if env[n].kind == 'char' or "'" in env[n].text:
            if got != v and not (isinstance(got, str) and len(got) == 1 and ord(got) == v):
                bad(n, chr(v))
        elif isinstance(got, bool) or not isinstance(got, int) or got != v:
            bad(n, v)
        obs.add('macro:' + env[n].kind)
        obs.key(n, v)
    for j, n in enumerate(flts):
        v, = struct.unpack('<d', data['vf_pd%d' % j])
        got = ns[n]
        if not isinstance(got, (int, float)) or (got != v and struct.unpack('f', struct.pack('f', got))[0] != v):
            bad(n, v)
        obs.add('macro:float')
        obs.key(n, v)
    for j, n in enumerate(strs):
        v = data['vf_ps%d' % j][:-1]
        got = ns[n]
        if isinstance(got, str):
            got = got.encode('utf8')
        if got != v:
            bad(n, v)
        obs.add('macro:str')
        obs.key(n, v)
    for (a, n), s in zip(arrs, asz):
        if ctypes.sizeof(ns[a]) != s:
            fail('an array sized with macro %s has %d elements in C, %d in the module' % (n, s, ctypes.sizeof(ns[a])), src, text)
        obs.add('array sized by a macro')
    obs.sample(dict(source=src[:500]))


def re_words(s):
    import re
    return re.findall(r'[A-Za-z_]\w*', s)
