"""Spelling: programs that mean the same give the same module."""
import random
import re

from ..common import *
from ..rich import *
from ..sig import diff, module_sig

RULE = ('Random programs are rewritten in ways that C gives no meaning to: white space, line splices, digraphs, order of specifiers and qualifiers, parenthesised and combined '
        'declarators, constant expressions for sizes and widths, redeclarations, definitions of functions, dead conditional code, line markers, declarations produced by macros, '
        'operator _Pragma, alternate keywords, attributes without effect, empty declarations. The compiler checks the rewritten program; the monitor compares the two modules. A case counts by the text and the rewriting.')
ASSUMPTIONS = ['the compiler accepts the rewritten program: it then means the same by construction']
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\.?\d(?:[eEpP][+-]|[\w.])*|\.\.\.|<<|>>|->|\+\+|--|&&|\|\||[<>=!]=|##?|[^\s\w]|\n')
WAYS = ['space', 'digraph', 'order', 'paren', 'join', 'const', 'redecl', 'body', 'dead', 'line', 'macro', 'typemacro', 'pragma', 'alt', 'attr', 'empty', 'typeof', 'idmacro']


def cases(tier, seed):
    n = 1000 if tier == 'quick' else 40000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 12, ways=[WAYS[i % len(WAYS)]] if i % 3 else 'some', kinds=['cdefstu', 'cdefmstu'][i // 5 % 2])


def code_lines(text, f):
    """apply to the parts of a text that are not preprocessor lines"""
    out, cur = [], []
    for line in text.split('\n'):
        if line.lstrip().startswith('#'):
            if cur:
                out.append(f('\n'.join(cur)))
                cur = []
            out.append(line)
        else:
            cur.append(line)
    if cur:
        out.append(f('\n'.join(cur)))
    return '\n'.join(out)


def space(r, text):
    def f(code):
        toks = [t for t in TOK.findall(code) if t != '\n']
        out = []
        prev = ''
        for t in toks:
            glue = prev and re.match(r'\w', prev[-1]) and re.match(r'\w', t[0]) or prev and not re.match(r'\w', prev[-1]) and not re.match(r'\w', t[0])
            s = r.choice(['', '', ' ', ' ', '\n', '\t', '  \n\n ', '/**/', ' /* x */ ', ' // y\n', ' \\\n ', '\x0c', '\v', '\\\n'])
            if glue and not s.strip('\\\n') or s == '' and prev[-1:] == '/' or prev[-1:] == '/' and s[:1] == '/':
                s = ' '
            out.append(s + t)
            prev = t
        return ''.join(out)
    return code_lines(text, f)


def digraph(r, text):
    m = {'{': '<%', '}': '%>', '[': '<:', ']': ':>'}

    def f(code):
        return re.sub(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[][{}]', lambda k: ' ' + m[k.group(0)] + ' ' if k.group(0) in m and r.random() < .6 else k.group(0), code)
    return code_lines(text, f)


SPEC = re.compile(r'(?<![\w"])(?:(?:unsigned|signed|long|short|int|char|double|float|const|volatile)\b\s*){1,6}')


def order(r, text):
    def g(k):
        w = k.group(0).split()
        if '"' in k.group(0) or len(w) < 1:
            return k.group(0)
        if 'int' not in w and 'char' not in w and 'float' not in w and 'double' not in w and r.random() < .5 and set(w) & {'long', 'short', 'unsigned', 'signed'}:
            w.append('int')
        elif 'int' in w and set(w) & {'long', 'short', 'unsigned'} and r.random() < .5:
            w.remove('int')
        elif w.count('int') == 1 and r.random() < .3:
            w.append('signed') if 'unsigned' not in w and 'signed' not in w else None
        r.shuffle(w)
        return ' '.join(w) + ' '

    def f(code):
        out = []
        for line in code.split('\n'):
            # qualifiers after a * belong to the pointer
            if '*' in line or '(' in line or '"' in line or ':' in line:
                line = re.sub(r'^(\s*(?:typedef |extern |static )?)((?:(?:unsigned|signed|long|short|int|char|double|float)\b\s*){1,6})', lambda k: k.group(1) + g(re.match(r'(?s)(.*)', k.group(2))), line) if ':' not in line else line
            else:
                line = SPEC.sub(g, line)
            m = re.match(r'(typedef) ([\w ]+?) (\w+;)$', line)
            if m and r.random() < .4:
                line = '%s typedef %s' % (m.group(2), m.group(3))
            out.append(line)
        return '\n'.join(out)
    return code_lines(text, f)


def paren(r, text):
    def f(code):
        return '\n'.join(re.sub(r'^(\s*(?:typedef |extern |static )?(?:(?:unsigned|signed|long|short|int|char|double|float|struct|union|enum|const|volatile)\b\s*)*(?:\w+ )??\**)(\w+)((?:\[\d+\])*( = [^;]*)?;)$',
                                lambda k: '%s(%s)%s' % (k.group(1) if k.group(1).endswith(('*', ' ')) else k.group(1) + ' ', k.group(2), k.group(3)) if k.group(1).strip() and r.random() < .7 else k.group(0), line)
                         for line in code.split('\n'))
    return code_lines(text, f)


def join(r, text):
    """combine declarations of one type"""
    lines = text.split('\n')
    out = []
    rx = re.compile(r'^(\s*)((?:extern |typedef )?(?:(?:unsigned|signed|long|short|int|char|double|float|const|volatile)\b ?)+|(?:typedef |extern )?(?:struct|union|enum) \w+ )([\w*]*\w(?:\[\w+\])*(?: ?: ?\d+)?(?: = [^,;{}"]*)?);$')
    for line in lines:
        a = rx.match(line)
        b = rx.match(out[-1]) if out else None
        # a bit-field list or several declarators
        c = re.match(r'^(\s*)(.*);(\s*)$', out[-1]) if out else None
        if a and c and out[-1].startswith(a.group(1)) and getattr(join, 'base', None) == a.group(2).strip() and r.random() < .8:
            out[-1] = out[-1][:-1] + ', ' + a.group(3) + ';'
            continue
        join.base = a.group(2).strip() if a else None
        out.append(line)
    join.base = None
    return '\n'.join(out)


def number(r, n):
    k = int(n)
    return r.choice(['%d' % k, '0x%x' % k, '0%o' % k, '%du' % k, '(%d)' % k, '%d + %d' % (k - k // 2, k // 2), '%d - 1' % (k + 1), '%d * 1' % k, '(int)sizeof(char[%d])' % k if k else '0', '1 ? %d : 9' % k, '%dL' % k, '~%d' % ~k,
                     '(%d << 1) >> 1' % k if k < 1 << 20 else '%d' % k, "'\\%o'" % k if 0 < k < 128 else '%d' % k, "'%c'" % k if 48 <= k < 90 else '%d' % k])


def const(r, text):
    def f(code):
        code = re.sub(r'\[(\d+)\]', lambda k: '[%s]' % number(r, k.group(1)), code)
        code = re.sub(r'(\w ?: )(\d+)(;)', lambda k: k.group(1) + number(r, k.group(2)) + k.group(3), code)
        return code
    return code_lines(text, f)


def rewrite(r, ways, ch):
    """the text of the program, rewritten"""
    out = []
    head = []
    late = []
    nm = [0]

    def fresh():
        nm[0] += 1
        return 'VFM_%d' % nm[0]
    for c in ch:
        t = c.text
        plain = not any(l.lstrip().startswith('#') for l in t.split('\n'))
        if 'order' in ways:
            t = order(r, t)
        if 'paren' in ways:
            t = paren(r, t)
        if 'const' in ways:
            t = const(r, t)
        if 'alt' in ways:
            t = re.sub(r'__attribute__\(\((packed|aligned)', lambda k: r.choice(['__attribute((', '__attribute__((', '__attribute__((']) + r.choice(['__%s__', '%s']) % k.group(1), t)
            if '"' not in t:
                t = re.sub(r'(?<!\w)(const|volatile|signed|inline)\b', lambda k: r.choice(['__%s__', '__%s', '%s']) % k.group(1), t)
        if 'attr' in ways and plain:
            if c.kind == 'func':
                t = r.choice(['__attribute__((deprecated)) ', '__attribute__((unused)) ', '__extension__ ', 'extern ', '_Noreturn ' if t.startswith('void ') and '*' not in t.split('(')[0] else '', '__attribute__((nothrow, const)) ']) * (not t.startswith('extern')) + t
                if r.random() < .3 and t.endswith(');'):
                    t = t[:-1] + r.choice([' __attribute__((pure));', ' __attribute__((visibility("default")));', ' __attribute__((nonnull));' if '*' in t.split('(', 1)[1] else ' __attribute__((cold));'])
            elif c.kind == 'var' and ' = ' not in t and not t.startswith(('static', 'const')) and t.endswith(';'):
                t = '__extension__ ' + t if r.random() < .5 else t[:-1] + ' __attribute__((unused));'
            elif r.random() < .5:
                t = '__extension__ ' + t
        if 'typeof' in ways and plain and '"' not in t:
            t = re.sub(r'(?m)^(\s*(?:typedef )?)((?:(?:unsigned|signed|long|short|int|char|double|float)\b ?)+|(?:struct|union) \w+ )(?=[\w*]+(?:\[\w+\])*;$)', lambda k: '%s__typeof__(%s) ' % (k.group(1), k.group(2).strip()) if r.random() < .6 else k.group(0), t)
        if 'body' in ways and c.kind == 'func' and plain and t.endswith(');') and r.random() < .6 and '...' not in t:
            t = ('' if t.startswith(('extern', 'static')) else r.choice(['', 'static ', 'static inline ', 'extern inline '])) + t[:-1] + ' { __builtin_trap(); }'
        elif 'redecl' in ways and plain:
            if c.kind in ('func',) or c.kind == 'td' and '{' not in t or c.kind == 'var' and t.startswith('extern'):
                if r.random() < .5:
                    t += '\n' + t
                if r.random() < .3:
                    late.append(t)
            elif c.kind == 'rec' and c.obj.tag:
                f = '%s %s;' % (c.obj.kind, c.obj.tag)
                t = r.choice(['', f + '\n', f + f + '\n']) + t + r.choice(['', '\n' + f])
            elif c.kind == 'var' and '=' not in t and not t.startswith(('static', 'extern', 'const')):
                t = r.choice(['', 'extern ' + t + '\n']) + t + r.choice(['', '\nextern ' + t])
        if 'typemacro' in ways and plain and '"' not in t:
            def tm(k):
                m = fresh()
                out.append('#define %s %s' % (m, k.group(2).strip()))
                if r.random() < .3:
                    m2 = fresh()
                    out.append('#define %s(x) x' % m2)
                    m = '%s(%s)' % (m2, m)
                return '%s%s ' % (k.group(1), m)
            t = re.sub(r'(?m)^(\s*(?:typedef )?)((?:(?:unsigned|signed|long|short|int|char|double|float)\b ?)+|(?:struct|union|enum) \w+ )(?=[\w*]+)', lambda k: tm(k) if r.random() < .5 else k.group(0), t)
        if 'idmacro' in ways and plain and c.kind in ('func', 'rec', 'enum', 'td', 'var'):
            ids = [n for n in c.names if re.search(r'\b%s\b' % n, t)]
            if ids:
                n = r.choice(ids)
                m = fresh()
                if len(n) > 2 and r.random() < .5:
                    out.append('#define %s(a, b) a##b' % m)
                    e = '%s(%s, %s)' % (m, n[:1], n[1:])
                else:
                    out.append('#define %s %s' % (m, n))
                    e = m
                if re.match(r'[A-Za-z_]', n[1:2] or '1') or e == m:
                    t = re.sub(r'\b%s\b' % n, lambda k: e, t) if '"' not in t else t
        if 'macro' in ways and plain and r.random() < .5:
            m = fresh()
            k = r.random()
            if k < .4:
                head.append('#define %s(...) __VA_ARGS__' % m) if r.random() < .5 else out.append('#define %s(...) __VA_ARGS__' % m)
                t = '%s(%s)' % (m, t)
            elif k < .8:
                out.append('#define %s %s' % (m, t.replace('\n', ' \\\n')))
                t = m
            else:
                out.append('#define %s(x) %s' % (m, t.replace('\n', ' ')))
                t = '%s(1)' % m
        if 'pragma' in ways and not plain and c.kind != 'macro':
            t = re.sub(r'(?m)^\s*#\s*pragma (.*)$', lambda k: '_Pragma("%s")' % k.group(1) if r.random() < .7 else k.group(0), t)
        if 'join' in ways and plain:
            t = join(r, t)
        if 'digraph' in ways:
            t = digraph(r, t)
        if 'space' in ways and c.kind != 'macro':
            t = space(r, t)
        if 'dead' in ways and r.random() < .6:
            junk = r.choice(['int %s;' % (c.names[0] if c.names else 'x'), 'struct { broken', '#error no', '#include <no_such.h>', 'typedef double vf_dead_t;', '#define VFM_DEAD 1'])
            t = r.choice(['#if 1\n%s\n#endif', '#if 0\n%s\n#endif\n%s' % (junk, '%s'), '#ifdef VFM_NOT\n%s\n#else\n%s\n#endif' % (junk, '%s'), '#ifndef VFM_NOT\n%%s\n#else\n%s\n#endif' % junk,
                          '#if defined(__clang__) && __STDC__\n%%s\n#elif 1\n%s\n#endif' % junk]).replace('%%s', '%s').replace('%s', t, 1) if True else t
        if 'line' in ways and r.random() < .5:
            out.append(r.choice(['#line 1', '#line 77 "other.h"', '# 12 "some where.c"', '#line 2000000000', '#line 5 "/no/such/dir/x.h"', '# 1 "/usr/include/stdio.h" 3', '# 5 "a.h" 1\n# 1 "a.h" 2']))
        if 'empty' in ways and r.random() < .5:
            out.append(r.choice(['_Static_assert(sizeof(char) == 1, "one");', '_Static_assert(1, "");\n_Static_assert(2 > 1, "x");', '__asm__("");', '#pragma once_no', '#ident "x"', '#', '', '#pragma GCC diagnostic push\n#pragma GCC diagnostic pop', '_Pragma("message(\\"hi\\")")', '__extension__ ;' if False else '#pragma mark -- x "']))
        out.append(t)
    return '\n'.join(head + out + late) + '\n'


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    ways = case['ways'] if case['ways'] != 'some' else r.sample(WAYS, r.randrange(2, 7))
    src = rewrite(r, ways, ch)
    try:
        valid_or_skip(src)
    except Skip:
        ways = [w for w in ways if w not in ('order', 'paren', 'typeof', 'join')]
        src = rewrite(r, ways, ch)
        valid_or_skip(src)
    a, _ = tr_ns(text_of(ch), [], case['kinds'])
    b, text = tr_ns(src, [], case['kinds'])
    want, got = module_sig(a), module_sig(b)
    got = {k: v for k, v in got.items() if not (k.startswith('VFM_') and k not in want)}
    w = diff(want, got, 'plain', 'rewritten')
    if w:
        fail('rewriting %s: %s' % (', '.join(ways), w), src, text)
    for x in ways:
        obs.add('way:' + x)
    obs.add('names compared', len(got))
    obs.key(src, case['kinds'])
    obs.sample(dict(ways=ways, source=src[:400]))
