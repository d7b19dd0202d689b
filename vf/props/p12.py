"""Arbitrary preprocessor content."""
import keyword
import random

from ..common import *

RULE = ('Random programs with 10 to 40 arbitrary macros: random sequences of tokens (numbers of every form, identifiers declared or not, '
        'keywords of C and Python, names of declarations, strings, characters, punctuation, unbalanced brackets, stringification), function-like, '
        'attributes, aliases of declarations, redefinitions, pragmas, line markers. The monitor imports the module, checks that every exported name '
        'exists, and matches every declaration with the declared type as if there were no macros. A case counts by its source.')
ASSUMPTIONS = ['macros do not take the name of a declaration, unless they expand to the same name',
               'no macro takes a name of the Python support code (ctypes, Structure, Union, ...)']
PYK = [k for k in keyword.kwlist] + ['print', 'list', 'str', 'int', 'range', 'len', 'type', 'id', 'self', 'exec']
TOK = (['+', '-', '*', '/', '%', '<<', '>>', '&', '|', '^', '~', '!', '?', ':', ',', ';', '.', '->', '=', '==', '!=', '<=', '&&', '||', '...',
        '(', ')', '[', ']', '{', '}', '++', '--', '+=', '@', '$', '`', '\\'] +
       ['int', 'unsigned', 'char', 'struct', 'void', 'sizeof', 'return', 'if', 'else', 'while', 'do', 'for', 'static', 'const', 'inline', 'extern',
        '__attribute__', '__extension__', '__asm__', '__typeof__', '_Static_assert', '__FILE__', '__LINE__', '__COUNTER__', '__DATE__', 'NULL', 'true',
        'False', 'None', 'True', '__builtin_expect', '__func__'] +
       ['1', '0', '08', '0x', '0xg', '1.2.3', '1e+', '1e', '1..2', '0b2', '0x1p-3', '1.0fF', '5UU', '12abc', '1_000', '0xFFFFFFFFFFFFFFFFFFFF',
        '1e400', '00', '0.', '.0', '1.e5L', '077777', '3.f', '0xe+1', '1i', '2.5q'] +
       ['"s"', '"a\\n"', '"%d" ', '"\\x41"', '"\'"', "'a'", "'\\''", "'\\n'", "'ab'", 'L"w"', 'u"x"', 'U\'x\'', 'u8"z"', '"\\\\"', '"\\""', "'\"'", '""',
        '"\\u00e9"', '"\\N"', '"\\x"', '"\\777"', 'R"(raw)"', '"{}"', '"#"', '"""', "'''", '"a" "b"'])


def cases(tier, seed):
    n = 1100 if tier == 'quick' else 60000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=10 + i % 30, via=['string', 'file', 'cli'][i % 3],
                   flags=[[], ['-c'], ['-e'], ['-d'], ['-c', '-d', '-e']][i // 3 % 5] if i % 3 == 2 else [])


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'], int128=False)
    g.program(r.randrange(2, 7))
    decls = [x.tag for x in g.enums] + [t.name for t in g.tds] + [x.tag for x in g.recs if getattr(x, 'tag', None)]
    free = ['M%d' % i for i in range(20)] + ['m_%s' % c for c in 'abcdef'] + ['__m%d' % i for i in range(4)] + ['_', '__', 'é1' if False else 'e_1']
    pyk = [k for k in PYK if k not in g.used and k not in KEYC]
    head, mid, expect_absent = [], [], set()
    seen = {}
    for i in range(case['n']):
        k = r.random()
        nm = r.choice(free) if r.random() < .85 else r.choice(pyk)
        if nm in g.used:
            continue
        toks = [r.choice(TOK) if r.random() < .75 else r.choice(decls + free + pyk + ['undeclared_x', 'x']) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6, 10]))]
        if r.random() < .12:
            toks = [r.choice(['-', '+', '~', '(', '!', '&', '*', '#'])] + toks
        sep = r.choice([' ', ' ', ''])
        body = sep.join(toks)
        if k < .25:
            args = r.choice(['', 'x', 'x, y', 'a,b,c', '...', 'x, ...', ' x ', 'fmt, args...'])
            body = body.replace('#', '')
            if 'x' in args and r.random() < .4:
                body += r.choice([' #x', ' x##1', ' (x)', ' x', ' do { (x); } while (0)'])
            line = '#define %s(%s) %s' % (nm, args, body)
            fn = True
        else:
            if r.random() < .08:
                # ordinary patterns of real headers
                body = r.choice(['__attribute__((packed))', '__attribute__((visibility("default")))', 'extern "C" {', '}', 'do { } while (0)', 'const', 'int',
                                 'struct x', '(*(volatile unsigned *)0x40021000)', '((void *)0)', '__restrict', '0, 1, 2', '{ 1, 2 }', '{0}', 'sizeof(int) * 2',
                                 '(sizeof(struct foo))', '(int)1', '(-1 > 0u ? 1 : 2)', '_IOW(1, 2, int)', '"v" __DATE__', '__VA_ARGS__', 'M1 M2', '(M1)(M2)',
                                 '1 == 1', '(1 == 1)', '(1 < 2)', '(1/0)', '(5 % 0)', '(1 < "a")', '(1, 2)', '!1', '1 ? 2 : 3', '(1.5f)', '(7/2)', '5 / 2', 'a.b', 'a->b', '1,', 'x y z', '%d', '0x7fffffff - 1', 'NULL', '-M3', '- 5',
                                 '1L << 40', '(unsigned char)~0', "'a' + 1", '"a"[0]', '&x', '*x', 'x[1]', 'x::y', '@interface', '$', '__cdecl', '...'])
            line = '#define %s %s' % (nm, body)
            fn = False
        line = line.replace('\n', ' ')
        if line.rstrip().endswith('\\'):
            line = line.rstrip().rstrip('\\')
        if "\\" in line.replace('\\n', '').replace("\\'", '').replace('\\"', '').replace('\\x', '').replace('\\\\', ''):
            pass
        if nm in seen and r.random() < .7:
            head.append('#undef ' + nm)
        seen[nm] = line
        head.append(line)
        if r.random() < .15:
            head.append(r.choice(['#pragma once_x', '#pragma GCC poison vf_never', '#ifdef VF_NOT\n#define M0 (\n#endif', '#line 100', '#line 7 "other.c"', '#ident "x"',
                                  '/* "unterminated */', "// don't", '#if 0\nthis is \' not C\n#endif', '#', '_Static_assert(1, "ok");', ';' if False else '/**/']))
    if r.random() < .4 and g.tds:
        t = r.choice(g.tds)
        mid.append('#define %s %s' % (t.name, t.name))
        obs.add('macro that is its own name')
    # macros whose name is not used by the declarations may come anywhere
    top = r.random() < .5
    # the tokens of the declarations must not be the names of these macros
    body = g.text()
    words = set(__import__('re').findall(r'[A-Za-z_]\w*', body))
    bad = {n for n in seen if n in words or n in KEYC}
    keep = []
    for ln in head:
        w = ln.split()
        n = w[1].split('(')[0] if len(w) > 1 and w[0] in ('#define', '#undef') else None
        if n in bad:
            continue
        keep.append(ln)
    mac = '\n'.join(keep) + '\n'
    src = mac + body + '\n'.join(mid) + '\n' if top else body + mac + '\n'.join(mid) + '\n'
    ref = Reference(g)
    if 'vf_probe' in src:
        raise Skip('name')
    try:
        oracle_ok(src)
    except ProbeError as e:
        raise Skip('not C: ' + str(e)[:100])
    try:
        if case['via'] == 'string':
            text = translate_str(src, [], 'cdefstum')
        else:
            with tmpdir() as d:
                p = os.path.join(d, 'input.h')
                with open(p, 'w') as f:
                    f.write(src)
                text = translate_paths([p], [], 'cdefstum') if case['via'] == 'file' else cli_text(['-k', 'cdefstum'] + case['flags'] + [p], d)
    except Violation:
        raise
    except Exception as e:
        fail('translation of a valid source fails: %s: %s' % (type(e).__name__, str(e)[:300]), src)
    try:
        ns = load(text)
    except Exception as e:
        fail('the generated module does not import: %s: %s' % (type(e).__name__, str(e)[:300]), src, text)
    for n in all_of(ns):
        if n not in ns:
            fail('%s is exported but does not exist' % n, src, text)
    if '__all__' not in ns or len(set(all_of(ns))) != len(all_of(ns)):
        fail('the export list is missing or repeats names', src, text)
    ref.src = src
    m = check_layout(ref, ns, text, obs)
    check_types(ref, ns, text, obs, m)
    for e in g.enums:
        for n, v in e.resolved():
            if ns.get(n) != v:
                fail('enumerator %s is %r, not %r' % (n, ns.get(n), v), src, text)
    obs.add('macros', len(seen))
    obs.key(src)
    obs.sample(dict(macros=keep[:6]))


KEYC = {'int', 'char', 'if', 'else', 'for', 'while', 'return', 'break', 'continue', 'self'}


def oracle_ok(src):
    probe_ints(src, ['1'])
