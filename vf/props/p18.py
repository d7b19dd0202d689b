"""Invalid input is refused, valid input is not, and neither leaves traces."""
import os
import random
import re
import subprocess

from ..common import *
from ..rich import *

RULE = ('Random valid programs are damaged at random (tokens removed, doubled, swapped, replaced, invented; text cut off; definitions repeated; wrong types; missing includes; #error; strange bytes) and given to the compiler '
        'and to the translator: as a string, as a file, as one of several files, on the command line in this process and as a process of its own. The monitor compares the two verdicts, and then translates a fixed program, whose text must be '
        'the one of a process without history. A case counts by its text.')
ASSUMPTIONS = ['the compiler decides what is valid: clang of the same version as the library', 'bodies of functions are not looked at']
SENTINEL = ('struct vs_a { int a; char b[3]; struct vs_b *n; };\nstruct vs_b { struct vs_a x; double d; };\nenum vs_e { VS_X = 3, VS_Y };\ntypedef struct vs_a vs_t;\n'
            'int vs_f(vs_t *a, enum vs_e e);\n#define VS_M 42\nint vs_v = VS_M;\nunion { int q; } vs_u;\n')
TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|[A-Za-z_]\w*|\.?\d[\w.]*|#|\S|\n|[ \t]+')
WORDS = ['int', 'struct', 'union', 'enum', '*', ';', '{', '}', '(', ')', '[', ']', ',', '=', '0', '1', 'typedef', 'extern', 'static', 'unsigned', 'const', 'vf_unknown', '"s"', '#', '...', ':', '-', '...', 'void', 'x', '/*', '//', 'char',
         '__attribute__((packed))', 'inline', 'register', 'return', '-1', '\\', "'", '"', '1e400', '07u', '.', '->', '@', '`', 'sizeof', '_Static_assert(0,"no");', '_Static_assert(1,"yes");', '_Bool', 'restrict', 'volatile', 'long', 'signed', 'if']
WHOLE = ['#error stop', '#include "vf_not_there.h"', '#include <vf/not/there.h>', 'struct vs_bad { struct vs_never m; };', 'int vs_bad[-1];', 'vs_type_unknown vs_bad;', 'typedef int vs_bad; typedef char vs_bad;', 'enum { VS_BAD, VS_BAD };',
         'int vs_bad(int); int vs_bad(char *, int);', 'struct vs_bad { int a; int a; };', '#if 1', '#endif', '#if 0', '#else', '/* never ends', 'int vs_bad = vs_nowhere;', 'struct vs_bad { int a : 40; };', 'struct vs_bad { float a : 3; };',
         '#pragma once', '#warning only a warning', '#pragma pack(3)', '#pragma vs_unknown', 'int vs_ok(); int vs_ok(void);', 'extern int vs_ok; extern int vs_ok;', 'typedef int vs_ok; typedef int vs_ok;', '#define VS_A(x) x\nint VS_A(vs_ok);',
         'int vs_ok = 3000000000;', 'static int vs_ok(void) { return 1; }', '#define VS_A(x) x\nint VS_A(vs_bad;', '#define VS_M 43', '#undef VS_UNKNOWN', ';;',
         'void vs_bad[3];', 'int vs_bad(void)[3];', 'struct { int a; };', 'int;', 'union vs_ok;', 'auto int vs_bad;', 'register int vs_bad;', 'int vs_ok[];', 'struct vs_bad { int n; int f[]; int g; };', 'enum vs_ok { VS_BIG = 0x100000000 };',
         '_Static_assert(sizeof(int) == 4, "");', '_Static_assert(sizeof(int) == 5, "");', 'int a, a2, vs_bad b;', 'typedef struct vs_ok vs_ok; struct vs_ok *vs_p;', 'long long long vs_bad;', 'short double vs_bad;', 'int vs_bad = {1, 2};', '\\', "char vs_bad = '';"]
BYTES = [b'\0', b'\xff\xfe', b'\xe9', b'\xef\xbb\xbf', b'\x1a', b'\x0c', b'\r', b'\xe2\x80\xa8', b'\xc3\xa9', b'\x7f', b'/* \xe9 */', b'// \xff\n', b'"\xe9"', b'struct \xe9t\xe9;', b'\x01']


def cases(tier, seed):
    n = 900 if tier == 'quick' else 40000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=2 + i % 6, how=['tokens', 'whole', 'tokens', 'bytes', 'cut', 'options', 'files'][i % 7], via=['str', 'file', 'str', 'cli', 'file', 'str', 'cli', 'proc'][i // 7 % 8])


def verdict(path, opts=()):
    """(accepted, first error) of the compiler"""
    r = subprocess.run(['clang', '-fsyntax-only', '-fno-color-diagnostics', '-x', 'c-header' if path.endswith('.h') else 'c'] + list(opts) + [path], capture_output=True, timeout=120)
    m = re.search(r'(?:fatal )?error: (.*)', r.stderr.decode('utf8', 'replace'))
    if r.returncode not in (0, 1):
        raise Skip('the compiler crashes')
    return r.returncode == 0, m.group(1).strip() if m else ''


def library_verdict(path, opts):
    """the first error of the library itself, told to skip the bodies of functions as the translator tells it"""
    from clang import cindex
    tu = cindex.Index.create().parse(path, args=list(opts), options=0x40 | 0x1)
    return next((x.spelling for x in tu.diagnostics if x.severity > 2), '')


def damage(r, how, text):
    """bytes of a program, damaged"""
    if how == 'tokens':
        t = TOK.findall(text)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            i = r.randrange(len(t))
            k = r.randrange(5)
            if k == 0:
                del t[i]
            elif k == 1:
                t.insert(i, t[i])
            elif k == 2:
                j = min(len(t) - 1, i + r.randrange(1, 4))
                t[i], t[j] = t[j], t[i]
            elif k == 3:
                t[i] = r.choice(WORDS)
            else:
                t.insert(i, ' %s ' % r.choice(WORDS))
            if not t:
                break
        return ''.join(t).encode()
    lines = text.split('\n')
    if how in ('whole', 'options', 'files'):
        for _ in range(r.choice([0, 1, 1, 2])):
            lines.insert(r.choice([0, len(lines), r.randrange(len(lines) + 1)]), r.choice(WHOLE))
        return '\n'.join(lines).encode()
    if how == 'cut':
        b = text.encode()
        a, c = sorted((r.randrange(len(b) + 1), r.randrange(len(b) + 1)))
        return r.choice([b[:c], b[a:], b[:a] + b[c:], b[:c].rstrip(b'\n'), b''])
    b = bytearray(text.encode())
    for _ in range(r.choice([1, 1, 2])):
        i = r.choice([0, len(b), r.randrange(len(b) + 1)])
        b[i:i] = r.choice(BYTES)
    return bytes(b)


def attempt(via, d, paths, opts, src):
    """(generated text or None, what was refused with)"""
    from ctypeslib.codegen.handler import InvalidTranslationUnitException
    out = os.path.join(d, 'out.py')
    if via == 'proc':
        p = cli_proc(['-o', out] + (['--clang-args=' + ' '.join(opts)] if opts else []) + paths, cwd=d)
        if p.returncode == 0:
            return open(out).read(), ''
        return None, p.stderr.decode('utf8', 'replace')
    if via == 'cli':
        rc = cli(['-q', '-o', out] + (['--clang-args=' + ' '.join(opts)] if opts else []) + paths)
        if rc == 0:
            return open(out).read(), ''
        return None, None
    try:
        if via == 'str':
            return translate_str(src, opts, 'cdefstu'), ''
        return translate_paths(paths, opts, 'cdefstu'), ''
    except InvalidTranslationUnitException as e:
        return None, str(e)


_ref = None


def sentinel():
    """a process that fails on nothing must stay a process that fails on nothing"""
    global _ref
    t = translate_str(SENTINEL, [], 'cdefmstu')
    if _ref is None:
        e = "import sys,io,ctypeslib\nfrom ctypeslib.codegen import config\nc=config.CodegenConfig()\nc.clang_opts=[]\nc._init_types('cdefmstu')\no=io.StringIO()\nctypeslib.translate(sys.stdin.read(),o,c)\nsys.stdout.write(o.getvalue())"
        p = subprocess.run([sys.executable, '-c', e], input=SENTINEL, capture_output=True, text=True, timeout=100)
        if p.returncode:
            fail('a valid program is refused in a fresh process', SENTINEL, p.stderr)
        _ref = p.stdout
    return t == _ref, t


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    how, via = case['how'], case['via']
    data = damage(r, how, text_of(ch))
    opts = []
    if how == 'options':
        opts = r.choice([['-Werror'], ['-Werror', '-Wall'], ['-std=c89', '-pedantic-errors'], ['-pedantic-errors'], ['-w'], ['-Wno-everything'], ['-Weverything'], ['-ferror-limit=1'], ['-include', 'vf_not_there.h'], ['-std=c11', '-Werror', '-Wpedantic'],
                         ['-Werror=strict-prototypes'], ['-DVS_UNKNOWN'], ['-Dint=vs_nothing'], ['-Werror=macro-redefined']])
    with tmpdir() as d:
        p = os.path.join(d, 'memory_input.c' if via == 'str' else r.choice(['in.h', 'in.c']))
        if via == 'str':
            try:
                src = data.decode('utf8')
            except UnicodeDecodeError:
                src = None
            if src is None or '\0' in src:
                via, src = 'file', None
        else:
            src = None
        shown = repr(data[-3000:]) if b'\0' in data or src is None and how == 'bytes' else data.decode('utf8', 'replace')
        if r.random() < .25 and not b'\0' in data:
            # the input only includes the text
            inner, data = data, b'struct vf_before { int a; };\n#include "vf_inc.h"\n'
            inc = os.path.join(d, 'vf_inc.h')
            if r.random() < .4:
                os.mkdir(os.path.join(d, 'sub'))
                with open(inc, 'w') as f:
                    f.write('#include <sub/vf_deep.h>\n')
                inc = os.path.join(d, 'sub', 'vf_deep.h')
            with open(inc, 'wb') as f:
                f.write(inner)
            data += b'struct vf_after { int b; };\n' if r.random() < .7 else b''
            src = data.decode() if src is not None else None
            opts = opts + ['-I', d]
            shown += '--- included'
            obs.add('included')
        with open(p, 'wb') as f:
            f.write(data)
        good, first = verdict(p, opts)
        paths = [p]
        if how == 'files' and via != 'str':
            # one of several
            for i in range(r.randrange(1, 3)):
                q = os.path.join(d, 'other%d.h' % i)
                with open(q, 'w') as f:
                    f.write('struct vf_other%d { int a; };\n' % i)
                paths.insert(r.randrange(len(paths) + 1), q)
            k = r.randrange(6)
            if k == 0:
                gone = r.choice(paths)
                os.remove(gone)
                good, first = False, None
            elif k == 1:
                paths.insert(r.randrange(len(paths) + 1), os.path.join(d, 'vf_no_such_file.h'))
                good, first = False, None
        try:
            text, why = attempt(via, d, paths, opts, src)
        except Exception as e:
            if good or first is not None:
                fail('%s (the compiler says: %s): the translator raises %s: %s' % ('valid input' if good else 'invalid input', first or 'fine', type(e).__name__, str(e)[:300]), shown)
            text, why = None, None
        if good and text is None:
            fail('the compiler accepts what the translator refuses (options %s): %s' % (opts, (why or '')[:600]), shown)
        if not good and text is not None:
            if first is not None and '{' in shown and library_verdict(p, opts) == '':
                raise Skip('the error is in the body of a function')
            fail('the compiler refuses (%s) what the translator accepts (options %s, %s)' % (first, opts, how), shown, text)
        if not good and why is not None and first and via in ('str', 'file'):
            # the reason that is given is an error of the compiler
            if re.split(r' \(| \[-W|; did you mean', first)[0][:40] not in why:
                if '{' in shown and library_verdict(p, opts)[:40] in why:
                    raise Skip('the error is in the body of a function')
                fail('the reason given is not the first error of the compiler\n translator: %s\n compiler: %s' % (why, first), shown)
        if not good and via == 'proc' and not (why or '').strip():
            fail('the command line gives no reason', shown)
        if good:
            try:
                load(text)
            except Exception as e:
                fail('accepted, but the module does not import: %s: %s' % (type(e).__name__, str(e)[:300]), shown, text)
    same, t = sentinel()
    if not same:
        fail('after %s input another program is translated differently' % ('valid' if good else 'invalid'), shown, t)
    obs.add('accepted' if good else 'refused')
    obs.add('via ' + case['via'])
    obs.key(how, shown, [o for o in opts if o != d])
    obs.sample(dict(how=how, via=case['via'], accepted=good, error=first))
