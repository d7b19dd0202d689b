"""Every way to run a translation gives the same module."""
import contextlib
import io
import os
import random
import sys

from ..common import *
from ..core import cli_proc
from ..rich import *
from ..sig import diff, module_sig

RULE = ('Random programs, as bytes on disk with all kinds of line ends, encodings in comments, tabs, byte order marks and missing final newlines, are translated through '
        'every entry point: translate and translate_files with and without an output stream, the command line with -o, on the standard output, from the standard input, with the '
        'options in any order, as a process of its own in several locales. The monitor compares the modules, and watches the exit status, the output streams, the '
        'input files, the temporary and the working directory. A case counts by the bytes of the input and the entry points.')
ASSUMPTIONS = ['the input is UTF-8 where its meaning depends on the encoding']
WAYS = ['str_ns', 'files', 'files_ns', 'file', 'cli_o', 'cli_out', 'cli_in', 'cli_in_o', 'proc', 'proc_in', 'proc_o']


def cases(tier, seed):
    n = 500 if tier == 'quick' else 15000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=[0, 1, 3, 6, 10, 16][i % 6], proc=i % 5 == 0, kinds=['cdefstu', 'cdefmstu'][i // 2 % 2])


def encode(r, ch):
    """the bytes of the program, and the same program in plain form"""
    lines = []
    for c in ch:
        k = r.random()
        if k < .12:
            lines.append(r.choice([b'// caf\xe9\n', '/* \u00e9\u20ac \U0001F600 */\n'.encode(), b'/* \xff\xfe */\n', b'//\ttab\n', b'/*\n * many\n\tlines */\n', b'\n\n\n', b'\x0c\n', b'// \xe2\x80\xa8\n']))
        t = c.text
        if k > .9 and t.startswith('#') is False:
            t = t.replace(' ', r.choice(['\t', '  ', ' \\\n ']), 2) if '"' not in t else t
        lines.append(t.encode() + b'\n')
    extra = []
    for i in range(r.randrange(3)):
        extra.append(r.choice(['char vf_s%d[] = "a\tb";', 'const char *vf_s%d = "caf\u00e9";', 'char vf_s%d[] = "x\\ny";', "char vf_s%d = '\\t';", 'char vf_s%d[] = "  two  spaces ";', 'char vf_s%d[] = "??=";', 'char vf_s%d[] = "$HOME %%s {} \\\\";']) % i)
    for e in extra:
        lines.insert(r.randrange(len(lines) + 1), e.encode() + b'\n')
    b = b''.join(lines)
    k = r.random()
    if k < .15:
        b = b.replace(b'\n', b'\r\n')
    elif k < .25:
        b = b'\xef\xbb\xbf' + b
    elif k < .35:
        b = b.rstrip(b'\n')
    return b


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    kinds = case['kinds']
    data = encode(r, ch)
    src = data.decode('utf-8', 'backslashreplace')
    with tmpdir() as top:
        top = os.path.realpath(top)
        work, temp, outd = (os.path.join(top, x) for x in ('work', 'tmp', 'out'))
        for x in (work, temp, outd):
            os.mkdir(x)
        name = r.choice(['in.h', 'in.c', 'a b.h', 'in.h.h', '\u00e9.h', 'in', '-in.h'] if case['seed'] % 7 else ['in.h'])
        path = os.path.join(work, name)
        if os.path.splitext(name)[1] not in ('.h', '.c'):
            path = os.path.join(work, name + '.h')
        with open(path, 'wb') as f:
            f.write(data)
        import tempfile
        olddir, oldtmp = os.getcwd(), tempfile.tempdir
        os.chdir(work)
        tempfile.tempdir = temp
        try:
            try:
                ref = load(translate_paths([path], [], kinds))
            except Exception as e:
                valid_or_skip(src)
                fail('translation of a valid file fails: %s: %s' % (type(e).__name__, str(e)[:300]), src)
            want = module_sig(ref)
            if any(' at ' in n or '_stdin' in n for n in want):
                raise Skip('a name depends on the path')
            ways = r.sample(WAYS[:8], 4) + (r.sample(WAYS[8:], 2) if case['proc'] else [])
            for w in ways:
                one(w, r, path, data, kinds, want, top, src, obs)
            with open(path, 'rb') as f:
                if f.read() != data:
                    fail('the input file is changed by %s' % ways, src)
            left = os.listdir(temp)
            if left:
                fail('files are left in the temporary directory: %s after %s' % (left, ways), src)
            left = [x for x in os.listdir(work) if x != os.path.basename(path)]
            if left:
                fail('files are left in the working directory: %s after %s' % (left, ways), src)
        finally:
            os.chdir(olddir)
            tempfile.tempdir = oldtmp
    obs.key(data, ways)
    obs.sample(dict(ways=ways, source=src[:300]))


def one(w, r, path, data, kinds, want, top, src, obs):
    c, _ = ct()
    obs.add('way:' + w)
    ns = text = None
    args = ['-k', kinds]
    if r.random() < .3:
        args += r.choice([['-q'], ['--clang-args=-std=gnu17'], ['-t', 'x86_64-linux-gnu'], ['-x'], ['--max-depth', '3'], ['-v']])
    a = path if r.random() < .5 else './' + os.path.basename(path)
    out = os.path.join(top, 'out', r.choice(['m.py', 'm', '\u00e9.py', 'a b.py']))
    if r.random() < .5:
        with open(out, 'w') as f:
            f.write('this was here before\n' * r.choice([1, 5000]))
    try:
        if w == 'str_ns':
            ns = c.translate(io.StringIO(data.decode('utf-8', 'replace')), cfg=make_cfg([], kinds))
        elif w == 'files':
            text = translate_paths([a], [], kinds, filter_location=r.random() < .5)
        elif w == 'files_ns':
            ns = c.translate_files([a], cfg=make_cfg([], kinds))
        elif w == 'file':
            text = translate_paths(a, [], kinds)
        elif w in ('cli_o', 'cli_out', 'cli_in', 'cli_in_o'):
            inp = '-' if '_in' in w else a
            full = args + ([r.choice(['-o', '--output']), out] if w.endswith('_o') else r.choice([[], ['-o', '-']]))
            full = full + [inp] if r.random() < .5 or '-v' in full else [inp] + full
            so, si, se = sys.stdout, sys.stdin, sys.stderr
            buf = io.StringIO()
            sys.stdin = io.TextIOWrapper(io.BytesIO(data), encoding='utf-8')
            sys.stdout = buf
            sys.stderr = io.StringIO()
            try:
                rc = cli(full)
            finally:
                sys.stdout, sys.stdin, sys.stderr = so, si, se
            if rc:
                fail('clang2py %s exits with %s' % (full, rc), src)
            text = buf.getvalue()
            if w.endswith('_o'):
                if text:
                    fail('clang2py %s writes to the standard output: %r' % (full, text[:200]), src)
                with open(out, encoding='utf-8') as f:
                    text = f.read()
        else:
            full = args + (['-o', out] if w == 'proc_o' else [])
            full += ['-' if w == 'proc_in' else a]
            env = dict(LC_ALL=r.choice(['C', 'C.UTF-8', 'POSIX']), PYTHONHASHSEED=str(r.randrange(1000)), TMPDIR=os.path.join(top, 'tmp'))
            q = cli_proc(full, stdin=data if w == 'proc_in' else b'', env=env)
            if q.returncode:
                fail('clang2py %s exits with %s: %s' % (full, q.returncode, q.stderr.decode('utf-8', 'replace')[-500:]), src)
            if b'Traceback' in q.stderr:
                fail('clang2py %s: %s' % (full, q.stderr.decode('utf-8', 'replace')[-500:]), src)
            text = q.stdout.decode('utf-8', 'replace')
            if w == 'proc_o':
                if text:
                    fail('clang2py %s writes to the standard output: %r' % (full, text[:200]), src)
                with open(out, encoding='utf-8') as f:
                    text = f.read()
    except Violation:
        raise
    except Exception as e:
        fail('%s fails: %s: %s' % (w, type(e).__name__, str(e)[:300]), src)
    finally:
        if os.path.exists(out):
            os.unlink(out)
    if ns is None:
        try:
            ns = load(text)
        except Exception as e:
            fail('%s %s: the module does not import: %s: %s' % (w, args, type(e).__name__, str(e)[:300]), src, text)
    else:
        try:
            v = ns.no_such_name
        except AttributeError:
            pass
        else:
            fail('%s: the result has an attribute no_such_name: %r' % (w, v), src)
        for n in ns.get('__all__', ()):
            if not hasattr(dict, n) and getattr(ns, n, ns) is not ns[n]:
                fail('%s: %s is no attribute of the result' % (w, n), src)
    e = diff(want, module_sig(ns), 'translate_files', w)
    if e:
        fail('%s %s: %s' % (w, args, e), src, text or '')
