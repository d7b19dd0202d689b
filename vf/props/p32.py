"""Options of the compiler: -D, -U, -I, -include, -std and those that change the ABI."""
import os
import random
import re

from ..common import *
from ..layout import points, probe_exprs
from ..oracle import probe_ints, target_info
from ..rich import *
from ..sig import diff, module_sig

RULE = ('Random programs depend on macros, headers and language versions given by compiler options, or are compiled with options that change the ABI (short enumerations, packed records, '
        'sign of char, width of wchar_t, bit-field rules, alignment of double). The options are given through the API and the command line, in random order, with and without spaces, together with others of no effect. '
        'The monitor compares with the module of the program with the same settings in its text, or with the layouts the compiler reports under the options. A case counts by the options and the text.')
ASSUMPTIONS = ['an argument in --clang-args has no white space']
ABI = [['-fshort-enums'], ['-fpack-struct=1'], ['-fpack-struct=2'], ['-fpack-struct=4'], ['-fpack-struct'], ['-funsigned-char'], ['-fsigned-char'], ['-fno-short-enums'], ['-mms-bitfields'], ['-malign-double'], ['-fms-extensions'],
       ['-std=c89'], ['-std=gnu89', '-fshort-enums'], ['-O2'], ['-std=c17', '-fpack-struct=8'], ['-fpack-struct=16'], ['-m64'], ['-std=gnu2x'], ['-fno-builtin'], ['-ffreestanding'], ['-march=x86-64-v3'], ['-fshort-enums', '-fpack-struct=2'],
       ['-m32'], ['-mx32'], ['-m32', '-fpack-struct=2'], ['-m32', '-malign-double'], ['-mlong-double-64'], ['-mlong-double-128'], ['-fshort-wchar'], ['-m32', '-fshort-enums'], ['--target=mips64-linux-gnu', '-mabi=n32'],
       ['-m32', '-mlong-double-64'], ['--target=i386-linux', '-m64']]
NOISE = [['-Wall'], ['-DVF_NOISE=1'], ['-DVF_NOISE'], ['-O1'], ['-g'], ['-Wno-everything'], ['-fno-common'], ['-D', 'VF_NOISE(x)=x'], ['-UVF_NOTHING'], ['-pthread'], ['-fPIC']]


def cases(tier, seed):
    n = 1600 if tier == 'quick' else 30000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 7, how=['text', 'abi', 'text', 'dirs', 'abi'][i % 5], via=['api', 'cli', 'cli'][i // 5 % 3])


def translate(case, r, src, opts, kinds, files=(), inc=False):
    """translate a text under options, through the way of the case"""
    with tmpdir() as d:
        for p, t in files:
            q = os.path.join(d, p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as f:
                f.write(t)
        path = os.path.join(d, 'in.h')
        with open(path, 'w') as f:
            f.write(src)
        opts = [o.replace('@', d) for o in opts]
        try:
            if case['via'] == 'cli':
                a = ['-k', kinds, path] + (['-i'] if inc else [])
                k = r.random()
                c = r.choice([' ', '  ', ' ']).join(opts)
                a = a + ['--clang-args=' + c] if k < .5 else ['--clang-args', ' ' + c if 0 else c] + a if not c.startswith('-') else ['--clang-args=' + c] + a
                text = cli_text(a, d)
            else:
                text = translate_paths([path], opts, kinds, filter_location=not inc)
        except Violation:
            raise
        except Exception as e:
            valid_or_skip(src, opts)
            fail('options %s: translation fails: %s: %s' % (opts, type(e).__name__, str(e)[:300]), src)
    try:
        return load(text), text
    except Exception as e:
        fail('options %s: the module does not import: %s: %s' % (opts, type(e).__name__, str(e)[:300]), src, text)


def macros(r):
    """macros that matter: (name, value, text that depends on it)"""
    out = []
    for i in range(r.randrange(1, 6)):
        n = 'VFD_%s%d' % (r.choice(['N', 'SIZE', 'T', '_x', 'A']), i)
        k = r.randrange(9)
        if k == 0:
            v = r.randrange(1, 60)
            out.append((n, str(v), 'struct vfd_s%d { char a[%s]; int b; };' % (i, n)))
        elif k == 1:
            out.append((n, r.choice(['char', 'unsigned', 'double', 'short', 'long']), 'struct vfd_s%d { char a; %s b; };\n%s vfd_f%d(%s x);' % (i, n, n, i, n)))
        elif k == 2:
            out.append((n, str(r.randrange(5)), '#if %s > 2\ntypedef int vfd_t%d;\n#elif %s == 1\ntypedef struct vfd_u%d { long x; } vfd_t%d;\n#else\ntypedef char vfd_t%d[%s + 1];\n#endif' % (n, i, n, i, i, i, n)))
        elif k == 3:
            out.append((n, None, '#ifdef %s\nint vfd_g%d(int, long);\n#else\nint vfd_g%d(char *);\n#endif' % (n, i, i)))
        elif k == 4:
            out.append((n, r.choice(['-3', '0x10', '(1+2)', '7L', '1']), 'enum vfd_e%d { VFD_E%d = %s, VFD_F%d };\nint vfd_v%d = %s;' % (i, i, n, i, i, n)))
        elif k == 5:
            out.append((n, 'vfd_named%d' % i, 'struct %s { int a; };\nint %s_f(struct %s *p);' % (n, n, n)))
        elif k == 6:
            out.append((n, r.choice(['__attribute__((packed))', '', '__attribute__((aligned(32)))']), 'struct %s vfd_p%d { char a; long b; };' % (n, i)))
        elif k == 7:
            out.append((n + '(x)', 'x*%d' % r.randrange(1, 5), 'struct vfd_m%d { short a[%s(3)]; };' % (i, n)))
        else:
            out.append((n, '"%s"' % r.choice(['text', 'a', '']), 'char vfd_c%d[] = %s;' % (i, n)))
    return out


def run_text(case, r, obs):
    g, ch = rich(case['seed'], case['n'])
    ms = macros(r)
    body = [c.text for c in ch]
    for n, v, t in ms:
        body.insert(r.randrange(len(body) + 1), t)
    body = '\n'.join(body) + '\n'
    kinds = 'cdefstu'
    opts, defs = [], []
    for n, v, t in ms:
        e = n if v is None else '%s=%s' % (n, v)
        if case['via'] == 'cli' and ' ' in e:
            e = e.replace(' ', '')
        k = r.random()
        if k < .15 and v is not None and '(' not in n:
            opts.append(['-D%s=99' % n, '-U' + n, '-D' + e])
        else:
            opts.append(r.choice([['-D' + e], ['-D', e]]))
        defs.append('#define %s %s' % (n, '1' if v is None else v))
    if r.random() < .4:
        gone = r.randrange(len(ms))
        n = ms[gone][0]
        if ms[gone][1] is None:
            opts[gone] += ['-U' + n]
            defs.pop(gone)
    plain = '\n'.join(defs) + '\n' + body
    valid_or_skip(plain)
    for _ in range(r.randrange(3)):
        opts.append(r.choice(NOISE))
    r.shuffle(opts)
    opts = [x for o in opts for x in o]
    files = []
    if r.random() < .3:
        # the definitions in a file that is included by an option
        files = [('pre/vf_pre.h', '\n'.join(defs) + '\n')]
        opts = r.choice([['-include', '@/pre/vf_pre.h'], ['-I@/pre', '-include', 'vf_pre.h'], ['-imacros', '@/pre/vf_pre.h']])
    a, _ = tr_ns(plain, [], kinds)
    b, text = translate(case, r, body, opts, kinds, files)
    w = diff(module_sig(a), module_sig(b), 'plain', 'given options')
    if w:
        fail('options %s: %s' % (' '.join(opts), w), body, text)
    obs.add('macros given', len(ms))
    obs.key(opts, body)
    return opts


def run_dirs(case, r, obs):
    """the right header of several"""
    g, ch = rich(case['seed'], case['n'], macros=False)
    names = ['a%d.h' % i for i in range(r.randrange(1, 4))]
    cut = sorted(r.randrange(len(ch) + 1) for _ in names)
    parts = {n: '\n'.join(c.text for c in ch[x:y]) + '\n' for n, x, y in zip(names, [0] + cut, cut)}
    rest = '\n'.join(c.text for c in ch[cut[-1]:]) + '\n'
    dirs = ['d%d' % i for i in range(r.randrange(2, 5))]
    files = []
    order = list(dirs)
    r.shuffle(order)
    for n, t in parts.items():
        # the first directory of the order that has it wins
        has = r.sample(dirs, r.randrange(1, len(dirs) + 1))
        first = next(d for d in order if d in has)
        for d in has:
            files.append(('%s/%s' % (d, n), t if d == first else r.choice(['struct vf_wrong { int a; };\n', '#error wrong file\n', ''])))
    k = r.choice(['-I', '-I ', '-isystem ', '-I', '-idirafter ', '-iquote '])
    opts = []
    for d in order:
        opts += (k + '@/' + d).split(' ') if ' ' in k else [k + '@/' + d]
    inc = ''.join('#include %s\n' % ('"%s"' % n if 'iquote' in k or r.random() < .6 else '<%s>' % n) for n in names)
    r2 = [x for o in r.sample(NOISE, r.randrange(2)) for x in o]
    a, _ = tr_ns(text_of(ch), [], 'cdefstu')
    b, text = translate(case, r, inc + rest, r2 + opts if r.random() < .5 else opts + r2, 'cdefstu', files, inc=True)
    if 'isystem' in k or 'idirafter' in k:
        # declarations of system headers are declarations too
        obs.add('system directories')
    w = diff(module_sig(a), module_sig(b), 'plain', 'given options')
    if w:
        fail('options %s: %s' % (' '.join(opts), w), inc + rest + str(files), text)
    obs.add('directories', len(order))
    obs.key(opts, sorted(files))
    return opts


def run_abi(case, r, obs):
    opts = list(r.choice(ABI))
    tgt = target_info(None, opts)
    cfg = dict(NOFP) if tgt['ptr'] != 8 else {}
    g = Gen(case['seed'], **dict(cfg, ldouble=tgt['ldouble'] != 16 or any('long-double' in o for o in opts))).program(case['n'], dict(rec=5, enum=2, td=2, fwd=1))
    src = g.text()
    ref = Reference.__new__(Reference)
    ref.g, ref.src, ex, ref.seg = g, src, [], []
    for rec in g.recs:
        pts = points(rec)
        e = probe_exprs(rec.handle, pts)
        ref.seg.append((rec, pts, len(ex), len(e)))
        ex += e
    eb = len(ex)
    ex += ['sizeof(%s)' % e.handle for e in g.enums]
    ref.vals = probe_ints(src, ex, None, opts)
    ref.tgt = tgt
    ref.enum_info = {e.tag: (ref.vals[eb + i], any(v < 0 for _, v in e.resolved())) for i, e in enumerate(g.enums)}
    noise = [x for o in r.sample(NOISE, r.randrange(3)) for x in o if ' ' not in x]
    ns, text = translate(case, r, src, noise + opts, 'cdefstu')
    try:
        m = check_layout(ref, ns, text, obs)
        check_types(ref, ns, text, obs, m)
    except Violation as e:
        raise Violation('options %s: %s' % (' '.join(opts), e))
    obs.add('abi:' + ' '.join(opts))
    obs.key(opts, src)
    return opts


def run(case, obs):
    r = random.Random(case['seed'])
    o = dict(text=run_text, abi=run_abi, dirs=run_dirs)[case['how']](case, r, obs)
    obs.add(case['via'])
    obs.sample(dict(options=o))
