"""Symbols of libraries: functions and exported variables."""
import os
import random
import subprocess

from ..common import *
from ..elf import Elf
from ..oracle import CLANG
from ..values import c_init, leaves

RULE = ('Random headers declare functions and extern variables of random types; one to three libraries define random subsets of them as strong, weak, aliased, versioned, indirect, common, constant, hidden or static symbols, '
        'or only use them. The monitor compares the address of each function and variable of the module with dlsym on the first listed library that defines it, calls the functions, reads the variables and lets the library change them. '
        'Preloaded libraries, another nm, libraries given by their linker names and assembler names are varied. A case counts by its libraries.')
ASSUMPTIONS = ['nm of binutils lists the dynamic symbols', 'the dynamic linker of the host']


def cases(tier, seed):
    n = 500 if tier == 'quick' else 20000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 4, how=['libs', 'libs', 'libs', 'libs', 'system'][i % 5])


def cc(src, so, *opts):
    p = subprocess.run([CLANG, '-w', '-shared', '-fPIC', '-O0', '-x', 'c', '-', '-Wl,-Bsymbolic,-z,norelro', '-o', so] + list(opts), input=src.encode(), capture_output=True)
    if p.returncode:
        raise ProbeError(p.stderr.decode()[:600])


def address(dll, sym):
    return where(getattr(dll, sym))


def where(f):
    return ctypes.cast(f, ctypes.c_void_p).value if isinstance(f, ctypes._CFuncPtr) else None


def define_func(r, i, k, sym, kind):
    """text of a function that says where it comes from"""
    v = 1000 * (k + 1) + i
    body = '{ return %d + x; }' % v
    if kind == 'weak':
        return '__attribute__((weak)) int %s(int x) %s' % (sym, body)
    if kind == 'alias':
        return 'static int impl_%d(int x) %s\nint %s(int) __attribute__((alias("impl_%d")));' % (i, body, sym, i)
    if kind == 'ifunc':
        return 'static int impl_%d(int x) %s\nstatic void *res_%d(void) { return impl_%d; }\nint %s(int) __attribute__((ifunc("res_%d")));' % (i, body, i, i, sym, i)
    if kind == 'hidden':
        return '__attribute__((visibility("hidden"))) int %s(int x) %s' % (sym, body)
    if kind == 'static':
        return 'static __attribute__((used)) int %s(int x) %s' % (sym, body)
    if kind == 'versioned':
        return ('int new_%d(int x) %s\nint old_%d(int x) { return -1; }\n__asm__(".symver new_%d,%s@@VF_2");\n__asm__(".symver old_%d,%s@VF_1");' % (i, body, i, i, sym, i, sym))
    return 'int %s(int x) %s' % (sym, body)


def run_libs(case, r, obs):
    g = build(dict(case, weights=dict(rec=3, enum=1, td=2, fwd=1)))
    einfo = {e.tag: (0, any(v < 0 for _, v in e.resolved())) for e in g.enums}
    types = g.text()
    nlib = r.choice([1, 1, 2, 2, 3])
    funcs, vars_ = [], []
    for i in range(r.randrange(2, 7)):
        nm = 'vf%d_f%d' % (case['seed'], i)
        funcs.append((nm, nm if r.random() < .85 else 'vf_real_' + nm))
    for i in range(r.randrange(2, 7)):
        nm = 'vf%d_v%d' % (case['seed'], i)
        k = r.random()
        t = r.choice(g.recs) if k < .3 and g.recs else r.choice(g.enums) if k < .4 and g.enums else Arr(r.choice(g.recs), r.randrange(1, 4)) if k < .5 and g.recs else g.field_type(1)
        vars_.append((nm, nm if r.random() < .85 else 'vf_real_' + nm, t))
    head, decls = [types], []
    for nm, sym in funcs:
        decls.append('%sint %s(int x)%s;' % (r.choice(['', 'extern ']), nm, ' __asm__("%s")' % sym if sym != nm else ''))
    for nm, sym, t in vars_:
        q = r.choice(['', '', '', 'const ', 'volatile ']) if isinstance(t, (Rec, Enum, Sc)) else ''
        decls.append('extern %s%s%s;' % (q, decl(t, nm), ' __asm__("%s")' % sym if sym != nm else ''))
        if r.random() < .1:
            decls.append(decls[-1])
    r.shuffle(decls)
    header = types + '\n'.join(decls) + '\n'
    with tmpdir() as d:
        first, dlls, sos, values = {}, [], [], {}
        preload = r.random() < .3
        pre = d + '/libvfpre.so'
        if preload:
            cc('int vf_dep(int x) { return x; }\n', pre)
        nmprog, lost = None, set()
        if r.random() < .2:
            nmprog = d + '/my nm'
            lost = set(r.sample([s for _, s in funcs], 1))
            with open(nmprog, 'w') as f:
                f.write('#!/bin/sh\necho used >> "%s/nm.log"\nnm "$@" | grep -v -E " (%s)(@.*)?$"\n' % (d, '|'.join(lost)))
            os.chmod(nmprog, 0o755)
        for k in range(nlib):
            body, vers, uses = [types], False, []
            for i, (nm, sym) in enumerate(funcs):
                kind = r.choice(['strong', 'strong', 'weak', 'alias', 'ifunc', 'hidden', 'static', 'versioned', 'none', 'none', 'other'])
                if kind == 'other':
                    # the name in the header is not the name of the symbol
                    if sym != nm:
                        body.append(define_func(r, i, k, nm, 'strong').replace('return', 'return 50000 +'))
                    continue
                if kind == 'none':
                    continue
                vers = vers or kind == 'versioned'
                body.append(define_func(r, i, k, sym, kind))
                if kind not in ('hidden', 'static') and sym not in lost:
                    first.setdefault(nm, k)
                obs.add('function symbol: ' + kind)
            for i, (nm, sym, t) in enumerate(vars_):
                kind = r.choice(['data', 'data', 'bss', 'weak', 'const', 'alias', 'common', 'hidden', 'static', 'none', 'none'])
                if kind == 'none':
                    continue
                ls = leaves(r, t, einfo, limit=20) if isinstance(strip(t), (Rec,)) else []
                init = ' = ' + c_init(ls) if ls and kind != 'bss' and kind != 'common' else ''
                if kind == 'alias':
                    body.append('static %s%s;\nextern %s __attribute__((alias("vimpl_%d")));' % (decl(t, 'vimpl_%d' % i), init, decl(t, sym), i))
                else:
                    body.append({'weak': '__attribute__((weak)) ', 'const': 'const ' if isinstance(t, (Rec, Enum, Sc)) else '', 'hidden': '__attribute__((visibility("hidden"))) ', 'static': 'static __attribute__((used)) '}.get(kind, '') + decl(t, sym)
                                + init + ';')
                if kind not in ('const', 'hidden', 'static'):
                    body.append('void vf_set%d(void) { __builtin_memset((void *)&%s, %d, sizeof %s); }' % (i, sym, 17 * (k + 1), sym))
                if kind not in ('hidden', 'static'):
                    first.setdefault(nm, k)
                values[nm, k] = kind
                obs.add('variable symbol: ' + kind)
            if preload:
                body.append('int vf_dep(int);\nint vf_use%d(int x) { return vf_dep(x); }' % k)
            so = d + r.choice(['/libvf%d.so' % k, '/sub.d/%d/libvf.so' % k, '/libvf%d.so.3.1' % k, "/lib vf'%d.so" % k])
            os.makedirs(os.path.dirname(so), exist_ok=True)
            o = ['-fcommon', '-Wl,-soname,libvf_other%d.so' % k] if r.random() < .4 else ['-fcommon']
            if vers:
                with open(d + '/v.map', 'w') as f:
                    f.write('VF_1 { };\nVF_2 { } VF_1;\n')
                o += ['-Wl,--version-script=' + d + '/v.map']
            cc('\n'.join(body) + '\n', so, *o)
            sos.append(so)
        h = d + '/x.h'
        with open(h, 'w') as f:
            f.write(header)
        args = [x for so in sos for x in ('-l', so)] + [h]
        if preload:
            args = ['-p', pre] + args
        if nmprog:
            args += ['--nm', nmprog]
        text = cli_text(args, d)
        if nmprog and not os.path.exists(d + '/nm.log'):
            fail('the given nm is not used', header, text)
        try:
            ns = load(text)
        except Exception as e:
            fail('the generated module does not import: %r' % e, header, text)
        if preload:
            ctypes.CDLL(pre, ctypes.RTLD_GLOBAL)
        dlls = [ctypes.CDLL(so) for so in sos]
        m = Matcher(ns, target_info(None), Reference(g).enum_info)
        exported = all_of(ns)
        for i, (nm, sym) in enumerate(funcs):
            f = ns.get(nm)
            if f is None or nm not in exported:
                fail('function %s is not in the module' % nm, header, text)
            if nm not in first:
                if where(f) and any(address(x, s) == where(f) for x in dlls for s in (sym, nm) if hasattr(x, s)) and sym not in lost:
                    fail('%s (symbol %s) is bound, but no library defines it' % (nm, sym), header, text)
                obs.add('functions of no library')
                continue
            k = first[nm]
            a, b = where(f), address(dlls[k], sym)
            if a != b:
                fail('%s is bound to %s, library %d has its symbol %s at %#x' % (nm, a and hex(a), k, sym, b), header, text)
            if f(7) != 1000 * (k + 1) + i + 7:
                fail('%s(7) is %r, not the one of library %d' % (nm, f(7), k), header, text)
            obs.add('functions called')
        for i, (nm, sym, t) in enumerate(vars_):
            v = ns.get(nm, ns)
            if v is ns or nm not in exported:
                fail('variable %s is not in the module' % nm, header, text)
            if nm not in first:
                obs.add('variables of no library')
                continue
            k = first[nm]
            raw = ctypes.c_char.in_dll(dlls[k], sym)
            try:
                a = ctypes.addressof(v)
            except TypeError:
                fail('%s is %r, not the variable of library %d' % (nm, v, k), header, text)
            if a != ctypes.addressof(raw):
                fail('%s is at %#x, library %d has its symbol %s at %#x' % (nm, a, k, sym, ctypes.addressof(raw)), header, text)
            try:
                m.match(type(v), t, nm)
            except Mismatch as e:
                fail(str(e), header, text)
            e = Elf(sos[k])
            sec = next(x['shndx'] for x in e.symbols(True) if x['name'] == sym and x['shndx'])
            if e.secs[sec]['flags'] & 1 and hasattr(dlls[k], 'vf_set%d' % i):
                getattr(dlls[k], 'vf_set%d' % i)()
                if bytes(v) != bytes([17 * (k + 1)]) * ctypes.sizeof(v):
                    fail('%s does not follow the variable of the library' % nm, header, text)
                obs.add('variables followed')
            obs.add('variables bound')
        obs.add('modules with %d libraries' % nlib)
        obs.key(sorted(first.items()), header)
        obs.sample(dict(header='\n'.join(decls)[:500], bound_to=first))


LIBC = [('strlen', 'unsigned long strlen(const char *)', (b'hello',), 5), ('abs', 'int abs(int)', (-4,), 4), ('labs', 'long labs(long)', (-(1 << 40),), 1 << 40), ('atoi', 'int atoi(const char *)', (b'42x',), 42),
        ('toupper', 'int toupper(int)', (97,), 65), ('strtol', 'long strtol(const char *, char **, int)', (b'ff', None, 16), 255), ('memcmp', 'int memcmp(const void *, const void *, unsigned long)', (b'aa', b'aa', 2), 0),
        ('getpid', 'int getpid(void)', (), None), ('cos', 'double cos(double)', (0.0,), 1.0), ('pow', 'double pow(double, double)', (2.0, 10.0), 1024.0), ('floorf', 'float floorf(float)', (2.5,), 2.0), ('ldexp', 'double ldexp(double, int)', (1.5, 4), 24.0)]


def run_system(case, r, obs):
    """libraries of the system, by the names the linker knows"""
    fs = r.sample(LIBC, r.randrange(2, len(LIBC)))
    header = '\n'.join(p + ';' for _, p, _, _ in fs) + '\nint vf_nowhere(int);\n'
    libs = r.sample([r.choice(['c', 'libc.so.6']), r.choice(['m', 'libm.so.6'])], r.randrange(1, 3))
    with tmpdir() as d:
        h = d + '/x.h'
        with open(h, 'w') as f:
            f.write(header)
        text = cli_text([h] + [x for l in libs for x in ('-l', l)], d)
        try:
            ns = load(text)
        except Exception as e:
            fail('the generated module does not import: %r' % e, header, text)
    dlls = [ctypes.CDLL('libc.so.6' if 'c' in l.split('.')[0][-1] else 'libm.so.6') for l in libs]
    for nm, p, a, want in fs:
        f = ns.get(nm)
        b = next((address(x, nm) for x in dlls if hasattr(x, nm)), None)
        if b is None:
            obs.add('functions of no library')
            continue
        if where(f) != b:
            fail('%s is %r, not the function of the system library' % (nm, f), header, text)
        try:
            v = f(*[ctypes.cast(ctypes.c_char_p(x), t) if isinstance(x, bytes) else x for x, t in zip(a, f.argtypes)])
        except Exception as e:
            fail('%s%r raises %r' % (nm, a, e), header, text)
        if want is not None and v != want:
            fail('%s%r is %r, not %r' % (nm, a, v, want), header, text)
        obs.add('system functions called')
    obs.key(libs, header)
    obs.sample(dict(libraries=libs, functions=[x[0] for x in fs]))


def run(case, obs):
    r = random.Random(case['seed'] + 27)
    (run_system if case['how'] == 'system' else run_libs)(case, r, obs)
