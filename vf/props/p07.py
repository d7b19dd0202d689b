"""Function prototypes."""
import random
import subprocess

from ..common import *
from ..oracle import CLANG

RULE = ('Random programs with many functions (prototypes, definitions, static, redeclared, declared through a function type, '
        'variadic; parameters of every kind of type, arrays and functions as parameters), with and without one to three libraries that '
        'export them. The monitor compares the result type and every argument type of the module\'s functions with the '
        'declaration, and the address a function is bound to with the symbol of the library. A case counts by its source.')
ASSUMPTIONS = ['functions of a library are only bound, not called, here']


def cases(tier, seed):
    n = 1100 if tier == 'quick' else 40000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=6 + i % 8, lib=i % 3 == 0, profile=['mix', 'plain', 'nested'][i % 3],
                   weights=dict(rec=2, fwd=1, enum=1, td=2, func=7), target=None)


def rewrite(g, r):
    """other ways to declare the same functions; returns text and functions"""
    out, lib = [], []
    for kind, obj, txt in g.items:
        if kind != 'func':
            out.append(txt)
            lib.append(txt)
            continue
        nm, fn = obj
        proto = decl(fn, nm)
        k = r.random()
        named = all(fn.argnames)
        body = ' { for (;;); }'
        if k < .45:
            t = txt
        elif k < .55 and named:
            t = proto + body
        elif k < .62 and named:
            t = 'static ' + r.choice(['', 'inline ']) + proto + body
        elif k < .70:
            t = proto + ';\n' + decl(Fn(fn.ret, fn.args, fn.variadic), nm) + ';'
        elif k < .84:
            ty = g.name()
            t = 'typedef %s;\nextern %s %s;' % (decl(Fn(fn.ret, fn.args, fn.variadic), ty), ty, nm)
        elif k < .9:
            t = '%s __attribute__((unused)) %s;' % ('extern', proto)
        else:
            t = 'extern ' + proto + ';'
        out.append(t)
        fn2 = Fn(fn.ret, fn.args, fn.variadic)
        fn2.argnames = ['a%d' % i for i in range(len(fn.args))]
        lib.append((nm, decl(fn2, nm) + body))
    return '\n'.join(out) + '\n', lib


def run(case, obs):
    g = build(case)
    r = random.Random(case['seed'] + 7)
    src, lib = rewrite(g, r)
    probe = Reference(g)
    probe_ints(src, ['1'])          # the program is valid C
    if case['lib']:
        with tmpdir() as d:
            # the functions are spread over libraries; the first one that has a function, in the order of the options, is used
            nlib = r.choice([1, 1, 2, 3])
            where = {nm: [] if nlib > 1 and r.random() < .08 else r.sample(range(nlib), 2 if nlib > 1 and r.random() < .2 else 1)
                     for nm, _ in g.funcs}
            sos, h = [], d + '/x.c'
            for k in range(nlib):
                so = d + r.choice(['/libvf%d.so' % k, '/libvf%d.so.1' % k, '/sub.d%d/libvf.so' % k])
                os.makedirs(os.path.dirname(so), exist_ok=True)
                text = '\n'.join(x if isinstance(x, str) else x[1] for x in lib if isinstance(x, str) or k in where[x[0]])
                p = subprocess.run([CLANG, '-w', '-shared', '-fPIC', '-O0', '-x', 'c', '-', '-o', so], input=(text + '\nint only_%d;\n' % k).encode(),
                                   capture_output=True)
                if p.returncode:
                    raise ProbeError(p.stderr.decode()[:600])
                sos.append(so)
            with open(h, 'w') as f:
                f.write(src)
            text = cli_text([x for so in sos for x in ('-l', so)] + [h], d)
            try:
                ns = load(text)
            except Exception as e:
                fail('the generated module does not import: %r' % e, src, text)
            dlls = [ctypes.CDLL(so) for so in sos]
            for nm, fn in g.funcs:
                f = ns.get(nm)
                if f is None:
                    fail('function %s is not in the module' % nm, src, text)
                if not where[nm]:
                    obs.add('in no library')
                    continue
                a, b = (ctypes.cast(x, ctypes.c_void_p).value for x in (f, getattr(dlls[min(where[nm])], nm)))
                if a != b:
                    fail('%s is bound to %#x, the library has it at %#x' % (nm, a, b), src, text)
                obs.add('bound')
            obs.add('modules with %d libraries' % nlib)
            check(g, probe, ns, text, src, obs)
    else:
        ns, text = tr_ns(src)
        check(g, probe, ns, text, src, obs)
    obs.key(src)
    obs.feats({k: v for k, v in g.nfeat.items() if not k.startswith('sc:')})
    obs.sample(dict(source=src[-500:]))


def check(g, ref, ns, text, src, obs):
    m = ref.matcher(ns)
    exported = all_of(ns)
    for nm, fn in g.funcs:
        f = ns.get(nm)
        if f is None:
            fail('function %s is not in the module' % nm, src, text)
        if nm not in exported:
            fail('function %s is not exported' % nm, src, text)
        try:
            m.match_proto(f.restype, f.argtypes, fn, nm)
        except Mismatch as e:
            fail(str(e), src, text)
        obs.add('functions')
        obs.add('arguments', len(fn.args))
