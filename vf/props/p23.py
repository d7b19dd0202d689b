"""Types of other targets."""
import random

from ..common import *
from .p02 import TARGETS

RULE = ('Random typedefs, records, pointers, arrays and enumerations are translated for one of %d targets; the monitor '
        'compares every generated type with the declared one, with the sizes and signedness clang reports for the '
        'target, and tries to use pointers whose size differs from the host. A case counts by target and source.'
        % len(TARGETS))
ASSUMPTIONS = ['clang 18 of the sandbox is the reference for the sizes of every target']
W = dict(rec=3, fwd=1, enum=1, td=6, func=0)


def cases(tier, seed):
    n = 2200 if tier == 'quick' else 60000
    for i in range(n):
        t = TARGETS[i % len(TARGETS)]
        yield dict(seed=seed * 1000003 + i, target=t, profile=['mix', 'nested', 'arrays'][i // len(TARGETS) % 3],
                   n=5 + i % 8, weights=W)


def run(case, obs):
    t = case['target']
    g = build(case)
    ref = Reference(g, t)
    # variables that are pointers
    r = random.Random(case['seed'])
    vs = {}
    if r.random() < .6:
        for td in g.tds:
            p = strip(td)
            if isinstance(p, Ptr):
                vs['vfv%d' % len(vs)] = (td, r.choice(['%s %s;', 'extern %s %s;', 'static %s %s;', '%s %s = 0;']))
            if not isinstance(p, (Fn, Arr)):
                vs['vfv%d' % len(vs)] = (Ptr(td), r.choice(['%s *%s;', 'extern %s *%s;', '%s * const %s;', 'static %s *%s;']))
        for rec in g.recs:
            vs['vfv%d' % len(vs)] = (Ptr(rec), '%s *%s;')
        ref.src += '\n'.join(f % (ty.name if '*%' not in f and '* c' not in f else (ty.t.handle if isinstance(ty.t, Rec) else ty.t.name), n) for n, (ty, f) in vs.items()) + '\n'
    ns, text = tr_ns(ref.src, ['-target', t])
    m = check_types(ref, ns, text, obs)
    for n, (ty, f) in vs.items():
        if n not in ns:
            fail('%s is not in the module' % n, ref.src, text)
        v = ns[n]
        if isinstance(v, (ctypes._SimpleCData, ctypes._Pointer)):
            # an object of the type, which is null
            if ctypes.sizeof(v) != ref.tgt['ptr'] or bytes(v).strip(b'\0'):
                fail('%s is a null pointer of %d bytes, in the module %r of %d bytes' % (n, ref.tgt['ptr'], v, ctypes.sizeof(v)), ref.src, text)
            try:
                m.match(type(v), ty, n)
            except Mismatch as e:
                fail(str(e), ref.src, text)
            obs.add('pointer variables')
    foreign = ref.tgt['ptr'] != ctypes.sizeof(ctypes.c_void_p)
    for td in g.tds:
        p = strip(td)
        if isinstance(p, Ptr) and not isinstance(strip(p.t), Fn):
            py = ns[td.name]
            if foreign:
                # a pointer of another size cannot be created nor followed
                try:
                    py()
                except TypeError:
                    pass
                else:
                    fail('a pointer of %d bytes can be created as %s' % (ref.tgt['ptr'], td.name), ref.src, text)
                o = py.from_buffer(bytearray(8))
                try:
                    x = o.contents()
                except TypeError:
                    pass
                else:
                    fail('a pointer of %d bytes can be followed as %s: %r' % (ref.tgt['ptr'], td.name, x), ref.src, text)
                obs.add('foreign pointers')
            else:
                py()
                obs.add('host-sized pointers')
    obs.add('target:' + t)
    obs.key(t, ref.src)
    obs.sample(dict(target=t, source=ref.src[:400]))
