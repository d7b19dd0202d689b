"""Record layout and sizes of other targets."""
from ..common import *

TARGETS = ELF64 + ELF32 + ELF16
RULE = ('Random record programs are translated for one of %d targets (64, 32 and 16-bit pointers, little and big endian, '
        'several sizes of long and long double); the monitor compares sizes and offsets in the generated classes with '
        'constant expressions that clang evaluates for that target. A case counts by its target and the vector of '
        'sizes and offsets.' % len(TARGETS))
ASSUMPTIONS = ['clang 18 of the sandbox is the reference for the layouts of every target',
               'targets with an ELF object format']


def cases(tier, seed):
    n = 2600 if tier == 'quick' else 60000
    names = list(PROFILES)
    for i in range(n):
        t = TARGETS[i % len(TARGETS)]
        yield dict(seed=seed * 1000003 + i, target=t, profile=names[(i // len(TARGETS)) % len(names)], n=3 + i % 5,
                   how=i % 4)
    # the flags that stand for another target
    for i in range(n // 13):
        f, t = [('-m32', 'i386-linux'), ('-mx32', 'x86_64-linux-gnux32'), ('-m32', 'i386-linux')][i % 3]
        yield dict(seed=seed * 1000003 + n + i, target=t, profile=names[i // 3 % len(names)], n=3 + i % 5, how=f)


def run(case, obs):
    t = case['target']
    g = build(case)
    ref = Reference(g, t)
    opts = ['-target', t]
    if case['how'] == 1:
        opts += ['-DVF_UNUSED=1']
    elif case['how'] == 2:
        opts = ['-std=gnu11'] + opts
    elif case['how'] == 3:
        opts = ['--target=' + t]
    elif case['how']:
        opts = [case['how']]
    ns, text = tr_ns(ref.src, opts)
    check_layout(ref, ns, text, obs)
    # the header of the module announces the sizes of the target
    head = dict(l[2:].split(' is: ', 1) for l in text.splitlines()[:12] if l.startswith('# ') and ' is: ' in l)
    for k, v in (('POINTER_SIZE', ref.tgt['ptr']), ('WORD_SIZE', ref.tgt['long']), ('LONGDOUBLE_SIZE', ref.tgt['ldouble'])):
        if head.get(k) != str(v):
            fail('%s is %s on %s, the module says %s' % (k, v, t, head.get(k)), ref.src, text)
    obs.add('target:' + t)
    obs.keys = {t + k for k in obs.keys}
    obs.feats({k: v for k, v in g.nfeat.items() if not k.startswith('sc:')})
    obs.sample(dict(target=t, source=ref.src[:400]))
