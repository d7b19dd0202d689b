"""Type fidelity, native target."""
from ..common import *

RULE = ('Random programs of typedef chains, records, enumerations, pointers, arrays and function pointers; the monitor '
        'walks every generated type next to the declared C type (category, size, signedness, array length, pointee, '
        'argument and result types, member order). A case counts by its source.')
ASSUMPTIONS = ['the reference is the declaration itself, and clang for sizes']
W = dict(rec=3, fwd=1, enum=1.5, td=6, func=0)


def cases(tier, seed):
    n = 2200 if tier == 'quick' else 80000
    names = ['mix', 'nested', 'arrays', 'unions', 'dunder', 'plain']
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, profile=names[i % len(names)], n=6 + i % 12,
                   weights=W if i % 3 else None, via='file' if i % 4 == 0 else 'string')


def run(case, obs):
    g = build(case)
    ref = Reference(g)
    ns, text = run_tr(ref, case, [])
    check_types(ref, ns, text, obs)
    obs.key(ref.src)
    obs.feats(g.nfeat)
    obs.sample(dict(source=ref.src[:600]))
