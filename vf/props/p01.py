"""Record layout, native target."""
from ..common import *

RULE = ('Random C programs of records (structures and unions, nested, anonymous, packed, aligned, pragma pack, arrays, '
        'pointers, function pointers, typedefs, forward declarations) are translated and loaded; the monitor compares '
        'the size of every record and the offset and size of every reachable member with constant expressions compiled '
        'by clang. A case counts by the distinct vector of sizes and offsets of one record.')
ASSUMPTIONS = ['clang 18 of the sandbox is the reference for layouts']


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 60000
    names = [p for p in PROFILES]
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, profile=names[i % len(names)], n=4 + i % 7,
                   via='file' if i % 3 == 0 else 'string')


def run(case, obs):
    g = build(case)
    ref = Reference(g)
    ns, text = run_tr(ref, case, [])
    check_layout(ref, ns, text, obs)
    obs.add('programs')
    obs.feats({k: v for k, v in g.nfeat.items() if not k.startswith('sc:')})
    obs.sample(dict(source=ref.src[:600], records=[(r.handle, ref.vals[b]) for r, _, b, _ in ref.seg][:4]))
