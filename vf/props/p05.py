"""Values exchanged through memory."""
from ..common import *
from ..values import *

RULE = ('Random records; for every record random values are given to its scalar leaves (nested members, array elements, one '
        'member of each union). The monitor compares the bytes of the object filled through the generated class with '
        'the bytes clang emits for the same initialiser, and reads the bytes of clang back through the class. '
        'A case counts by the distinct byte images observed.')
ASSUMPTIONS = ['clang zero-fills the padding of static objects']


def cases(tier, seed):
    n = 1200 if tier == 'quick' else 50000
    names = list(PROFILES)
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, profile=names[i % len(names)], n=4 + i % 5)


def run(case, obs):
    g = build(case)
    r = random.Random(case['seed'] ^ 0x5a5a)
    einfo = {e.tag: (0, any(v < 0 for _, v in e.resolved())) for e in g.enums}
    src = g.text()
    defs, objs = [], []
    for rec in g.recs:
        for j in range(2):
            ls = leaves(r, rec, einfo)
            if not ls:
                continue
            nm = 'vf_obj_%d' % len(objs)
            defs.append('%s %s = %s;' % (rec.handle, nm, c_init(ls)))
            objs.append((rec, nm, ls))
    data, en = probe_data(src + '\n'.join(defs), [o[1] for o in objs])
    ns, text = tr_ns(src)
    m = Matcher(ns, target_info(None))
    for rec, nm, ls in objs:
        cls = m.rec_class(rec)
        want = data[nm]
        o = cls()
        for l in ls:
            try:
                set_leaf(o, l)
            except Exception as e:
                fail('%s%s cannot be set to %r: %r' % (rec.handle, l.cpath, l.v, e), src, text)
        got = bytes(o)
        if got != want:
            d = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), None)
            fail('the object %s %s\nis %s in C and %s through the class (first difference at byte %s)' % (
                rec.handle, c_init(ls), want.hex(), got.hex(), d), src, text)
        o2 = cls.from_buffer_copy(want)
        for l in ls:
            v = get_leaf(o2, l)
            if not same(v, l, None):
                fail('%s%s is %r in C and reads %r through the class' % (rec.handle, l.cpath, l.v, v), src, text)
        obs.add('objects')
        obs.add('leaves', len(ls))
        obs.key(want)
    obs.feats({k: v for k, v in g.nfeat.items() if not k.startswith('sc:')})
    obs.sample(dict(source=src[:400], objects=[(o[1], data[o[1]].hex()[:80]) for o in objs[:3]]))
