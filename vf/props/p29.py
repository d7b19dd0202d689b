"""Records with flexible and zero-length arrays."""
import random

from ..common import *
from ..gen import Gen, rec_text
from ..layout import py_locate
from ..oracle import probe_ints

TARGETS = [None, None, 'i386-linux', 'aarch64-linux-gnu', 'powerpc-linux-gnu', None, 'arm-linux-gnueabihf', 's390x-linux-gnu']
RULE = ('Random records that end with a flexible array (of scalars, records, pointers, arrays), or have arrays of length zero among their members, alone, nested in other records and in arrays, packed and aligned, for the host and five targets. The monitor '
        'compares the size of the record and the offset of every member with the compiler, and the type of the elements with the declaration; on the host, elements are written through the class into a larger '
        'buffer. A case counts by the vector of sizes and offsets.')
ASSUMPTIONS = ['clang is the reference for arrays of length zero, an extension of C']


class FlexGen(Gen):
    def record(self, tag=True, depth=None, kind=None, top=True, used=None):
        r = self.rng
        rec = super().record(tag, depth, kind, top, used)
        names = {f.name for f in rec.fields}
        for _ in range(2):
            if r.random() < .25:
                nm = self.name('z')
                if nm not in names and (used is None or nm not in used):
                    t = r.choice([Sc('char'), Sc('int'), Sc('double'), Sc('short'), Ptr(Sc('int'))] + self.recs[-2:])
                    rec.fields.insert(r.randrange(len(rec.fields) + 1), Field(nm, Arr(t, 0)))
                    names.add(nm)
                    self.feat('zero-length')
        if top and rec.kind == 'struct' and r.random() < .6 and any(f.name and not (isinstance(strip(f.t), Arr) and strip(f.t).n == 0) for f in rec.fields):
            nm = self.name('flex')
            if nm not in names:
                k = r.random()
                t = Sc(r.choice(['char', 'uchar', 'short', 'int', 'long', 'double', 'llong', 'float'])) if k < .5 else Ptr(Sc('char')) if k < .6 else Arr(Sc(r.choice(['int', 'char'])), 3) if k < .7 else \
                    r.choice(self.recs) if self.recs else Ptr(Sc('void'))
                rec.flex = Field(nm, Arr(t, None))
                self.feat('flexible')
        return rec


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 40000
    names = ['mix', 'plain', 'nested', 'packed', 'aligned', 'bitfields']
    names = [x for x in names if x in PROFILES] or list(PROFILES)
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, target=TARGETS[i % len(TARGETS)], profile=names[i // 3 % len(names)], n=3 + i % 5)


def run(case, obs):
    r = random.Random(case['seed'] + 29)
    cfg = dict(PROFILES.get(case['profile'], {}))
    cfg.update(target_cfg(case['target']))
    g = FlexGen(case['seed'], **cfg).program(case['n'], dict(rec=6, enum=1, td=1, fwd=1))
    # the flexible arrays are only in the text: they are looked at here
    flex = []
    for i, (kind, rec, txt) in enumerate(g.items):
        f = getattr(rec, 'flex', None) if kind == 'rec' else None
        if f is None or rec.kind != 'struct':
            continue
        body = rec_text(rec)
        if body not in txt:
            continue
        at = body.rindex('}')
        t = strip(f.t).t
        g.items[i] = (kind, rec, txt.replace(body, body[:at] + '    ' + (decl(t, f.name + '[]') if not isinstance(t, Arr) else decl(t.t, '%s[][%d]' % (f.name, t.n))) + ';\n' + body[at:]))
        flex.append((rec, f, t))
    if not flex and 'zero-length' not in g.nfeat:
        raise Skip('no such array')
    ref = Reference(g, case['target'])
    for rec, f, t in flex:
        rec.fields.append(f)
    ns, text = tr_ns(ref.src, opts_of(case['target']))
    m = check_layout(ref, ns, text, obs)
    want = probe_ints(ref.src, ['__builtin_offsetof(%s, %s)' % (rec.handle, f.name) for rec, f, t in flex] + ['sizeof(((%s *)0)->%s[0])' % (rec.handle, f.name) for rec, f, t in flex], case['target'])
    for j, (rec, f, t) in enumerate(flex):
        cls = m.rec_class(rec)
        try:
            off, ty, bits = py_locate(cls, [('f', f.name)])
        except Exception as e:
            fail('%s.%s cannot be reached: %r' % (rec.handle, f.name, e), ref.src, text)
        if off != want[j] or bits is not None:
            fail('%s.%s is at offset %d, the class has it at %s' % (rec.handle, f.name, want[j], off), ref.src, text)
        if not (isinstance(ty, type) and issubclass(ty, ctypes.Array)) or ty._length_:
            fail('%s.%s is %s, not an array without length' % (rec.handle, f.name, ty), ref.src, text)
        try:
            m.match(ty._type_, t, '%s.%s[]' % (rec.handle, f.name))
        except Mismatch as e:
            fail(str(e), ref.src, text)
        if ctypes.sizeof(ty._type_) != want[len(flex) + j]:
            fail('the elements of %s.%s have %d bytes, in the class %d' % (rec.handle, f.name, want[len(flex) + j], ctypes.sizeof(ty._type_)), ref.src, text)
        # the way such an array is used: a buffer with room for some elements
        n = 3
        raw = (ctypes.c_char * (max(ctypes.sizeof(cls), off) + n * ctypes.sizeof(ty._type_)))()
        o = cls.from_buffer(raw)
        e = (ty._type_ * n).from_address(ctypes.addressof(getattr(o, f.name)) if not isinstance(getattr(o, f.name), (bytes, str)) else ctypes.addressof(o) + off)
        if ctypes.addressof(e) != ctypes.addressof(raw) + want[j]:
            fail('the elements of %s.%s are elsewhere' % (rec.handle, f.name), ref.src, text)
        obs.add('flexible arrays')
    obs.add('target:%s' % case['target'])
    obs.feats({k: v for k, v in g.nfeat.items() if not k.startswith('sc:')})
    obs.sample(dict(source=ref.src[:500]))
