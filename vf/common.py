"""Oracles shared by the record properties."""
import ctypes

from .core import *
from .cmodel import *
from .gen import Gen
from .layout import field_type, points, probe_exprs, py_locate
from .matcher import Matcher, Mismatch, desc
from .oracle import ProbeError, probe_data, probe_ints, target_info

# ways to build programs: each stresses one part of the layout rules
PROFILES = {
    'mix': {},
    'plain': dict(p_packed=0, p_aligned=0, p_pragma=0, p_field_align=0, p_union=.1),
    'packed': dict(p_packed=.5, p_pragma=.3, p_field_align=.1),
    'aligned': dict(p_aligned=.5, p_field_align=.3, p_packed=.2),
    'unions': dict(p_union=.7, p_anon=.12, p_nested=.1),
    'nested': dict(p_anon=.15, p_nested=.2, depth=4, max_fields=4),
    'wide': dict(max_fields=25, depth=1, p_anon=.02, p_nested=.02),
    'arrays': dict(p_arr=.7, p_packed=.2),
    'dunder': dict(p_packed=.2, names='dunder'),
}
ELF64 = ['aarch64-linux-gnu', 'powerpc64le-linux-gnu', 's390x-linux-gnu', 'riscv64-linux-gnu', 'mips64el-linux-gnuabi64',
         'sparc64-linux-gnu', 'loongarch64-linux-gnu', 'aarch64_be-linux-gnu', 'x86_64-pc-win32-elf', 'bpfel']
ELF32 = ['i386-linux', 'i686-pc-win32-elf', 'x86_64-linux-gnux32', 'arm-linux-gnueabihf', 'armeb-linux-gnueabi',
         'thumbv7m-none-eabi', 'mips-linux-gnu', 'mipsel-linux-gnu', 'powerpc-linux-gnu', 'riscv32-linux-gnu',
         'sparc-linux-gnu', 'm68k-linux-gnu', 'hexagon', 'lanai']
ELF16 = ['msp430', 'avr']
NOFP = {'int128': False}


def opts_of(target):
    return ['-target', target] if target else []


def target_cfg(target):
    """what the generator has to leave out for a target (constructs outside the property)"""
    c = {}
    if target and (target in ELF32 or target in ELF16):
        c.update(NOFP)
    if target and ('win32' in target or target in ELF16):
        c['big_enums'] = False
    if target in ELF16:
        c.update(p_arr=.08, max_fields=5)      # objects of more than 64 KB do not exist there
    if target == 'bpfel':
        c['int128'] = False
    return c


def build(case):
    """program of a case"""
    cfg = dict(PROFILES.get(case.get('profile', 'mix'), {}))
    cfg.update(target_cfg(case.get('target')))
    cfg.update(case.get('cfg') or {})
    n = case.get('n', 6)
    if case.get('profile') == 'wide':
        n = min(n, 4)
    g = Gen(case['seed'], **cfg).program(n, case.get('weights'))
    return g


class Reference:
    """everything the compiler says about a program, asked in one compilation"""

    def __init__(self, g, target=None):
        self.g = g
        self.src = g.text()
        ex, self.seg = [], []
        for r in g.recs:
            pts = points(r)
            e = probe_exprs(r.handle, pts)
            self.seg.append((r, pts, len(ex), len(e)))
            ex += e
        eb = len(ex)
        ex += ['sizeof(%s)' % e.handle for e in g.enums]
        self.vals = probe_ints(self.src, ex, target)
        self.tgt = target_info(target)
        self.enum_info = {e.tag: (self.vals[eb + i], any(v < 0 for _, v in e.resolved()))
                          for i, e in enumerate(g.enums)}

    def matcher(self, ns):
        return Matcher(ns, self.tgt, self.enum_info)


def fail(why, src, text=None):
    raise Violation('%s\n--- source ---\n%s%s' % (why, src, '--- generated ---\n' + body_of(text) if text else ''))


def check_layout(ref, ns, text, obs):
    m = ref.matcher(ns)
    n = 0
    for r, pts, b, k in ref.seg:
        cls = m.rec_class(r)
        v = ref.vals[b:b + k]
        if not (isinstance(cls, type) and issubclass(cls, (ctypes.Structure, ctypes.Union))):
            fail('%s is not in the module' % r.handle, ref.src, text)
        obs.add('records')
        if ref.tgt['ptr'] == 2 and ctypes.sizeof(cls) >= 1 << 16:
            raise Skip('objects of 64 KB do not exist on the target')
        if ctypes.sizeof(cls) != v[0]:
            fail('sizeof(%s) is %d, the class has %d' % (r.handle, v[0], ctypes.sizeof(cls)), ref.src, text)
        j = 1
        for st, cp, t, f in pts:
            if f is not None and f.bits is not None:
                continue
            try:
                off, ty, bits = py_locate(cls, st)
            except (AttributeError, TypeError, KeyError) as e:
                fail('%s%s cannot be reached: %r' % (r.handle, cp, e), ref.src, text)
            if off != v[j]:
                fail('%s%s is at offset %d, the class has it at %d' % (r.handle, cp, v[j], off), ref.src, text)
            if ty is None or ctypes.sizeof(ty) != v[j + 1]:
                fail('%s%s is %d bytes, the class has %s' % (r.handle, cp, v[j + 1], desc(ty)), ref.src, text)
            if bits is not None:
                fail('%s%s became a bit-field' % (r.handle, cp), ref.src, text)
            j += 2
            n += 1
        obs.add('members', (j - 1) // 2)
        obs.key(v, len(pts))
    return m


def check_types(ref, ns, text, obs, m=None):
    m = m or ref.matcher(ns)
    g = ref.g
    try:
        for r in g.recs:
            m.match(m.rec_class(r), r, r.handle)
            if getattr(r, 'tdname', None):
                if r.tdname not in ns:
                    fail('typedef %s is not in the module' % r.tdname, ref.src, text)
                m.match(ns[r.tdname], r, r.tdname)
        for t in g.tds:
            if t.name not in ns:
                fail('typedef %s is not in the module' % t.name, ref.src, text)
            m.match(ns[t.name], t, t.name)
        for e in g.enums:
            if e.tag not in ns:
                fail('enum %s is not in the module' % e.tag, ref.src, text)
            m.match(ns[e.tag], e, 'enum ' + e.tag)
    except Mismatch as e:
        fail(str(e), ref.src, text)
    obs.add('types compared', m.checked)
    return m


def run_tr(ref, case, opts):
    if case.get('via') == 'file':
        with tmpdir() as d:
            p = os.path.join(d, case.get('fname', 'input.h'))
            with open(p, 'w') as f:
                f.write(ref.src)
            try:
                text = translate_paths([p], opts)
            except Exception as e:
                fail('translation of a valid source fails: %s: %s' % (type(e).__name__, str(e)[:300]), ref.src)
        try:
            return load(text), text
        except Exception as e:
            fail('the generated module does not import: %s: %s' % (type(e).__name__, str(e)[:300]), ref.src, text)
    return tr_ns(ref.src, opts)
