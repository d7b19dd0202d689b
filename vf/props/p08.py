"""Calls into a real library."""
import random
import subprocess

from ..common import *
from ..oracle import CLANG
from ..values import *

RULE = ('A random library of C functions is compiled, translated with -l, and every function is called from the '
        'generated module with random values (integers of all sizes, floats, booleans, characters, enumerations, pointers to '
        'scalars, arrays and records, records by value). The C side compares every leaf of every argument with the '
        'value that was passed and returns a known value, which the monitor compares. A case counts by the calls made.')
ASSUMPTIONS = ['records passed by value have no unions or bit-fields (ctypes does not pass those)']


def cases(tier, seed):
    n = 700 if tier == 'quick' else 30000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=4 + i % 4, nf=6)


def simple(t, deep=True):
    """a record that ctypes can pass by value"""
    t = strip(t)
    if isinstance(t, Rec):
        return t.kind == 'struct' and not t.packed and not t.pragma and t.fields and all(
            f.bits is None and simple(f.t) for f in t.fields)
    if isinstance(t, Arr):
        # ctypes does not pass small records with arrays of arrays or of records
        return not isinstance(strip(t.t), (Arr, Rec)) and simple(t.t)
    if isinstance(t, Sc):
        return t.kind not in ('ldouble', 'int128', 'uint128', 'void')
    return True


SIZES = dict(bool=1, char=1, schar=1, uchar=1, short=2, ushort=2, int=4, uint=4, float=4, double=8)


def measure(t):
    """(size, alignment, bytes of data, has floats) of a type that simple() accepts"""
    t = strip(t)
    if isinstance(t, Rec):
        off, al, data, fl = 0, 1, 0, False
        for f in t.fields:
            s, a, d, x = measure(f.t)
            off = (off + a - 1) // a * a + s
            al, data, fl = max(al, a), data + d, fl or x
        return (off + al - 1) // al * al, al, data, fl
    if isinstance(t, Arr):
        s, a, d, x = measure(t.t)
        return s * t.n, a, d * t.n, x
    if isinstance(t, Sc):
        s = SIZES.get(t.kind, 8)
        return s, s, s, t.kind in ('float', 'double')
    if isinstance(t, Enum):
        return (4, 4, 4, False)
    return 8, 8, 8, False


def has_enum(t):
    t = strip(t)
    return isinstance(t, Enum) or isinstance(t, Rec) and any(has_enum(f.t) for f in t.fields) or \
        isinstance(t, Arr) and has_enum(t.t)


def by_value(t):
    if not simple(t):
        return False
    s, a, d, x = measure(t)
    # KNOWN: the padding that is spelled out as bytes changes how small records with floats are passed
    return not (x and s <= 24 and (s != d or has_enum(t)))


def pick_type(g, r, ret=False):
    k = r.random()
    c = [x for x in g.recs if by_value(x)]
    if k < .45:
        return Sc(r.choice(INTS + ['char', 'bool', 'float', 'double']))
    if k < .53 and g.enums:
        return r.choice(g.enums)
    if k < .61 and g.tds:
        t = [t for t in g.tds if g.complete(t) and isinstance(strip(t), (Sc, Enum)) and simple(t)]
        if t:
            return r.choice(t)
    if k < .7 and c:
        return r.choice(c)
    if k < .85 and g.recs:
        return Ptr(r.choice(g.recs))
    if k < .93:
        return Ptr(Sc(r.choice(INTS + ['float', 'double', 'bool'])))
    if k < .96 and not ret:
        return Arr(Sc(r.choice(INTS)), r.choice([None, 2, 5]))
    return Ptr(Sc('char')) if r.random() < .5 else Ptr(Sc('void'))


def target_of(t):
    t = strip(t)
    return strip(t.t)


def cmp_c(ls, var, i):
    out = []
    for l in ls:
        if isinstance(l.t, Arr):
            s = ['%s%s[%d] == (char)%d' % (var, l.cpath, k, x) for k, x in enumerate(l.v)]
        elif isinstance(l.t, Sc) and l.t.kind == 'float':
            s = ['%s%s == (float)%s' % (var, l.cpath, l.c())]
        elif isinstance(l.t, Sc) and l.t.kind == 'char':
            s = ['%s%s == (char)%s' % (var, l.cpath, l.c())]
        else:
            s = ['%s%s == %s' % (var, l.cpath, l.c())]
        out += ['    if (!(%s)) { vf_err = %d; vf_what = "%s"; }\n' % (x, i, x.replace('"', '')) for x in s]
    return ''.join(out)


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'], p_union=.1, fptr=False, int128=False, ldouble=False, p_anon=.05, p_nested=.05,
            p_packed=.05, p_aligned=0, p_pragma=.03, p_field_align=0)
    g.program(case['n'], dict(rec=4, fwd=0, enum=1, td=2, func=0))
    einfo = {e.tag: (0, 0) for e in g.enums}
    head = g.text()
    body = ['int vf_err; const char *vf_what; static int vf_scratch;\n']
    fns = []
    for i in range(case['nf']):
        nm = g.name() + '_f%d' % i
        args = [pick_type(g, r) for _ in range(r.choice([0, 1, 2, 3, 4, 6, 9, 12]))]
        ret = Sc('void') if r.random() < .15 else pick_type(g, r, True)
        fn = Fn(ret, args)
        fn.argnames = ['a%d' % k for k in range(len(args))]
        vals, chk = [], ''
        for k, a in enumerate(args):
            t = strip(a)
            if isinstance(t, (Ptr, Arr)):
                p = strip(t.t)
                if isinstance(p, Sc) and p.kind == 'void':
                    v = r.randrange(1, 1 << 48)
                    vals.append(('addr', v))
                    chk += '    if (a%d != (void*)%dULL) { vf_err = %d; vf_what = "a%d"; }\n' % (k, v, k + 1, k)
                    continue
                if isinstance(p, Sc) and p.kind == 'char':
                    s = bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 9)))
                    vals.append(('str', s))
                    for j, x in enumerate(s + b'\0'):
                        chk += '    if (a%d[%d] != (char)%d) { vf_err = %d; vf_what = "a%d"; }\n' % (k, j, x, k + 1, k)
                    continue
                if isinstance(p, Rec):
                    ls = leaves(r, p, einfo, limit=20)
                    vals.append(('ptr', p, ls))
                    chk += cmp_c(ls, '(*a%d)' % k, k + 1)
                    if ls and r.random() < .5:
                        pass
                else:
                    n = r.randrange(1, 5)
                    ls = [Leaf((('i', j),), '[%d]' % j, p, leaf_value(r, p, None, einfo)) for j in range(n)]
                    vals.append(('arr', p, n, ls))
                    chk += cmp_c(ls, 'a%d' % k, k + 1)
            elif isinstance(t, Rec):
                ls = leaves(r, t, einfo, limit=30)
                vals.append(('val', t, ls))
                chk += cmp_c(ls, 'a%d' % k, k + 1)
            else:
                l = Leaf((), '', t, leaf_value(r, t, None, einfo))
                vals.append(('sc', l))
                chk += cmp_c([l], 'a%d' % k, k + 1)
        rt = strip(ret)
        rv = None
        if isinstance(rt, Sc) and rt.kind == 'void':
            tail = ''
        elif isinstance(rt, Rec):
            rv = leaves(r, rt, einfo, limit=30)
            tail = '    static %s = %s; return v;\n' % (decl(ret, 'v'), c_init(rv))
        elif isinstance(rt, Ptr):
            p = strip(rt.t)
            if isinstance(p, Rec):
                rv = leaves(r, p, einfo, limit=20)
                tail = '    static %s = %s; return &v;\n' % (decl(p, 'v'), c_init(rv))
            elif isinstance(p, Sc) and p.kind == 'void':
                rv = r.randrange(1, 1 << 48)
                tail = '    return (void*)%dULL;\n' % rv
            elif isinstance(p, Sc) and p.kind == 'char':
                rv = bytes(r.choice(b'abcXYZ019 _') for _ in range(r.randrange(0, 8)))
                tail = '    return "%s";\n' % rv.decode()
            else:
                rv = Leaf((), '', p, leaf_value(r, p, None, einfo))
                tail = '    static %s = %s; return &v;\n' % (decl(p, 'v'), rv.c())
        else:
            rv = Leaf((), '', rt, leaf_value(r, rt, None, einfo))
            tail = '    return %s;\n' % rv.c()
        body.append('%s {\n%s%s}\n' % (decl(fn, nm), chk, tail))
        fns.append((nm, fn, vals, rt, rv))
    protos = ''.join(decl(fn, nm) + ';\n' for nm, fn, *_ in fns)
    src = head + protos
    with tmpdir() as d:
        so, h = d + '/libvf.so', d + '/x.h'
        p = subprocess.run([CLANG, '-w', '-shared', '-fPIC', '-O1', '-x', 'c', '-', '-o', so],
                           input=(src + ''.join(body)).encode(), capture_output=True)
        if p.returncode:
            raise ProbeError(p.stderr.decode()[:1500])
        with open(h, 'w') as f:
            f.write(src)
        text = cli_text(['-l', so, h], d)
        try:
            ns = load(text)
        except Exception as e:
            fail('the generated module does not import: %r' % e, src, text)
        dll = ctypes.CDLL(so)
        err = ctypes.c_int.in_dll(dll, 'vf_err')
        what = ctypes.c_char_p.in_dll(dll, 'vf_what')
        m = Matcher(ns, target_info(None))
        for nm, fn, vals, rt, rv in fns:
            call(ns, m, nm, fn, vals, rt, rv, err, what, src, text, obs)
    obs.key(src, [str(f[0]) for f in fns])
    obs.sample(dict(source=protos[:500], body=body[1][:400]))


def call(ns, m, nm, fn, vals, rt, rv, err, what, src, text, obs):
    f = ns.get(nm)
    if f is None:
        fail('function %s is not in the module' % nm, src, text)
    args, keep = [], []
    for v, at in zip(vals, f.argtypes):
        if v[0] == 'sc':
            args.append(to_py(v[1], at))
        elif v[0] == 'addr':
            args.append(v[1] if at is ctypes.c_void_p else ctypes.cast(v[1], at))
        elif v[0] == 'str':
            args.append(ns['char_pointer_cast'](v[1]))
        elif v[0] == 'arr':
            o = (at._type_ * v[2])()
            for l in v[3]:
                set_leaf(o, l)
            args.append(o)
        else:
            o = m.rec_class(v[1])()
            for l in v[2]:
                set_leaf(o, l)
            args.append(o if v[0] == 'val' else ctypes.pointer(o))
    err.value = 0
    try:
        res = f(*args)
    except Exception as e:
        fail('%s cannot be called with %s: %r' % (nm, show(vals), e), src, text)
    if err.value:
        fail('%s was called with %s, but C received something else in argument %d: not %s' % (
            nm, show(vals), err.value, what.value.decode()), src, text)
    obs.add('calls')
    obs.add('arguments', len(vals))
    if isinstance(rt, Sc) and rt.kind == 'void':
        if res is not None:
            fail('%s returns nothing, the call gave %r' % (nm, res), src, text)
    elif isinstance(rt, Rec):
        chk_leaves(res, rv, nm, src, text)
    elif isinstance(rt, Ptr):
        p = strip(rt.t)
        if isinstance(p, Rec):
            chk_leaves(res.contents, rv, nm, src, text)
        elif isinstance(p, Sc) and p.kind == 'void':
            got = res if isinstance(res, int) or res is None else ctypes.cast(res, ctypes.c_void_p).value
            if got != rv:
                fail('%s returns %#x, the call gave %r' % (nm, rv, got), src, text)
        elif isinstance(p, Sc) and p.kind == 'char':
            if ns['string_cast'](res) != rv.decode():
                fail('%s returns %r, the call gave %r' % (nm, rv, ns['string_cast'](res)), src, text)
        else:
            if not same(res[0], rv, None):
                fail('%s returns a pointer to %r, the call gave one to %r' % (nm, rv.v, res[0]), src, text)
    else:
        if not same(res, rv, None):
            fail('%s returns %r, the call gave %r' % (nm, rv.v, res), src, text)


def chk_leaves(o, ls, nm, src, text):
    for l in ls:
        v = get_leaf(o, l)
        if not same(v, l, None):
            fail('%s returns a record where %s is %r, the call gave %r' % (nm, l.cpath, l.v, v), src, text)


def show(vals):
    out = []
    for v in vals:
        if v[0] == 'sc':
            out.append(repr(v[1].v))
        elif v[0] in ('addr', 'str'):
            out.append(repr(v[1]))
        else:
            out.append('%s{%s}' % (v[0], ', '.join('%s=%s' % (l.cpath, l.v) for l in v[-1][:8])))
    return '(%s)' % ', '.join(out)
