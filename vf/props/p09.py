"""Callbacks."""
import random
import subprocess

from ..common import *
from ..oracle import CLANG
from ..values import *
from .p08 import by_value, cmp_c, chk_leaves

RULE = ('A random library calls back: through function pointers passed as arguments, kept in records and passed by typedef, and returns '
        'pointers to its own functions. Python callbacks are created with the generated types (directly, or with the bind helper of '
        'records). The monitor compares what every callback receives with what C passes, what C receives with what the '
        'callback returns, and the order of the calls. A case counts by the calls observed.')
ASSUMPTIONS = ['callbacks return scalars or nothing (ctypes does not allow more)']


def cases(tier, seed):
    n = 500 if tier == 'quick' else 25000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=2 + i % 3, nf=5)


def arg(g, r):
    k = r.random()
    if k < .5:
        return Sc(r.choice(INTS + ['bool', 'float', 'double', 'char']))
    if k < .6 and g.enums:
        return r.choice(g.enums)
    if k < .8 and g.recs:
        return Ptr(r.choice(g.recs))
    c = [x for x in g.recs if by_value(x)]
    if k < .87 and c:
        return r.choice(c)
    if k < .93:
        return r.choice([Arr(Sc(r.choice(INTS)), r.choice([2, 5])), Ptr(Sc(r.choice(INTS)))])
    return Ptr(Sc('void'))


def result(g, r):
    k = r.random()
    if k < .25:
        return Sc('void')
    if k < .9 or not g.enums:
        return Sc(r.choice([k for k in INTS] + ['bool', 'float', 'double']))
    return r.choice(g.enums)


class CB:
    pass


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'], p_union=.05, fptr=False, int128=False, ldouble=False, p_anon=.03, p_nested=.03,
            p_packed=0, p_aligned=0, p_pragma=0, p_field_align=0, max_fields=5)
    g.program(case['n'], dict(rec=4, fwd=0, enum=1, td=0, func=0))
    einfo = {e.tag: (0, 0) for e in g.enums}
    head = g.text()
    protos, body, cbs = [], ['int vf_err; const char *vf_what;\n'], []
    for i in range(case['nf']):
        c = CB()
        c.fn = Fn(result(g, r), [arg(g, r) for _ in range(r.choice([0, 1, 2, 3, 5, 8] * 6 + [16, 21]))])
        c.td = 'cb%d_%s' % (i, g.name())
        how = r.choice(['typedef', 'inline', 'functype'])
        if how == 'functype':
            protos.append('typedef %s;' % decl(c.fn, c.td))
            pt = '%s *' % c.td
        elif how == 'typedef':
            protos.append('typedef %s;' % decl(Ptr(c.fn), c.td))
            pt = c.td + ' '
        else:
            protos.append('typedef %s;' % decl(Ptr(c.fn), c.td))
            pt = None
        c.drive = 'drive%d' % i
        c.pt = pt
        call, pre = [], ''
        c.vals = []
        for k, a in enumerate(c.fn.args):
            t = strip(a)
            v = 'v%d' % k
            if isinstance(t, (Ptr, Arr)):
                p = strip(t.t)
                if isinstance(p, Sc) and p.kind == 'void':
                    x = r.randrange(1, 1 << 47)
                    c.vals.append(('addr', x))
                    call.append('(void*)%dULL' % x)
                elif isinstance(p, Rec):
                    ls = leaves(r, p, einfo, limit=15)
                    c.vals.append(('ptr', ls))
                    pre += '    static %s = %s;\n' % (decl(p, v), c_init(ls))
                    call.append('&' + v)
                else:
                    n = 3
                    ls = [Leaf((('i', j),), '[%d]' % j, p, leaf_value(r, p, None, einfo)) for j in range(n)]
                    c.vals.append(('arr', ls))
                    pre += '    static %s = { %s };\n' % (decl(Arr(p, n), v), ', '.join(l.c() for l in ls))
                    call.append(v)
            elif isinstance(t, Rec):
                ls = leaves(r, t, einfo, limit=15)
                c.vals.append(('val', ls))
                pre += '    static %s = %s;\n' % (decl(t, v), c_init(ls))
                call.append(v)
            else:
                l = Leaf((), '', t, leaf_value(r, t, None, einfo))
                c.vals.append(('sc', l))
                pre += '    %s = (%s)%s;\n' % (decl(t, v), base_text(t), l.c())
                call.append(v)
        rt = strip(c.fn.ret)
        c.rt = rt
        inv = 'f(%s)' % ', '.join(call)
        if isinstance(rt, Sc) and rt.kind == 'void':
            c.rv = None
            code = pre + '    %s;\n' % inv
        else:
            c.rv = Leaf((), '', rt, leaf_value(r, rt, None, einfo))
            code = pre + '    %s = %s;\n' % (decl(rt, 'res'), inv) + cmp_c([c.rv], 'res', i + 1)
        param = pt + 'f' if pt else decl(Ptr(c.fn), 'f')
        protos.append('void %s(%s);' % (c.drive, param))
        body.append('void %s(%s) {\n%s}\n' % (c.drive, param, code))
        # a function of the library, handed out as a pointer
        c.own = 'own%d' % i
        f2 = Fn(c.fn.ret, c.fn.args)
        f2.argnames = ['a%d' % k for k in range(len(c.fn.args))]
        c.orv = None if c.rv is None else Leaf((), '', rt, leaf_value(r, rt, None, einfo))
        body.append('static %s { vf_err = %d; %s }\n' % (decl(f2, 'impl%d' % i), 1000 + i,
                                                        '' if c.rv is None else 'return %s;' % c.orv.c()))
        protos.append('%s%s(void);' % (pt or c.td + ' ', c.own))
        body.append('%s%s(void) { return impl%d; }\n' % (pt or c.td + ' ', c.own, i))
        cbs.append(c)
    # a record of callbacks
    members = ''.join('    %sm%d;\n' % (c.pt or c.td + ' ', i) for i, c in enumerate(cbs))
    protos.append('struct vf_ops {\n    int before;\n%s    short after;\n};' % members)
    protos.append('int run_ops(struct vf_ops *o, unsigned which);')
    body.append('int run_ops(struct vf_ops *o, unsigned which) {\n    if (o->before != 77 || o->after != -5) return -1;\n%s'
                '    return which;\n}\n' % ''.join('    if (which & %du) %s(o->m%d);\n' % (1 << i, c.drive, i)
                                                 for i, c in enumerate(cbs)))
    src = head + '\n'.join(protos) + '\n'
    with tmpdir() as d:
        so, h = d + '/libvf.so', d + '/x.h'
        p = subprocess.run([CLANG, '-w', '-shared', '-fPIC', '-O1', '-x', 'c', '-', '-o', so],
                           input=(src + ''.join(body)).encode(), capture_output=True)
        if p.returncode:
            raise ProbeError(p.stderr.decode()[:1500])
        with open(h, 'w') as f:
            f.write(src)
        text = cli_text(['-l', so, h], d)
        try:
            ns = load(text)
        except Exception as e:
            fail('the generated module does not import: %r' % e, src, text)
        dll = ctypes.CDLL(so)
        err = ctypes.c_int.in_dll(dll, 'vf_err')
        what = ctypes.c_char_p.in_dll(dll, 'vf_what')
        observe(ns, r, cbs, err, what, src, text, obs)
    obs.key(src)
    obs.sample(dict(source='\n'.join(protos)[:600]))


def observe(ns, r, cbs, err, what, src, text, obs):
    log, bad = [], []

    def maker(i, c, rv):
        def cb(*args):
            log.append(i)
            if len(args) != len(c.vals):
                bad.append('callback %d got %d arguments instead of %d' % (i, len(args), len(c.vals)))
            for k, (a, v) in enumerate(zip(args, c.vals)):
                try:
                    if v[0] == 'sc':
                        ok = same(a, v[1], None)
                    elif v[0] == 'addr':
                        ok = (a if isinstance(a, int) or a is None else ctypes.cast(a, ctypes.c_void_p).value) == v[1]
                    elif v[0] == 'arr':
                        ok = all(same(a[l.steps[0][1]], l, None) for l in v[1])
                    else:
                        o = a.contents if v[0] == 'ptr' else a
                        ok = all(same(get_leaf(o, l), l, None) for l in v[1])
                except Exception as e:
                    bad.append('argument %d of callback %d: %r' % (k, i, e))
                    continue
                if not ok:
                    bad.append('argument %d of callback %d is %r, C passed %r' % (
                        k, i, a, v[1] if v[0] == 'addr' else v[1].v if v[0] == 'sc' else [l.v for l in v[1]]))
                obs.add('callback arguments')
            return None if rv is None else rv.v
        return cb

    def settled(i, c):
        if bad:
            fail('; '.join(bad[:3]) + ' (%s)' % decl(c.fn, c.td), src, text)
        if err.value:
            fail('C received something else than what callback %d returned: not %s (%s)' % (
                i, what.value.decode() if what.value else err.value, decl(c.fn, c.td)), src, text)

    for i, c in enumerate(cbs):
        cls = ns.get(c.td)
        drive = ns.get(c.drive)
        if cls is None or drive is None:
            fail('%s or %s is not in the module' % (c.td, c.drive), src, text)
        for t in (cls, drive.argtypes[0]):
            err.value = 0
            del log[:]
            drive(t(maker(i, c, c.rv)))
            settled(i, c)
            if log != [i]:
                fail('%s called back %s' % (c.drive, log), src, text)
            obs.add('callbacks')
        # a function pointer of the library
        f = ns[c.own]()
        err.value = 0
        args = []
        for v, t in zip(c.vals, type(f)._argtypes_):
            if v[0] == 'sc':
                args.append(to_py(v[1], t))
            elif v[0] == 'addr':
                args.append(v[1] if t is ctypes.c_void_p else ctypes.cast(v[1], t))
            elif v[0] == 'arr':
                args.append((t._type_ * 3)())
            elif v[0] == 'ptr':
                args.append(ctypes.pointer(t._type_()))
            else:
                args.append(t())
        got = f(*args)
        if err.value != 1000 + i or (c.rv is None and got is not None) or (c.rv is not None and not same(got, c.orv, None)):
            fail('the function that %s returns gave %r instead of %r' % (c.own, got, c.orv and c.orv.v), src, text)
        obs.add('function pointers called')
    ops = ns.get('struct_vf_ops')
    if ops is None:
        fail('struct vf_ops is not in the module', src, text)
    for rnd in range(4):
        which = r.randrange(0, 1 << len(cbs))
        order = [i for i in range(len(cbs)) if which >> i & 1]
        mk = {'m%d' % i: maker(i, cbs[i], cbs[i].rv) for i in order}
        if rnd % 2:
            # the others are not given: they must do nothing
            binds = dict(mk, before=77, after=-5)
            o = ops.bind(dict(binds))
        else:
            o = ops()
            o.before, o.after = 77, -5
            keep = {k: ops.get_type(k)(f) for k, f in mk.items()}
            for k, f in keep.items():
                setattr(o, k, f)
        err.value = 0
        del log[:]
        n = ns['run_ops'](ctypes.pointer(o), which)
        for i in order:
            settled(i, cbs[i])
        if n != which or log != order:
            fail('run_ops(%d) gave %d and called %s instead of %s' % (which, n, log, order), src, text)
        obs.add('records of callbacks')
    # unbound callbacks return zero
    o = ops.bind({})
    for i, c in enumerate(cbs):
        f = getattr(o, 'm%d' % i)
        args = []
        for v, t in zip(c.vals, type(f)._argtypes_):
            args.append(to_py(v[1], t) if v[0] == 'sc' else 0 if t is ctypes.c_void_p else ctypes.cast(0, t) if v[0] != 'val' else t())
        got = f(*args)
        if got not in (None, 0, b'\0', False):
            fail('a callback that is not bound returned %r' % (got,), src, text)
        obs.add('unbound callbacks')
    try:
        ops.bind({'no_such_member_': None})
    except ValueError:
        pass
    else:
        fail('bind accepts a member that does not exist', src, text)
