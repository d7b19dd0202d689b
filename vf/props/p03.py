"""Bit-fields."""
import random

from ..common import *
from ..values import rand_int, c_int, BITS

RULE = ('Random records of bit-fields of every integer type, typedefs and enumerations, named, unnamed and of width 0, with other members, unions and '
        'records between them, nested in each other. Each field is written with all-ones, random values and a history of interleaved '
        'writes through the class, and the bytes are compared with those clang emits for the same values; fields are read back from '
        'bytes of clang. Layouts that no arrangement of the storage units of ctypes gives (decided by enumeration from the positions '
        'that the bytes of clang show) are counted and left out. A case counts by its byte images.')
ASSUMPTIONS = ['little-endian native target', 'layouts ctypes can express: units of 1, 2, 4 or 8 bytes that hold whole integers only']
W = {'schar': 1, 'uchar': 1, 'char': 1, 'bool': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'llong': 8, 'ullong': 8}
# the same types under other names
TD = {'u8': 'uchar', 's16': 'short', 'u16': 'ushort', 's32': 'int', 'u32': 'uint', 's64': 'long', 'u64': 'ulong', 'flag_t': 'bool'}
BT = dict(BITS, bool=1)
SG = SIGNED | {'char'}
EN = {'enum E3': ('uint', 2), 'enum N3': ('int', 3)}
PRE = 'enum E3 { EA, EB, EC, ED };\nenum N3 { NA = -4, NB = 3 };\n' + '\n'.join('typedef %s %s;' % (SPELL[v][0], k) for k, v in TD.items()) + '\n'
PLAIN = {'schar': 1, 'uchar': 1, 'short': 2, 'ushort': 2, 'int': 4, 'uint': 4, 'long': 8, 'ulong': 8, 'float': 4, 'double': 8,
         'bool': 1}


def gen_rec(r, used, recs):
    """a record, or None when the draw is outside the domain"""
    rec = Rec('struct', None, [])
    off, ral = 0, 1
    prev = None         # unit size of the run just before
    first = True
    i = 0
    for _ in range(r.randrange(1, 8)):
        if prev is None and r.random() < .6:
            base = r.choice(list(W))
            w = W[base]
            if off % w:
                continue
            tot, lim = 0, 8 * w
            mixed = r.random() < .5
            sp = r.choice(SPELL[base]) if r.random() < .3 else None
            for _ in range(r.randrange(1, 7)):
                left = lim - tot
                if left <= 0:
                    break
                if mixed:
                    base = r.choice([k for k in W if W[k] == w])
                    sp = r.choice([k for k in TD if TD[k] == base] + [k for k in EN if EN[k][0] == base and EN[k][1] <= left] + SPELL[base])
                b = r.randrange(1, left + 1) if r.random() < .4 else r.randrange(1, max(2, left // 2 + 1))
                if base == 'bool':
                    b = 1
                if sp in EN:
                    b = max(EN[sp][1], min(b, 8 * w))
                unnamed = mixed and r.random() < .12 and base != 'bool' and tot
                rec.fields.append(Field(None if unnamed else 'b%d' % i, Sc(base, sp), bits=b))
                i += 1
                tot += b
            if mixed and r.random() < .1:
                rec.fields.append(Field(None, Sc(r.choice([k for k in W if W[k] == w and k != 'bool'])), bits=0))
            off += w
            ral = max(ral, w)
            prev = w
        else:
            k = r.random()
            if k < .6 or (k > .85 and not recs):
                kind = r.choice(list(PLAIN))
                t, sz, al = Sc(kind), PLAIN[kind], PLAIN[kind]
            elif k < .75:
                t, sz, al = Ptr(Sc('char')), 8, 8
            elif k < .8:
                u = Rec('union', None, [Field('u%d' % i, Sc('int'))])
                u.inline = True
                if r.random() < .6:
                    u.fields.append(Field(None, Sc('uint'), bits=r.randrange(1, 33)))
                if prev is not None and prev > 4:
                    continue
                off = (off + 3) // 4 * 4 + 4
                rec.fields.append(Field(None, u))
                i += 1
                ral = max(ral, 4)
                prev = None
                continue
            elif k < .85:
                kind = r.choice(list(PLAIN))
                n = r.randrange(1, 5)
                t, sz, al = Arr(Sc(kind), n), PLAIN[kind] * n, PLAIN[kind]
            else:
                t, sz, al = r.choice(recs)
            if prev is not None and (al < prev or sz == 1 or off % al):
                continue
            off = (off + al - 1) // al * al
            rec.fields.append(Field('m%d' % i, t))
            i += 1
            off += sz
            ral = max(ral, al)
            prev = None
    if not any(f.bits and f.name for f in rec.fields):
        return None
    if prev is not None and off % ral:
        return None
    size = (off + ral - 1) // ral * ral
    return rec, size, ral


def gen_free(r, used, recs):
    """any record of bit-fields of any sizes and other members"""
    rec = Rec('struct', None, [])
    i = 0
    mode = r.choice(['unit', 'sizes', 'over'])
    for _ in range(r.randrange(1, 6)):
        if r.random() < .6:
            base = r.choice(list(W))
            tot = 0
            for _ in range(r.randrange(1, 6)):
                if mode == 'sizes' or mode == 'unit':
                    base = r.choice(list(W) if mode == 'sizes' else [k for k in W if W[k] == W[base]])
                left = 8 * W[base] - (tot if mode == 'unit' else 0)
                if left <= 0:
                    break
                b = 1 if base == 'bool' else r.randrange(1, left + 1) if r.random() < .3 else r.randrange(1, max(2, left // 2 + 1))
                tot += b
                sp = r.choice([k for k in TD if TD[k] == base] + SPELL[base])
                name = None if r.random() < .06 and rec.fields else 'b%d' % i
                rec.fields.append(Field(name, Sc(base, sp), bits=b))
                i += 1
            if r.random() < .05:
                rec.fields.append(Field(None, Sc('uint'), bits=0))
        else:
            k = r.random()
            if k < .7:
                t = Sc(r.choice(list(PLAIN)))
            elif k < .8:
                t = Ptr(Sc('char'))
            elif k < .9 or not recs:
                t = Arr(Sc(r.choice(list(PLAIN))), r.randrange(1, 5))
            else:
                t = r.choice(recs)[0]
            rec.fields.append(Field('m%d' % i, t))
            i += 1
    if not any(f.bits and f.name for f in rec.fields):
        return None
    return rec, 0, 0


def expressible(ms, end):
    """can ctypes express this layout? members (bit offset, bits, is a bit-field, is an integer): ctypes needs storage units of
    1, 2, 4 or 8 bytes, that hold only bit-fields or integers, each whole, that do not overlap other members,
    and that are not right behind a narrower unit"""
    seen = set()

    def go(i, stop, width):
        if (i, stop, width) in seen:
            return False
        seen.add((i, stop, width))
        if i == len(ms):
            return True
        off, bits, bf, num = ms[i]
        if not bf and go(i + 1, None, 0):
            return True
        if not num:
            return False
        at = off // 8 * 8
        for w in (8, 16, 32, 64):
            if at + w > end or (at == stop and w > width):
                continue
            j = i
            while j < len(ms) and ms[j][0] < at + w:
                j += 1
            if all(m[3] and m[0] + m[1] <= at + w for m in ms[i:j]) and go(j, at + w, w):
                return True
        return False
    return go(0, None, 0)


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 60000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=1 + i % 4)


def bit_leaves(rec, cp=(), lim=80):
    out = []
    for f in rec.fields:
        if f.bits is not None:
            if not f.name:
                continue
            out.append((cp + (f.name,), f.t.kind, f.bits))
        elif isinstance(f.t, Rec):
            out += bit_leaves(f.t, cp + ((f.name,) if f.name else ()))
        elif isinstance(f.t, Sc) and f.t.kind in BT:
            out.append((cp + (f.name,), f.t.kind, None))
    return out[:lim]


def put(o, path, v):
    for n in path[:-1]:
        o = getattr(o, n)
    setattr(o, path[-1], v)


def get(o, path):
    for n in path:
        o = getattr(o, n)
    return o


def run(case, obs):
    r = random.Random(case['seed'])
    recs, out, free, src = [], [], [], PRE
    while len(out) < case['n']:
        x = (gen_free if r.random() < .6 else gen_rec)(r, None, recs)
        if x is None:
            continue
        rec, size, al = x
        rec.tag = 'R%d' % len(out)
        rec.handle = 'struct ' + rec.tag
        out.append(rec)
        if size:
            recs.append((rec, size, al))
        else:
            free.append(rec)
        src += rec_def(rec) + '\n'
    # where the bits are: from the objects that have one field of ones
    ex, pos = [], {}
    for rec in out:
        ex.append('sizeof(%s)' % rec.handle)
        for f in rec.fields:
            if f.bits is None and f.name:
                ex += ['__builtin_offsetof(%s, %s)' % (rec.handle, f.name), 'sizeof(((%s*)0)->%s)' % (rec.handle, f.name)]
    vals = iter(probe_ints(src, ex))
    defs, objs = [], []
    for rec in out:
        ls = bit_leaves(rec)

        def obj(values):
            nm = 'o%d' % len(objs)
            defs.append('%s %s = { %s };' % (rec.handle, nm, ', '.join(
                '.%s = %s' % ('.'.join(l[0]), c_int(v)) for l, v in values) or '0'))
            objs.append((rec, nm, values))
        for l in ls:
            if l[2]:
                sg = l[1] in SG
                obj([(l, -1 if sg else (1 << l[2]) - 1)])
        for _ in range(3):
            obj([(l, rand_int(r, l[2] or BT[l[1]], l[1] in SG)) for l in ls])
    data, _ = probe_data(src + '\n'.join(defs), [o[1] for o in objs])
    ones = {}
    for rec, nm, values in objs:
        if len(values) == 1 and values[0][0][2] and len(values[0][0][0]) == 1 and values[0][0][0][0] not in ones.setdefault(rec.tag, {}):
            x = int.from_bytes(data[nm], 'little')
            ones[rec.tag][values[0][0][0][0]] = (x & -x).bit_length() - 1
    ns, text = tr_ns(src)
    skip = set()
    for rec in out:
        cls = ns.get('struct_' + rec.tag)
        if cls is None:
            fail('%s is not in the module' % rec.handle, src, text)
        size = next(vals)
        place = {f.name: (next(vals), next(vals)) for f in rec.fields if f.bits is None and f.name}
        if rec in free:
            ms = sorted((ones[rec.tag][f.name], f.bits, True, True) if f.bits is not None else
                        (place[f.name][0] * 8, place[f.name][1] * 8, False, isinstance(f.t, Sc) and f.t.kind in BT)
                        for f in rec.fields if f.name)
            if not expressible(ms, 8 * size):
                skip.add(rec.tag)
                obs.add('records ctypes cannot express')
                continue
            obs.add('records of any layout')
        if ctypes.sizeof(cls) != size:
            fail('sizeof(%s) is %d, the class has %d' % (rec.handle, size, ctypes.sizeof(cls)), src, text)
        got = {f[0]: f[2] for f in cls._fields_ if len(f) > 2 and not f[0].startswith(('PADDING', '_'))}
        want = {f.name: f.bits for f in rec.fields if f.bits and f.name}
        for f in rec.fields:
            if f.name in got and f.name in place and isinstance(f.t, Sc) and f.t.kind in BT:
                # an integer that shares the unit of bit-fields
                if got.pop(f.name) != 8 * place[f.name][1]:
                    fail('%s.%s has %d bytes' % (rec.handle, f.name, place[f.name][1]), src, text)
                obs.add('integers inside a unit')
            elif f.name in place and getattr(cls, f.name).offset != place[f.name][0]:
                fail('%s.%s is at offset %d, the class has it at %d' % (
                    rec.handle, f.name, place[f.name][0], getattr(cls, f.name).offset), src, text)
        if got != want:
            fail('the bit-fields of %s are %s, the class has %s' % (rec.handle, want, got), src, text)
    for rec, nm, values in objs:
        if rec.tag in skip:
            continue
        cls = ns['struct_' + rec.tag]
        o = cls()
        hist = list(values)
        # a history of writes: every field gets other values before its last one
        if len(values) > 1:
            pre = [(l, rand_int(r, l[2] or BT[l[1]], l[1] in SG)) for l, _ in values for _ in range(2)]
            r.shuffle(pre)
            r.shuffle(hist)
            hist = pre + hist
        cur = {}
        for l, v in hist:
            put(o, l[0], v)
            cur[l[0]] = v
            obs.add('writes')
            for p, x in cur.items():
                if get(o, p) != x:
                    fail('writing %s = %d to %s: %s holds %d and reads %d' % (
                        '.'.join(l[0]), v, rec.handle, '.'.join(p), x, get(o, p)), src, text)
        if bytes(o) != data[nm]:
            fail('%s with %s is %s in C and %s through the class' % (
                rec.handle, {'.'.join(l[0]): v for l, v in values}, data[nm].hex(), bytes(o).hex()), src, text)
        o2 = cls.from_buffer_copy(data[nm])
        for l, v in values:
            if get(o2, l[0]) != v:
                fail('%s.%s is %d in C and reads %d through the class' % (
                    rec.handle, '.'.join(l[0]), v, get(o2, l[0])), src, text)
        obs.add('objects')
        obs.key(rec_text(rec), data[nm])
    obs.add('bit-fields', sum(1 for rec in out for f in rec.fields if f.bits))
    obs.sample(dict(source=src[:500], objects=[(o[1], data[o[1]].hex()) for o in objs[:3]]))
