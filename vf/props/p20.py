"""The helpers of generated records, and of strings."""
import ctypes
import random
import re

from ..common import *
from ..values import *

RULE = ('Random records with every kind of member (bit-fields, padding, nested and anonymous records, unions, arrays, function pointers, members named like the helpers\' own '
        'padding) are filled with random values. The monitor checks what the constructor makes of positional and named values, what as_dict, get_type and bind make of the '
        'object, and that text survives the string casts. A case counts by the records and the values observed.')
ASSUMPTIONS = ['no member is named like a helper', 'pointers are shown as ctypes shows them']
ODD = ['PADDING', 'PADDINGX', 'padding_0', 'PADDINGS_1', '_fields', 'fields', 'cls', 'name', 'value', 'result', 'args', 'kwds', 'field', 'type_', '_length', 'contents_']


def cases(tier, seed):
    n = 900 if tier == 'quick' else 30000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=2 + i % 4)


def dive(dct, name):
    """a member of a dictionary, through anonymous members"""
    if name in dct:
        return dct[name]
    for k, v in dct.items():
        if re.match(r'_\d+$', k) and isinstance(v, dict):
            try:
                return dive(v, name)
            except KeyError:
                pass
    raise KeyError(name)


def show(dct, leaf):
    o = dct
    for k, v in leaf.steps:
        o = dive(o, v) if isinstance(o, dict) else getattr(o, v) if k == 'f' else o[v]
    return o


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'], fptr=True, ldouble=False, int128=False, p_union=.1, max_fields=8, p_bits=.25)
    g.program(case['n'], dict(rec=5, fwd=0, enum=1, td=1))
    # names the helpers must not mistake for their own
    for rec in [x for x in g.recs if not getattr(x, 'tdname', None)]:
        odd = r.sample(ODD, 3)
        taken = {f.name for f in rec.fields}
        deep = set()

        def names(x):
            for f in x.fields:
                deep.add(f.name)
                if f.name is None and isinstance(f.t, Rec):
                    names(f.t)
        names(rec)
        for f in rec.fields:
            if f.name and odd and r.random() < .25 and odd[-1] not in deep:
                f.name = odd.pop()
    g.items = [(k, o, rec_def(o) if k == 'rec' and not getattr(o, 'tdname', None) else t) for k, o, t in g.items]
    ref = Reference(g)
    valid_or_skip(ref.src)
    ns, text = tr_ns(ref.src)
    m = ref.matcher(ns)
    einfo = {e.tag: (0, 0) for e in g.enums}
    seen = []
    for rec in g.recs:
        try:
            cls = m.rec_class(rec)
        except Mismatch as e:
            fail(str(e), ref.src, text)
        h = rec.handle

        def bad(what):
            fail('%s: %s' % (h, what), ref.src, text)
        members = [f[0] for f in getattr(cls, '_fields_', ())]
        named = [f.name for f in rec.fields if f.name]
        pads = [x for x in members if x not in named and x.startswith('PADDING_')]
        mine = [x for x in members if x not in pads]
        if [x for x in mine if x in named] != named:
            bad('the members are %s, not %s' % (mine, named))
        if rec.kind == 'struct':
            construct(r, rec, cls, mine, bad, obs)
        # as_dict
        obj = cls()
        ls = leaves(r, rec, einfo)
        for leaf in ls:
            t = strip(leaf.t)
            if isinstance(t, Ptr):
                leaf.v = 0 if isinstance(strip(t.t), Rec) or r.random() < .5 else leaf.v
            set_leaf(obj, leaf)
        before = bytes(obj)
        for d in (cls.as_dict(obj), obj.as_dict(obj)):
            if not isinstance(d, dict):
                bad('as_dict is a %s' % type(d).__name__)
            if list(d) != mine:
                bad('as_dict has the keys %s, the members are %s' % (list(d), mine))
            for leaf in ls:
                try:
                    got = show(d, leaf)
                except (KeyError, IndexError, AttributeError, TypeError) as e:
                    bad('as_dict has no %s: %r in %r' % (leaf.cpath, e, d))
                t = strip(leaf.t)
                if isinstance(t, Ptr):
                    if leaf.v == 0 and got is not None and bool(got):
                        bad('as_dict shows %r for the null pointer %s' % (got, leaf.cpath))
                elif not same(got, leaf, py_type_at(cls, leaf.steps)):
                    bad('as_dict shows %r for %s, which is %r' % (got, leaf.cpath, leaf.v))
                obs.add('values')
            nested(rec, d, bad)
        if bytes(obj) != before:
            bad('as_dict changes the object')
        # get_type
        if rec.kind == 'struct' and members:
            for f in cls._fields_:
                if cls.get_type(f[0]) is not f[1]:
                    bad('get_type(%s) is %s, not %s' % (f[0], cls.get_type(f[0]), f[1]))
            if cls.get_type('no_such_member') is not None:
                bad('get_type of no member')
            bind(r, rec, cls, bad, obs)
        seen.append((len(members), [str(l.v) for l in ls]))
    for rec in g.recs:
        for f in rec.fields:
            t = f.t.t if isinstance(f.t, Ptr) else None
            if isinstance(t, Qual):
                t = t.t
            if isinstance(t, Sc) and t.kind in ('char', 'uchar'):
                for n in ('string_cast', 'char_pointer_cast'):
                    if n not in ns:
                        fail('%s.%s is a pointer to characters, and the module has no %s' % (rec, f.name, n), ref.src, text)
                obs.add('string members')
    for _ in range(4):
        s = ''.join(r.choice('abz \u00e9\u20ac\U0001F600"\\\n') for _ in range(r.randrange(12)))
        if 'string_cast' in ns:
            p = ns['char_pointer_cast'](s)
            if ns['string_cast'](p) != s:
                fail('string_cast(char_pointer_cast(%r)) is %r' % (s, ns['string_cast'](p)), ref.src, text)
            b = s.encode('utf-16-le').replace(b'\0', b'')
            if ns['string_cast'](ns['char_pointer_cast'](b, encoding=None), encoding=None) != b:
                fail('bytes %r do not survive the casts' % b, ref.src, text)
            enc, alphabet = r.choice([('latin-1', 'ab\u00e9\u00ff'), ('cp1252', 'z\u20ac\u201d'), ('koi8-r', 'x\u0416\u044f'), ('shift_jis', 'a\u65e5\u672c'),
                                      ('utf-7', 'a+\u20ac-'), ('ascii', 'abc~'), ('utf-8', '\u20ac\U0001F600'), ('gb18030', '\u4e2d\u20acq')])
            e = ''.join(r.choice(alphabet) for _ in range(r.randrange(9)))
            p = ns['char_pointer_cast'](e, enc)
            if ns['string_cast'](p, enc) != e or ns['string_cast'](p, None) != e.encode(enc):
                fail('string_cast(char_pointer_cast(%r, %s), %s) is %r' % (e, enc, enc, ns['string_cast'](p, enc)), ref.src, text)
            bad8 = b'ab\xff\xfe' + bytes([r.randrange(128, 256)])
            want = [bad8.decode('utf-8', m) for m in ('replace', 'ignore', 'backslashreplace')]
            got = [ns['string_cast'](ns['char_pointer_cast'](bad8, None), errors=m) for m in ('replace', 'ignore', 'backslashreplace')]
            if want != got:
                fail('string_cast of %r with errors=...: %r' % (bad8, got), ref.src, text)
            if ns['string_cast'](ns['char_pointer_cast'](bad8), None) != bad8:
                fail('bytes are changed by char_pointer_cast: %r' % bad8, ref.src, text)
            if ns['string_cast'](None) is not None:
                fail('string_cast(None) is no None', ref.src, text)
            obs.add('strings')
    obs.key(ref.src, seen)
    obs.sample(dict(source=ref.src[:300]))


def nested(rec, d, bad):
    """records inside are dictionaries, arrays of them lists of dictionaries"""
    for f in rec.fields:
        if f.name is None:
            continue
        t = strip(f.t)
        if isinstance(t, Rec):
            if not isinstance(d[f.name], dict):
                bad('as_dict shows %r for the record %s' % (d[f.name], f.name))
            nested(t, d[f.name], bad)
        elif isinstance(t, Arr) and isinstance(strip(t.t), Rec):
            if not isinstance(d[f.name], list) or len(d[f.name]) != t.n or not all(isinstance(x, dict) for x in d[f.name]):
                bad('as_dict shows %r for the array of records %s' % (d[f.name], f.name))


def construct(r, rec, cls, mine, bad, obs):
    """values by position and by name"""
    vals = []
    for name in mine:
        t = [strip(f.t) for f in rec.fields if f.name == name]
        bits = [f.bits for f in rec.fields if f.name == name]
        if not t or not isinstance(t[0], Sc) or t[0].kind not in BITS:
            vals.append(None)
        else:
            vals.append(rand_int(r, bits[0] or BITS[t[0].kind], t[0].kind in SIGNED))
    # as many leading members as have a value
    lead = next((i for i, v in enumerate(vals) if v is None), len(vals))
    k = r.randrange(lead + 1)
    rest = {n: v for n, v in list(zip(mine, vals))[k:] if v is not None and r.random() < .5}
    try:
        o = cls(*vals[:k], **rest)
    except Exception as e:
        bad('%s(*%s, **%s) fails: %r' % (cls.__name__, vals[:k], rest, e))
    want = dict(zip(mine, vals[:k]))
    want.update(rest)
    for n in mine:
        got = getattr(o, n)
        if n in want and got != want[n]:
            bad('%s is %r after %s(*%s, **%s)' % (n, got, cls.__name__, vals[:k], rest))
        if n not in want and isinstance(got, (int, float)) and got != 0:
            bad('%s is %r, not given to %s(*%s, **%s)' % (n, got, cls.__name__, vals[:k], rest))
    z = cls(**want)
    if bytes(z) != bytes(o):
        bad('values by position and by name differ: %s' % want)
    for n, ty in [f[:2] for f in cls._fields_ if f[0] not in mine]:
        v = getattr(o, n)
        if (any(v) if hasattr(v, '__len__') else v):
            bad('padding %s is %r after %s' % (n, v, want))
    obs.add('constructed')


def bind(r, rec, cls, bad, obs):
    cbs = [f for f in cls._fields_ if hasattr(f[1], 'restype')]
    simple = [f for f in cbs if f[1]._restype_ is None or issubclass(f[1]._restype_, ctypes._SimpleCData)]
    log = []

    def make(name, rt):
        def cb(*a):
            log.append((name, len(a)))
            return None if rt is None else b'x' if rt is ctypes.c_char else rt(5).value
        return cb
    given = {f[0]: make(f[0], f[1]._restype_) for f in simple if r.random() < .6}
    plain = {f[0]: 1 for f in cls._fields_ if f[1] in (ctypes.c_int32, ctypes.c_uint16) and r.random() < .4 and not f[0].startswith('PADDING_')}
    arg = dict(given)
    arg.update(plain)
    keep = dict(arg)
    try:
        o = cls.bind(arg)
    except Exception as e:
        bad('bind(%s) fails: %r' % (sorted(arg), e))
    if arg != keep:
        bad('bind changes the dictionary given')
    for n, v in plain.items():
        if getattr(o, n) not in (v, -1):
            bad('%s is %r after bind' % (n, getattr(o, n)))
    for f in simple:
        args = []
        for a in f[1]._argtypes_:
            try:
                args.append(a())
            except TypeError:
                args.append(None)
        del log[:]
        got = getattr(o, f[0])(*args)
        if f[0] in given:
            if log != [(f[0], len(args))]:
                bad('calling the bound %s calls %s' % (f[0], log))
            if f[1]._restype_ is not None and f[1]._restype_ is not ctypes.c_char and got != f[1]._restype_(5).value and got != 5:
                bad('the bound %s returns %r' % (f[0], got))
        elif log or got not in (None, 0, b'\0', 0.0, False):
            bad('the default of %s returns %r and calls %s' % (f[0], got, log))
        obs.add('callbacks')
    try:
        cls.bind(dict(keep, no_such_member=len))
    except ValueError:
        pass
    except Exception as e:
        bad('bind of no member raises %r' % e)
    else:
        bad('bind of no member is accepted')
