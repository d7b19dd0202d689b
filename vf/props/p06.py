"""Enumerations."""
import random

from ..common import *

RULE = ('Random enumerations (implicit, negative, 64-bit, duplicate, computed, character and reference values; tagged, untagged, typedef names, '
        'nested in records, forward-declared, packed, -fshort-enums, other targets). The monitor compares every enumerator, every '
        'value-to-name table, and the size and signedness of every enumeration type with clang. A case counts by the '
        'values and sizes observed.')
ASSUMPTIONS = ['an enumeration is signed exactly when it has a negative enumerator']
VARIANTS = [[], [], [], ['-fshort-enums'], ['-target', 'arm-linux-gnueabihf'], ['-target', 'powerpc64le-linux-gnu'],
            ['-target', 'hexagon'], ['-target', 'mips-linux-gnu'], ['-target', 'i386-linux', '-fshort-enums'],
            ['-std=gnu89'], ['-target', 's390x-linux-gnu']]


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 60000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, opts=VARIANTS[i % len(VARIANTS)], n=2 + i % 5)


def extra(g, r, vals):
    """enumerators written as expressions"""
    out = []
    for n, v, txt in vals:
        k = r.random()
        if v is not None and k < .25:
            if 32 < v < 127 and chr(v).isalnum():
                txt = "'%c'" % chr(v)
            elif v is not None and k < .05:
                txt = '(int)sizeof(char[%d])' % v if 0 < v < 1 << 20 else txt
            elif k < .1 and -1000 < v < 1000:
                txt = '(%d * 2 - %d)' % (v, v)
            elif k < .15 and 0 <= v < 1000:
                txt = '%d | %d' % (v & 0x155, v & ~0x155)
            elif k < .2 and 0 <= v < 1000:
                txt = '0%o' % v
            elif -1000 < v < 1000:
                txt = '(1 ? %d : 7)' % v
        out.append((n, v, txt))
    return out


def run(case, obs):
    r = random.Random(case['seed'])
    g = Gen(case['seed'])
    enums, src, probes = [], [], []
    for i in range(case['n']):
        e = g.enum(attr='-fshort-enums' not in case['opts'])
        e.vals = extra(g, r, e.vals)
        form = r.choice(['tag', 'tag', 'td', 'tagtd', 'anon', 'fwd', 'nested', 'nestedanon', 'var', 'td2'])
        body = enum_text(e)
        anon = enum_text(Enum(None, e.vals, e.attr))
        name, handle, table = e.tag, 'enum ' + e.tag, e.tag
        if form == 'tag':
            t = body + ';'
        elif form == 'td':
            name = table = g.name()
            handle = name
            t = 'typedef %s %s;' % (anon, name)
        elif form == 'tagtd':
            name = g.name()
            t = 'typedef %s %s;' % (body, name)
            handle = name
            table = r.choice([name, e.tag])
        elif form == 'td2':
            name = g.name()
            t = '%s;\ntypedef enum %s %s;' % (body, e.tag, name)
            handle, table = name, r.choice([name, e.tag])
        elif form == 'anon':
            t = anon + ';'
            name = handle = table = None
        elif form == 'fwd':
            if '__attribute__' in body:
                t = body + ';'
            else:
                t = 'enum %s;\n%s;' % (e.tag, body)
        elif form == 'nested':
            t = 'struct %s { int a; %s m; };' % (g.name(), body)
        elif form == 'nestedanon':
            t = 'struct %s { char a; %s m; };' % (g.name(), anon)
            name = handle = table = None
        else:
            t = '%s %s;' % (body, g.name())
        src.append(t)
        enums.append((e, name, handle, table, form))
        probes += [n for n, _, _ in e.vals]
        if handle:
            probes.append('sizeof(%s)' % handle)
    src = '\n'.join(src) + '\n'
    opts = case['opts']
    tgt = opts[1] if '-target' in opts else None
    vals = probe_ints(src, probes, tgt, [o for o in opts if o not in ('-target', tgt)])
    ns, text = tr_ns(src, opts)
    i = 0
    exported = all_of(ns)
    for e, name, handle, table, form in enums:
        want = []
        for n, _, _ in e.vals:
            if n not in ns:
                fail('enumerator %s is not in the module' % n, src, text)
            v = vals[i]
            i += 1
            want.append((n, v))
            got = ns[n]
            if not isinstance(got, int) or isinstance(got, bool) or got != v:
                fail('enumerator %s is %d in C, %r in the module' % (n, v, got), src, text)
            if n not in exported:
                fail('enumerator %s is not exported' % n, src, text)
            obs.add('enumerators')
        if handle:
            size = vals[i]
            i += 1
            py = ns.get(name)
            signed = any(v < 0 for _, v in want)
            if py is None:
                fail('%s is not in the module' % name, src, text)
            if not is_int(py, size, signed):
                fail('%s is %d bytes, signed=%s; the module has %s' % (handle, size, signed, desc(py)), src, text)
            if name not in exported:
                fail('%s is not exported' % name, src, text)
            tab = ns.get(table + '__enumvalues')
            if not isinstance(tab, dict):
                fail('the table of values of %s is %r' % (table, tab), src, text)
            if set(tab) != {v for _, v in want} or any((tab[v] not in [n for n, x in want if x == v]) for v in tab):
                fail('the table of values of %s is %s, the enumerators are %s' % (table, tab, want), src, text)
            obs.key(size, signed, want and [v for _, v in want])
        else:
            obs.key([v for _, v in want])
        obs.add('form:' + form)
    obs.sample(dict(opts=opts, source=src[:500]))


def is_int(py, size, signed):
    from ..matcher import is_int_type
    return is_int_type(py, size, signed)
