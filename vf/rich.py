"""Programs with every kind of declaration, as a list of separate chunks."""
import random

from .cmodel import *
from .gen import Gen


class Chunk:
    """one top-level declaration: what it declares and the names its text mentions"""

    def __init__(self, kind, names, text, obj=None):
        self.kind, self.names, self.text, self.obj = kind, names, text, obj


def initial(r, kind):
    v = r.randrange(0, 120)
    return r.choice(['%d', '%d', '0x%x', '(%d)']) % v


def rich(seed, n=10, macros=True, vars=True, **cfg):
    """(generator, chunks): tagged records only, so that no name depends on the place of a declaration"""
    r = random.Random('rich%s' % seed)
    c = dict(p_anon=.05, p_nested=.05)
    c.update(cfg)
    g = Gen(seed, **c)
    chunks = []
    nm = 0
    for i in range(n):
        k = r.random()
        before = len(g.items)
        if k < .3:
            g.add_record()
        elif k < .36:
            g.add_forward()
        elif k < .48:
            g.add_enum()
        elif k < .62:
            g.add_typedef()
        elif k < .8:
            g.add_func()
        elif k < .92 and vars:
            name = g.name()
            f = r.random()
            if f < .3:
                t = Sc(r.choice(['int', 'uint', 'short', 'long', 'uchar', 'double', 'float']))
                txt = '%s%s = %s;' % (r.choice(['', 'const ', 'static ']), decl(t, name), initial(r, t.kind))
            elif f < .4:
                txt = 'char %s[] = "%s";' % (name, r.choice(['abc', '', 'hello world', "it's", 'a,b;c{}']))
            elif f < .5:
                txt = 'int %s[] = { %s };' % (name, ', '.join(initial(r, 'int') for _ in range(r.randrange(1, 5))))
            elif f < .7 and g.recs:
                txt = decl(r.choice(g.recs), name) + ';'
            elif f < .85 and g.recs:
                txt = decl(Ptr(r.choice(g.recs)), name) + ';'
            elif g.enums:
                txt = decl(r.choice(g.enums), name) + ';'
            else:
                txt = 'int %s;' % name
            g.items.append(('var', name, txt))
        elif macros:
            name = 'VF_%s%d' % (g.name().upper(), nm)
            nm += 1
            g.used.add(name)
            txt = '#define %s %s' % (name, r.choice(['1', '0x10', '"text"', '(3 + 4)', '-1', "'c'", '1.5', '', '2UL', '(1 << 3)']))
            g.items.append(('macro', name, txt))
        for kind, obj, txt in g.items[before:]:
            chunks.append(Chunk(kind, names_of(kind, obj), txt, obj))
    return g, chunks


def names_of(kind, obj):
    """names the module must export for a declaration"""
    if kind == 'rec':
        out = []
        if obj.tag:
            out.append('%s_%s' % (obj.kind, obj.tag))
        if getattr(obj, 'tdname', None):
            out.append(obj.tdname)
        return out
    if kind == 'enum':
        return [obj.tag] + [v[0] for v in obj.vals]
    if kind == 'td':
        return [obj.name]
    if kind == 'func':
        return [obj[0]]
    if kind in ('var', 'macro'):
        return [obj]
    return []       # forward


def text_of(chunks):
    return '\n'.join(c.text for c in chunks) + '\n'
