"""Any order of declarations."""
import random

from ..common import *
from ..sig import diff, module_sig, sig

RULE = ('Programs of 3 to 14 records that point to each other in any direction (cycles, self references, through typedefs, arrays, function pointers, '
        'members by value), functions, enumerations, variables and typedefs of records, declared in several random orders that C accepts, with and without '
        'forward declarations, typedefs before the definitions, incomplete types that are never defined. The monitor imports every module, checks that each '
        'declared entity is exported and exists, and that all the orders mean the same (description of every type, value and prototype). A case counts by its graph.')
ASSUMPTIONS = ['all records are tagged']


def cases(tier, seed):
    n = 900 if tier == 'quick' else 40000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 12, orders=3)


class Node:
    def __init__(self, name, text, hard=(), soft=(), exports=()):
        self.name, self.text, self.hard, self.soft, self.exports = name, text, set(hard), set(soft), list(exports)


def program(case):
    r = random.Random(case['seed'])
    g = Gen(case['seed'])
    n = case['n']
    nodes = []
    recs = []
    for i in range(n):
        recs.append((r.choice(['struct', 'struct', 'struct', 'union']), g.name()))
    opaque = [('struct', g.name()) for _ in range(r.choice([0, 0, 1, 2]))]
    h = lambda x: '%s %s' % x
    tds, tdtext = {}, {}
    for x in recs + opaque:
        k = r.random()
        if k < .35:
            nm = g.name()
            if r.random() < .3 and x[1] not in tds.values():
                nm = x[1]
            tds[x] = nm
    # typedefs of the same name as the tag are common C
    ptds = {}
    for x in recs:
        if r.random() < .2:
            ptds[x] = g.name()
    ftd = []

    def ref(x, val=False):
        """spelling of a record, and what must come before"""
        if not val and x in ptds and r.random() < .5:
            return None
        if x in tds and r.random() < .5:
            return (tds[x], 'td:' + tds[x])
        return (h(x), None)

    def field(i, j, names):
        """one member of record i"""
        nm = g.name(used=names)
        k = r.random()
        if k < .25:
            return '%s %s;' % (r.choice(['int', 'char', 'long', 'unsigned short', 'double', 'void *']), nm), [], []
        if k < .38 and i > 0:
            x = recs[r.randrange(i)]
            s, dep = ref(x, True) or (h(x), None)
            return '%s %s%s;' % (s, nm, r.choice(['', '', '[2]'])), ['rec:' + h(x)] + ([dep] if dep else []), []
        x = r.choice(recs + opaque)
        s = ref(x)
        if s is None:
            return '%s %s;' % (ptds[x], nm), ['td:' + ptds[x]], ['rec:' + h(x)]
        s, dep = s
        f = r.random()
        if f < .6:
            t = '%s *%s;' % (s, nm)
        elif f < .7:
            t = '%s **%s;' % (s, nm)
        elif f < .8:
            t = '%s *%s[3];' % (s, nm)
        else:
            y = r.choice(recs)
            t = '%s %s(*%s)(%s *, %s *);' % (r.choice(['int', 'void', h(y) + ' *']), '', nm, s, h(y))
            # a tag that first appears in a prototype is local to it
            return t, ([dep] if dep else []) + ['fwd:' + h(y), 'fwd:' + h(x)], ['rec:' + h(x), 'rec:' + h(y)]
        return t, [dep] if dep else [], ['rec:' + h(x)]

    for i, x in enumerate(recs):
        names, hard, soft, body = set(g.used and ()), [], [], []
        for j in range(r.randrange(1, 7)):
            t, a, b = field(i, j, names)
            body.append('    ' + t)
            hard += a
            soft += b
        nodes.append(Node('rec:' + h(x), '%s {\n%s\n};' % (h(x), '\n'.join(body)), hard, soft, ['%s_%s' % x]))
    for x, nm in tds.items():
        nodes.append(Node('td:' + nm, 'typedef %s %s;' % (h(x), nm), [], ['rec:' + h(x)], [nm]))
    for x, nm in ptds.items():
        nodes.append(Node('td:' + nm, 'typedef %s *%s;' % (h(x), nm), [], ['rec:' + h(x)], [nm]))
    for x in recs + opaque:
        nodes.append(Node('fwd:' + h(x), h(x) + ';', [], [], []))
    for i in range(r.randrange(0, 5)):
        nm = g.name()
        args, hard = [], []
        for _ in range(r.randrange(0, 4)):
            x = r.choice(recs + opaque)
            if r.random() < .3 and x in recs:
                args.append(h(x))
                hard.append('fwd:' + h(x))
            elif x in tds and r.random() < .5:
                args.append(tds[x] + ' *')
                hard.append('td:' + tds[x])
            else:
                args.append(h(x) + ' *')
                hard.append('fwd:' + h(x))
        x = r.choice(recs)
        hard.append('fwd:' + h(x))
        nodes.append(Node('fn:' + nm, '%s%s(%s);' % (r.choice(['void ', 'int ', h(x) + ' *', h(x) + ' ']), nm, ', '.join(args) or 'void'), hard, [], [nm]))
    for i in range(r.randrange(0, 3)):
        nm = g.name()
        x = r.choice(recs)
        p = r.random() < .6
        nodes.append(Node('var:' + nm, '%s %s%s;' % (h(x), '*' if p else '', nm), ['fwd:' + h(x)] if p else ['rec:' + h(x)], [], [nm]))
    for i in range(r.randrange(0, 3)):
        e = g.enum(attr=False)
        nodes.append(Node('enum:' + e.tag, 'enum %s { %s };' % (e.tag, ', '.join('%s = %d' % v for v in e.resolved())), [], [], [e.tag] + [v[0] for v in e.vals]))
        if r.random() < .7:
            nm = g.name()
            nodes.append(Node('td:' + nm, 'typedef enum %s %s;' % (e.tag, nm), ['enum:' + e.tag], [], [nm]))
    return r, nodes


def order(r, nodes, canonical=False):
    """a random order C accepts; forward declarations are kept only where needed, or at random"""
    byname = {x.name: x for x in nodes}
    left = list(nodes)
    if not canonical:
        r.shuffle(left)
        pr = {x.name: r.random() for x in left}
    else:
        pr = {x.name: (0 if x.name.startswith('fwd') else 1) for x in left}
    done, out = set(), []
    while left:
        ready = [x for x in left if all(d in done or d not in byname for d in x.hard)]
        if not canonical:
            # forward declarations come late unless something waits for them
            x = min(ready, key=lambda x: pr[x.name] + (.45 if x.name.startswith('fwd') else 0))
        else:
            x = min(ready, key=lambda x: pr[x.name])
        left.remove(x)
        done.add(x.name)
        out.append(x)
    return out


def run(case, obs):
    r, nodes = program(case)
    mods = []
    for k in range(case['orders']):
        o = order(r, nodes, canonical=k == 0)
        src = '\n'.join(x.text for x in o) + '\n'
        probe_ints(src, ['1'])
        ns, text = tr_ns(src, [])
        ex = set(all_of(ns))
        for x in o:
            for n in x.exports:
                if n not in ex:
                    fail('%s (%s) is not exported' % (n, x.text[:60]), src, text)
                obs.add('exports')
        for n in ex:
            if n not in ns:
                fail('%s is exported and does not exist' % n, src, text)
        mods.append((module_sig(ns), src, text))
        obs.add('orders')
    for m in mods[1:]:
        w = diff(mods[0][0], m[0], 'first order', 'other order')
        if w:
            fail('two orders of the same declarations have different meanings: %s\n--- first order ---\n%s' % (w, mods[0][1]), m[1], m[2])
    obs.key(mods[0][1])
    obs.sample(dict(source=mods[0][1][:500]))
