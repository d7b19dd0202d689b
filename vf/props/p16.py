"""Filters: by symbol, by expression, by kind."""
import random
import re

from ..common import *
from ..rich import *
from ..scope import closure, declares, need, words
from ..sig import diff, module_sig, refs, sig

RULE = ('Random programs with declarations of every kind; random requests of symbols, of regular expressions, and of kinds, alone and combined, through the API '
        'and the command line. The monitor compares the filtered module with the whole one: everything requested is exported with the same meaning, so is '
        'everything it refers to (transitively), and nothing is exported that is neither requested nor mentioned (transitively) by the text of what is. '
        'A case counts by the request and the set of exported names.')
ASSUMPTIONS = ['names of enumerators are not symbols of their own: they come with their enumeration']
KIND = {'rec:struct': 'cs', 'rec:union': 'u', 'enum': 'e', 'td': 't', 'func': 'f', 'var': 'd', 'macro': 'm'}


def cases(tier, seed):
    n = 1000 if tier == 'quick' else 40000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=5 + i % 16, how=['s', 'r', 'k', 'sr', 'sk', 's1', 'rk', 's'][i % 8], via='cli' if i // 8 % 3 == 2 else 'api')


def kinds_of(c, name):
    """kind letters of an exported name of a chunk"""
    if c.kind == 'rec':
        return KIND['rec:' + c.obj.kind] if name == c.obj.kind + '_' + (c.obj.tag or c.obj.tdname) else 't'
    return KIND.get(c.kind, '')


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    src = text_of(ch)
    full, ftext = tr_ns(src, [], 'acdefmstu')
    fs = module_sig(full)
    for c in ch:
        # the record of typedef struct {...} T is named after T
        if c.kind == 'rec' and not c.obj.tag and '%s_%s' % (c.obj.kind, c.obj.tdname) in fs:
            c.names.insert(0, '%s_%s' % (c.obj.kind, c.obj.tdname))
    owner = {}
    for i, c in enumerate(ch):
        for n in c.names:
            owner.setdefault(n, i)
    # enumerators come with their enumeration
    enumr = {v[0] for c in ch if c.kind == 'enum' for v in c.obj.vals}
    cand = [n for n in owner if n in fs and n not in enumr]
    if not cand:
        raise Skip('nothing to request')
    how = case['how']
    syms, exps, kinds = [], [], 'acdefmstu'
    if 's' in how:
        syms = r.sample(cand, 1 if '1' in how else min(len(cand), r.randrange(1, 5)))
    if 'r' in how:
        for _ in range(r.choice([1, 1, 2, 3])):
            n = r.choice(cand)
            e = r.choice([n, '^%s$' % n, '^' + n[:3], n[-2:] + '$', '^(struct|union)_', '_', '^%s$|^%s$' % (n, r.choice(cand)), '[0-9]', '^[a-f]', n[1:3],
                          '^.{1,6}$', '.*', 'zzz_no_such', '(?i)' + n.upper()])
            exps.append(e)
    if 'k' in how:
        kinds = ''.join(sorted(r.sample('cdefmstu', r.randrange(1, 6))))
    # what is requested
    if syms or exps:
        req = [n for n in cand if (not syms or n in syms) and (not exps or any(re.search(e, n) for e in exps))]
        may = [n for n in cand if n in syms or any(re.search(e, n) for e in exps)]
    else:
        req = may = list(cand)
    req = [n for n in req if set(kinds_of(ch[owner[n]], n)) & set(kinds)]
    args = dict(symbols=syms, expressions=[re.compile(e) for e in exps])
    if case['via'] == 'cli':
        with tmpdir() as d:
            p = os.path.join(d, 'in.h')
            with open(p, 'w') as f:
                f.write(src)
            a = ['-k', kinds]
            for s in syms:
                a += r.choice([['-s', s], ['--symbol', s], ['--symbol=' + s]])
            for e in exps:
                a += r.choice([['-r', e], ['--regex=' + e]])
            text = cli_text(a + [p], d)
        ns = load(text)
    else:
        ns, text = tr_ns(src, [], kinds, **args)
    ps = module_sig(ns)
    what = 'symbols %s expressions %s kinds %s' % (syms, exps, kinds)
    for n in req:
        if n not in ps:
            fail('%s: %s is requested and not exported' % (what, n), src, text)
        obs.add('requested names')
    for n in sorted(need(full, req)):
        if n not in ps and n not in ns:
            fail('%s: %s, which a requested declaration refers to, is missing' % (what, n), src, text)
        obs.add('required names')
    for c in ch:
        if c.kind == 'enum' and c.names[0] in req:
            for n in c.names:
                if n not in ps:
                    fail('%s: enumerator %s of a requested enumeration is missing' % (what, n), src, text)
    w = diff({k: v for k, v in fs.items() if k in ps}, ps, 'whole', 'filtered')
    if w:
        fail('%s: %s' % (what, w), src, text)
    # symbols and expressions together: the documentation does not say whether one or both select
    may = [n for n in may if set(kinds_of(ch[owner[n]], n)) & set(kinds)]
    start, allowed, said = {owner[n] for n in may}, set(may), set()
    # incomplete and nested records can be requested too
    for n in fs:
        if n in owner or not n.startswith(('struct_', 'union_')):
            continue
        if (not syms and not exps or n in syms or any(re.search(e, n) for e in exps)) and set('cs' if n.startswith('s') else 'u') & set(kinds):
            allowed.add(n)
            w = n.split('_', 1)[1]
            start |= {i for i, c in enumerate(ch) if c.kind == 'rec' and (w in words(c.text) or any(w.startswith(d + '_') for d in words(c.text)))}
    ok = closure(ch, start)
    for i in ok:
        allowed |= set(ch[i].names)
        said |= words(ch[i].text)
    for n in ps:
        if n in allowed:
            continue
        if n in owner:
            fail('%s: %s is exported, and neither requested nor mentioned by what is' % (what, n), src, text)
        # tags of incomplete and of nested records, and records without a tag, which are named after the record they are declared in
        w = n.split('_', 1)[1] if n.startswith(('struct_', 'union_')) else n
        if w not in said and not any(w.startswith(m + '_') for m in said):
            fail('%s: %s is exported and belongs to nothing requested' % (what, n), src, text)
        obs.add('members of records exported')
    if not syms and not exps:
        # an unwanted kind appears only where something needs it
        obs.add('kind filters')
    obs.add('names filtered out', len(set(fs) - set(ps)))
    obs.add('modules compared')
    obs.key(what, sorted(ps))
    obs.sample(dict(request=what, exported=sorted(ps)[:20], all=len(fs)))
