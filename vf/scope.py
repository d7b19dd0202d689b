"""What a module of selected declarations must and may contain."""
import re

from .core import *
from .common import fail
from .sig import diff, refs


def words(t):
    return set(re.findall(r'[A-Za-z_]\w*', t))


def declares(c):
    out = set()
    for n in c.names:
        out.add(n)
        if c.kind == 'rec':
            out.add(n.split('_', 1)[1] if n.startswith(c.obj.kind + '_') else n)
    return out


def closure(chunks, start):
    """chunks reachable from some by what their text mentions"""
    by = {}
    for i, c in enumerate(chunks):
        for w in declares(c):
            by.setdefault(w, set()).add(i)
    out, todo = set(start), list(start)
    while todo:
        for w in words(chunks[todo.pop()].text):
            for j in by.get(w, ()):
                if j not in out:
                    out.add(j)
                    todo.append(j)
    return out


def need(full, names):
    """names and the records they refer to, transitively"""
    out, todo = set(names), list(names)
    while todo:
        o = full[todo.pop()]
        q = refs(o)
        for m in list(q):
            for f in getattr(full.get(m), '_fields_', None) or ():
                q |= refs(f[1])
        for m in q - out:
            if m in full:
                out.add(m)
                todo.append(m)
    return out


def name_untagged(chunks, sigs):
    """the record of typedef struct {...} T is named after T"""
    for c in chunks:
        if c.kind == 'rec' and not c.obj.tag and '%s_%s' % (c.obj.kind, c.obj.tdname) in sigs:
            n = '%s_%s' % (c.obj.kind, c.obj.tdname)
            if n not in c.names:
                c.names.insert(0, n)


def judge(chunks, chosen, full, fs, ns, ps, what, src, text, obs):
    """chosen: indices of the selected chunks; full, fs: the whole module and its signature; ns, ps: those of the selection"""
    owner = {}
    for i, c in enumerate(chunks):
        for n in c.names:
            owner.setdefault(n, i)
    req = [n for i in sorted(chosen) for n in chunks[i].names if n in fs]
    for n in req:
        if n not in ps:
            fail('%s: %s is not exported' % (what, n), src, text)
        obs.add('requested names')
    for n in sorted(need(full, req)):
        if n not in ns:
            fail('%s: %s, which a requested declaration refers to, is missing' % (what, n), src, text)
        obs.add('required names')
    w = diff({k: v for k, v in fs.items() if k in ps}, ps, 'whole', 'partial')
    if w:
        fail('%s: %s' % (what, w), src, text)
    allowed, said = set(req), set()
    for i in closure(chunks, chosen):
        allowed |= set(chunks[i].names)
        said |= words(chunks[i].text)
    for n in ps:
        if n in allowed:
            continue
        if n in owner:
            fail('%s: %s is exported, and neither requested nor mentioned by what is' % (what, n), src, text)
        # tags of incomplete and of nested records
        w = n.split('_', 1)[1] if n.startswith(('struct_', 'union_')) else n
        if w not in said and not any(w.startswith(m + '_') for m in said):
            fail('%s: %s is exported and belongs to nothing requested' % (what, n), src, text)
    obs.add('names left out', len(set(fs) - set(ps)))
