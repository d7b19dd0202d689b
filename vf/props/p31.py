"""Modules built on other generated modules: clang2py -m."""
import ctypes
import importlib
import os
import random
import sys

from ..common import *
from ..rich import *
from ..scope import judge, name_untagged, need
from ..sig import diff, module_sig
from .p26 import chain, compiles

RULE = ('Random programs are cut into chains of headers that include their predecessors. One module is made of each header, with -m for the modules of '
        'all (or some) of the earlier ones, which can live in packages, with and without -i and -s. The modules are imported together. The monitor walks all '
        'types that each one refers to: what an earlier module has must be the object of that module, and everything must mean what it means in the module of the whole program. '
        'A case counts by the files and the modules each one imports from.')
ASSUMPTIONS = ['enumerations and constants are generated again: equal, and of the same ctypes type']


def cases(tier, seed):
    n = 1500 if tier == 'quick' else 15000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=5 + i % 14, inc=i % 4 == 3, form=['chain', 'fwd'][i % 3 == 2], pkg=i % 2, skip=i % 5 == 4, names=i % 6 == 5)


def types_of(o, out):
    """every record class that can be reached from an object of a module"""
    if isinstance(o, ctypes._CFuncPtr):
        for a in [o.restype] + list(o.argtypes or ()):
            types_of(a, out)
        return
    if not isinstance(o, type):
        if isinstance(o, (ctypes._Pointer, ctypes.Array, ctypes.Structure, ctypes.Union)):
            types_of(type(o), out)
        return
    if o in out:
        return
    if issubclass(o, (ctypes.Structure, ctypes.Union)):
        out.add(o)
        for f in vars(o).get('_fields_', ()):
            types_of(f[1], out)
    elif issubclass(o, (ctypes.Array, ctypes._Pointer)):
        types_of(getattr(o, '_type_', None), out)
    elif issubclass(o, ctypes._CFuncPtr):
        for a in [getattr(o, '_restype_', None)] + list(getattr(o, '_argtypes_', None) or ()):
            types_of(a, out)
        for a in [vars(o).get('restype')] + list(vars(o).get('argtypes') or ()):
            if isinstance(a, type):
                types_of(a, out)


def importable(name):
    return name.startswith(('struct_', 'union_'))


def shared(base, name, t, known, what, src, text, obs, count):
    """it is an object of the modules to import from, if one of them has it"""
    have = [vars(m)[name] for m in base if known and name in m.__all__ and isinstance(vars(m)[name], type)]
    if have:
        if not any(o is t for o in have):
            fail('%s has a %s of its own' % (what, name), src, text)
        obs.add(count)


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    if case['form'] == 'fwd':
        # records that an earlier header declares only
        for c in list(ch):
            if c.kind == 'rec' and c.obj.tag and r.random() < .6:
                ch.insert(r.randrange(ch.index(c) + 1), Chunk('fwd', [], '%s %s;' % (c.obj.kind, c.obj.tag)))
    fs = chain(r, ch)
    try:
        whole, _ = tr_ns(text_of(ch), [])
    except Violation:
        raise Skip('the program in one file is no reference')
    want = module_sig(whole)
    name_untagged(ch, want)
    typedefs = {n for c in ch if c.kind in ('td', 'typedef') or 'typedef' in c.text for n in c.names}
    src = ''
    loaded = []
    with tmpdir() as d:
        root = os.path.realpath(d)
        tag = 'vfm_%d_' % os.getpid()
        pk = tag + 'pkg'
        os.makedirs(os.path.join(root, pk, 'sub'))
        for p in (pk, pk + '/sub'):
            open(os.path.join(root, p, '__init__.py'), 'w').close()
        sys.path.insert(0, root)
        importlib.invalidate_caches()
        old = os.getcwd()
        os.chdir(root)
        try:
            for n, f in enumerate(fs):
                full = os.path.join(root, f.path)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                body = ''.join('#include "%s"\n' % os.path.join(root, x.path) for x in f.inc) + '\n'.join(c.text for c in f.chunks) + '\n'
                with open(full, 'w') as h:
                    h.write('#ifndef VF_GUARD_%d\n#define VF_GUARD_%d\n%s#endif\n' % (n, n, body))
                name = tag + 'm%d' % n
                where = r.choice(['', pk + '.', pk + '.sub.']) if case['pkg'] else ''
                base = [m for m in loaded if not case['skip'] or r.random() < .6]
                if r.random() < .3:
                    r.shuffle(base)
                args = [full, '-k', 'cdefstu'] + [x for m in base for x in (r.choice(['-m', '--module']), m.__name__)]
                chosen = {i for i, c in enumerate(ch) if c in f.chunks}
                if case['inc']:
                    args.append('-i')
                sel = None
                if case['names'] and f.chunks and not case['inc']:
                    sel = sorted(r.sample(sorted(chosen), r.randrange(1, len(chosen) + 1)))
                    names = [x for i in sel for x in ch[i].names if x in want]
                    if not names:
                        sel = None
                    for x in names if sel else ():
                        args += ['-s', x]
                src += '--- %s -> %s: %s\n%s' % (f.path, where + name, ' '.join(args[1:]), body)
                what = 'the module %s of %s, made with -m %s' % (where + name, f.path, [m.__name__ for m in base])
                text = cli_text(args, d)
                with open(os.path.join(root, (where + name).replace('.', '/') + '.py'), 'w') as h:
                    h.write(text)
                importlib.invalidate_caches()
                try:
                    mod = importlib.import_module(where + name)
                except Exception as e:
                    fail('%s does not import: %s: %s' % (what, type(e).__name__, str(e)[:300]), src, text)
                ns = vars(mod)
                got = module_sig(ns)
                # complete, and of the same meaning. Types that are complete only in a later header are not yet.
                later = {x for c in ch if any(c in y.chunks for y in fs[n + 1:]) for x in c.names}
                w = diff({k: v for k, v in want.items() if k in got}, {k: v for k, v in got.items() if k not in later}, 'whole', 'this',
                         names=set(want) & set(got) - later)
                if w:
                    fail('%s: %s' % (what, w), src, text)
                if sel is None:
                    for x in sorted({x for i in chosen for x in ch[i].names} & set(want)):
                        if x not in got:
                            fail('%s: %s is not exported' % (what, x), src, text)
                        obs.add('names of the header')
                twice = sorted({x for x in got if list(mod.__all__).count(x) > 1})
                if twice:
                    fail('%s: %s exported twice' % (what, twice), src, text)
                # shared
                seen = set()
                for x in mod.__all__:
                    types_of(ns[x], seen)
                for t in seen:
                    shared(base, t.__name__, t, importable(t.__name__), what, src, text, obs, 'records shared')
                for x in mod.__all__:
                    shared(base, x, ns[x], importable(x) or x in typedefs, what, src, text, obs, 'names imported')
                loaded.append(mod)
                obs.add('modules')
        finally:
            os.chdir(old)
            sys.path.remove(root)
            for k in list(sys.modules):
                if k.startswith(tag):
                    del sys.modules[k]
    obs.key(src)
    obs.sample(dict(source=src[:800]))
