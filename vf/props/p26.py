"""Several input files in one translation."""
import os
import random
import subprocess

from ..common import *
from ..rich import *
from ..scope import closure, judge, name_untagged
from ..sig import diff, module_sig

RULE = ('Random programs are cut into several files: chains of guarded headers that include their predecessors, and independent sources that share headers. Random lists '
        'of these files (any subset, any order, repeated, the same file by several names, equal base names in different folders) are translated at once, '
        'with and without the included files, through the API and the command line. The monitor compares with the module of the visible program '
        'in one file: nothing requested is lost, duplicated, incomplete or changed. A case counts by the files, the list, and the exported names.')
ASSUMPTIONS = ['a mention in the text is enough for a declaration of an included file to be exported']


def cases(tier, seed):
    n = 700 if tier == 'quick' else 25000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=5 + i % 16, via=['api', 'cli', 'api'][i % 3], inc=i % 5 >= 3, form=['chain', 'indep', 'chain', 'fwd'][i % 4], kinds=['cdefstu', 'cdefmstu'][i // 2 % 2])


NAMES = ['a.h', 'b.h', 'types.h', 'a.c', 'x.h', 'x.c', 'x.h.h', 'my file.h', 'z-1.c']
DIRS = ['', 'sub', 'lib', 'sub/deep']


class Src:
    def __init__(self, path):
        self.path, self.inc, self.chunks, self.guard = path, [], [], True


def paths(r, n):
    out = []
    base = r.choice(NAMES) if r.random() < .4 else None
    dirs = DIRS + ['d%d' % i for i in range(n)]
    while len(out) < n:
        p = os.path.join(r.choice(dirs), base if base and r.random() < .7 else r.choice(NAMES))
        if p not in out:
            out.append(p)
    return out


def compiles(text):
    return subprocess.run(['clang', '-w', '-x', 'c', '-fsyntax-only', '-'], input=text.encode(), capture_output=True).returncode == 0


def chain(r, ch):
    k = r.randrange(2, 6)
    fs = [Src(p) for p in paths(r, k)]
    cut = sorted(r.randrange(len(ch) + 1) for _ in range(k - 1))
    for i, f in enumerate(fs):
        f.chunks = ch[([0] + cut)[i]:(cut + [len(ch)])[i]]
        if i:
            # all of the previous ones are visible
            f.inc = [fs[i - 1]] + [x for x in fs[:i - 1] if r.random() < .3]
            r.shuffle(f.inc)
    return fs


def independent(r, ch, exact):
    """a shared header, and files that need nothing of each other"""
    k = r.randrange(2, 5)
    ps = paths(r, k + 1)
    head, fs = Src(ps[0]), [Src(p) for p in ps[1:]]
    cut = r.randrange(0, len(ch) // 2 + 1)
    head.chunks = ch[:cut]
    for f in fs:
        f.inc = [head]
    if exact:
        # whatever compiles: incomplete here, complete there
        for c in ch[cut:]:
            for f in r.sample(fs, len(fs)):
                if compiles(text_of(head.chunks + f.chunks + [c])):
                    f.chunks.append(c)
                    break
    else:
        where = {i: 'h' for i in range(cut)}
        for i in range(cut, len(ch)):
            at = {where.get(j) for j in closure(ch, [i]) if j < i} - {'h'}
            if any(j > i for j in closure(ch, [i]) - {i}):
                at.add(None)
            if not at:
                where[i] = r.randrange(k)
            elif len(at) == 1 and None not in at:
                where[i] = at.pop()
            else:
                where[i] = None
                continue
            fs[where[i]].chunks.append(ch[i])
    return [head] + fs


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    if case['form'] == 'fwd':
        # declared everywhere, defined once
        for c in list(ch):
            if c.kind == 'rec' and c.obj.tag and r.random() < .6:
                ch.insert(r.randrange(ch.index(c) + 1), Chunk('fwd', [], '%s %s;' % (c.obj.kind, c.obj.tag)))
    fs = chain(r, ch) if case['form'] == 'chain' else independent(r, ch, case['form'] == 'fwd')
    src = ''
    with tmpdir() as d:
        root = os.path.realpath(d)
        for n, f in enumerate(fs):
            full = os.path.join(root, f.path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            lines = []
            for x in f.inc:
                p = os.path.join(root, x.path)
                lines.append('#include "%s"' % (os.path.relpath(p, os.path.dirname(full)) if r.random() < .7 else p))
            body = '\n'.join(lines + [c.text for c in f.chunks]) + '\n'
            if r.random() < .4:
                body = '#pragma once\n' + body
            else:
                body = '#ifndef VF_GUARD_%d\n#define VF_GUARD_%d\n%s#endif\n' % (n, n, body)
            with open(full, 'w') as h:
                h.write(body)
            src += '--- %s\n%s' % (f.path, body)
        given = [r.choice(fs) for _ in range(r.choice([1, 2, 2, 3, 4]))] if r.random() < .3 else r.sample(fs, r.randrange(1, len(fs) + 1))
        seen = set()

        def closed(f):
            if f not in seen:
                seen.add(f)
                for x in f.inc:
                    closed(x)
        for f in given:
            closed(f)
        visible = [c for c in ch if any(c in f.chunks for f in seen)]
        mine = {i for i, c in enumerate(visible) if any(c in f.chunks for f in given)}
        for f in set(given):
            q = subprocess.run(['clang', '-w', '-x', 'c', '-fsyntax-only', os.path.join(root, f.path)], capture_output=True)
            if q.returncode:
                raise Skip('clang rejects a file')
        try:
            whole, _ = tr_ns(text_of(visible), [], case['kinds'])
        except Violation:
            raise Skip('the program in one file is no reference')
        want = module_sig(whole)
        name_untagged(visible, want)
        ps = []
        for f in given:
            p = os.path.join(root, f.path)
            k = r.random()
            if k < .2:
                p = f.path
            elif k < .3:
                p = './' + f.path
            elif k < .4:
                p = os.path.join(root, 'sub', '..', f.path)
                os.makedirs(os.path.join(root, 'sub'), exist_ok=True)
            ps.append(p)
        what = 'translation of %s %s includes' % (ps, 'with' if case['inc'] else 'without')
        cwd = os.getcwd()
        os.chdir(root)
        try:
            if case['via'] == 'cli':
                text = cli_text(ps + ['-k', case['kinds']] + (['-i'] if case['inc'] else []), d)
            else:
                text = translate_paths(ps, [], case['kinds'], filter_location=not case['inc'])
        except Violation:
            raise
        except Exception as e:
            fail('%s fails: %s: %s' % (what, type(e).__name__, str(e)[:300]), src)
        finally:
            os.chdir(cwd)
    try:
        ns = load(text)
    except Exception as e:
        fail('%s: the generated module does not import: %s: %s' % (what, type(e).__name__, str(e)[:300]), src, text)
    names = list(ns.get('__all__', ()))
    twice = sorted({n for n in names if names.count(n) > 1})
    if twice:
        fail('%s: %s exported twice' % (what, twice), src, text)
    got = {k: v for k, v in module_sig(ns).items() if not k.startswith('VF_GUARD_')}
    if case['inc']:
        w = diff(want, got, 'one file', 'several files')
        if w:
            fail('%s: %s' % (what, w), src, text)
        obs.add('modules with includes')
    else:
        judge(visible, mine, whole, want, ns, got, what, src, text, obs)
        obs.add('modules without includes')
    obs.add('files given', len(given))
    obs.add('form:' + case['form'])
    obs.key(src, [f.path for f in given], sorted(got))
    obs.sample(dict(files=[f.path for f in fs], given=ps, exported=sorted(got)[:20], all=len(want)))
