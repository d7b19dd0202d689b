"""Input files and the files they include."""
import random
import subprocess

from ..common import *
from ..rich import *
from ..scope import judge, name_untagged
from ..sig import diff, module_sig
from ..tree import Tree

RULE = ('Random programs are spread over a tree of files: nested includes in quotes and angles, by relative, absolute and searched paths, system headers, guards, '
        'repeated includes, equal base names in different folders, names with spaces, #line directives, declarations made by macros. They are translated with '
        'and without the included files, through the API and the command line, by absolute, relative and indirect paths. The monitor compares '
        'with the module of the same program in one file: with includes, everything is exported with the same meaning; without, all declarations of the given '
        'file are, with everything they refer to, and of the included files only what they mention. A case counts by the tree and its exported names.')
ASSUMPTIONS = ['a mention in the text is enough for a declaration of an included file to be exported']


def cases(tier, seed):
    n = 800 if tier == 'quick' else 30000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=4 + i % 16, via=['api', 'cli', 'api'][i % 3], inc=i % 4 == 3, kinds=['cdefstu', 'cdefmstu'][i // 2 % 2])


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    with tmpdir() as d:
        root = os.path.join(os.path.realpath(d), r.choice(['p', 'my project', 'src.h', 'a+b']))
        os.makedirs(root)
        t = Tree(r, root, ch, main=r.choice(['main.h', 'main.c', 'x.h', 'sub/main.h', 'm-1.h']))
        src = t.dump()
        main = os.path.join(root, t.main.path)
        opts = t.options()
        p = subprocess.run(['clang', '-w', '-x', 'c', '-fsyntax-only', main] + opts, capture_output=True)
        if p.returncode:
            raise Skip("clang rejects the tree")
        try:
            full, ftext = tr_ns(text_of(ch), [], case['kinds'])
        except Violation as e:
            raise Skip('the program in one file is no reference')
        fs = module_sig(full)
        name_untagged(ch, fs)
        # how the file is named
        path = main
        k = r.random()
        cwd = os.getcwd()
        if k < .15:
            path = os.path.relpath(main, root)
        elif k < .25:
            path = os.path.join(root, '.', t.main.path)
        elif k < .35:
            os.makedirs(root + '/zz', exist_ok=True)
            path = os.path.join(root, 'zz', '..', t.main.path)
        elif k < .45:
            os.symlink(main, os.path.join(os.path.dirname(main), 'link_to_it.h'))
            path = os.path.join(os.path.dirname(main), 'link_to_it.h')
        elif k < .5:
            path = './' + os.path.relpath(main, root)
        what = 'translation of %s %s includes' % (path, 'with' if case['inc'] else 'without')
        os.chdir(root)
        try:
            if case['via'] == 'cli' and not any(' ' in o for o in opts):
                a = ['-k', case['kinds']] + (['-i'] if case['inc'] else [])
                if opts:
                    a += [r.choice(['--clang-args=%s' % ' '.join(opts)])]
                text = cli_text([path] + a if r.random() < .5 else a + [path], d)
            else:
                text = translate_paths([path], opts, case['kinds'], filter_location=not case['inc'])
        except Violation:
            raise
        except Exception as e:
            fail('%s fails: %s: %s' % (what, type(e).__name__, str(e)[:300]), src)
        finally:
            os.chdir(cwd)
        try:
            ns = load(text)
        except Exception as e:
            fail('%s: the generated module does not import: %s: %s' % (what, type(e).__name__, str(e)[:300]), src, text)
        ps = {k: v for k, v in module_sig(ns).items() if not k.startswith('VF_GUARD_')}
        if case['inc']:
            w = diff(fs, ps, 'one file', 'tree')
            if w:
                fail('%s: %s' % (what, w), src, text)
            obs.add('modules with includes')
        else:
            mine = {id(c) for c in t.main.chunks()}
            judge(ch, {i for i, c in enumerate(ch) if id(c) in mine}, full, fs, ns, ps, what, src, text, obs)
            obs.add('modules without includes')
        obs.add('files', len(t.files))
        obs.key(src, sorted(ps))
        obs.sample(dict(files=[f.path for f in t.files], given=path, exported=sorted(ps)[:20], all=len(fs)))
