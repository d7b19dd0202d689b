"""Comments, docstrings and locations change nothing but the text."""
import itertools
import os
import random

from ..common import *
from ..rich import *
from ..sig import diff, module_sig

RULE = ('Random programs with comments of every style and content (quotes, backslashes, code, line ends, any characters, very long words) before, after and inside '
        'declarations, in files with any name, are translated with every combination of the options for comments, docstrings, locations, verbosity, through the API and '
        'the command line. The monitor compares the module with that of the program without comments and options. A case counts by the text and the options.')
ASSUMPTIONS = []
PIECES = ['plain words', '"', "'", '"""', "'''", '\\', '\\n', '\\u', '\\x', '\\N{', '%s', '%d %', '{}', '#', 'import os', '\n', '\n * ', '\t', '    ', '\r\n', '\x0c', '\x0b',
          '\u00e9\u4e2d', '\U0001F600', '\u2028', '\x85', '\u200e', '@param x the \\brief', 'raise SystemExit', "'\nraise SystemExit\n'", 'x' * 200, 'a b ' * 60, '$', '`', '<b>', '??/', '/', '* /', '-*- coding: ascii -*-', 'class', '\\\\']


def cases(tier, seed):
    n = 700 if tier == 'quick' else 25000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 14, opts=i % 8, via=['api', 'cli'][i // 8 % 2])


def words(r):
    return ''.join(r.choice(PIECES) + r.choice(['', ' ']) for _ in range(r.randrange(0, 7))).replace('*/', '* /')


def comment(r, after=False):
    k = r.random()
    w = words(r)
    one = ' '.join(w.split('\n')).replace('\r', ' ').replace('??', '').rstrip('\\/ \t\x0b\x0c\x85\u2028\u200e')
    if k < .35:
        return '/**%s%s*/' % ('< ' if after else ' ', w + ' ')
    if k < .5:
        return '/*!%s %s */' % ('<' if after else '', w)
    if k < .65:
        return '/* %s */' % w
    if k < .8:
        return '///%s %s' % ('<' if after else '', one)
    if k < .9:
        return '//!%s %s' % ('<' if after else '', one)
    return '// %s' % one


def dress(r, text):
    if text.startswith('#'):
        c = comment(r)
        head, nl, rest = text.rstrip('\n').partition('\n')
        ok = not any(b in c for b in '\n\r\x0b\x0c\x85\u2028') and not head.endswith('\\')
        return head + (' ' + c if ok and r.random() < .5 else '') + '\n' + (dress(r, rest) if rest and not head.endswith('\\') else rest + '\n' if rest else '')
    out = []
    if r.random() < .7:
        out.append(comment(r) + '\n')
        if r.random() < .2:
            out.append(comment(r) + '\n')
    for line in text.split('\n'):
        if r.random() < .25 and not line.startswith('#'):
            line = comment(r) + '\n' + line
        if r.random() < .25 and not line.startswith('#') and line.rstrip()[-1:] in ';,{':
            line += ' ' + comment(r, True)
        out.append(line + '\n')
    return ''.join(out)


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'])
    kinds = r.choice(['cdefstu', 'cdefmstu'])
    plain, _ = tr_ns(text_of(ch), [], kinds)
    want = module_sig(plain)
    src = ''.join(dress(r, c.text) for c in ch) + r.choice(['', comment(r) + '\n', comment(r)])
    valid_or_skip(src)
    with tmpdir() as d:
        top = os.path.join(d, r.choice(['x', "it's", 'a"b', 'a"""b', 'back\\nslash', 'per%cent', '\u00e9', 'new\nline'] if r.random() < .4 else ['x']))
        os.mkdir(top)
        path = os.path.join(top, r.choice(['in.h', "i'n.h", 'in\\n.h', 'in \u00e9.c'] if r.random() < .3 else ['in.h']))
        with open(path, 'wb') as f:
            f.write(src.encode('utf-8'))
        o = case['opts']
        c, e, dd = o & 1, o & 2, o & 4
        opts = ['-D', 'VF_GIVEN=3'] if r.random() < .2 else []
        if opts and 'm' in kinds:
            want = dict(want, VF_GIVEN=('value', 'int', '3'))
        if case['via'] == 'api':
            try:
                text = translate_paths([path], opts, kinds, generate_comments=bool(c), generate_locations=bool(e), generate_docstrings=bool(dd), verbose=False)
            except Exception as x:
                fail('comments=%s locations=%s docstrings=%s: %s: %s' % (c, e, dd, type(x).__name__, str(x)[:300]), src)
        else:
            a = ['-k', kinds] + (['-c'] if c else []) + (['-e'] if e else []) + (['-d'] if dd else []) + (['--clang-args=' + ' '.join(opts)] if opts else [])
            if r.random() < .2:
                a += r.choice([['-v'], ['--clang-args=-DVF_%d' % o] if not opts else []])
            text = cli_text([path] + a, d)
        try:
            ns = load(text)
        except BaseException as x:
            fail('comments=%s locations=%s docstrings=%s: the module does not import: %s: %s' % (c, e, dd, type(x).__name__, str(x)[:300]), src, text)
    got = module_sig(ns)
    got = {k: v for k, v in got.items() if not k.startswith('VF_%d' % o)} if 'VF_%d' % o not in want else got
    if 'VF_GIVEN' not in got:
        # given outside of the file
        want.pop('VF_GIVEN', None)
    w = diff(want, got, 'plain', 'with comments')
    if w:
        fail('comments=%s locations=%s docstrings=%s: %s' % (c, e, dd, w), src, text)
    obs.add('opts:%d' % o)
    obs.add('names', len(got))
    obs.key(src, o)
    obs.sample(dict(source=src[:300], opts=o))
