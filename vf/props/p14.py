"""Translation depends on nothing but its input."""
import json
import random
import subprocess
import sys

from ..common import *
from ..rich import *
from ..zygote import Zygote

RULE = ('Random programs, targets, kinds of declarations and options are translated in a process with a history (earlier translations of other '
        'programs, for other targets and options, with headers left out, with symbol filters, and failed ones), in a process without history, twice in a row, and in '
        'new interpreters with other hash seeds. The monitor compares the texts of the modules byte by byte. A case counts by the text.')
ASSUMPTIONS = ['the path of the source file is the same in all the runs']
TARGETS = [None, None, 'i386-linux', 'x86_64-linux', 'msp430', 'aarch64-linux-gnu', 'arm-linux-gnueabihf', 'avr', 'x86_64-pc-win32-elf', 'mips-linux-gnu']
BAD = ['struct a { int x }', 'int f(;', 'typedef foo bar;', 'struct s { struct s x; };', '#include "no_such_file.h"\n', '}', 'int a[-1];',
       'struct ok { int a; };\n#error stop\n']
KINDS = [None, 'cdefstu', 'cdefstum', 'stum', 'e', 'cs']
zy = None


def cases(tier, seed):
    n = 480 if tier == 'quick' else 20000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, hist=3 + i % 6, proc=i % 8 == 0)


def job(q):
    try:
        return dict(text=one(q))
    except Exception as e:
        return dict(error='%s: %s' % (type(e).__name__, str(e)[:200]))


def one(q):
    if q.get('path'):
        return translate_paths(q['path'], q['opts'], q['kinds'], **q['kw'])
    return translate_str(q['src'], q['opts'], q['kinds'], **q['kw'])


def setup():
    global zy
    zy = Zygote(job)


def request(r, i, d, seed, small=False):
    t = r.choice(TARGETS)
    g, ch = rich('%s/%d' % (seed, i), r.randrange(2, 10), **target_cfg(t))
    src = text_of(ch) + '\nstruct sizes_%d { short s; int i; long l; long double d; void *p; };\n' % i
    q = dict(src=src, opts=opts_of(t) + r.choice([[], [], ['-DFOO=1'], ['-fshort-enums'], ['-mlong-double-64' if (t or 'x86').startswith(('x86', 'i386')) else '-fshort-wchar'],
                                                             ['-fpack-struct=2']]), kinds=r.choice(KINDS),
             kw=r.choice([{}, {}, dict(generate_comments=True), dict(generate_locations=True), dict(generate_docstrings=True)]))
    names = [n for c in ch for n in c.names]
    if r.random() < .25:
        # one record points to several that nobody asks for
        kinds = [r.choice(['struct', 'union']) + ' hub_%s%d' % (r.choice('abcxyz'), k) for k in range(r.randrange(2, 9))]
        text = ['%s { %s a; };' % (k, r.choice(['int', 'char', 'long', 'double', kinds[0].split()[0] + ' %s *' % kinds[0].split()[1]])) for k in kinds]
        text.append('struct hub { %s };' % ' '.join('%s *p%d;' % (k, i) for i, k in enumerate(r.sample(kinds, len(kinds)))))
        q['src'] = src = '\n'.join(text) + '\n' + src
        q['kinds'] = r.choice([None, 'cstu'])
        q['kw'] = dict(q['kw'], symbols=['struct_hub'] + r.sample(names, min(len(names), r.randrange(2))))
        if r.random() < .5:
            p = os.path.join(d, 'h%d.h' % i)
            with open(os.path.join(d, 'h%d_inc.h' % i), 'w') as f:
                f.write('\n'.join(text[:-1]) + '\n')
            with open(p, 'w') as f:
                f.write('#include "h%d_inc.h"\n' % i + text[-1] + '\n')
            q['path'] = [p]
            if r.random() < .5:
                del q['kw']['symbols']
        return q
    if names and r.random() < .3:
        # what is left out and needed by what is requested is generated afterwards
        q['kw'] = dict(q['kw'], symbols=r.sample(names, r.randrange(1, min(len(names), 6) + 1)))
    if r.random() < .4:
        p = os.path.join(d, 'f%d.h' % i)
        cut = r.randrange(len(ch) + 1) if r.random() < .6 else 0
        with open(p, 'w') as f:
            if cut:
                with open(os.path.join(d, 'f%d_inc.h' % i), 'w') as h:
                    h.write(text_of(ch[:cut]))
                f.write('#include "f%d_inc.h"\n' % i + src[len(text_of(ch[:cut])) - 1:])
            else:
                f.write(src)
        q['path'] = [p]
        if r.random() < .3:
            q['kw'] = dict(q['kw'], filter_location=False)
    return q


def run(case, obs):
    r = random.Random(case['seed'])
    with tmpdir() as d:
        for i in range(case['hist']):
            q = request(r, i, d, case['seed'])
            if r.random() < .2:
                q['src'] = r.choice(BAD)
                q.pop('path', None)
            elif r.random() < .1:
                q['kw']['symbols'] = ['x', 'node']
            job(q)
            obs.add('translations in the history')
        q = request(r, 99, d, case['seed'])
        if r.random() < .07:
            q['src'] = q['src'] + r.choice(BAD)
            if q.get('path'):
                with open(q['path'][0], 'a') as f:
                    f.write(r.choice(BAD))
        fresh = zy.run(q)
        after = job(q)
        again = job(q)
        runs = [('in a process without history', fresh), ('after other translations', after), ('a second time', again)]
        if case['proc']:
            for hs in r.sample(['0', '1', '42', '1234567', 'random'], 2):
                env = dict(os.environ, PYTHONHASHSEED=hs)
                p = subprocess.run([sys.executable, '-c', 'import sys, json\nfrom vf.props import p14\n'
                                    'print(json.dumps(p14.job(json.load(sys.stdin))))'], input=json.dumps(q).encode(),
                                   capture_output=True, env=env, timeout=100)
                if p.returncode:
                    fail('the translation dies in a new process: %s' % p.stderr.decode()[-500:], q['src'])
                runs.append(('in a new process, hash seed %s' % hs, json.loads(p.stdout.decode().splitlines()[-1])))
                obs.add('new interpreters')
    a = runs[0]
    for b in runs[1:]:
        if a[1] != b[1]:
            la, lb = (x[1].get('text', x[1].get('error', '')).splitlines() for x in (a, b))
            k = next((i for i, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
            fail('the module depends on more than its input (line %d):\n %s: %s\n %s: %s\noptions: %s' % (
                k + 1, a[0], la[k:k + 2], b[0], lb[k:k + 2], {k: v for k, v in q.items() if k != 'src'}), q['src'])
        obs.add('texts compared')
    obs.add('failures compared' if 'error' in a[1] else 'modules compared')
    obs.key(str(a[1]))
    obs.sample(dict(lines=len(a[1].get('text', '').splitlines()), error=a[1].get('error')))
