"""Translations in concurrent threads."""
import hashlib
import random
import sys
import threading
import time

from ..common import *
from ..rich import *

RULE = ('2 to 8 threads translate different programs for different targets at the same time, some of them fail; the interpreter switches threads every few '
        'microseconds and yields are injected at random function calls of the translator. The monitor logs the order in which threads run, and compares every '
        'result (text or failure) with that of the same translation alone. A case counts by the interleaving (hash of the sequence of threads) that was observed.')
ASSUMPTIONS = ['every thread uses a configuration and an output of its own']
BAD = ['struct a { int x }', 'int f(;', 'struct s { struct s x; };']
TARGETS = [None, None, 'i386-linux', 'msp430', 'aarch64-linux-gnu', 'arm-linux-gnueabihf', 'avr', 'x86_64-pc-win32-elf']


def cases(tier, seed):
    n = 300 if tier == 'quick' else 12000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, threads=[2, 3, 4, 6, 8][i % 5], each=2 + i % 3, yields=[0, 7, 50, 400][i % 4])


def job(q):
    try:
        return translate_str(q['src'], q['opts'], q['kinds'], **q['kw'])
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])


def run(case, obs):
    r = random.Random(case['seed'])
    work = []
    for i in range(case['threads']):
        qs = []
        for j in range(case['each']):
            t = r.choice(TARGETS)
            # the same names in different programs: a mix-up shows
            g, ch = rich('%s/%d/%d' % (case['seed'], 0 if r.random() < .3 else i, j), r.randrange(2, 9), **target_cfg(t))
            src = text_of(ch)
            if r.random() < .06:
                src = r.choice(BAD)
            qs.append(dict(src=src, opts=opts_of(t) + (['-DN=%d' % i] if r.random() < .3 else []), kinds=r.choice([None, 'cdefstum', 'cdefstum', 'cs']),
                           kw=r.choice([{}, dict(generate_locations=True), dict(generate_comments=True)])))
        work.append(qs)
    alone = [[job(q) for q in qs] for qs in work]
    log = []
    got = [[None] * len(qs) for qs in work]
    gate = threading.Barrier(case['threads'])
    seeds = [r.randrange(1 << 30) for _ in work]
    pkg = os.path.realpath(os.path.dirname(ct()[0].__file__))

    def body(i):
        rr = random.Random(seeds[i])
        n = [0]

        def prof(frame, event, arg):
            if event == 'call' and 'ctypeslib' in frame.f_code.co_filename:
                n[0] += 1
                if n[0] % 16 == 0:
                    log.append(i)
                if case['yields'] and rr.random() * case['yields'] < 1:
                    time.sleep(0 if rr.random() < .8 else 1e-4)
        gate.wait()
        sys.setprofile(prof)
        try:
            for j, q in enumerate(work[i]):
                got[i][j] = job(q)
        finally:
            sys.setprofile(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(r.choice([1e-6, 1e-5, 1e-4]))
    try:
        ths = [threading.Thread(target=body, args=(i,)) for i in range(case['threads'])]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for i, qs in enumerate(work):
        for j, q in enumerate(qs):
            if got[i][j] != alone[i][j]:
                la, lb = alone[i][j].splitlines(), (got[i][j] or 'None').splitlines()
                k = next((k for k, (x, y) in enumerate(zip(la, lb)) if x != y), min(len(la), len(lb)))
                fail('a translation in a thread differs from the same translation alone, line %d:\n alone: %s\n thread: %s\noptions: %s %s' % (
                    k + 1, la[k:k + 2], lb[k:k + 2], q['opts'], q['kinds']), q['src'])
            obs.add('translations compared')
    sw = sum(1 for a, b in zip(log, log[1:]) if a != b)
    obs.add('thread switches observed', sw)
    obs.add('scheduling events', len(log))
    if sw < case['threads']:
        obs.add('runs that did not interleave')
    obs.key(hashlib.sha1(bytes(log)).hexdigest())
    obs.sample(dict(threads=case['threads'], switches=sw))
