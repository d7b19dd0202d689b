"""What a property module uses: verdict exceptions, observation counters, ways to run the translator."""
import contextlib
import hashlib
import io
import json
import logging
import os
import random
import sys
import tempfile

logging.disable(logging.CRITICAL)


class Violation(Exception):
    """the property does not hold on this case"""


class Skip(Exception):
    """the case decides nothing (generator or oracle limits)"""


class Obs:
    """what one case actually observed"""

    def __init__(self):
        self.n = {}
        self.keys = set()
        self.smp = None

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def feats(self, d, prefix='gen:'):
        for k, v in d.items():
            self.add(prefix + k, v)

    def key(self, *parts):
        """identifies a distinct non-trivial case"""
        self.keys.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def sample(self, s):
        if self.smp is None:
            self.smp = s

    def json(self):
        return dict(n=self.n, keys=sorted(self.keys), sample=self.smp)


def scratch():
    d = os.environ.get('VF_SCRATCH')
    if not d:
        d = os.environ['VF_SCRATCH'] = tempfile.mkdtemp(prefix='vf')
    return d


@contextlib.contextmanager
def tmpdir():
    import shutil
    d = tempfile.mkdtemp(dir=scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def rng_of(case):
    return random.Random(json.dumps(case, sort_keys=True))


# ---------------------------------------------------------------- the code under test

_ct = None


def ct():
    global _ct
    if _ct is None:
        import warnings
        warnings.simplefilter('ignore')
        import ctypeslib
        from ctypeslib.codegen import config
        here = os.path.realpath(os.path.dirname(ctypeslib.__file__))
        want = os.path.realpath(os.environ.get('VF_REPO', '/repo')) + '/ctypeslib'
        if here != want:
            raise RuntimeError('the code under test is %s, not %s' % (here, want))
        _ct = (ctypeslib, config)
    return _ct


def make_cfg(opts=(), kinds=None, **kw):
    _, config = ct()
    c = config.CodegenConfig()
    c.clang_opts = list(opts)
    if kinds is not None:
        c._init_types(kinds)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def translate_str(src, opts=(), kinds=None, **kw):
    """text of the module for a source string"""
    c, _ = ct()
    out = io.StringIO()
    c.translate(src, out, make_cfg(opts, kinds, **kw))
    return out.getvalue()


def translate_paths(paths, opts=(), kinds=None, **kw):
    c, _ = ct()
    out = io.StringIO()
    c.translate_files(paths, outfile=out, cfg=make_cfg(opts, kinds, **kw))
    return out.getvalue()


def load(text, name='vf_generated'):
    """run the generated module, return its namespace"""
    ns = {'__name__': name}
    exec(compile(text.replace('# -*- coding: utf-8 -*-', '#', 1), '<%s>' % name, 'exec'), ns)
    return ns


def valid_or_skip(src, opts=()):
    """the compiler decides what a valid source is"""
    import subprocess
    r = subprocess.run(['clang', '-w', '-x', 'c', '-fsyntax-only'] + list(opts) + ['-'], input=src.encode('utf8', 'surrogateescape'), capture_output=True, timeout=120)
    if r.returncode:
        raise Skip('the compiler rejects the source')


def tr_ns(src, opts=(), kinds=None, **kw):
    """translate and load: any failure is a violation (the source is valid C)"""
    try:
        text = translate_str(src, opts, kinds, **kw)
    except Exception as e:
        valid_or_skip(src, opts)
        raise Violation('translation of a valid source fails: %s: %s\n%s' % (type(e).__name__, str(e)[:300], src))
    try:
        return load(text), text
    except Exception as e:
        raise Violation('the generated module does not import: %s: %s\n%s\n--- generated ---\n%s' % (
            type(e).__name__, str(e)[:300], src, body_of(text)))


MARKS = ('class Union(ctypes.Union, AsDictMixin):\n    pass\n',)


def body_of(text):
    for m in MARKS:
        if m in text:
            text = text.split(m, 1)[1]
    return text[:6000]


def all_of(ns):
    return list(ns.get('__all__', ()))


def cli(args):
    """the command line, in this process: exit status"""
    ct()
    from ctypeslib import clang2py
    try:
        return clang2py.main(list(args))
    except SystemExit as e:
        return e.code


def cli_text(args, d):
    """text written by the command line for these arguments"""
    out = os.path.join(d, 'out_%d.py' % len(os.listdir(d)))
    rc = cli(['-q', '-o', out] + list(args))
    if rc:
        raise Violation('clang2py %s exits with %s' % (' '.join(args), rc))
    with open(out) as f:
        return f.read()


def cli_proc(args, stdin=None, env=None, timeout=120, cwd=None):
    """the command line as a process of its own"""
    import subprocess
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run([sys.executable, '-m', 'ctypeslib.clang2py'] + list(args), input=stdin, capture_output=True,
                          env=e, timeout=timeout, cwd=cwd)
