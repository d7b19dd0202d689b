"""The clang library is found, whatever the environment says."""
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from ..common import *
from ..rich import *

RULE = ('New interpreters import ctypeslib with CLANG_LIBRARY_PATH and LD_LIBRARY_PATH that name the clang library under many names, copies in directories, '
        'made-up clang libraries of other versions, files that are no library, libraries without clang, directories without one, and nothing. The monitor '
        'compares the library in use, the version reported, the warnings and the module of a random program with what the environment asks for. A case counts by what was asked and found.')
ASSUMPTIONS = ['the machine has one usable clang library that is found without any setting']
VERSIONS = [('clang version 3.9.1-19ubuntu1 (tags/RELEASE_391/rc2)', '3.9.1'), ('Ubuntu clang version 18.1.3 (1ubuntu1)', '18.1.3'),
            ('Apple clang version 15.0.0 (clang-1500.3.9.4)', '15.0.0'), ('Debian clang version 14.0.6', '14.0.6'), ('clang version 20.0.0git', '20.0.0'),
            ('clang version 19.1.0 (https://github.com/llvm/llvm-project.git a4bf6cd)', '19.1.0'), ('clang version 7.0 ', '7.0'),
            ('clang version 21.1.8', '21.1.8'), ('Homebrew clang version 101.12.345', '101.12.345'), ('clang version 18', '18'), ('nothing of that kind', 'Unknown'), ('', 'Unknown')]
KINDS = ['unset', 'file', 'dir', 'fake-file', 'fake-dir', 'text', 'empty-file', 'other', 'dir-none', 'dir-text', 'dir-other', 'missing', 'empty', 'broken', 'missing-in-file']
CHILD = '''
import json, sys, warnings
r = {}
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    try:
        import ctypeslib
        from clang import cindex
        r.update(version=ctypeslib.clang_version(), py=ctypeslib.clang_py_version(), file=cindex.conf.get_filename())
    except BaseException as e:
        r.update(error='%s: %s' % (type(e).__name__, e))
r['warnings'] = [str(x.message) for x in w if issubclass(x.category, RuntimeWarning)]
q = json.load(sys.stdin)
if q.get('src') and 'error' not in r:
    from vf.core import translate_str
    try:
        r['text'] = translate_str(q['src'], [], None)
    except BaseException as e:
        r['error'] = '%s: %s' % (type(e).__name__, e)
print(json.dumps(r))
'''
system = real = None


def cases(tier, seed):
    n = 360 if tier == 'quick' else 6000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, kind=KINDS[i % len(KINDS)])


def child(src, d, env):
    e = {k: v for k, v in os.environ.items() if k not in ('CLANG_LIBRARY_PATH', 'LD_LIBRARY_PATH', 'PYTHONWARNINGS')}
    e.update(env)
    p = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps(dict(src=src)).encode(), capture_output=True, cwd=d, env=e, timeout=200)
    try:
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception:
        return dict(error='exit status %s: %s' % (p.returncode, p.stderr.decode('utf-8', 'replace')[-600:]), warnings=[])


def setup():
    global system, real
    system = child('', None, {})
    if 'error' in system:
        return
    lib = ctypes.CDLL(system['file'])
    p = ctypes.c_char_p

    class Info(ctypes.Structure):
        _fields_ = [('name', p), ('base', ctypes.c_void_p), ('sname', p), ('saddr', ctypes.c_void_p)]
    i = Info()
    ctypes.CDLL(None).dladdr(ctypes.cast(lib.clang_getClangVersion, ctypes.c_void_p), ctypes.byref(i))
    real = os.path.realpath(i.name.decode())


def build_lib(path, code, soname=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    p = subprocess.run(['clang', '-w', '-shared', '-fPIC', '-x', 'c', '-', '-o', path] + (['-Wl,-soname,' + soname] if soname else []),
                       input=code.encode(), capture_output=True)
    if p.returncode:
        raise ProbeError(p.stderr.decode()[:300])


def fake(path, string, soname=None):
    build_lib(path, 'struct S { const void *d; unsigned f; };\nstruct S clang_getClangVersion(void) { struct S s = { "%s", 0 }; return s; }\n' % string, soname)


def run(case, obs):
    r = random.Random(case['seed'])
    if 'error' in system:
        fail('the import fails: %s' % system['error'], '')
    kind = case['kind']
    src = text_of(rich(case['seed'], r.randrange(2, 7))[1])
    env = {}
    version, found, usable, mentions = system['version'], system['file'], True, None
    d = tempfile.mkdtemp(prefix='vf24')
    try:
        # a library of a better version among those of the system
        ld = r.choice([None, None, None, 'good', 'good', 'other', 'older']) if kind not in ('fake-file', 'fake-dir', 'file', 'dir') or r.random() < .3 else None
        if ld:
            env['LD_LIBRARY_PATH'] = d + '/ld'
            nm = 'libclang-%s.so' % ('3.7' if ld == 'older' else system['py'])
            if ld == 'other':
                build_lib(d + '/ld/' + nm, 'int nothing;', nm)
            else:
                s, v = r.choice(VERSIONS[:-2])
                fake(d + '/ld/' + nm, s, nm)
                if ld == 'good':
                    version, found = v, nm
        base = d + '/' + r.choice(['lib', 'a b', '\u00e9', 'x.so', 'lib/clang.d'])
        os.makedirs(base)
        path = base + '/' + r.choice(['libclang.so', 'libclang-11.so.1', 'clang', 'my lib.so', '\u00fc.so'])
        inner = base + '/libclang.so'
        if kind == 'file':
            os.symlink(real, path)
        elif kind == 'dir':
            os.symlink(real, inner)
            path = base
        elif kind.startswith('fake'):
            s, v = r.choice(VERSIONS)
            version = v
            if kind == 'fake-dir':
                path = base
            fake(inner if kind == 'fake-dir' else path, s)
        elif kind in ('text', 'dir-text'):
            t = inner if kind == 'dir-text' else path
            with open(t, 'wb') as f:
                f.write(r.choice([b'this is no library\n', b'\x7fELF', b'\x7fELF\2\1\1' + bytes(57), bytes(range(256)) * 9]))
            path = base if kind == 'dir-text' else path
        elif kind == 'empty-file':
            open(path, 'w').close()
        elif kind in ('other', 'dir-other'):
            build_lib(inner if kind == 'dir-other' else path, r.choice(['int x;', 'int clang_getClangVersio(void) { return 1; }', 'void clang_createIndex(void) {}']))
            path = base if kind == 'dir-other' else path
        elif kind == 'dir-none':
            path = base
        elif kind == 'broken':
            os.symlink(base + '/no_such', path)
        elif kind == 'missing-in-file':
            open(path, 'w').close()
            path += '/x'
        elif kind == 'empty':
            path = ''
        if path == base and r.random() < .3:
            path += '/'
        if kind in ('file', 'dir', 'fake-file', 'fake-dir'):
            if path.startswith(d) and r.random() < .3:
                path = './' + os.path.relpath(path, d) + ('/' if path.endswith('/') else '')
            found = path if kind in ('file', 'fake-file') else path + '/libclang.so'
            version = version if kind.startswith('fake') else system['version']
        if kind != 'unset':
            env['CLANG_LIBRARY_PATH'] = path
        have = child('' if (kind.startswith('fake') or found.startswith('libclang-' + system['py'])) else src, d, env)
    finally:
        shutil.rmtree(d)
    what = 'CLANG_LIBRARY_PATH=%s (%s), %s in LD_LIBRARY_PATH' % (env.get('CLANG_LIBRARY_PATH'), kind, ld)
    if 'error' in have:
        fail('%s: %s' % (what, have['error']), src)
    if os.path.normpath(have['file']) != os.path.normpath(found):
        fail('%s: the library used is %s, not %s' % (what, have['file'], found), src)
    if have['version'] != version:
        fail('%s: clang_version() is %r, the library says %r' % (what, have['version'], version), src)
    if have['py'] != system['py']:
        fail('%s: clang_py_version() is %r' % (what, have['py']), src)
    about = [w for w in have['warnings'] if 'CLANG_LIBRARY_PATH' in w or path and path in w]
    if kind in ('unset', 'file', 'dir', 'fake-file', 'fake-dir'):
        if about:
            fail('%s: warnings %s' % (what, about), src)
    elif not about:
        fail('%s: no warning that it is not used (%s)' % (what, have['warnings']), src)
    differ = [w for w in have['warnings'] if 'Version of' in w]
    if bool(differ) != (version.split('.')[0] != system['py'].split('.')[0]):
        fail('%s: warnings about the versions %s and %s: %s' % (what, version, system['py'], differ), src)
    if 'text' in have:
        want = translate_str(src, [], None)
        if have['text'] != want:
            a, b = have['text'].splitlines(), want.splitlines()
            k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            fail('%s: another module, line %d: %s, not %s' % (what, k + 1, a[k:k + 1], b[k:k + 1]), src, have['text'])
        obs.add('modules compared')
    obs.add('imports')
    obs.add('kind:' + kind)
    obs.add('warnings', len(have['warnings']))
    obs.key(what.replace(d, ''), version, src if 'text' in have else '')
    obs.sample(dict(env=what, version=version, file=found, warnings=have['warnings']))
