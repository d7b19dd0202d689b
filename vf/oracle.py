"""The reference side: what the C compiler itself says about a program.

Probes are compiled with clang for the wanted target into an ELF object, and the values are
read from the bytes of data symbols."""
import os
import shutil
import struct
import subprocess
import tempfile

from .elf import Elf

CLANG = shutil.which('clang') or 'clang'
SCRATCH = os.environ.get('VF_SCRATCH') or tempfile.gettempdir()


class ProbeError(Exception):
    """the C compiler refused the program: a fault of the generator, never a verdict"""


def compile_obj(src, target=None, opts=(), path=None):
    fd, tmp = tempfile.mkstemp(suffix='.o', dir=SCRATCH)
    os.close(fd)
    cmd = [CLANG, '-w', '-x', 'c']
    if target:
        cmd += ['-target', target]
    cmd += list(opts) + ['-c', '-o', tmp, '-']
    try:
        r = subprocess.run(cmd, input=src.encode(), capture_output=True, timeout=120)
        if r.returncode:
            raise ProbeError(r.stderr.decode('utf8', 'replace')[:2000] + '\n' + src)
        return Elf(open(tmp, 'rb').read())
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)


def probe_ints(src, exprs, target=None, opts=()):
    """integer constant expressions -> values (as signed 64-bit)"""
    if not exprs:
        return []
    s = src + '\nconst long long vf_probe[] = {\n' + ',\n'.join('(long long)(%s)' % e for e in exprs) + '\n};\n'
    e = compile_obj(s, target, opts)
    d = e.data('vf_probe')
    return list(struct.unpack(e.en + '%dq' % len(exprs), d[:8 * len(exprs)]))


def probe_data(src, names, target=None, opts=()):
    e = compile_obj(src, target, opts)
    return {n: e.data(n) for n in names}, e.en


_tgt = {}
KSPELL = [('bool', '_Bool'), ('char', 'char'), ('schar', 'signed char'), ('uchar', 'unsigned char'),
          ('short', 'short'), ('ushort', 'unsigned short'), ('int', 'int'), ('uint', 'unsigned'),
          ('long', 'long'), ('ulong', 'unsigned long'), ('llong', 'long long'), ('ullong', 'unsigned long long'),
          ('float', 'float'), ('double', 'double'), ('ldouble', 'long double'), ('ptr', 'void*'),
          ('wchar', '__WCHAR_TYPE__')]


def target_info(target=None, opts=()):
    key = (target, tuple(opts))
    if key not in _tgt:
        v = probe_ints('', ['sizeof(%s)' % s for _, s in KSPELL] + ['((char)-1)<0', '((__WCHAR_TYPE__)-1)<0'], target, opts)
        d = {k: x for (k, _), x in zip(KSPELL, v)}
        d['char_signed'] = bool(v[-2])
        d['wchar_signed'] = bool(v[-1])
        d['int128'] = d['uint128'] = 16
        d['target'] = target
        _tgt[key] = d
    return _tgt[key]
