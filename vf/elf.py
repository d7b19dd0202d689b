"""Minimal reader of relocatable/shared ELF files: enough to get the bytes of a data
symbol and the dynamic symbol table.  Written from the ELF specification; it is the
independent side of several oracles, so it shares nothing with the code under test."""
import struct


class Elf:
    def __init__(self, path_or_bytes):
        d = path_or_bytes if isinstance(path_or_bytes, bytes) else open(path_or_bytes, 'rb').read()
        assert d[:4] == b'\x7fELF', 'not ELF'
        self.d = d
        self.is64 = d[4] == 2
        self.en = '<' if d[5] == 1 else '>'
        en = self.en
        if self.is64:
            (self.type, self.machine, _, _, _, shoff, _, _, _, _, shentsize, shnum, shstrndx) = \
                struct.unpack_from(en + 'HHIQQQIHHHHHH', d, 16)
        else:
            (self.type, self.machine, _, _, _, shoff, _, _, _, _, shentsize, shnum, shstrndx) = \
                struct.unpack_from(en + 'HHIIIIIHHHHHH', d, 16)
        self.secs = []
        for i in range(shnum):
            o = shoff + i * shentsize
            if self.is64:
                name, typ, flags, addr, off, size, link, info, _, entsize = struct.unpack_from(en + 'IIQQQQIIQQ', d, o)
            else:
                name, typ, flags, addr, off, size, link, info, _, entsize = struct.unpack_from(en + 'IIIIIIIIII', d, o)
            self.secs.append(dict(name=name, type=typ, addr=addr, off=off, size=size, link=link,
                                  entsize=entsize, flags=flags))
        strs = self.secs[shstrndx]
        for s in self.secs:
            s['name'] = self._str(strs['off'] + s['name'])

    def _str(self, off):
        return self.d[off:self.d.index(b'\0', off)].decode('utf8', 'replace')

    def symbols(self, dynamic=False):
        out = []
        want = 11 if dynamic else 2
        for s in self.secs:
            if s['type'] != want:
                continue
            st = self.secs[s['link']]
            n = s['size'] // (24 if self.is64 else 16)
            for i in range(n):
                o = s['off'] + i * (24 if self.is64 else 16)
                if self.is64:
                    name, info, other, shndx, value, size = struct.unpack_from(self.en + 'IBBHQQ', self.d, o)
                else:
                    name, value, size, info, other, shndx = struct.unpack_from(self.en + 'IIIBBH', self.d, o)
                out.append(dict(name=self._str(st['off'] + name), bind=info >> 4, type=info & 15,
                                shndx=shndx, value=value, size=size, vis=other & 3))
        return out

    def data(self, sym):
        """bytes of a data symbol in a relocatable object"""
        syms = {}
        for s in self.symbols():
            syms.setdefault(s['name'], s)
        s = syms.get(sym) or syms.get('_' + sym)
        if s is None:
            raise KeyError(sym)
        if s['shndx'] in (0,) or s['shndx'] >= 0xff00:
            raise KeyError('%s: not in a section' % sym)
        sec = self.secs[s['shndx']]
        if sec['type'] == 8:
            return b'\0' * s['size']
        o = sec['off'] + s['value'] - (sec['addr'] if self.type != 1 else 0)
        return self.d[o:o + s['size']]
