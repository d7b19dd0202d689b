"""Seeded random generator of C declaration programs (deterministic in its seed)."""
import random
import re

from .cmodel import *

PYKW = {'False', 'None', 'True', 'and', 'as', 'assert', 'async', 'await', 'break', 'class', 'continue', 'def',
        'del', 'elif', 'else', 'except', 'finally', 'for', 'from', 'global', 'if', 'import', 'in', 'is', 'lambda',
        'nonlocal', 'not', 'or', 'pass', 'raise', 'return', 'try', 'while', 'with', 'yield'}
# identifiers that are C keywords or have a meaning of their own in every generated module
RESERVED = PYKW | {'auto', 'case', 'char', 'const', 'default', 'do', 'double', 'enum', 'extern', 'float', 'goto',
                   'inline', 'int', 'long', 'register', 'restrict', 'short', 'signed', 'sizeof', 'static', 'struct',
                   'switch', 'typedef', 'union', 'unsigned', 'void', 'volatile', 'typeof', 'asm', 'bool',
                   'ctypes', 'globals', 'Structure', 'Union', 'AsDictMixin', 'POINTER_T', 'string_cast', 'zip', 'dict',
                   'isinstance', 'hasattr', 'getattr', 'type', 'super', 'len', 'staticmethod', 'classmethod'}

STEMS = ['a', 'b', 'x', 'y', 'z', 'n', 'id', 'len_', 'size', 'data', 'next', 'prev', 'value', 'count', 'flags', 'buf',
         'ptr', 'node', 'head', 'name', 'list', 'key', 'idx', 'tmp', 'foo', 'bar', 'baz', 'type_', 'state', 'ctx',
         'self', 'str', 'int32', 'object', 'p', 'q', 'w', 'color', 'point', 'Rect', 'Node', 'FILE_', 'Xx', 'offset',
         'contents', 'items', 'get', 'cls', 'args', 'field', 'print', 'range', 'id_', 'Z9', 'l', 'O', 'I']


class Gen:
    def __init__(self, seed, **cfg):
        self.rng = random.Random(seed)
        self.cfg = dict(
            max_fields=7, depth=3,
            bitfields=False, anon=True, nested=True, packed=True, aligned=True, pragma=True, field_align=True,
            unions=True, flex=True, fptr=True, enums=True, ldouble=True, int128=True, dunder=True,
            alt_spell=True, cv=True, multidim=True, ptr_to_arr=True, td=True, anon_arr=True, empty=False,
            arr_of_arr_td=True, zero_arr=False, noproto=True, variadic=True, rec_byval=True, fptr_rec_byval=True,
            dup=True, mixed_names=True, arr_args=True, long_args=True,
            p_packed=.12, p_aligned=.08, p_pragma=.1, p_field_align=.05, p_union=.25, p_anon=.07, p_nested=.06,
            p_arr=.22)
        self.cfg.update(cfg)
        self.used = set(RESERVED)
        self.items = []         # program text items in order
        self.recs = []          # complete records with a handle
        self.incomplete = []    # tags only declared so far
        self.enums = []
        self.tds = []
        self.funcs = []
        self.vars = []
        self.nfeat = {}

    def feat(self, f):
        self.nfeat[f] = self.nfeat.get(f, 0) + 1

    # ---- names
    def name(self, prefix='', used=None):
        used = self.used if used is None else used
        r = self.rng
        while True:
            s = r.choice(STEMS)
            k = r.random()
            if k < .35:
                s += str(r.randrange(100))
            elif k < .45:
                s = s + '_' + r.choice(STEMS)
            elif k < .5:
                s = '_' + s + '_'
            elif k < .54 and self.cfg['dunder']:
                s = '__' + s
            elif k < .57:
                s = s.upper()
            elif k < .58:
                s = s + '_' + 'long_tail_of_identifier_' * r.randrange(1, 4) + str(r.randrange(10))
            elif k < .62:
                s = s + '_t'
            s = prefix + s
            # the names of stdint.h are taken to be what stdint.h makes them
            if re.fullmatch('u?int(8|16|32|64)_t', s):
                continue
            if s not in used and s not in RESERVED and not s.startswith('PADDING'):
                used.add(s)
                return s

    # ---- types
    def scalar(self, ints_only=False):
        r = self.rng
        kinds = ['char', 'bool', 'float', 'double'] + INTS * 2
        if ints_only:
            kinds = INTS
        elif self.cfg['ldouble'] and r.random() < .04:
            kinds = ['ldouble']
        elif self.cfg['int128'] and r.random() < .03:
            kinds = ['int128', 'uint128']
        k = r.choice(kinds)
        sp = r.choice(SPELL[k]) if self.cfg['alt_spell'] and r.random() < .3 else None
        self.feat('sc:' + k)
        return Sc(k, sp)

    def leaf(self, d):
        """a complete object type"""
        r = self.rng
        k = r.random()
        if k < .50:
            t = self.scalar()
        elif k < .62 and self.tds and self.cfg['td']:
            c = [t for t in self.tds if self.complete(t)]
            t = r.choice(c) if c else self.scalar()
            self.feat('td')
        elif k < .72 and self.recs:
            t = r.choice(self.recs)
            self.feat('rec-by-value')
        elif k < .78 and self.enums and self.cfg['enums']:
            t = r.choice(self.enums)
            self.feat('enum')
        elif k < .93:
            t = self.pointer(d)
        elif self.cfg['fptr']:
            t = self.fptr(d)
        else:
            t = self.scalar()
        if self.cfg['cv'] and r.random() < .06:
            q = r.choice(['const', 'volatile', 'const volatile'])
            self.feat('cv')
            if isinstance(t, Ptr):
                t = Ptr(t.t, q)
            elif not isinstance(t, Qual):
                t = Qual(t, q)
        return t

    def complete(self, t):
        t = strip(t)
        if isinstance(t, Arr):
            return t.n is not None and self.complete(t.t)
        if isinstance(t, Rec):
            return any(t is x for x in self.recs) and not getattr(t, 'flex', False)
        if isinstance(t, Enum):
            return any(t is x for x in self.enums)
        if isinstance(t, Sc):
            return t.kind != 'void'
        return not isinstance(t, Fn)

    def pointer(self, d):
        r = self.rng
        k = r.random()
        self.feat('ptr')
        if k < .15:
            p = Sc('void')
        elif k < .45:
            p = self.scalar()
        elif k < .60 and self.recs:
            p = r.choice(self.recs)
            self.feat('ptr-rec')
        elif k < .75 and self.incomplete:
            p = r.choice(self.incomplete)
            self.feat('ptr-incomplete')
        elif k < .82 and self.tds and self.cfg['td']:
            p = r.choice(self.tds)
        elif k < .88 and d > 0:
            p = self.pointer(d - 1)
            self.feat('ptr-ptr')
        elif k < .91 and self.cfg['ptr_to_arr'] and d > 0:
            p = Arr(self.scalar(), r.randrange(1, 9))
            self.feat('ptr-arr')
        elif k < .94 and self.enums and self.cfg['enums']:
            p = r.choice(self.enums)
        else:
            p = Sc('char')
        if self.cfg['cv'] and r.random() < .15 and not isinstance(p, (Ptr, Arr)):
            p = Qual(p, r.choice(['const', 'volatile']))
        return Ptr(p)

    def fptr(self, d):
        self.feat('fptr')
        r = self.rng
        ret = Sc('void') if r.random() < .4 else self.arg_type(d, ret=True)
        args = [self.arg_type(d) for _ in range(self.nargs([0, 1, 1, 2, 2, 3], 12, 24))]
        return Ptr(Fn(ret, args))

    def nargs(self, usual, lo, hi):
        """how many parameters; seldom very many"""
        if self.cfg['long_args'] and self.rng.random() < .012:
            self.feat('long-args')
            return self.rng.randrange(lo, hi)
        return self.rng.choice(usual)

    def arg_type(self, d, ret=False):
        r = self.rng
        if not ret and self.cfg['arr_args'] and r.random() < .06:
            self.feat('array-arg')
            c = [t for t in self.tds if self.complete(t) and isinstance(strip(t), Arr)]
            if c and r.random() < .4:
                return r.choice(c)
            e = r.choice([self.scalar(), Sc('char'), Ptr(Sc('char'))] + self.recs[-2:])
            if r.random() < .2:
                e = Arr(e, r.randrange(1, 4))
            return Arr(e, r.choice([None, 1, 3, 10]))
        k = r.random()
        if k < .5:
            t = self.scalar()
            while t.kind in ('int128', 'uint128', 'ldouble') and not self.cfg.get('arg_wide', False):
                t = self.scalar()
            return t
        if k < .58 and self.recs and self.cfg['fptr_rec_byval']:
            return r.choice(self.recs)
        if k < .66 and self.enums and self.cfg['enums']:
            return r.choice(self.enums)
        if k < .72 and self.tds and self.cfg['td']:
            c = [t for t in self.tds if self.complete(t) and not isinstance(strip(t), Arr)]
            if c:
                return r.choice(c)
        return self.pointer(d)

    def field_type(self, d):
        t = self.leaf(d)
        r = self.rng
        if r.random() < self.cfg['p_arr']:
            t = Arr(t, r.choice([1, 2, 3, 4, 5, 7, 8, 16, 33]))
            self.feat('arr')
            if self.cfg['multidim'] and r.random() < .25:
                t = Arr(t, r.choice([1, 2, 3]))
                self.feat('arr2')
        return t

    def record(self, tag=True, depth=None, kind=None, top=True, used=None):
        r = self.rng
        c = self.cfg
        depth = c['depth'] if depth is None else depth
        kind = kind or ('union' if c['unions'] and r.random() < c['p_union'] else 'struct')
        rec = Rec(kind, None, [])
        self.feat(kind)
        used = set(RESERVED) if used is None else used
        n = r.randrange(1, c['max_fields'] + 1)
        for _ in range(n):
            k = r.random()
            a, b = c['p_anon'], c['p_anon'] + c['p_nested']
            if c['anon'] and depth > 0 and k < a:
                sub = self.record(tag=False, depth=depth - 1, top=False, used=used)
                sub.inline = True
                rec.fields.append(Field(None, sub))
                self.feat('anon-member')
            elif c['nested'] and depth > 0 and k < b:
                sub = self.record(tag=False, depth=depth - 1, top=False)
                sub.inline = True
                nm = self.name(used=used)
                ft = sub
                if c['anon_arr'] and r.random() < .3:
                    ft = Arr(sub, r.randrange(1, 4))
                    self.feat('nested-arr')
                rec.fields.append(Field(nm, ft))
                self.feat('nested-untagged')
            elif c['nested'] and depth > 0 and k < b + c['p_nested'] / 2:
                sub = self.record(tag=False, depth=depth - 1, top=False)
                sub.tag = self.name()
                sub.inline = True
                nm = self.name(used=used)
                rec.fields.append(Field(nm, sub))
                self.feat('nested-tagged')
            elif c['bitfields'] and k < .5:
                self.bit_run(rec, used)
            else:
                f = Field(self.name(used=used), self.field_type(depth))
                if c['field_align'] and r.random() < c['p_field_align']:
                    f.align = r.choice([2, 4, 8, 16])
                    self.feat('field-align')
                rec.fields.append(f)
        if c['packed'] and r.random() < c['p_packed']:
            rec.packed = True
            self.feat('packed')
        if c['aligned'] and r.random() < c['p_aligned']:
            rec.align = r.choice([1, 2, 4, 8, 16, 32])
            self.feat('aligned')
        if top:
            if c['pragma'] and r.random() < c['p_pragma']:
                rec.pragma = r.choice([1, 2, 4, 8])
                self.feat('pragma-pack')
        return rec

    def bit_run(self, rec, used):
        r = self.rng
        n = r.randrange(1, 5)
        base = self.scalar(ints_only=True)
        lim = {'schar': 8, 'uchar': 8, 'short': 16, 'ushort': 16, 'int': 32, 'uint': 32}.get(base.kind, 64)
        if lim == 64 and self.cfg.get('bf_max32', False):
            base, lim = Sc('uint'), 32
        for _ in range(n):
            rec.fields.append(Field(self.name(used=used), base, bits=r.randrange(1, lim + 1)))
            self.feat('bitfield')

    # ---- declarations
    def add_record(self, rec=None, **kw):
        r = self.rng
        rec = rec or self.record(**kw)
        how = r.random()
        if how < .60:
            if self.incomplete and r.random() < .5:
                # complete a forward-declared tag
                fw = r.choice(self.incomplete)
                if fw.kind == rec.kind:
                    self.incomplete.remove(fw)
                    fw.fields, fw.packed, fw.align, fw.pragma = rec.fields, rec.packed, rec.align, rec.pragma
                    rec = fw
                    self.feat('fwd-completed')
            if not rec.tag:
                rec.tag = self.name()
            if r.random() < .12:      # self reference
                rec.fields.append(Field(self.fresh_field(rec), Ptr(rec)))
                rec.handle = '%s %s' % (rec.kind, rec.tag)
                self.feat('self-ref')
            rec.handle = '%s %s' % (rec.kind, rec.tag)
            self.items.append(('rec', rec, rec_def(rec)))
        elif how < .8:
            # typedef struct {..} name;
            nm = self.name()
            txt = 'typedef %s %s;' % (rec_text(rec), nm)
            rec.handle = nm
            rec.tdname = nm
            if rec.pragma:
                txt = '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (rec.pragma, txt)
            self.items.append(('rec', rec, txt))
            self.feat('typedef-untagged')
        else:
            rec.tag = self.name()
            nm = self.name()
            txt = 'typedef %s %s;' % (rec_text(rec), nm)
            rec.handle = r.choice([nm, '%s %s' % (rec.kind, rec.tag)])
            rec.tdname = nm
            if rec.pragma:
                txt = '#pragma pack(push, %d)\n%s\n#pragma pack(pop)' % (rec.pragma, txt)
            self.items.append(('rec', rec, txt))
            self.feat('typedef-tagged')
        if self.cfg['flex'] and rec.kind == 'struct' and r.random() < .03 and rec.fields and rec.fields[0].name \
                and not getattr(rec, 'noflex', False):
            pass
        self.recs.append(rec)
        return rec

    def fresh_field(self, rec):
        names = set()

        def walk(rr):
            for f in rr.fields:
                if f.name:
                    names.add(f.name)
                elif isinstance(f.t, Rec):
                    walk(f.t)
        walk(rec)
        return self.name(used=names | set())

    def add_forward(self):
        r = self.rng
        kind = 'union' if self.cfg['unions'] and r.random() < .2 else 'struct'
        rec = Rec(kind, self.name(), [])
        rec.handle = '%s %s' % (kind, rec.tag)
        self.incomplete.append(rec)
        self.items.append(('fwd', rec, rec.handle + ';'))
        self.feat('forward')
        return rec

    def add_enum(self, **kw):
        kw.setdefault('big', self.cfg.get('big_enums', True))
        kw.setdefault('attr', self.cfg.get('enum_attr', True))
        kw.setdefault('neg', self.cfg.get('neg_enums', True))
        e = self.enum(**kw)
        e.untagged = self.rng.random() < self.cfg.get('p_enum_untagged', .25)
        self.items.append(('enum', e, 'typedef %s %s;' % (enum_text(e), e.tag) if e.untagged else enum_text(e) + ';'))
        self.enums.append(e)
        return e

    def enum(self, neg=True, big=True, attr=True):
        r = self.rng
        n = r.randrange(1, 7)
        vals = []
        cur = -1
        lo, hi = 0, 0
        wide = big and r.random() < .15
        negative = neg and r.random() < .35
        for i in range(n):
            nm = self.name(prefix='E_' if r.random() < .5 else '')
            k = r.random()
            if k < .45:
                v, txt = None, None
                cur += 1
            else:
                if wide and r.random() < .5:
                    v = r.choice([2**31, 2**32 - 1, 2**32, 2**40 + 3, 2**62] + ([-2**31 - 1, -2**40] if negative else []))
                elif negative and r.random() < .5:
                    v = -r.choice([1, 2, 5, 128, 129, 32768, 40000, 2**31 - 1, 2**31])
                else:
                    v = r.choice([0, 1, 2, 7, 100, 127, 128, 255, 256, 65535, 65536, 2**31 - 1 if big else 2**30])
                txt = None
                if v >= 0 and r.random() < .3:
                    txt = hex(v)
                elif 0 < v < (2**31 if big else 2**14) and r.random() < .1:
                    txt = '(%d + %d)' % (v - 1, 1)
                elif v > 0 and v & (v - 1) == 0 and r.random() < .5 and v < (2**31 if big else 2**14):
                    txt = '1 << %d' % (v.bit_length() - 1)
                elif vals and r.random() < .1:
                    p, pv = r.choice([(a[0], b) for a, b in zip(vals, resolved(vals))])
                    v, txt = pv[1], p
                cur = v
            vals.append((nm, v, txt))
            lo, hi = min(lo, cur), max(hi, cur)
        at = ''
        if attr and r.random() < .12:
            at = '__attribute__((packed))'
            self.feat('enum-packed')
        self.feat('enum-def')
        return Enum(self.name(), vals, at)

    def add_typedef(self, t=None):
        r = self.rng
        k = r.random()
        if t is None:
            if k < .5:
                t = self.leaf(2)
            elif k < .75 or (k >= .9 and not self.cfg['fptr']):
                t = self.pointer(2)
            elif k < .9:
                t = Arr(self.leaf(1), r.randrange(1, 6))
                self.feat('td-arr')
            else:
                t = self.fptr(1)
        td = TD(self.name(), t)
        self.items.append(('td', td, 'typedef %s;' % decl(t, td.name)))
        self.tds.append(td)
        self.feat('typedef')
        return td

    def add_func(self, **kw):
        r = self.rng
        ret = Sc('void') if r.random() < .3 else self.arg_type(2, ret=True)
        args = []
        for _ in range(self.nargs([0, 1, 1, 2, 2, 3, 4, 7], 24, 50)):
            t = self.arg_type(2)
            if r.random() < .06 and self.cfg['fptr']:
                t = self.fptr(1)
            args.append(t)
        fn = Fn(ret, args, variadic=bool(args) and self.cfg['variadic'] and r.random() < .08)
        nm = self.name()
        names = set(self.used if len(args) > 8 else RESERVED)
        fn.argnames = [self.name(used=names) if r.random() < .7 else None for _ in args]
        ext = r.choice(['', '', 'extern ']) + decl(fn, nm) + ';'
        self.items.append(('func', (nm, fn), ext))
        self.funcs.append((nm, fn))
        self.feat('func')
        return nm, fn

    def program(self, n=8, weights=None):
        w = weights or dict(rec=6, fwd=1.5, enum=1.5, td=2.5, func=0)
        ks = list(w)
        ws = [w[k] for k in ks]
        for _ in range(n):
            k = self.rng.choices(ks, ws)[0]
            if k == 'rec':
                self.add_record()
            elif k == 'fwd':
                self.add_forward()
            elif k == 'enum':
                if self.cfg['enums']:
                    self.add_enum()
            elif k == 'td':
                if self.cfg['td']:
                    self.add_typedef()
            elif k == 'func':
                self.add_func()
        if not self.recs and w.get('rec'):
            self.add_record()
        return self

    def text(self):
        return '\n'.join(x[2] for x in self.items) + '\n'


def resolved(vals):
    return Enum('', vals).resolved()
