"""Documentation of the declarations: comments, locations, docstrings."""
import ast
import contextlib
import random
import re

from ..common import *

RULE = ('Random sources of documented and undocumented declarations of all kinds, in one file or with an included header: the comments in every doxygen form, before and behind the declaration, on one or several lines, '
        'with text that is special to Python or to the wrapping of lines. They are translated with every combination of the options for comments, locations and docstrings, through the API and the command line. The '
        'monitor looks at the comment lines in front of each definition and at the docstrings of the imported module. A case counts by the kinds and forms of the documented declarations and the options.')
ASSUMPTIONS = ['the brief part of a comment is its first paragraph or what follows the brief command']

SCALARS = {'int': 'c_int32', 'char': 'c_char', 'unsigned int': 'c_uint32', 'short': 'c_int16', 'double': 'c_double', 'float': 'c_float', 'long long': 'c_int64', 'unsigned char': 'c_ubyte', 'unsigned short': 'c_uint16'}
SPECIAL = ['"quoted"', "it's", '# hash', '100%', '%s', '{x}', 'é', '中文', '"""', "'''", 'a-b-c-d', 'x' * 90, 'a=b;', '(see)', 'e.g.', 'class', 'try:', 'tab\there', '✓', 'end-', '$1', '~', '`code`', '!', 'pass', 'http://x.y/z']


class Maker:
    def __init__(self, r, pre):
        self.r = r
        self.pre = pre
        self.n = 0
        self.lines = []
        self.decls = []                 # (name, kind, lines, doc or None)
        self.words = []                 # comments that document nothing
        self.structs = []
        self.hidden = []                # documentation of what is inside
        self.forms = set()

    def ident(self):
        self.n += 1
        return '%s%d' % (self.pre, self.n)

    def phrase(self, n=None):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 2, 3, 5, 12, 25])):
            self.n += 1
            out.append('W%s%dw' % (self.pre, self.n))
            if r.random() < .3:
                out.append(r.choice(SPECIAL))
        return out

    def comment(self, words, trailing=False):
        """lines of a documentation comment with these words as its brief part"""
        r = self.r
        t = '<' if trailing else ''
        rows = [words]
        if len(words) > 3 and r.random() < .5:
            k = r.randrange(1, len(words))
            rows = [words[:k], words[k:]]
        # a list or a heading would start another paragraph
        for row in rows[1:]:
            if row[0] in ('-', '#') or row[0].startswith('#'):
                rows = [words]
                break
        rows = [' '.join(x) for x in rows]
        rest = []
        if r.random() < .4:
            self.n += 1
            rest = ['', 'Longer text L%s%dl.' % (self.pre, self.n)]
            self.hidden.append('L%s%dl' % (self.pre, self.n))
            if r.random() < .4:
                rest += ['@return something']
        if r.random() < .2:
            rows[0] = r.choice(['\\brief ', '@brief ']) + rows[0]
            self.forms.add('command')
            if r.random() < .5 and not trailing:
                self.n += 1
                self.hidden.append('L%s%dl' % (self.pre, self.n))
                rest = rest or ['']
                rest[:0] = []
        rows += rest
        k = r.random()
        if k < .3:
            self.forms.add('slashes')
            m = r.choice(['///', '//!'])
            return ['%s%s %s' % (m, t, x) for x in rows]
        o = r.choice(['/**', '/*!'])
        if k < .6 and len(rows) == 1:
            self.forms.add('one line')
            return ['%s%s %s */' % (o, t, rows[0])]
        self.forms.add('block')
        if k < .8 and not trailing:
            return [o] + [' * ' + x for x in rows] + [' */']
        return ['%s%s %s' % (o, t, rows[0])] + [' * ' + x for x in rows[1:]] + [' */']

    def members(self):
        """a body, whose own comments are of no other name"""
        r = self.r
        out = []
        for i in range(r.randrange(1, 4)):
            s = '    %s m%d;' % (r.choice(list(SCALARS)), i)
            k = r.random()
            if k < .25:
                w = self.phrase(2)
                self.hidden += [x for x in w if x.startswith('W')]
                out += ['    ' + x for x in self.comment(w)]
            elif k < .4:
                w = self.phrase(2)
                self.hidden += [x for x in w if x.startswith('W')]
                c = self.comment(w, True)
                s += ' ' + c[0]
                out.append(s)
                out += ['    ' + x for x in c[1:]]
                continue
            out.append(s)
        return out

    def declaration(self):
        """rows of text, the exported name and the row of its name, for each name"""
        r = self.r
        n = self.ident()
        k = r.choice(['struct', 'union', 'enum', 'typedef', 'anon', 'function', 'function', 'body', 'variable', 'init', 'callback', 'anonenum', 'proto', 'forward', 'array', 'string', 'macro', 'pointer'])
        nl = r.random() < .2
        if k in ('struct', 'union'):
            head = [k, n + ' {'] if nl else ['%s %s {' % (k, n)]
            self.structs.append('%s %s' % (k, n))
            return k, head + self.members() + ['};'], {'%s_%s' % (k, n): [nl * 1]}, None
        if k == 'enum':
            c = []
            w = self.phrase(1)
            self.hidden += [x for x in w if x.startswith('W')]
            for i in range(r.randrange(1, 4)):
                c.append('    C%s_%d%s,%s' % (n, i, ' = %d' % (i * 3) if r.random() < .5 else '', ' /**< %s */' % w[0] if not i and r.random() < .4 else ''))
            return k, ['enum %s {' % n] + c + ['};'], {n: [0]}, None
        if k == 'typedef':
            return k, ['typedef %s %s;' % (r.choice(list(SCALARS) + self.structs), n)], {n: [0]}, None
        if k == 'pointer':
            return k, ['typedef %s *%s;' % (r.choice(list(SCALARS) + self.structs), n)], {n: [0]}, None
        if k == 'anon':
            b = self.members()
            return k, ['typedef struct {'] + b + ['} %s;' % n], {n: [len(b) + 1], 'struct_' + n: [0]}, None
        if k == 'anonenum':
            return k, ['typedef enum {', '    C%s_a, C%s_b' % (n, n), '} %s;' % n], {n: [0, 2]}, None
        if k == 'callback':
            return k, ['typedef int (*%s)(int, void *);' % n], {n: [0]}, None
        if k == 'variable':
            return k, ['extern %s %s;' % (r.choice(list(SCALARS)), n)], {n: [0]}, None
        if k == 'init':
            return k, ['%sint %s = %d;' % (r.choice(['', 'static ', 'const ']), n, r.randrange(1000))], {n: [0]}, None
        if k == 'array':
            return k, ['int %s[3] = {' % n, '    1,', '    2, 3', '};'], {n: [0]}, None
        if k == 'string':
            return k, ['const char *%s = "text /** not a comment */";' % n], {n: [0]}, None
        if k == 'macro':
            return k, ['#define %s %d' % (n, r.randrange(100))], {n: [0]}, None
        if k == 'forward':
            self.structs.append('struct ' + n)
            b = self.members()
            return k, ['struct %s;' % n, 'struct %s {' % n] + b + ['};'], {'struct_' + n: [0, 1]}, None
        # functions
        ret = r.choice(list(SCALARS) + ['void'])
        args = []
        for i in range(r.randrange(4)):
            t = r.choice(list(SCALARS))
            args.append((t, r.random() < .3, None if r.random() < .2 and k != 'body' else 'arg%d' % i))
        text = ['%s%s%s' % (t, ' *' if p else ' ', a or '') for t, p, a in args]
        sig = (n, ret, args)
        self.functions[n] = sig
        if nl and args:
            rows = [ret + ' ' + n + '(' + text[0]] + ['    , ' + x for x in text[1:]]
            rows[-1] += ')'
        else:
            rows = ['%s %s(%s)' % (ret, n, ', '.join(text) or 'void')]
        at = [0]
        if r.random() < .1:
            rows[0:0] = ['extern']
            at = [1]
        if k == 'body':
            if 'extern' in rows:
                rows.remove('extern')
                at = [0]
            rows[-1] += ' {'
            rows.insert(0, 'static inline') if r.random() < .3 else None
            at = [1] if rows[0] == 'static inline' else [0]
            rows += ['    /** %s */' % self.inner(), '    int x = 1;', '    while (x) x--;', '}']
            if ret != 'void':
                rows.insert(-1, '    return 0;')
        else:
            rows[-1] += ';'
            if k == 'proto':
                m = len(rows)
                rows = rows + rows
                at = [at[0], at[0] + m]
        return k, rows, {n: at}, sig

    def inner(self):
        w = self.phrase(1)[0]
        self.hidden.append(w)
        return w

    functions = None

    def fill(self, n):
        r = self.r
        self.functions = {} if self.functions is None else self.functions
        prev = None
        for _ in range(n):
            c = r.random()
            if c < .2:
                w = self.phrase(1)[0]
                self.words.append(w)
                self.lines.append(r.choice(['/* %s */', '// %s', '/*%s*/', '//%s', '/* * %s */', '#if 0 /** %s */\n#endif']) % w)
                self.lines[-1:] = self.lines[-1].split('\n')
                if self.lines[-1] == '#endif':
                    self.lines.append('')
            kind, rows, names, sig = self.declaration()
            doc = None
            c = r.random()
            if kind != 'macro' and c < .65:
                doc = self.phrase()
                self.lines += self.comment(doc)
                if r.random() < .1:
                    self.lines.append('')
            elif kind != 'macro' and c < .75 and kind in ('variable', 'init') and len(rows) == 1:
                doc = self.phrase()
                t = self.comment(doc, True)
                self.forms.add('behind')
                rows = [rows[0] + ' ' + t[0]] + t[1:]
            base = len(self.lines) + 1
            self.lines += rows
            for nm, at in names.items():
                self.decls.append((nm, kind, {base + a for a in at}, doc if not (kind == 'anonenum') else doc))
            # what follows a comment behind a declaration is not its continuation
            self.lines += [''] * (r.random() < .5 or self.lines[-1].startswith('//') or ' //' in self.lines[-1])


def cases(tier, seed):
    n = 1000 if tier == 'quick' else 25000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 14, opts=['c', 'e', 'd', 'ce', 'cd', 'ed', 'ced', 'ced'][i % 8], via=['api', 'cli', 'api', 'str'][i // 8 % 4], header=i % 3 == 0, include=i // 3 % 2 == 0)


def definitions(text):
    """where the module defines each name: the comment lines in front of it"""
    rows = text.split('\n')
    out = {}
    for i, row in enumerate(rows):
        m = re.match(r'class (\w+)\(', row) or re.match(r'(\w+)__enumvalues = ', row) or re.match(r'(\w+) = ', row) or (row.startswith('try:') and i + 1 < len(rows) and re.match(r'    (\w+) = ', rows[i + 1]))
        if not m or m.group(1) in out:
            continue
        j = i
        while j and (rows[j - 1].startswith('#') or not rows[j - 1].strip()):
            j -= 1
        out[m.group(1)] = [x[1:].strip() for x in rows[j:i] if x.startswith('#')]
    return out


def squeeze(s):
    return ''.join(s.split())


def code_of(text):
    """the definitions, without docstrings"""
    t = ast.parse(text)
    t.body = [x for x in t.body if not (isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Attribute) and x.targets[0].attr == '__doc__')]
    return ast.dump(t)


def run(case, obs):
    r = random.Random(case['seed'] + 22)
    o = case['opts']
    with contextlib.ExitStack() as stack:
        d = os.path.realpath(stack.enter_context(tmpdir()))
        d = os.path.join(d, r.choice(['a', 'with space', 'a"b', "it's", 'c:d', 'b\\n', 'é']))
        os.mkdir(d)
        files = {}
        main = Maker(r, 'm')
        hdr = None
        if case['header'] and case['via'] != 'str':
            hdr = Maker(r, 'h')
            hdr.fill(case['n'])
            files['inc.h'] = hdr
            main.lines.append('#include "inc.h"')
            main.structs += hdr.structs
        main.fill(case['n'])
        for name, m in list(files.items()) + [('main.c', main)]:
            with open(os.path.join(d, name), 'w') as f:
                f.write('\n'.join(m.lines) + '\n')
        src = '\n'.join(main.lines) + '\n'
        if hdr:
            src += '--- inc.h\n' + '\n'.join(hdr.lines)
        path = os.path.join(d, 'main.c')
        import subprocess
        if subprocess.run(['clang', '-w', '-fsyntax-only', path], capture_output=True).returncode:
            raise Skip('the compiler rejects the source')
        inc = bool(hdr) and case['include']
        kinds = 'cdefmstu'
        kw = dict(generate_comments='c' in o, generate_locations='e' in o, generate_docstrings='d' in o)
        flags = []
        for k, names in dict(c=['-c', '--comments'], e=['-e', '--show-definition-location'], d=['-d', '--doc']).items():
            if k in o:
                flags.append(r.choice(names))
        what = 'options %s of %s' % (o, path)
        try:
            if case['via'] == 'str':
                text = translate_str(src, [], kinds, **kw)
                plain = translate_str(src, [], kinds)
            elif case['via'] == 'api':
                text = translate_paths([path], [], kinds, filter_location=not inc, **kw)
                plain = translate_paths([path], [], kinds, filter_location=not inc)
            else:
                a = [path, '-k', kinds] + (['-i'] if inc else [])
                text = cli_text(flags + a if r.random() < .5 else a + flags, os.path.dirname(d))
                plain = cli_text(a, os.path.dirname(d))
        except Violation:
            raise
        except Exception as e:
            fail('%s: translation fails: %s: %s' % (what, type(e).__name__, str(e)[:300]), src)
        try:
            ns = load(text)
        except Exception as e:
            fail('%s: the generated module does not import: %s: %s' % (what, type(e).__name__, str(e)[:300]), src, text)
        if code_of(text) != code_of(plain):
            fail('%s: the definitions are not those without these options' % what, src, text)
        where = definitions(text)
        remarks = {n: squeeze(''.join(x)) for n, x in where.items()}
        allowed = {}
        seen = 0
        for name, m in list(files.items()) + [('main.c', main)]:
            for n, kind, lines, doc in m.decls:
                if n not in ns['__all__']:
                    if name == 'main.c' or inc:
                        fail('%s: %s is not exported' % (what, n), src, text)
                    continue
                if n not in where:
                    fail('%s: the definition of %s is not found' % (what, n), src, text)
                c = remarks[n]
                words = [w for w in doc or () if w.startswith('W')]
                for w in words:
                    allowed.setdefault(w, set()).add(n)
                if 'c' in o and doc and n not in ('struct_' + x[0] for x in m.decls if x[1] == 'anon'):
                    seen += 1
                    obs.add('comments:%s' % kind)
                    if squeeze(''.join(doc)) not in c:
                        fail('%s: the comment of %s is %r, in front of the definition is %r' % (what, n, ' '.join(doc), where[n]), src, text)
                if 'e' in o:
                    got = set()
                    for x in where[n]:
                        k = re.match(r'(.*)[: ](\d+)$', x)
                        if k and ('/' in k.group(1) or '.' in k.group(1)):
                            got.add((k.group(1), int(k.group(2))))
                    if case['via'] == 'str':
                        good = any(y in lines for x, y in got)
                    else:
                        good = any(y in lines and os.path.realpath(x) == os.path.join(d, name) for x, y in got)
                    if not good:
                        fail('%s: %s is declared at %s:%s, the comment says %s' % (what, n, name, sorted(lines), sorted(got)), src, text)
                    obs.add('locations')
            for n, (_, ret, args) in (m.functions or {}).items():
                if n not in ns['__all__']:
                    continue
                f = ns[n]
                dd = f.__doc__ if 'd' in o else None
                if 'd' not in o:
                    continue
                lines = [x[2] for x in m.decls if x[0] == n][0]
                k = re.fullmatch(r'(.*) %s\((.*)\)\s*\n\s*(.*):(\d+)\s*' % n, dd or '', re.S)
                if not k:
                    fail('%s: the docstring of %s is %r' % (what, n, dd), src, text)
                if int(k.group(4)) not in lines or case['via'] != 'str' and os.path.realpath(k.group(3)) != os.path.join(d, name):
                    fail('%s: %s is declared at %s:%s, the docstring is %r' % (what, n, name, sorted(lines), dd), src, text)
                parts = [x.strip() for x in k.group(2).split(',')] if k.group(2).strip() else []
                if len(parts) != len(args):
                    fail('%s: %s has %d arguments, the docstring is %r' % (what, n, len(args), dd), src, text)
                for p, (t, ptr, a) in zip(parts, args):
                    if a and p.split()[-1] != a:
                        fail('%s: an argument of %s is named %s, the docstring is %r' % (what, n, a, dd), src, text)
                    if not ptr and getattr(ctypes, p.split()[0], None) is not getattr(ctypes, SCALARS[t]):
                        fail('%s: an argument of %s is a %s, the docstring is %r' % (what, n, t, dd), src, text)
                if ret != 'void' and getattr(ctypes, k.group(1).strip(), None) is not getattr(ctypes, SCALARS[ret]):
                    fail('%s: %s returns %s, the docstring is %r' % (what, n, ret, dd), src, text)
                obs.add('docstrings')
        # nothing is said of another name
        every = [m for m in (hdr, main) if m]
        for n, c in remarks.items():
            for w in re.findall(r'[WL][mh]\d+[wl]', c):
                if 'c' not in o or n not in allowed.get(w, ()) and any(w in m.words or w in allowed for m in every):
                    fail('%s: the comment %s is in front of %s' % (what, w, n), src, text)
        for m in every:
            for w in m.words:
                if w in text:
                    fail('%s: %s is not documentation' % (what, w), src, text)
        if 'e' not in o and case['via'] != 'str':
            for n, c in where.items():
                if any(re.match(r'/.*(main\.c|inc\.h)[: ]\d+$', x) for x in c):
                    fail('%s: locations that were not asked for' % what, src, text)
        obs.feats({'%s' % f: 1 for m in every for f in m.forms})
        obs.add('options:%s' % o)
        obs.add('via:%s' % case['via'])
        if not seen and 'c' in o:
            raise Skip('no documentation')
        obs.sample(dict(source=src[:500], options=o))
        obs.key((o, tuple((x[1], bool(x[3])) for m in every for x in m.decls)))
