"""Programs spread over files that include each other."""
import os

NAMES = ['types.h', 'defs.h', 'api.h', 'x.h', 'a b.h', 'main.h', 'main.h.h', 'impl.inc', 'core-1.h', 'x.y.h', 'stdio_.h', 'L\u00e9.h', 'part.c', 'tab.def', 'h']
DIRS = ['', '', 'sub', 'inc', 'sub/deep', 'main.h.d', 'inc2']


class File:
    def __init__(self, path):
        self.path = path        # relative to the root
        self.items = []         # ('c', chunk) or ('i', File, form)
        self.guard = None       # None, 'ifndef' or 'once'

    def chunks(self):
        return [x[1] for x in self.items if x[0] == 'c']


class Tree:
    """the chunks in the order of the program, as a tree of includes below main"""

    def __init__(self, r, root, chunks, main='main.h', depth=3, p_inc=.3):
        self.r, self.root, self.files, self.opts = r, root, [], []
        self.p_inc = p_inc
        self.main = self.new(main)
        self.split(self.main, chunks, depth)
        for d in sorted({os.path.dirname(f.path) for f in self.files} | {''}):
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in self.files:
            self.write(f)

    def new(self, path=None):
        taken = {f.path for f in self.files} | {os.path.dirname(f.path) for f in self.files}
        while path is None or path in taken:
            path = os.path.join(self.r.choice(DIRS), self.r.choice(NAMES))
            if any((f.path + '/').startswith(path + '/') or (path + '/').startswith(f.path + '/') for f in self.files) or any((d + '/').startswith(path + '/') for d in DIRS):
                path = None
        f = File(path)
        self.files.append(f)
        return f

    def split(self, f, chunks, depth):
        r = self.r
        i, done = 0, []
        while i < len(chunks):
            if depth and r.random() < self.p_inc:
                k = r.randrange(1, len(chunks) - i + 1)
                c = self.new()
                c.guard = r.choice([None, 'ifndef', 'once'])
                self.split(c, chunks[i:i + k], depth - 1)
                f.items.append(('i', c, r.choice(['quote', 'angle', 'sys', 'abs', 'root'])))
                done.append(c)
                i += k
            else:
                f.items.append(('c', chunks[i]))
                i += 1
            again = [c for c in done if c.guard]
            if again and r.random() < .15:
                f.items.append(('i', r.choice(again), 'quote'))

    def write(self, f):
        r = self.r
        out = []
        here = os.path.join(self.root, f.path)
        if f.guard == 'once':
            out.append('#pragma once')
        for it in f.items:
            if it[0] == 'c':
                t = it[1].text
                if r.random() < .06:
                    out.append('#line %d "%s"' % (r.randrange(1, 900), r.choice(['other.c', 'gen.y', self.main.path, ''])))
                if r.random() < .06 and '#' not in t:
                    m = 'VF_WRAP%d' % len(out)
                    t = '#define %s(...) __VA_ARGS__\n%s(%s)\n#undef %s' % (m, m, t.replace('\n', ' '), m)
                out.append(t)
            else:
                p = os.path.join(self.root, it[1].path)
                if it[2] in ('angle', 'sys'):
                    d = os.path.dirname(p)
                    b = os.path.basename(p)
                    # the name alone, where it is not ambiguous
                    if sum(os.path.basename(x.path) == b for x in self.files) == 1:
                        o = ['-I' if it[2] == 'angle' else '-isystem', d]
                        if o not in self.opts:
                            self.opts.append(o)
                        out.append('#include <%s>' % b)
                    else:
                        out.append('#include "%s"' % p)
                elif it[2] == 'abs':
                    out.append('#  include "%s"' % p)
                elif it[2] == 'root':
                    o = ['-I', self.root]
                    if o not in self.opts:
                        self.opts.append(o)
                    # found relative to the including file first
                    q = os.path.join(os.path.dirname(here), it[1].path)
                    same = any(os.path.normpath(q) == os.path.join(self.root, x.path) for x in self.files if x is not it[1])
                    out.append('#include %s' % (('<%s>' if same or r.random() < .5 else '"%s"') % it[1].path))
                else:
                    out.append('#include "%s"' % os.path.relpath(p, os.path.dirname(here)))
        text = '\n'.join(out) + '\n'
        if f.guard == 'ifndef':
            g = 'VF_GUARD_%d' % self.files.index(f)
            text = '#ifndef %s\n#define %s\n%s#endif\n' % (g, g, text)
        with open(here, 'w') as h:
            h.write(text)

    def options(self):
        return [x for o in self.opts for x in o]

    def dump(self):
        return ''.join('--- %s\n%s' % (f.path, open(os.path.join(self.root, f.path)).read()) for f in self.files)
