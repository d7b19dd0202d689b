"""The effort of a translation is bounded by the size of what is read and written."""
import random
import sys

from ..common import *
from ..rich import *

RULE = ('Programs of one shape (random declarations, chains, graphs and lattices of records, typedefs, function pointers and macros, long records, enumerations, prototypes, initial '
        'values, comments, repeated declarations, lists of symbols) are translated at three sizes, each twice the one before. The monitor counts the calls of Python functions and compares their growth with that of the source and the module. '
        'A case counts by its shape and the counts observed.')
ASSUMPTIONS = ['the compiler library itself is not measured']
FORMS = ['rich', 'chain', 'graph', 'complete', 'lattice', 'fptrs', 'macros', 'laughs', 'enum', 'bits', 'fields', 'init', 'typedefs', 'comments', 'args', 'vars', 'nested', 'again',
         'lists', 'symbols', 'ring', 'unions', 'cbs', 'strings', 'stars', 'dims', 'fnest', 'parens', 'braces', 'operators']
SIZE = dict(rich=20, chain=12, graph=12, complete=6, lattice=3, fptrs=2, macros=20, laughs=3, enum=40, bits=40, fields=30, init=30, typedefs=30, comments=12, args=20, vars=20, nested=2,
            again=20, lists=30, symbols=20, ring=20, unions=12, cbs=20, strings=20, stars=4, dims=3, fnest=3, parens=6, braces=3, operators=6)
DEEP = ('lattice', 'fptrs', 'laughs', 'nested', 'stars', 'dims', 'fnest', 'parens', 'braces', 'operators')
base = None


class Excess(BaseException):
    pass


def cases(tier, seed):
    n = 300 if tier == 'quick' else 6000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, form=FORMS[i % len(FORMS)], big=tier != 'quick' and i % 4 == 3)


def make(form, n, seed):
    """(source, settings) of about n units"""
    r = random.Random(seed)
    kw = {}
    su = lambda: 'struct'
    if form == 'rich':
        s = text_of(rich(seed, n)[1])
    elif form == 'chain':
        s = 'struct s0 { int a; };\n' + ''.join('struct s%d { struct s%d a; %s };\n' % (i, i - 1, r.choice(['int b;', 'char c; struct s%d *p;' % (i - 1), 'struct s%d *q, *t;' % i])) for i in range(1, n))
    elif form == 'graph':
        s = ''.join('struct s%d { int a; %s };\n' % (i, ' '.join('struct s%d *p%d;' % (r.randrange(n), j) for j in range(3))) for i in range(n))
    elif form == 'complete':
        s = ''.join('struct s%d { %s };\n' % (i, ' '.join('struct s%d *p%d;' % (j, j) for j in range(n))) for i in r.sample(range(n), n))
    elif form == 'lattice':
        s = 'struct s0 { char a; };\n' + ''.join('struct s%d { struct s%d a, b; struct s%d *c; };\n' % (i, i - 1, i - 1) for i in range(1, n))
    elif form == 'fptrs':
        s = 'typedef int (*f0)(int);\n' + ''.join('typedef f%d (*f%d)(f%d);\n' % (i - 1, i, i - 1) for i in range(1, n))
    elif form == 'macros':
        s = '\n'.join('#define M%d %s' % (i, r.choice(['1', 'M%d' % (i - 1), '(M%d + 1)' % (i - 1), '"x"', '0x1u']) if i % 8 else '1') for i in range(n)) + '\n'
    elif form == 'laughs':
        s = '#define M0 1\n' + ''.join('#define M%d %s\n' % (i, r.choice(['(M%d + M%d)', 'M%d M%d']) % (i - 1, i - 1)) for i in range(1, n))
    elif form == 'enum':
        s = 'enum e { ' + ', '.join('e%d%s' % (i, r.choice(['', '', ' = %d' % (i * 3), ' = -%d' % i])) for i in range(n)) + ' };\n'
    elif form == 'bits':
        s = 'struct s { ' + ' '.join('unsigned a%d:%d;' % (i, r.randrange(1, 32)) for i in range(n)) + ' };\n'
    elif form == 'fields':
        s = 'struct s { ' + ' '.join('%s a%d;' % (r.choice(['char', 'int', 'struct s *', 'long', 'double']), i) for i in range(n)) + ' };\n'
    elif form == 'init':
        s = 'int a[] = {' + ', '.join(r.choice(['1', '-2', '(3 + 4)', '0x5']) for i in range(n)) + '};\nstruct p { int x; int y; } b[] = {' + ', '.join('{%d, 2}' % i for i in range(n)) + '};\n'
    elif form == 'typedefs':
        s = 'typedef int t0;\n' + ''.join('typedef t%d t%d;\n' % (i, i + 1) for i in range(n))
    elif form == 'comments':
        s = '\n'.join('/** about x%d\n * %s\n * @param a %s\n */\nint x%d(int a);' % (i, 'first ' * 9, 'word ' * r.randrange(20), i) for i in range(n)) + '\n'
        kw = r.choice([dict(generate_comments=True), dict(generate_docstrings=True), dict(generate_comments=True, generate_docstrings=True, generate_locations=True)])
    elif form == 'args':
        s = 'struct s { int a; };\nvoid f(' + ', '.join(r.choice(['int', 'struct s *', 'struct s', 'char *', 'int (*)(int)']) for i in range(n)) + ');\n'
    elif form == 'vars':
        s = 'struct s { int a; char b; };\n' + '\n'.join('%s v%d%s;' % (r.choice(['int', 'struct s', 'struct s *']), i, r.choice(['', ' = {0}'])) for i in range(n)) + '\n'
    elif form == 'nested':
        s = 'int z;'
        for i in range(n):
            s = '%s { struct { %s int a%d; } %s; int b%d; } v%d;' % (r.choice(['struct', 'union']), s, i, r.choice(['', 'u%d' % i]), i, i)
        s = 'struct t { ' + s + ' };\n'
    elif form == 'again':
        s = 'struct s; typedef int T; int f(T a, struct s *b); extern int v; enum e { A };\n' + '\n'.join(r.choice(['struct s;', 'typedef int T;', 'int f(T a, struct s *b);', 'extern int v;']) for i in range(n)) + '\nstruct s { int x; };\n'
    elif form == 'lists':
        s = ''.join('typedef struct l%d { struct l%d *next, *prev; int v; } L%d;\n' % (i, i, i) for i in range(n))
    elif form == 'symbols':
        g, ch = rich(seed, n)
        s = text_of(ch)
        kw = dict(symbols=[x for c in ch for x in c.names])
    elif form == 'ring':
        s = ''.join('struct r%d { struct r%d *next; int a; };\n' % (i, (i + 1) % n) for i in range(n))
        kw = r.choice([{}, dict(symbols=['struct_r0'])])
    elif form == 'unions':
        s = 'struct s { int tag; union { ' + ' '.join('struct { int a%d; union { char c%d; long d%d; }; };' % (i, i, i) for i in range(n)) + ' }; };\n'
    elif form == 'cbs':
        s = 'struct ops { ' + ' '.join('int (*f%d)(struct ops *, void (*)(int), char *);' % i for i in range(n)) + ' };\n'
    elif form == 'stars':
        s = 'struct s; typedef %s; struct r { %s; struct r %sq; };\nint f(char %sa);\n' % ('int ' + '*' * n + 'p', 'struct s ' + '* const ' * n + 'p', '*' * n, '*' * n)
    elif form == 'dims':
        d = '[1]' * (n - 2) + '[2][2]'
        s = 'struct s { int a; };\ntypedef int t%s;\nstruct r { t x; struct s y%s; char *z%s; };\nt v;\n' % (d, d, d)
    elif form == 'fnest':
        a, b = 'f', ''
        for i in range(n):
            b = '(int (*)(%s))' % (b and 'int ' + b or 'int')
        a = 'f'
        for i in range(n):
            a = '(*%s)(char)' % a
        s = 'typedef int %s;\nvoid g%s;\nstruct r { int %s; };\n' % (a, b, a)
    elif form == 'parens':
        e = '1'
        for i in range(n):
            e = r.choice(['(%s)', '(-%s)', '(%s + 1)', '(~%s)']) % e
        s = 'int a = %s;\n#define M %s\nint b = M;\n' % (e, e)
    elif form == 'braces':
        s = 'int a%s = %s1, 2%s;\nstruct p { int x; } b%s = %s1%s;\n' % ('[1]' * n + '[2]', '{' * (n + 1), '}' * (n + 1), '[1]' * n, '{' * (n + 1), '}' * (n + 1))
    elif form == 'operators':
        s = 'enum e { A = %s };\nint a = %s;\n' % (' + '.join('(1 << %d)' % (i % 5) for i in range(n)), ' + '.join('(2 * %d)' % i for i in range(n)))
    else:
        s = '\n'.join('const char *s%d = "%s";' % (i, 'text ' * r.randrange(1, 9)) for i in range(n)) + '\n'
    return s, kw


def count(src, kw, limit):
    k = [0]

    def prof(frame, event, arg):
        if event == 'call':
            k[0] += 1
            if k[0] > limit:
                raise Excess()
    text = None
    sys.setprofile(prof)
    try:
        text = translate_str(src, [], 'cdefmstu', **kw)
    except Excess:
        pass
    finally:
        sys.setprofile(None)
    return k[0], text


def setup():
    global base
    for _ in range(2):
        base = count('int z;\n', {}, 1 << 40)[0]


def run(case, obs):
    f, seed = case['form'], case['seed']
    n = SIZE[f] * (3 if case['big'] and f not in DEEP else 1)
    seen = []
    for m in (n, 2 * n, 4 * n):
        src, kw = make(f, m, seed)
        limit = 1 << 40
        if seen:
            # twice as much to read and to write: at most four times the work; what is written is not known before
            limit = base + 60 * max(seen[-1][1] - base, 4000)
        try:
            calls, text = count(src, kw, limit)
        except Exception as e:
            valid_or_skip(src)
            fail('%s: the translation fails: %r' % (f, e), src)
        if text is None:
            fail('%s: %d calls for %d bytes of source and %d of module, and more than %d for %d bytes of source' % (f, seen[-1][1], seen[-1][2], seen[-1][3], calls, len(src)), src)
        if seen:
            grow = (len(src) + len(text)) / (seen[-1][2] + seen[-1][3])
            work = max(calls - base, 1) / max(seen[-1][1] - base, 4000)
            if work > 1.6 * max(grow, 2) ** 2:
                fail('%s: %.1f times the size is %.1f times the work: (units, calls, bytes read, bytes written) %s, then %s' % (
                    f, grow, work, seen[-1], (m, calls, len(src), len(text))), src, text)
        seen.append((m, calls, len(src), len(text)))
        obs.add('calls', calls)
        obs.add('translations')
    obs.add('shape:' + f)
    obs.key(f, [s[1:] for s in seen])
    obs.sample(dict(shape=f, counts=seen))
