"""Names: any identifier of C, whatever it means in Python."""
import builtins
import keyword
import random
import re

from ..common import *
from ..rich import *
from ..sig import diff, module_sig

RULE = ('Random programs with declarations of every kind, whose names are neutral; a random set of the names (tags, typedefs, functions, variables, enumerators, members, '
        'parameters, macros) is then replaced by keywords of Python, names of its builtin functions and exceptions, names of ctypes, names the generator uses itself, very long names, '
        'names with other letters, names that differ in one letter. The monitor compares the two modules: they must be equal up to the renaming, '
        'import, and export every name, and the helpers of the records must work in both. A case counts by the names and the places they are used.')
ASSUMPTIONS = ['no name is one of the generated module\'s own machinery (ctypes, _libraries, globals, Structure, Union, AsDictMixin, c_int128 and the like), or has a dollar sign']
CWORDS = set('auto break case char const continue default do double else enum extern float for goto if inline int long register restrict return short signed sizeof static '
             'struct switch typedef union unsigned void volatile while asm typeof'.split())
# functions the compiler knows
KNOWN = set('abs pow round exit abort printf memcpy malloc free calloc'.split())
POOLS = dict(
    keyword=[k for k in keyword.kwlist + keyword.softkwlist if k not in CWORDS],
    builtin=[b for b in dir(builtins) if not b.startswith('__') and b not in CWORDS | KNOWN and not keyword.iskeyword(b) and b != 'globals'],
    ctypes='c_int c_char c_void_p POINTER CFUNCTYPE sizeof byref cast CDLL Array BigEndianStructure py_object pointer addressof c_ubyte'.split(),
    own='name typ size align members init args body location T Typedef Function Variable Macro Enumeration libraries library stream parser cursor result string value field '
        'self cls kwds encoding errors y restype argtypes contents from_param in_dll from_buffer _type_ _length_ _subtype_ pointee libname char_pointer'.split(),
    shape='x_ _x __x x__ __x__ X xX x1 x10 x01 l I O0 ___ _1x x_y_z data_0 c_data_0 unnamed anon field_ struct_x union_x enum_x x_t'.split(),
    long_=['n' * 150, 'm_' * 60, 'camelCase' * 12],
    letters=['\u00e9t\u00e9', '\u4e2d\u6587', '\u03b1\u03b2', 'na\u00efve', '\u0434\u0430'],
)


def cases(tier, seed):
    n = 900 if tier == 'quick' else 30000
    for i in range(n):
        yield dict(seed=seed * 1000003 + i, n=3 + i % 12, pool=['keyword', 'builtin', 'all', 'own', 'keyword', 'all', 'shape', 'ctypes', 'letters', 'all'][i % 10], docs=i % 7 == 3)


def swap(o, m, rx):
    if isinstance(o, str):
        return rx.sub(lambda k: m[k.group(0)], o)
    if isinstance(o, (tuple, list)):
        return tuple(swap(x, m, rx) for x in o)
    if isinstance(o, dict):
        return {swap(k, m, rx): swap(v, m, rx) for k, v in o.items()}
    return o


def helpers(ns, src, text, obs):
    for n in list(ns.get('__all__', ())):
        c = ns.get(n)
        if isinstance(c, type) and issubclass(c, ctypes.Structure) and n.startswith('struct_') and getattr(c, '_fields_', None) and ctypes.sizeof(c) < 1 << 16:
            fields = [f[0] for f in c._fields_ if not f[0].startswith('PADDING_')]
            if set(fields) & {'as_dict', 'bind', 'get_type', '_field_names_'}:
                continue
            try:
                d = c.as_dict(c())
            except Exception as e:
                fail('%s.as_dict: %s: %s' % (n, type(e).__name__, e), src, text)
            if list(d) != fields:
                fail('%s.as_dict has %s, the members are %s' % (n, list(d), fields), src, text)
            for f in fields:
                if c.get_type(f) is None:
                    fail('%s.get_type(%r) is None' % (n, f), src, text)
            obs.add('helpers run')


def run(case, obs):
    r = random.Random(case['seed'])
    g, ch = rich(case['seed'], case['n'], names='plain', p_anon=.05)
    src = text_of(ch)
    clean = re.sub(r'"[^"]*"|\'[^\']*\'', '', src)
    words = [w for w in dict.fromkeys(re.findall(r'[A-Za-z_]\w*', clean)) if w not in CWORDS and not w.startswith('__') and w not in ('define', 'pragma', 'pack', 'push', 'pop', 'packed', 'aligned', '_Bool', 'UL', 'bool')
             and not re.search(r'#\w+ *(define|pragma)?\s*\w*\b%s\(' % w, src)]
    words = [w for w in words if not re.search(r'\d' + w + r'\b', clean) or re.search(r'(?<!\d)\b%s\b' % w, clean)]
    neutral = {w: 'vfq%dz' % i for i, w in enumerate(words)}

    def ren(text, m):
        return re.sub(r'"[^"\n]*"|\'[^\'\n]*\'|(?<![\w.])[A-Za-z_]\w*', lambda k: m.get(k.group(0), k.group(0)), text)
    base = ren(src, neutral)
    valid_or_skip(base)
    pool = [x for p in POOLS for x in POOLS[p]] if case['pool'] == 'all' else list(POOLS[case['pool']])
    used = set(words) | set(neutral.values())
    pool = [p for p in dict.fromkeys(pool) if p not in used and p not in CWORDS]
    some = [neutral[w] for w in words]
    r.shuffle(some)
    some = some[:r.choice([1, 2, 4, 8, 16, 40])]
    macros = {neutral[n] for c in ch if c.kind == 'macro' for n in c.names if n in neutral}
    new = {}
    r.shuffle(pool)
    for s in some:
        if not pool:
            break
        p = pool.pop()
        if s in macros and (keyword.iskeyword(p) or hasattr(builtins, p) and keyword.iskeyword(p)):
            continue                # a macro that cannot be written in Python is left as a comment
        new[s] = p
    if not new:
        raise Skip('no name to change')
    src2 = ren(base, new)
    valid_or_skip(src2)
    kw = {}
    if case['docs']:
        kw = dict(generate_comments=True, generate_locations=True, generate_docstrings=True)
    a, _ = tr_ns(base, [], 'cdefmstu', **kw)
    b, text = tr_ns(src2, [], 'cdefmstu', **kw)
    rx = re.compile('vfq[0-9]+z')
    full = {v: v for v in neutral.values()}
    full.update(new)
    want = swap(module_sig(a), full, rx)
    got = module_sig(b)
    w = diff(want, got, 'neutral', 'renamed')
    if w:
        fail('names %s: %s' % (sorted(new.values()), w), src2, text)
    helpers(b, src2, text, obs)
    for k in new.values():
        obs.add('names changed')
    obs.add('names compared', len(got))
    obs.key(sorted(new.items()), src)
    obs.sample(dict(names=sorted(new.values())[:20], source=src2[:300]))
