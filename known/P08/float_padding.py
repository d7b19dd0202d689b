# struct { float a; double b; } by value: padding members must not change how it is passed
import subprocess
with tmpdir() as d:
    src = 'struct n { float a; double b; };\ndouble f(struct n x) { return x.a + x.b; }\n'
    open(d + '/a.c', 'w').write(src)
    open(d + '/a.h', 'w').write('struct n { float a; double b; };\ndouble f(struct n x);\n')
    subprocess.run(['clang', '-shared', '-fPIC', '-o', d + '/liba.so', d + '/a.c'], check=True)
    ns = load(cli_text(['-l', d + '/liba.so', d + '/a.h'], d))
    s = ns['struct_n'](a=1.5, b=2.25)
    assert ns['f'](s) == 3.75, ns['f'](s)
