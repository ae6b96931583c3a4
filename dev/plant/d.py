"""Builds stl-to-ps from the current directory's sources and runs it, for a demonstration."""
import atexit, concurrent.futures, glob, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
SRC = os.path.join(REPO, 'stl-to-ps')
TMP = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, TMP, True)
_exe = None


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-3000:])
        sys.exit(3)


def build(flags=()):
    global _exe
    if _exe:
        return _exe
    g = os.path.join(TMP, 'gen', 'stl-to-ps')
    os.makedirs(g)
    sh(['bison', '--defines=%s/parser.tab.h' % g, '-o', g + '/parser.tab.cc', SRC + '/parser.y'])
    sh(['flex', '--header-file=%s/lexer.yy.h' % g, '-o', g + '/lexer.yy.cc', SRC + '/lexer.l'])
    srcs = [f for f in glob.glob(SRC + '/*.cc') if not f.endswith('_test.cc') and not f.endswith('test_main.cc')]
    srcs += [g + '/parser.tab.cc', g + '/lexer.yy.cc']
    objs = [os.path.join(TMP, os.path.basename(s) + '.o') for s in srcs]
    inc = ['-I' + os.path.join(HERE, 'shim'), '-I' + REPO, '-I' + os.path.join(TMP, 'gen'), '-I/usr/include/eigen3',
           '-DEIGEN_INITIALIZE_MATRICES_BY_ZERO']
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda so: sh(['g++', '-std=c++17', '-w', '-O1', *flags, *inc, '-c', so[0], '-o', so[1]]), zip(srcs, objs)))
    absl = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
    _exe = os.path.join(TMP, 'stl-to-ps')
    sh(['g++', *flags, *objs, '-o', _exe, '-Wl,--start-group', *absl, '-Wl,--end-group', '-l:libre2.so.10', '-lpthread'])
    return _exe


class Page:
    pass


N = r'(\S+)'


class R:
    """What a run did; pages with lines, arcs and texts (at x, y, shows s)."""
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err
        self.pages = []
        for part in re.split(r'^%%%%%%%%% Start of page.*\n', out, flags=re.M)[1:]:
            p = Page()
            p.lines = [tuple(map(float, m)) for m in re.findall('^newpath %s %s moveto %s %s lineto stroke$' % (N, N, N, N), part, re.M)]
            p.arcs = [tuple(map(float, m)) for m in re.findall('^newpath %s %s %s %s %s arc stroke$' % (N, N, N, N, N), part, re.M)]
            p.texts = [(float(a), float(b), s) for a, b, s in
                       re.findall(r'^newpath %s %s moveto \((.*?)\) (?:CenterText )?show$' % (N, N), part, re.M | re.S)]
            self.pages.append(p)


def run(script, files=(), args=(), timeout=60, env=None, path='in.script'):
    exe = build()
    d = tempfile.mkdtemp(dir=TMP)
    def put(name, data):
        full = os.path.join(d, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as f:
            f.write(data.encode('latin-1') if isinstance(data, str) else data)
    put(path, script)
    for n, b in dict(files).items():
        put(n, b)
    e = dict(os.environ, LC_ALL='C', TZ='UTC')
    e.update(env or {})
    try:
        p = subprocess.run([exe, '--script=' + path, '--output=out.ps', '--timestamp=false'] + list(args), cwd=d, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        rc, err = p.returncode, p.stderr.decode('latin-1')
    except subprocess.TimeoutExpired:
        rc, err = 999, ''
    o = os.path.join(d, 'out.ps')
    out = open(o, 'rb').read().decode('latin-1') if os.path.isfile(o) else ''
    return R(rc, out, err)


def tri(*ps, normal=None):
    if normal is None:
        a, b, c = ps[:3]
        u = [b[i] - a[i] for i in range(3)]
        v = [c[i] - a[i] for i in range(3)]
        normal = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return ' facet normal %g %g %g\n  outer loop\n%s  endloop\n endfacet\n' % (
        *normal, ''.join('   vertex %.9g %.9g %.9g\n' % tuple(p) for p in ps))


def solid(*facets):
    return 'solid m\n' + ''.join(facets) + 'endsolid m\n'


def quad(a, b, c, d):
    return tri(a, b, c) + tri(a, c, d)


def has_line(page, x1, y1, x2, y2, eps=.02):
    def same(l):
        return all(abs(p - q) < eps for p, q in zip(l, (x1, y1, x2, y2)))
    return any(same(l) or same(l[2:] + l[:2]) for l in page.lines)


def has_text(page, s):
    return any(t[2] == s for t in page.texts)


def diags(r, path='in.script'):
    """The lines that diagnostics are about."""
    return sorted(int(x) for l in r.err.split('\n') if not l.startswith('@LOG I') and not l.startswith('@LOG W')
                  for x in re.findall(re.escape(path) + r':(\d+)', l)[:1])


def check(cond, what):
    if not cond:
        print('FAILED:', what)
        sys.exit(1)
