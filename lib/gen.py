"""Generators of cases, one per property: gen(rng, n) yields about n cases.

Every case is a runner.case; `base`, if given, is a list of simpler cases: what
is wrong with those as well isn't the fault of the property in question.
"""
import glob
import math
import os
import random
from fractions import Fraction as F

import runner
import shapes as S
from script import *

H = F(1, 2)


def R(rng, lo, hi, den=8):
    return F(rng.randint(int(lo * den), int(hi * den)), den)


def R10(rng, lo, hi, digits=3):
    return F(rng.randint(int(lo * 10**digits), int(hi * 10**digits)), 10**digits)


def nz(rng, f):
    while True:
        x = f()
        if x != 0:
            return x


def case(tokens, files=(), rng=None, style='plain', **kw):
    body = tokens if isinstance(tokens, (str, bytes)) else render(tokens, rng, style)
    return runner.case(body, [(p, 'file' if not isinstance(d, tuple) else d[0], d if not isinstance(d, tuple) else d[1])
                              for p, d in files], **kw)


ONE = [S.tri((0, 0, 0), (3, 0, 0), (1, 2, 0))]           # a triangle without symmetry
VIEWS = ['X+', 'X-', 'Y+', 'Y-', 'Z+', 'Z-']


def angles(rng):
    """Angles away from multiples of 90 degrees, where rounding matters."""
    a = lambda: rng.choice([30, 45, 60, -30, 20, 70, 110, 135, 200, -100, R10(rng, 1, 89, 1), R10(rng, -89, -1, 2),
                            R10(rng, 91, 179, 1)])
    return loc(a(), rng.choice([30, 20, 60, 45, -25, -60, 110, 150, R10(rng, 2, 88, 1), R10(rng, -88, -2, 1)]))


def some_view(rng):
    k = rng.random()
    if k < 0.15:
        return None
    if k < 0.6:
        return st(rng.choice(VIEWS))
    return angles(rng)


def solid(rng, size=1):
    """A small solid without symmetry."""
    k = rng.randrange(6)
    d = lambda a=1, b=6: R(rng, a, b, 4)
    if k == 0:
        return S.box((0, 0, 0), (d(), d(), d()))
    if k == 1:
        a, b, c, e = d(2, 4), d(2, 4), d(1, 1.75), d(1, 1.75)
        return S.prism([(0, 0), (a, 0), (a, e), (c, e), (c, b), (0, b)], 0, d(1, 3))
    if k == 2:
        return S.tetra((0, 0, 0), (d(2, 5), 0, 0), (d(0, 2), d(1, 4), 0), (d(0, 2), d(0, 2), d(1, 4)))
    if k == 3:
        return S.prism([(0, 0), (d(2, 4), 0), (d(0, 2), d(1, 3))], 0, d())
    if k == 4:
        return S.prism(S.ngon(rng.choice([5, 6, 8]), float(d(1, 3)), phase=rng.random(), den=100), 0, d())
    return S.box((0, 0, 0), (d(), d(), d())) + S.moved(S.box((0, 0, 0), (d(), d(), d())), (8, d(0, 3), d(0, 3)))


def point(rng, lo=-4, hi=6):
    return pt(R(rng, lo, hi, 4), R(rng, lo, hi, 4), R(rng, lo, hi, 4))


def vec(rng):
    while True:
        v = [R(rng, -3, 3, 4) for _ in range(3)]
        if any(v):
            return v


def corner(rng, facets):
    return rng.choice(rng.choice(facets)[1])


def in_plane(name):
    """Axes (right, up, out) of a view, in model coordinates."""
    return {'X+': ((0, 1, 0), (0, 0, 1), (1, 0, 0)), 'X-': ((0, -1, 0), (0, 0, 1), (-1, 0, 0)),
            'Y+': ((-1, 0, 0), (0, 0, 1), (0, 1, 0)), 'Y-': ((1, 0, 0), (0, 0, 1), (0, -1, 0)),
            'Z+': ((1, 0, 0), (0, 1, 0), (0, 0, 1)), 'Z-': ((1, 0, 0), (0, -1, 0), (0, 0, -1))}[name]


def paper(name, x, y, z=0):
    r, u, o = in_plane(name)
    return tuple(F(x) * r[i] + F(y) * u[i] + F(z) * o[i] for i in range(3))


FORMATS = ['%f', '%.0f', '%.1f', '%.2f', '%5.1f', '%-8.2fmm', '%08.3f', '%+.1f', '% .2f', '%#.0f', '%.6f', '<%.3f>', '%%%.1f%%',
           'L=%.2f (in)', '%.10f', '%12f', '%-12.4f|', '\\%.1f', '%.f', '%3.0f"', '%+08.2f', '%-+9.1f.', '%.3f\xb0', "%.2f'"]


def fmt_arg(rng, p=0.4):
    return [arg('fmt', st(rng.choice(FORMATS)))] if rng.random() < p else []


def shuffled(rng, xs):
    xs = list(xs)
    rng.shuffle(xs)
    return xs


def dim_stmt(rng, facets=None, view=None, extra=()):
    """A dim between two points."""
    v = vec(rng)
    if view and rng.random() < 0.8:
        while not any(v[:2]):
            v = vec(rng)
        v = paper(view, v[0], v[1], 0)
    elif view is None:
        while v[0] == 0 and v[1] == 0:
            v = vec(rng)
    p = (lambda: pt(*corner(rng, facets))) if facets and rng.random() < 0.7 else (lambda: point(rng))
    return dim('dim', shuffled(rng, [arg('at', point(rng)), arg('dir', pt(*v)), arg('from', p()), arg('to', p())] +
                               fmt_arg(rng) + list(extra)))


def angle_stmt(rng, view='Z+', extra=()):
    """An angle in the plane of the paper (or not quite)."""
    while True:
        d1, d2 = [(R(rng, -3, 3, 4), R(rng, -3, 3, 4)) for _ in range(2)]
        if d1[0] * d2[1] != d1[1] * d2[0]:
            break
    z = lambda: R(rng, -1, 1, 4) if rng.random() < 0.2 else 0
    ap = (R(rng, -2, 4, 4), R(rng, -2, 4, 4))
    az = z()
    args = [arg('apex', pt(*paper(view, ap[0], ap[1], az))),
            arg('at', pt(*paper(view, ap[0] + nz(rng, lambda: R(rng, -3, 3, 4)), ap[1] + R(rng, -3, 3, 4), az)))]
    for w, d in (('from', d1), ('to', d2)):
        if rng.random() < 0.5:
            args.append(arg(w + '_dir', pt(*paper(view, d[0], d[1], z()))))
        else:
            args.append(arg(w + '_point', pt(*paper(view, ap[0] + d[0], ap[1] + d[1], az + z()))))
    return dim('angle', shuffled(rng, args + fmt_arg(rng) + list(extra)))


def circle_stmt(rng, kind, view, center, r, extra=(), jitter=True):
    """dia or rad of the circle at center (on paper) with radius r."""
    k = r / 8
    c = [F(center[0]), F(center[1])]
    if jitter:
        c = [S.q(float(x + k * R(rng, -1, 1, 16)), 64) for x in c]
    t = rng.random() * 2 * math.pi
    l = float(r) * rng.choice([0.5, 1, 1.5, 2, 3])
    a = (S.q(float(center[0]) + l * math.cos(t), 16), S.q(float(center[1]) + l * math.sin(t), 16))
    while True:
        d = (R(rng, -3, 3, 4), R(rng, -3, 3, 4))
        if d[0] != 0 and d[1] != 0 or (any(d) and rng.random() < 0.2):
            break
    z = lambda: R(rng, -2, 2, 4) if rng.random() < 0.3 else 0
    return dim(kind, shuffled(rng, [arg('center', pt(*paper(view, c[0], c[1], z()))), arg('at', pt(*paper(view, a[0], a[1], z()))),
                                    arg('dir', pt(*paper(view, d[0], d[1], z())))] + fmt_arg(rng) + list(extra)))


def disc(rng, n=None, r=None, c=None, view='Z+'):
    """An n-gon prism whose circle is seen in the view: (facets, center, radius)."""
    n = n or rng.choice([5, 6, 7, 9, 12, 16])
    r = r or R(rng, 1, 4, 4)
    c = c or (R(rng, -4, 4, 4), R(rng, -4, 4, 4))
    p = S.ngon(n, float(r), (float(c[0]), float(c[1])), rng.random(), 10**6)
    f = S.prism(p, 0, 1)
    return [(paper(view, *a), tuple(paper(view, *x) for x in b)) for a, b in f], c, r


TEXTS = ['plain', 'two words', '(', ')', '((', ')(', '\\', '\\\\', 'a\\', '%', '%%EOF', '$0 $1', '$', '<</a>>', '\t tab', '\xe9t\xe9',
         '\xff\x80', '\x01\x02', '() showpage', ') show (', '\\n', '\\051', '"quoted"', "it's", '?', ' lead', 'trail ', '/name', '{}', '[]',
         '\x7f', 'x' * 300, '(' * 50, '\\' * 33, '$$', '$10', '%s %d %n', '~>', '\x1b', '\x04', 'a\x0bb', '\x0c', '\x08', 'R 12', 'deg']


def some_text(rng):
    k = rng.random()
    if k < 0.5:
        return rng.choice(TEXTS)
    if k < 0.75:
        return ''.join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(32, 127)])) for _ in range(rng.randrange(1, 40))) \
            .replace('\r', 'r')
    return ''.join(rng.choice('ab ()\\%$"\'?/<>{}[]\n0') for _ in range(rng.randrange(1, 20)))


def place(rng, p=0.6):
    return [at(R10(rng, -5, 5, 2), R10(rng, -4, 4, 2))] if rng.random() < p else []


# ================================================================ C01
def faults(rng, name='m'):
    """(kind, where, tokens): statements that have to be rejected."""
    P = lambda: point(rng)
    good_dim = [arg('at', P()), arg('dir', pt(1, 1, 0)), arg('from', P()), arg('to', P())]
    ang = [arg('at', pt(1, 1, 0)), arg('apex', pt(0, 0, 0)), arg('from_dir', pt(1, 0, 0)), arg('to_dir', pt(0, 1, 0))]
    cir = [arg('at', pt(4, 4, 0)), arg('dir', pt(1, 1, 0)), arg('center', pt(0, 0, 0))]
    bad_args = lambda g: rng.choice([
        g[:-1], g[1:], g + [arg('colour', st('red'))], g + [g[rng.randrange(len(g))]],
        g[:1] + [g[1][:2] + st('no')] + g[2:], g + [arg('fmt', st('%d'))], g + [arg('fmt', st(''))], g + [arg('fmt', num(3))],
        g + [arg('fmt', st('%f %f'))], g[1:] + [g[0][:2] + loc(1, 2)], g[1:] + [g[0][:2] + fn('nearest', P())],
        g + [at(1, 1)], g[:-1] + [g[-1][:2] + ratio(1, 2)]])
    dims = [('dim', lambda: dim('dim', bad_args(good_dim))),
            ('dim', lambda: dim('dim', [good_dim[0], arg('dir', pt(0, 0, 0))] + good_dim[2:])),
            ('angle', lambda: dim('angle', bad_args(ang))),
            ('angle', lambda: dim('angle', ang[:2] + [arg('from_dir', pt(1, 2, 0)), arg('to_dir', pt(-2, -4, 0))])),
            ('angle', lambda: dim('angle', ang + [arg('to_point', P())])),
            ('dia', lambda: dim('dia', bad_args(cir))), ('rad', lambda: dim('rad', bad_args(cir))),
            ('dia', lambda: dim('dia', [cir[0], arg('dir', pt(0, 0, 2)), cir[2]])),
            ('rad', lambda: dim('rad', [cir[0], arg('dir', pt(0, 0, -1)), cir[2]]))]
    out = [('dim', d()) for _, d in dims]
    D = lambda a, d=(): draw(name, a, d)
    out += [('item', x) for x in [
        draw('nomodel'), D([arg('view', st('Q+'))]), D([arg('view', st('x+'))]), D([arg('view', num(3))]), D([arg('scale', ratio(0, 1))]),
        D([arg('scale', ratio(1, 0))]), D([arg('scale', ratio(-1, 2))]), D([arg('scale', ratio(1, -2))]), D([arg('scale', num(2))]),
        D([arg('scale', st('1:2'))]), D([arg('scale', ratio(1, 2)), arg('scale', ratio(1, 2))]), D([arg('size', num(2))]),
        D([at(1, 1), at(1, 1)]), D([arg('view', st('Z+')), arg('view', st('Z+'))]), D([arg('view', pt(0, 0, 0))]),
        text('t', [arg('name', st('x'))]), text('t', [at(1, 0), at(0, 1)]), text('', [arg('size', num(3))])]]
    out += [('page', x) for x in [arg('name', num(3)), arg('title', st('x')), at(1, 2), arg('name', loc(1, 2))]]
    out += [('script', x) for x in [['page'], ['}'], ['"'], ['load', 'x'], ['#'], ['page', '{', 'name', '=', '}'], ['draw'],
                                    load(name, 'm.stl'), load('other', 'missing.stl'), load('d', 'dir'), load('b', 'bad.stl'),
                                    load('b', 'cut.stl')]]
    return out


def furnished(rng, n, name='m', fault=None, facets=ONE):
    """n pages of drawables with a fault (where, tokens) somewhere."""
    where = tok = None
    if fault:
        where, tok = fault
    hit = rng.choice([0, n - 1, rng.randrange(n)]) if n else 0
    pages = []
    for i in range(n):
        items = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            if rng.random() < 0.5:
                items.append(text(some_text(rng), place(rng)))
            else:
                items.append(draw(name, place(rng) + ([arg('scale', ratio(1, rng.randint(1, 5)))] if rng.random() < .5 else []),
                                  [dim_stmt(rng, facets) for _ in range(rng.choice([0, 0, 1, 2]))]))
        args = [arg('name', st('p%d' % i))] if rng.random() < 0.5 else []
        if i == hit and where == 'item':
            items.insert(rng.choice([0, len(items), rng.randrange(len(items) + 1)]), tok)
        elif i == hit and where == 'dim':
            ds = [dim_stmt(rng, facets) for _ in range(rng.randrange(3))]
            ds.insert(rng.choice([0, len(ds)]), tok)
            items.insert(rng.randrange(len(items) + 1), draw(name, place(rng), ds))
        elif i == hit and where == 'page':
            args = args + [tok] if tok[0] != 'name' else [tok]
        pages.append(page(args, items))
    loads = [load(name, 'm.stl')]
    if rng.random() < 0.4:
        loads.append(load('spare', 'n.stl'))
        if rng.random() < 0.5:
            loads.reverse()
    if where == 'script':
        parts = loads + pages
        if rng.random() < 0.3:
            k = 0
        else:
            k = rng.randrange(len(loads), len(parts) + 1) if tok[0] == 'load' and len(tok) > 2 and rng.random() < .5 else rng.randrange(len(parts) + 1)
        parts.insert(k, tok)
        return cat(*parts)
    order = loads + pages
    if rng.random() < 0.2:        # loads may come anywhere
        order = pages + loads
    return cat(*order)


def std_files(rng=None, facets=ONE):
    one = S.stl(ONE)
    return [('m.stl', S.stl(facets)), ('n.stl', one), ('dir', ('dir', '')), ('bad.stl', one + 'facet\n'),
            ('cut.stl', one.replace('      vertex 1 2 0\n', ''))]


def flags(rng):
    return dict(timestamp=rng.random() < 0.4, number=rng.random() < 0.6, name=rng.choice(['', '', 'n', 'My Drawing', '%x', 'a\nb', '$0']))


def gen_C01(rng, n):
    F_ = faults(rng)
    files = std_files()
    for f in shuffled(rng, F_)[:max(n // 2, 10)]:
        yield case(furnished(rng, rng.choice([1, 2, 3, 3, 5]), fault=f), files, rng, rng.choice(['plain', 'tight', 'tall']), **flags(rng))
    for np in [0, 1, 2, 3, 9, 10, 12, 30]:
        yield case(furnished(rng, np), files, rng, **flags(rng))
    for b in ['script-missing', 'script-dir', 'output-full', 'output-dir']:
        for np in (0, 1, 12):
            yield case(furnished(rng, np), files, rng, broken=b, **flags(rng))
        yield case(furnished(rng, 2, fault=rng.choice(F_)), files, rng, broken=b, **flags(rng))
    for b in ['flags-noscript', 'flags-nooutput', 'flags-emptyscript', 'flags-emptyoutput', 'flags-unknown', 'flags-value', 'output-nodir']:
        yield case(furnished(rng, rng.choice([1, 3])), files, rng, broken=b, **flags(rng))
    # an output file that is there already, with more in it
    for np in [0, 1, 3]:
        yield case(furnished(rng, np), files, rng, stale=True, **flags(rng))
    for f in rng.sample(F_, 6) + [('script', ['page', '{', '{']), ('script', load('other', 'missing.stl')), ('item', text('t', [arg('name', st('x'))]))]:
        yield case(furnished(rng, 2, fault=f), files, rng, stale=True, **flags(rng))
    yield case(furnished(rng, 2), files, rng, broken='script-dir', stale=True, **flags(rng))
    # an output that can't be written beyond some byte
    for k in [0, 1, 100, 700, 1000, 1024, 2000, 4095, 4096, 4097, 8191, 8192, 9000]:
        yield case(furnished(rng, rng.choice([1, 3, 12, 20])), files, rng, broken='output-limit:%d' % k, **flags(rng))
    # files that can't be read beyond some byte
    big = S.stl(S.field(3, 3, lambda i, j: (i * 7 + j * 3) % 5))
    for k in [0, 1, 20, 200, 1023, 4095, 4096, 8190, 8191, 8192]:
        yield case(furnished(rng, 2), [('m.stl', big), ('n.stl', S.stl(ONE))], rng, fault='m.stl:%d' % k,
                   broken='input' if k <= len(big) else '')
        body = render(furnished(rng, rng.choice([2, 8])), rng, 'plain')
        yield case(body, files, rng, fault='in.script:%d' % k, broken='script' if k <= len(body) else '')
    # reads and writes that are done in small pieces or interrupted change nothing
    for m in ['1', '7', '100', 'i']:
        yield case(furnished(rng, 3), files, rng, pieces=m, **flags(rng))
    for i in range(max(4, n // 5)):
        yield case(furnished(rng, rng.choice([1, 2, 4])), files, rng, rng.choice(['plain', 'wild']), **flags(rng))
    yield case('', files)
    yield case('// nothing\n', files)
    yield case(cat(load('m', 'm.stl')), files, rng)
    yield case(page(), files, rng)


# ================================================================ C02
def gen_C02(rng, n):
    files = std_files()
    for i in range(n):
        F_ = faults(rng)
        k = rng.random()
        items = []
        picks = rng.choice([1, 1, 2, 3, 5])
        if k < 0.2:      # only loads
            tok = [t for w, t in F_ if w == 'script' and t[0] == 'load' and len(t) > 2]
            parts = [load('m', 'm.stl')] + [page([], [text('x', [arg('bad', num(1))])])]
            for t in range(picks):
                parts.insert(rng.randrange(1, len(parts) + 1), rng.choice(tok))
            yield case(cat(*parts), files, rng, rng.choice(['tall', 'wild', 'plain']))
            continue
        if k < 0.4:      # syntax
            tok = [t for w, t in F_ if w == 'script' and not (t[0] == 'load' and len(t) > 2)]
            yield case(furnished(rng, rng.choice([1, 2, 4]), fault=('script', rng.choice(tok))), files, rng,
                       rng.choice(['tall', 'wild', 'plain']), path=rng.choice(['in.script', 'sub/x.s', './in.script', 'a b.txt', 'n\xe9.s']))
            continue
        pages = []
        for p in range(rng.choice([1, 2, 3])):
            args, its = [], []
            for _ in range(rng.choice([1, 2, 3, 4])):
                w, t = rng.choice(F_)
                if w == 'script':
                    its.append(text('fine'))
                elif w == 'page':
                    if not args:
                        args.append(t)
                elif w == 'item':
                    its.append(t)
                else:
                    ds = [dim_stmt(rng), t] + [x for v, x in rng.sample(F_, 6) if v == 'dim'][:2]
                    its.append(draw('m', [], shuffled(rng, ds)))
            if rng.random() < 0.4:
                its.insert(rng.randrange(len(its) + 1), draw('m', [], [dim_stmt(rng), dim_stmt(rng)]))
            pages.append(page(args, its, rng))
        yield case(cat(load('m', 'm.stl'), *pages), files, rng, rng.choice(['tall', 'tall', 'wild', 'plain', 'tight']),
                   path=rng.choice(['in.script', 'in.script', 'sub/dir/x.s', './in.script', 'a b.txt', '@ROOT@/abs.s', 'x:7:.s', 'n\xe9.s']))
    # bad numbers, and mistakes far down
    for x in ['1e999', '9' * 60, '1' + '0' * 50 + '.0', '.' + '0' * 60 + '1']:
        yield case('\n' * 5 + 'page { text ["a"] {\n @[%s,\n0]; } }' % x, [])
    for x in ['1.5:1', '1:1.5', '10000000000:1', '1:.5', '0.0:1', '1.0:2', '-1:1', '1:1']:
        yield case('load m="m.stl";\npage {\n draw m {\n scale\n=\n%s\n:\n%s; } }' % tuple(x.split(':')), files)
    for k in [9, 10, 99, 100, 1000, 12345]:
        yield case('page{}\n' * (k // 50) + '\n' * (k - k // 50) + 'page { foo=1; }', files)
    yield case('page {' + '\n'.join(' text["t%d"] { @[0,0]; %s }' % (i, 'x=1;' if i % 37 == 5 else '') for i in range(150)) + '\n}', files)


# ================================================================ C03
def lang_base(rng):
    parts = []
    names = ['a', 'b', 'loads', 'Draw', '_x', 'x1', 'pageX', 'i', 'e5', 'name', 'T']
    for nm in rng.sample(names, rng.randrange(3)):
        parts.append(load(nm, 'n.stl'))
    for _ in range(rng.choice([1, 1, 2])):
        items, args = [], []
        if rng.random() < .5:
            args.append(arg('name', st(*[some_text(rng).replace('\n', '') for _ in range(rng.choice([1, 1, 2, 3]))])))
        for _ in range(rng.choice([0, 1, 1, 2])):
            n = lambda: rng.choice(['0', '1', '+1', '-1', '.5', '-.5', '+.25', '1.', '-2.', '2.50', '00.5', '0012.75'[1:], '-0', '1.125', '.0', '3'])
            a = [['@', '[', n(), ',', n(), ']']] if rng.random() < .8 else []
            items.append(text([some_text(rng) for _ in range(rng.choice([1, 1, 2, 4]))], a))
        if rng.random() < .3 and parts:
            nm = parts[0][1]
            items.append(draw(nm, rng.choice([[], [arg('scale', ['2', ':', '+4'])], [at(1, '.5')]]),
                              rng.choice([[], [dim('dim', [arg('at', pt('0', '.5', '0')), arg('dir', pt('1.', 0, '-0')),
                                                           arg('from', pt(0, 0, 0)), arg('to', pt('+3', 0, 0))])]])))
        parts.append(page(args, items, rng))
    return cat(*shuffled(rng, parts) if rng.random() < .3 else parts)


LEXEMES = ['{', '}', '[', ']', '(', ')', '=', ';', ':', ',', '@', 'load', 'page', 'draw', 'text', 'dim', 'dia', 'rad', 'angle', 'name',
           'x', '1', '-1', '.5', '"s"', '"', '.', '-', '+', '/', '//', '#', '\\', '\x00', '\x7f', '\xe9', '*', '"a\\q"', '"a\nb"', "'", '"\\',
           '1.2.3', '--1', '1-', 'near', '<', '1e5', '?']


def gen_C03(rng, n):
    files = [('n.stl', S.stl(ONE))]
    for i in range(n):
        toks = lang_base(rng)
        k = rng.random()
        if k < 0.4:
            yield case(toks, files, rng, rng.choice(['wild', 'wild', 'tight', 'tall']))
        elif k < 0.85:
            for _ in range(rng.choice([1, 1, 1, 2])):
                j = rng.randrange(len(toks))
                m = rng.randrange(4)
                if m == 0:
                    del toks[j]
                elif m == 1:
                    toks.insert(j, rng.choice(LEXEMES + toks))
                elif m == 2:
                    toks[j] = rng.choice(LEXEMES + toks)
                else:
                    l = rng.randrange(len(toks))
                    toks[j], toks[l] = toks[l], toks[j]
                toks = toks or ['page']
            yield case(toks, files, rng, rng.choice(['wild', 'tall', 'tight', 'plain']))
        else:      # bytes
            s = list(render(toks, rng, rng.choice(['wild', 'tight', 'plain'])))
            for _ in range(rng.choice([1, 1, 2])):
                if not s:
                    break
                j = rng.randrange(len(s))
                m = rng.randrange(4)
                if m == 0:
                    del s[j]
                elif m == 1:
                    s.insert(j, rng.choice('{}[]()=;:,@."\\/+-# \n\t\r0aZ_\x00\xff'))
                elif m == 2:
                    s[j] = chr(rng.randrange(256))
                else:
                    s = s[:j]
            yield case(''.join(s), files, rng)
    for x in ['"a\\n\\"\\\'\\?\\\\b"', '"a" "b"\n"c"', '"a\\\\" "b"', '"//"', '"/*"', '"\t"', '"a//b" // c "d"', '"\\\\\\\\"', '""', '"" "" "x"']:
        yield case('page { text [%s] { } name=%s; }' % (x, x), files)
    sizes = [31, 32, 63, 64, 65, 127, 128, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384,
             16385, 20000, 32768, 65536]
    out = []
    for k in sizes:
        nm = ''.join(rng.choice('abcXYZ_') for _ in range(k - 1))
        other = nm + ('q' if rng.random() < .5 else '_')
        out.append(case('load %sa="n.stl"; load %sb="n.stl"; page { draw %s%s {@[1,1];} text["t"]{} }' % (nm, nm, nm, rng.choice('aabcA')), files))
        out.append(case('load %s="n.stl"; page { draw %s {} text["t"]{} }' % (nm, other[:rng.choice([k, k, k - 1, k - 2])]), files))
        out.append(case('page { %s=1; text["t"] {} } %s' % (nm, rng.choice(['', nm, 'page {}'])), files))
        z = rng.choice(['1' + '.' + '0' * (k - 3) + '5', '0' * (k - 3) + '1.5', '-' + '0' * (k - 4) + '1.5', '2.' + '3' * (k - 2)])
        out.append(case('page { text["n"] { @[%s, 1]; } %s }' % (z, rng.choice(['', 'text["u"]{@[%s5.,0];}' % z, 'text["u"]{@[1,%s.1];}' % z])), files))
        out.append(case('page {%stext["c"] { } text["d"] {@[1,1];} }' % ('//' + 'x' * (k - 3) + '\n'), files))
        out.append(case('page {%stext["c"] { } %s }' % (rng.choice([' ', '\t', '\n', '\r', ' \n', '//\n']) * k, rng.choice(['', 'text'])), files))
        out.append(case('page { text["%s", "%s"] { } name="%s"; }' % ('s' * (k - 2), '\\\\' * (k // 2), '"  "'.join(['a' * (k // 4)] * 4)), files))
        out.append(case('page { text["%s] { } } page { text["b"] {} }' % ('s' * (k - 1)), files))
        out.append(case('page {} %s' % ('page { name="p"; }' * min(k, 300)), files))
        out.append(case('page { text[%s] {} }' % ', '.join(['"%d"' % i for i in range(min(k, 1100))]), files))
        out.append(case('page { x=%s; }' % (rng.choice(['a(', '[', '-', '"" ', '1 : ']) * min(k, 3000) + '1'), files))
    yield from rng.sample(out, min(len(out), max(80, n // 2)))
    for x in ['draw=1;', 'text="x";', 'dim=1;', 'load="x";', 'page=3;', 'name=(1);', 'name=[1];', 'name=[1,2,3,4];', 'name=1:2:3;', 'name=a(b);',
              'name=a();', 'name=a([1,2,3],[1,2,3]);', 'name=a(b([1,2,3]));', 'name=1 2;', 'name="a" 1;', 'name=;', 'name;', '@[1,2]', '@[1];',
              '@=[1,2];', '@[1,2,3];', '@ [1,2]; @ [1,2];', 'name=[1,2];', 'name="a";;', 'a=1 b=2;', 'name = - 1;', 'name=1. 5;']:
        yield case('page {\n%s\n}' % x, files)
    for x in ['', '=', 'a', 'a=', 'a="x"', 'a=b;', '"a"="x";', 'a="x" "y";', 'a=[1,2];', 'a="";', 'load="n.stl";', 'a=1;']:
        yield case('load %s\npage {}' % x, files)
    for x in ['dim()', 'dim();', 'dim(a=1,);', 'dim(,a=1);', 'dim(a=1 b=2);', 'dim(a=1;b=2);', 'dim(@[1,2]);', 'dim(dim=1);', 'dim{};', 'near();',
              'dim(a=1),rad();', 'text["x"]{}', 'draw b {}', 'dim(at=near([0,0,0]), from=[1,2,3]);']:
        yield case('load a="n.stl"; page { draw a {\n%s\n} }' % x, files)
    for x in ['text[]{}', 'text["a"]', 'text["a"];', 'text "a" {}', 'text["a","b"]{}', 'text[a]{}', 'text["a"]{text["b"]{}}', 'text["a"]{dim();}',
              'draw {}', 'draw "a" {}', 'draw a;', 'draw a()', 'page {}', 'draw draw {}', 'draw load {}', 'dim();', 'load a="n.stl";']:
        yield case('load a="n.stl"; page {\n%s\n}' % x, files)


    # bytes between what is fine otherwise
    for b in sorted({0, 1, 4, 8, 11, 12, 26, 127, 128, 160, 239, 254, 255} | set(rng.sample(range(256), 30))):
        yield case('page { }\n%s%s' % (chr(b), rng.choice(['', ' ', ' this is no script', ' page { }', '\n', '}', '"'])), files)
        yield case('%s page { }' % chr(b) if rng.random() < .5 else 'page { } // %s\n%spage {%s}' % (chr(b), chr(b) if b in (0, 255) else '', ' ' if b else '='), files)
    every = ''.join(map(chr, range(256))).replace('\n', '')
    yield case('// %s\npage { } // %s' % (every, every[::-1]), files)


# ================================================================ C04
def gen_C04(rng, n):
    # every byte, alone and after a backslash
    for lo in range(0, 256, 32):
        for pre in ['', '\\']:
            b = ''.join(quote(pre + chr(c) + 'z')[1:-1] + '|' for c in range(lo, lo + 32) if c != 10)
            yield case(('page { name="n%s"; text["%s"] { @[-5,1]; } }' % (b.replace('\r', ''), b)), [])
    for s in TEXTS:
        yield case(page([arg('name', st(s))] if '\n' not in s else [], [text(s, place(rng)), text('after', [at(0, -1)])]), [], rng)
    for s in ['', '\n', '\n\n', 'a\n', '\na', 'a\n\nb', '\n\n\nx\n\n', 'a\nb\nc\nd\ne', '(\n)', '\\\n\\', 'x\n' * 30, ' \n ', 'a\n \nb']:
        yield case(page([], [text(s, place(rng)), text('next', place(rng))]), [], rng)
    for k in [100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 20000]:
        yield case(page([], [text('x(' + 'a' * (k - 4) + ')y')]), [], rng)
    for p in [(0, 0), (-5.5, -4.25), (5.5, 4.25), ('-5.5', '4.25'), (100, -100), ('.001', '-.001'), ('12.345', '0'), (0, '3.3333333')]:
        yield case(page([], [text('here', [at(*[x if isinstance(x, str) else dec(F(x)) for x in p])])]), [], rng)
    for i in range(n):
        its = [text([some_text(rng) for _ in range(rng.choice([1, 1, 2, 3]))], place(rng)) for _ in range(rng.choice([1, 2, 3]))]
        nm = [arg('name', st(*[some_text(rng).replace('\n', '') for _ in range(rng.choice([1, 1, 2]))]))] if rng.random() < .5 else []
        yield case(page(nm, its, rng), [], rng, rng.choice(['plain', 'wild', 'tight']))


# ================================================================ C05
def gen_C05(rng, n):
    facets, c, r = disc(random.Random(5), 6, F(2), (F(1), F(1)))
    files = [('m.stl', S.stl(facets))]
    vals = {'pt': lambda: pt(*[R(rng, -3, 3, 4) for _ in range(3)]), 'str': lambda: st('%.1f'), 'num': lambda: num(2), 'loc': lambda: loc(1, 2),
            'scale': lambda: ratio(1, 2), 'near': lambda: fn('near', pt(1, 2, 3)), 'center': lambda: fn('center', pt(1, 1, 0)),
            'func': lambda: fn('far', pt(1, 1, 1))}
    good = {'dim': {'at': pt(1, 5, 0), 'dir': pt(1, '.5', 0), 'from': pt(0, 0, 0), 'to': pt(3, 1, 1), 'fmt': st('%.2f')},
            'angle': {'at': pt(3, 3, 0), 'apex': pt(1, 1, 0), 'from_dir': pt(1, 0, 0), 'to_point': pt(2, 5, 0), 'fmt': st('%.2f')},
            'dia': {'at': pt(5, 6, 0), 'dir': pt(1, 2, 0), 'center': pt(1, 1, 0), 'fmt': st('%.2f')},
            'rad': {'at': pt(5, 6, 0), 'dir': pt(1, 2, 0), 'center': pt(1, 1, 0), 'fmt': st('%.2f')}}
    alt = {'from_dir': 'from_point', 'from_point': 'from_dir', 'to_dir': 'to_point', 'to_point': 'to_dir'}
    wrap = lambda d, a=(): cat(load('m', 'm.stl'), page([], [draw('m', list(a), d)]))
    out = []
    add = lambda toks, base=None: out.append(case(toks, files, rng, 'plain', **({'base': [case(base, files)]} if base else {})))
    for kind, g in good.items():
        names = list(g)
        G = lambda ns: [arg(x, g[x]) for x in ns]
        # every order of the required ones, sampled
        for _ in range(6):
            add(wrap([dim(kind, G(shuffled(rng, names)))]), wrap([dim(kind, G(names))]))
            add(wrap([dim(kind, G(shuffled(rng, [x for x in names if x != 'fmt'])))]), wrap([dim(kind, G([x for x in names if x != 'fmt']))]))
        for x in names:                               # one missing, twice, of another type
            add(wrap([dim(kind, G([y for y in names if y != x]))]))
            add(wrap([dim(kind, shuffled(rng, G(names) + G([x])))]))
            add(wrap([dim(kind, shuffled(rng, G(names) + [arg(x, vals['pt']())]))]))
            for v in vals.values():
                add(wrap([dim(kind, shuffled(rng, G([y for y in names if y != x]) + [arg(x, v())]))]))
        for u in ['size', 'At', 'to', 'from', 'dir', 'center', 'apex', 'from_point', 'to_dir', 'name', 'view', 'scale', 'fmt2', 'from_', 'to_point',
                  'from_dir', 'at']:
            add(wrap([dim(kind, shuffled(rng, G(names) + [arg(u, rng.choice(list(vals.values()))())]))]))
        add(wrap([dim(kind, shuffled(rng, G(names) + [at(1, 2)]))]))
        add(wrap([dim(kind, [])]))
    for f in [('from_dir',), ('from_point',), ('from_dir', 'from_point'), ()]:
        for t in [('to_dir',), ('to_point',), ('to_dir', 'to_point'), ()]:
            v = {'from_dir': pt(1, 0, 0), 'from_point': pt(4, 1, 0), 'to_dir': pt(1, 2, 0), 'to_point': pt(2, 5, 0)}
            add(wrap([dim('angle', shuffled(rng, [arg(x, v[x]) for x in f + t] + [arg('at', pt(3, 3, 0)), arg('apex', pt(1, 1, 0))]))]))
    # draws
    opts = {'scale': ratio(2, 3), 'view': st('Z+'), '@': None}
    A = lambda k: at(1, -1) if k == '@' else arg(k, opts[k])
    for ks in [[], ['scale'], ['view'], ['@'], ['scale', 'view'], ['view', '@'], ['scale', '@'], ['scale', 'view', '@']]:
        for _ in range(2 if len(ks) > 1 else 1):
            add(wrap([], [A(k) for k in shuffled(rng, ks)]), wrap([], [A(k) for k in ks]))
        d = [dim('dim', [arg(x, good['dim'][x]) for x in good['dim']]), dim('rad', [arg(x, good['rad'][x]) for x in good['rad']])]
        out.append(case(cat(load('m', 'm.stl'), page([], [draw('m', [A(k) for k in shuffled(rng, ks)], d, rng)])), files,
                        base=[case(wrap(d, [A(k) for k in ks]), files)]))
    for k in ['scale', 'view', '@']:
        add(wrap([], shuffled(rng, [A(x) for x in ['scale', 'view', '@']] + [A(k)])))
    for k in ['scale', 'view']:
        for v in vals.values():
            add(wrap([], shuffled(rng, [A(x) for x in ['scale', 'view', '@'] if x != k] + [arg(k, v())])))
    for v in ['X+', 'X-', 'Y+', 'Y-', 'Z+', 'Z-', '', 'z+', 'Z', '+Z', 'Z+ ', 'Z+-', 'W+', 'ZP', 'Z++']:
        add(wrap([], [arg('view', st(v))]))
    for v in [(st('Z'), st('+')), (st('X', '-'),)]:
        add(wrap([], [arg('view', sum(v, []))]))
    for a, b in [(1, 1), (0, 1), (1, 0), (0, 0), (-1, 1), (1, -1), (-1, -1), (1, 2), (100, 7), ('1.0', '2.'), ('1.5', 1), (1, '.5'), ('+2', '+3'),
                 ('-0', 1), (1, '-0'), ('0.0', 1), (999, 1000), (100000, 100001), ('2147483648', 1), (1, '4294967297'), ('.0', 1)]:
        add(wrap([], [arg('scale', ratio(a, b))]))
    for u in ['name', 'size', 'at', 'fmt', 'Scale', 'views', 'rotate']:
        add(wrap([], shuffled(rng, [A(x) for x in ['scale', 'view', '@']] + [arg(u, rng.choice(list(vals.values()))())])))
        add(wrap([], [arg(u, rng.choice(list(vals.values()))())]))
    for nm in ['M', 'm2', 'mm', '_m', 'm_']:
        add(cat(load('m', 'm.stl'), page([], [draw(nm)])))
    # text and page
    T = lambda a, *p: cat(load('m', 'm.stl'), page(list(p), [text('t', a)]))
    for a in [[], [at(1, 1)], [at(1, 1), at(2, 2)], [arg('x', num(1))], [at(1, 1), arg('x', num(1))], [arg('name', st('t'))], [arg('scale', ratio(1, 1))],
              [at(1, 1), at(1, 1), at(1, 1)], [arg('at', loc(1, 1))], [arg('view', st('Z+'))], [arg('fmt', st('%f'))]]:
        add(T(a))
    N = lambda *v: [arg('name', x) for x in v]
    for p in [N(), N(st('a')), N(st('a', 'b')), N(st('a'), st('a')), N(st('a'), st('b')), N(num(1)), N(loc(1, 2)), N(pt(1, 2, 3)), N(ratio(1, 2)),
              N(fn('near', pt(1, 2, 3))), N(st('')), [at(1, 1)], N(st('a')) + [at(1, 1)], N(st('a')) + [arg('title', st('x'))], [arg('x', num(1))],
              [arg('Name', st('a'))], [arg('scale', ratio(1, 2))], [arg('fmt', st('%f'))]]:
        add(cat(load('m', 'm.stl'), page(shuffled(rng, p), [text('t')], rng)))
        add(cat(load('m', 'm.stl'), page([], []), page(shuffled(rng, p), [text('t')], rng), page([], [text('u')])))
    if len(out) > n:
        out = rng.sample(out, n)
    yield from out
    # several properties that a statement doesn't know, or that it has twice: each has to be named
    many = []
    for us in [['zeta', 'eta'], ['size', 'At', 'q_'], ['b', 'a', 'c', 'nothing']]:
        U = [arg(u, rng.choice(list(vals.values()))()) for u in us]
        many += [page([], [draw('m', [], [dim(k, shuffled(rng, [arg(x, g[x]) for x in g] + U))])]) for k, g in good.items()]
        many += [page([], [draw('m', shuffled(rng, U + [at(1, 1)]))]), page([], [text('t', shuffled(rng, U + [at(1, 1)]))]),
                 page(shuffled(rng, U + [arg('name', st('t'))]), [text('t')])]
    yield case(cat(load('m', 'm.stl'), *many), files, rng, 'tall')
    many = []
    for k, g in good.items():
        for ks in [rng.sample(list(g), 2), rng.sample(list(g), 3)]:
            many.append(page([], [draw('m', [], [dim(k, shuffled(rng, [arg(x, g[x]) for x in list(g) + ks]))])]))
    for ks in [['scale', 'view'], ['@', 'view'], ['@', 'scale', 'view']]:
        K = [at(1, 1) if k == '@' else arg(k, ratio(1, 2) if k == 'scale' else st('X+')) for k in ks]
        many.append(page([], [draw('m', shuffled(rng, K + K))]))
    yield case(cat(load('m', 'm.stl'), *many), files, rng, 'tall')
    # many values at once, a page each: all of the wrong ones have to be reported, and of the right ones none
    names = {a + b for a in 'xyzXYZW' for b in ['', '+', '-', ' +', '++', '+-', '+ ', '+\n', 'p', 'N', '+\0', '\xb1', '+0']} | \
            {b + a for a in 'XYZ' for b in ['+', ' ', '-']} | {'', 'top', 'TOP', 'Front', 'iso', '[0,0]', '0', 'X+Y+', 'I'}
    known = {a + b for a in 'XYZ' for b in '+-'}
    for group in [sorted(names - known), shuffled(rng, known)]:
        yield case(cat(load('m', 'm.stl'), *[page([], [draw('m', [arg('view', st(v))])]) for v in group]), files, rng, 'tall')
    yield case(cat(load('m', 'm.stl'), *[page([], [draw(v)]) for v in ['M', 'mm', 'm_', '_m', 'm1', 'n', 'X', 'm2m']]), files, rng, 'tall')
    parts = ['0', '-1', '-0', '1', '2', '-16777216', '16777216', '1000000', '+3', '7', '99', '1.0', '3.', '0.0', '-.0', '-7.', '00']
    bad, good = [], []
    for a in parts:
        for b in parts:
            (good if F(a) > 0 and F(b) > 0 else bad).append((a, b))
    for group in [rng.sample(bad, 60), [g for g in rng.sample(good, 12)]]:
        yield case(cat(load('m', 'm.stl'), *[page([], [draw('m', [arg('scale', ratio(a, b))])]) for a, b in group]), files, rng, 'tall')


# ================================================================ C06
def strangers(rng, k):
    """Draws of a name that is almost that of a model."""
    box = [('m.stl', S.stl(S.box((0, 0, 0), (1, 2, 3))))]
    for names in namesakes(rng):
        for who in rng.sample(names, min(k, len(names))):
            rest = [x for x in names if x != who]
            yield case(cat(*[load(x, 'm.stl') for x in rng.sample(rest, min(len(rest), rng.choice([1, 2, 9])))], page([], [draw(who)])), box, rng)
    for a, b in [('mm', 'm'), ('m', 'mm'), ('n', 'm'), ('m', 'n'), ('m1', 'm'), ('_m', 'm'), ('M', 'm'), ('m', 'M')]:
        yield case(cat(load(a, 'm.stl'), page([], [draw(b)])), box, rng)


def gen_C06(rng, n):
    def model(k):
        return S.stl([S.tri((0, 0, 0), (k, 0, 0), (0, F(k) / 2 + 1, 0))])
    for i in range(n):
        size = rng.choice([1, 2, 3, 3, 4, 6])
        dirs = rng.sample(['a', 'b', 'a/b', 'lib/x', 'c c', 'd.d', './e', 'f//g', '@ROOT@/abs', 'no-such', 'x/../y', 'h', 'a/..', 'no/../a', 'a/b/..', 'b/../a', '.', 'e/'], size)
        k, files, made = 1, [], set()
        names = rng.sample(['m.stl', 'n.stl', 'sub/o.stl', 'p', './q.stl', 'b/r.stl', 'm.stl.bak',
                            '../b/r.stl', 'sub/../m.stl', '../m.stl', '../../b/./r.stl', 'b/../n.stl', 'sub/../sub/o.stl'], rng.choice([1, 2, 3]))
        for d in [''] + dirs:
            for nm in names:
                if d != 'no-such' and rng.random() < 0.4:
                    p = (d + '/' if d else '') + nm
                    key = norm(p)
                    if '..' in key.split('/'):
                        p = key = os.path.normpath(key)
                    if key in made or key == '..' or key.startswith('../'):
                        continue
                    made.add(key)
                    kind = rng.random()
                    if kind < 0.05:
                        files.append((p, ('dir', '')))
                    elif kind < 0.1:
                        files.append((p, 'not a model\n'))
                    else:
                        files.append((p, model(k)))
                        k += 1
        if rng.random() < 0.3:
            files.append(('@ROOT@/z/abs.stl', model(k)))
            names.append('@ROOT@/z/abs.stl')
            k += 1
        if rng.random() < 0.3 and '@ROOT@/abs' in dirs:
            names.append('@ROOT@/abs/' + names[0])
        loads, ids = [], []
        for j in range(rng.choice([1, 2, 3, 4])):
            nm = rng.choice(names)
            found = rng.random() < 0.85
            if not found:
                nm = rng.choice(['missing.stl', 'a', '', '/no/such.stl', 'sub/missing', 'lib', 'm.stl/', 'm.stl/.', 'm.stl/../n.stl', '.', '..', 'no/../m.stl', '/..', 'sub'])
            ident = rng.choice(['m%d' % j] * 8 + ['m0'])
            loads.append(load(ident, nm))
            ids.append(ident)
        lp = ','.join(dirs)
        if rng.random() < 0.3:
            lp = rng.choice([',' + lp, lp + ',', lp.replace(',', ',,'), ',,' + lp])
        use = [i for i in ids if rng.random() < 0.8]
        pages = [page([], [draw(i, [at(rng.randrange(-3, 4), 0)])]) for i in use]
        # where each file should come from, as absolute paths
        yield case(cat(*loads, *pages), files, rng, rng.choice(['plain', 'tall']), loadpath=lp)
    # a long load path, same name everywhere
    dirs = ['d%d' % i for i in range(12)]
    for hit in [0, 1, 5, 11]:
        yield case(cat(load('m', 'x.stl'), page([], [draw('m')])), [(d + '/x.stl', model(i + 1)) for i, d in enumerate(dirs) if i >= hit], rng,
                   loadpath=','.join(dirs))
    # names that a file system tells apart, though they look alike
    odd = ['m.stl', ' m.stl', 'm.stl ', 'm.stl\t', '\tm.stl', 'm.stl\n', '\nm.stl', 'M.stl', 'm.STL', 'm.stl.', '.m.stl', 'm,stl', 'm', '"m.stl"', "'m.stl'",
           '~/m.stl', '$HOME/m.stl', 'm*.stl', '%6d.stl', 'm%2estl', '\\m.stl', 'm\\.stl', 'm.stl\r', 'm  n.stl', 'm n.stl', '-', '-m.stl', '\xe9.stl', '\xff', 'm?stl', '#m.stl', 'm.stl#', 'file:m.stl', 'm.stl\0', 'm.stl\0x']
    for i in range(4):
        there = odd[:33] if i == 0 else odd[1:33] if i == 1 else rng.sample(odd[:33], 8)
        files = [((('lib/' if rng.random() < .3 else '') + nm), model(j + 1)) for j, nm in enumerate(odd) if nm in there]
        if i == 0:
            ask = there
            yield case(cat(*[load('m%d' % j, nm) for j, nm in enumerate(ask)], *[page([], [draw('m%d' % j)]) for j in range(len(ask))]), files, rng, loadpath='lib')
        else:
            yield case(cat(*[load('m%d' % j, nm) for j, nm in enumerate(odd)], page([], [text('t')])), files, rng, loadpath='lib')
    for a, b in rng.sample([(a, b) for a in odd for b in odd[:33] if a != b], 12) + [(' m.stl', 'm.stl'), ('m.stl ', 'm.stl'), ('m.stl\n', 'm.stl'), ('\tm.stl', 'm.stl')]:
        yield case(cat(load('m', a), page([], [draw('m')])), [(b, model(1))], rng, loadpath=rng.choice(['', 'lib']))
    # directories of the load path with spaces, and other things in their names
    for d in [' lib', 'lib ', ' ', 'l b', '"lib"', 'lib;x', 'lib:x', '%41', 'lib\tx']:
        yield case(cat(load('m', 'x.stl'), page([], [draw('m')])), [(d + '/x.stl', model(1)), ('lib/x.stl', model(2)), ('x/x.stl', model(3))], rng, loadpath=rng.choice([d, d + ',lib', 'no,' + d]))
        yield case(cat(load('m', 'x.stl'), page([], [draw('m')])), [('lib/x.stl', model(2)), ('x/x.stl', model(3))], rng, loadpath=d)
    # up and down again
    for lp, nm in [('d/e', '../x.stl'), ('d/e', '../../x.stl'), ('d/e,d', '../f/x.stl'), ('d/e', './../x.stl'), ('no,d/e', '../x.stl'), ('d/../d/e', '../x.stl'), ('d/e/..', 'x.stl'),
                   ('d', 'e/../x.stl'), ('d', 'no/../x.stl'), ('no/../d', 'x.stl'), ('d/f/x.stl/..', 'x.stl'), ('d', 'x.stl/'), ('d/e', '.././x.stl'), ('@ROOT@/d/e', '../x.stl'), ('d/e', '..//x.stl')]:
        yield case(cat(load('m', nm), page([], [draw('m')])), [('d/e/y.stl', model(1)), ('d/x.stl', model(2)), ('d/f/x.stl', model(3))] + ([('x.stl', model(4))] if rng.random() < .4 else []), rng, loadpath=lp)
        if lp[0] == '@':
            f = [('@ROOT@/d/e/y.stl', model(1)), ('@ROOT@/d/x.stl', model(2)), ('@ROOT@/d/f/x.stl', model(3))]
            for q_ in [nm, 'd/' + nm, '@ROOT@/d/e/../f/x.stl', '@ROOT@/d/no/../x.stl', '@ROOT@/d/f/x.stl/../../x.stl']:
                yield case(cat(load('m', q_), page([], [draw('m')])), f, rng, loadpath=lp)
    yield from strangers(rng, 2)
    yield case(cat(load('m', '/dev/null'), page([], [draw('m')])), [('/dev/null', '')], rng)
    yield case(cat(load('m', 'x.stl'), load('n', 'x.stl'), page([], [draw('m'), draw('n', [at(2, 2)])])), [('x.stl', model(3))], rng)
    yield case(cat(load('m', '/x.stl'), page([], [draw('m')])), [('x.stl', model(3)), ('lp/x.stl', model(2))], rng, loadpath='lp')


def norm(p):
    return '/'.join(x for x in p.split('/') if x not in ('', '.'))


# ================================================================ C07
def spread(rng, n, z=None):
    """Separate triangles, some of which face away."""
    out, cols = [], max(1, int(math.ceil(math.sqrt(n))))
    for i in range(n):
        x, y = 4 * (i % cols), 4 * (i // cols)
        p = [(x + R(rng, 0, 1), y + R(rng, 0, 1), R(rng, -2, 2)), (x + 2 + R(rng, 0, 1), y + R(rng, 0, 1), R(rng, -2, 2)),
             (x + R(rng, 0, 2), y + 2 + R(rng, 0, 1), R(rng, -2, 2))]
        out.append(S.tri(*p))
    return out


def neg(v):
    return tuple(-x for x in v)


def gen_C07(rng, n):
    def C(body, **kw):
        return case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('scale', ratio(1, 3))])])), [('m.stl', body)], rng, **kw)
    for i in range(n // 2):
        fs = spread(rng, rng.choice([1, 2, 3, 4, 6, 9]))
        k = rng.random()
        if k < 0.3:       # normals that turn facets over, or are missing
            fs = [(f[0], f[1]) if rng.random() < .5 else (neg(f[0]), f[1]) if rng.random() < .6 else ((0, 0, 0), f[1]) for f in fs]
        if k > 0.15:
            fs = [(f[0], tuple(shuffled(rng, f[1]))) for f in fs]
        # normals that are only roughly right
        fs = [(tuple(x + R(rng, -1, 1, 8) / 4 for x in f[0]), f[1]) if rng.random() < .2 and any(f[0]) else f for f in fs]
        yield C(S.stl(fs, rng, rng.choice(['', 'x', 'a name', '  ', 'facet normal 1 2 3', 'endsolid']), rng.choice([1, 1, 2, 3])))
    base = S.stl(spread(rng, 3)).split('\n')[:-1]
    junk = ['facet', 'facet normal', 'facet normal 1 2', 'facet normal 1 2 3 4', 'vertex 1 2', 'vertex 1 2 3 4', 'vertex a b c', 'vertex 1,2,3',
            'vertex', 'outer', 'loop', 'outer loop x', 'end', 'endfacet x', 'endloopx', 'Solid', 'SOLID x', 'solidx', 'color 1 2 3', '#', '', '   ',
            'vertex 1 2 nan', 'vertex inf 0 0', 'vertex 0x10 0 0', 'vertex 1e 0 0', 'vertex 1.2.3 0 0', 'vertex - 0 0', 'vertex + 0 0',
            'vertex . 0 0', 'vertex e5 0 0', 'vertex 1-2 3 4', 'vertex --1 0 0', 'vertex 1e5.5 0 0', 'vertex 1 2 3e+', 'facetnormal 0 0 1',
            'facet normal 0 0 z', '\x00', 'vertex 1 2 3\x00', 'binary \xff\xfe', 'endsolid', 'solid', 'endsolid x y', ' solid', 'endfacet',
            'facet  normal 0 0 1', 'outer  loop', 'vertex1 2 3', 'vertex 1 2 3;', 'endfacet endfacet', 'vertex +1 -2 +.5', 'vertex 1e0 2E0 3e-0',
            'vertex 00 01 1.']
    for i in range(n // 4):
        l = list(base)
        m = rng.randrange(4)
        j = rng.randrange(len(l))
        if m == 0:
            l.insert(j, rng.choice(junk))
        elif m == 1:
            del l[j]
        elif m == 2:
            l.insert(j, rng.choice(base))
        else:
            l[j] = rng.choice(junk)
        yield C('\n'.join(l) + rng.choice(['\n', '\n', '']))
    for x in junk:
        l = list(base)
        l.insert(rng.choice([0, 1, 3, 4, len(l) - 1, len(l)]), x)
        yield C('\n'.join(l) + '\n')
    # facets with other numbers of vertices, and facets that were never finished
    v = '      vertex %d %d 0'
    for k in [0, 1, 2, 4, 5, 6]:
        for nrm in ['0 0 1', '0 0 0']:
            b = ['solid', 'facet normal ' + nrm, 'outer loop'] + [v % (i * i, i) for i in range(k)] + ['endloop', 'endfacet']
            yield C('\n'.join(b + base[1:]) + '\n')
            yield C('\n'.join(base[:-1] + b[1:]) + '\n')
    f = lambda nrm, a: ['facet normal ' + nrm] + [v % p for p in a] + ['endfacet']
    A, B = [(0, 0), (3, 0), (1, 2)], [(5, 0), (8, 0), (5, 4)]
    for l in [f('0 0 0', A) + f('0 0 1', B), f('0 0 1', A)[:-1] + f('0 0 1', B), f('0 0 1', A)[:-2] + f('0 0 1', B), f('0 0 1', A) + f('0 0 1', B)[1:],
              [v % p for p in A] + ['facet normal 0 0 1', 'endfacet'], f('0 0 1', A) + ['endfacet'], f('0 0 1', A)[:1] + f('0 0 1', B),
              f('0 0 1', A) + [v % p for p in B] + ['endfacet'], f('0 0 0', A)[:-1] + ['endfacet', 'facet normal 0 0 1', 'endfacet'],
              f('0 0 0', A[:1]) + f('0 0 1', A), ['facet normal 0 0 1'] + f('0 0 0', A) + f('0 0 1', B),
              f('0 0 1', A)[:2] + ['facet normal 0 0 -1'] + [v % p for p in A] + ['endfacet']]:
        yield C('\n'.join(['solid'] + l + ['endsolid']) + '\n')
        yield C('\n'.join(l + f('0 0 1', [(0, 5), (4, 5), (0, 9)])))
    # degenerate files, two files
    for b in ['', '\n', 'solid\nendsolid\n', 'solid', 'endsolid\n', 'outer loop\nendloop\n', 'facet normal 0 0 1\n', 'vertex 1 2 3\n']:
        yield C(b)
    one, two = f('0 0 1', A), f('0 0 1', B)
    for x, y in [(one[:-1], ['endfacet']), (one[:-1], one), (one[:1], two[1:]), (one, two), (['vertex 9 9 9'], one), (one[:3], two)]:
        yield case(cat(load('m', 'm.stl'), load('n', 'n.stl'), page([], [draw('m', [at(-2, 0)]), draw('n', [at(2, 0)])])),
                   [('m.stl', '\n'.join(x)), ('n.stl', '\n'.join(y))], rng)
    for num in ['1e3', '1E3', '1e+3', '1.5E-2', '-1.e1', '+.5e1', '1e-30', '123456789012345678901', '0.1', '1e22', '3.0000000000000004',
                '2.5e-08', '-0', '1e-300', '000000001', '1.7976931348623157e5']:
        yield C('facet normal 0 0 1\nvertex 0 0 0\nvertex %s 1 0\nvertex 1 2 0\nendfacet\nfacet normal 0 0 1\nvertex 0 0 0\nvertex 5 1 %s\nvertex 1 2 0\nendfacet' % (num, num))
    # all notations of a line
    for nrm in ['0 0 5', '0 0 .001', '1e-9 0 1e-9', '-3 2 1', '0 0 1e10', '1e-200 0 1e-200', '0.577350 0.577350 0.577350', '-0 -0 1']:
        yield C('\n'.join(f(nrm, A)))


# ================================================================ C08
def any_size(rng, facets, a, b, k=None):
    """Now and then in other units, with a scale a:b that keeps the drawing as it is."""
    if k is None:
        k = rng.choice([0, 0, 0, 0, rng.choice([-5, -3, -2, -1, 1, 2, 3, 4, 6])])
    if k == 0:
        return facets, ratio(a, b)
    facets = S.scaled(facets, F(10) ** k)
    return facets, ratio(a * 10 ** max(0, -k), b * 10 ** max(0, k))


def gen_C08(rng, n):
    def C(facets, view=None, sc=None, **kw):
        facets = shuffled(rng, facets)
        facets = [(a, tuple(shuffled(rng, b))) if rng.random() < .5 else (a, b) for a, b in facets]
        if not sc:
            facets, sc = any_size(rng, facets, 1, 4)
        args = ([arg('view', view)] if view else []) + [arg('scale', sc)]
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args)])), [('m.stl', S.stl(facets))], rng, **kw)
    for i in range(n):
        k = i % 6
        if k == 0:        # a surface of smooth and sharp parts
            nx, ny = rng.choice([(1, 1), (2, 2), (3, 2), (4, 4), (6, 3)])
            steep = rng.choice([8, 4, 2, 1])
            h = {(a, b): R(rng, 0, 4, 16) / steep for a in range(nx + 1) for b in range(ny + 1)}
            yield C(S.field(nx, ny, lambda a, b: h[a, b]))
        elif k == 1:      # planes that meet at angles around the threshold
            w = rng.choice([2, 3, 5, 8])
            fs, z, slope = [], F(0), F(0)
            for j in range(w):
                a, b = F(j), F(j + 1)
                slope2 = slope + rng.choice([F(0), F(1, 16), F(1, 8), F(3, 16), F(1, 5), F(51, 256), F(13, 64), F(7, 32), F(1, 4), F(1, 2), -F(1, 4), -F(1, 8)])
                fs += S.quad((a, 0, z), (b, 0, z + slope2), (b, 2, z + slope2), (a, 2, z))
                z, slope = z + slope2, slope2
            yield C(fs)
        elif k == 2:      # prisms from the side and from above
            m = rng.choice([3, 4, 6, 12, 24, 30, 31, 32, 33, 36, 48])
            p = S.ngon(m, 3.0, den=10**5)
            yield C(S.prism(p, 0, 2), st(rng.choice(VIEWS)))
        elif k == 3:      # separate solids in a row, many facets
            fs = []
            for j in range(rng.choice([2, 5, 9])):
                fs += S.moved(S.box((0, 0, 0), (R(rng, 1, 2), R(rng, 1, 2), R(rng, 1, 2))), (3 * j, 0, 0))
            yield C(fs, st(rng.choice(['Z+', 'Z-', 'Y+', 'Y-'])))
        elif k == 4:      # a fan around a point
            m = rng.choice([3, 5, 8, 16])
            ring = S.ngon(m, 2.0, den=1000)
            top = (0, 0, R(rng, -1, 2, 4))
            yield C([S.tri((*ring[j], 0), (*ring[(j + 1) % m], 0), top) for j in range(m) if rng.random() < .9])
        else:             # convex solids from anywhere
            fs = rng.choice([lambda: S.box((0, 0, 0), (R(rng, 1, 3), R(rng, 1, 3), R(rng, 1, 3))), lambda: solid(rng)])()
            fs = fs if len(fs) < 20 else S.box((0, 0, 0), (2, 3, 1))
            yield C(fs, angles(rng) if rng.random() < .6 else st(rng.choice(VIEWS)))
    h = {(a, b): R(rng, 0, 1, 8) for a in range(12) for b in range(12)}
    yield C(S.field(9, 9, lambda a, b: h[a, b]))
    yield C(spread(rng, 60))
    # facets that are seen edge-on or turned away, alone or next to others
    up = S.tri((0, 0, 0), (2, 0, 0), (0, 2, 0))
    for extra in [S.tri((0, 0, 0), (0, 0, -2), (2, 0, 0)), S.tri((0, 0, 0), (0, 2, 0), (0, 0, -1)), (neg(S.tri((2, 0, 0), (2, 2, 0), (0, 2, 0))[0]), ((2, 0, 0), (2, 2, 0), (0, 2, 0))),
                  S.tri((2, 0, 0), (0, 0, -1), (0, 2, 0)), S.tri((2, 0, 0), (3, 3, -4), (0, 2, 0)), S.tri((5, 5, 0), (5, 6, 0), (5, 5, 3))]:
        yield C([up, extra])
        yield C([extra, up])
    yield C([S.tri((5, 5, 0), (5, 6, 0), (5, 5, 3))])
    # facets that are seen almost edge-on, at the border of the drawing or inside
    for k in range(1, 7):
        e = F(rng.choice([1, 2, 4]), 10 ** k)
        a = S.quad((2, 0, 0), (2 + e, 0, -3), (2 + e, 2, -3), (2, 2, 0))
        b = S.tri((0, 0, 0), (0, 2, 0), (-e * 2, 1, -2))
        yield C(S.quad((0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0)) + rng.choice([a, [b], a + [b]]), None, ratio(1, 4))
        yield C([up, S.tri((3, 0, 0), (3, 2, 0), (3 - e, 1, 1))], None, ratio(1, 4))
    # cracks: facets in one plane that don't quite share a side, or share it to the last digit
    for k in range(1, 8):
        gap = F(rng.choice([1, 2, 3]), 10 ** k)
        off = rng.choice([0, 0, 0, 10 if k < 7 else 0, 100 if k < 6 else 0, 1000 if k < 5 else 0])
        size = rng.choice([F(1), F(2), F(1, 4), F(1, 100)])
        def crack(dx, dy, dz):
            p = [tuple(size * c + (off if j < 2 else 0) for j, c in enumerate(q)) for q in [(0, 0, 0), (3, 0, 0), (3, 2, 0), (0, 2, 0), (-2, 1, 0)]]
            d = lambda q: (q[0] - dx * size, q[1] - dy * size, q[2] - dz * size)
            return S.quad(p[0], p[1], p[2], p[3]) + [S.tri(d(p[0]), d(p[3]), p[4]) if dx or dy else S.tri(p[0], p[3], p[4])]
        sc = rng.choice([ratio(1, 4), ratio(1, 4), ratio(2, 1)]) if size > F(1, 10) else ratio(20, 1)
        yield C(crack(gap, 0, 0), None, sc)
        yield C(crack(0, gap, 0), None, sc)
        yield C(crack(gap, 0, gap), None, sc)
        yield C(crack(gap, gap, 0), angles(rng), sc)
        if k in (2, 5, 7):
            yield C(crack(0, 0, 0), None, sc)
    for off in rng.sample([F(100), F(1000), F(7), F(-60), F(30000)], 3):
        g = abs(off) * F(3, 10**8)
        for j in (0, 1):
            def at_(x, y):
                return (off + x, y, 0) if j == 0 else (x, off + y, 0)
            p = [at_(*q) for q in [(0, 0), (3, 0), (3, 2), (0, 2), (3 if j else -2, -2 if j else 1)]]
            low = (lambda q: (q[0] - g, q[1], q[2])) if j == 0 else (lambda q: (q[0], q[1] - g, q[2]))
            a, b = (0, 3) if j == 0 else (1, 0)
            yield C(S.quad(*p[:4]) + [S.tri(low(p[a]), low(p[b]), p[4])], None, ratio(1, 4))


# ================================================================ C09
def sheet(rng, z, size=6, lo=-4):
    """A triangle at about height z."""
    while True:
        p = [(R10(rng, lo, lo + size, 2), R10(rng, lo, lo + size, 2), z + R10(rng, -0.2, 0.2, 2)) for _ in range(3)]
        f = S.tri(*p)
        if f[0][2] > 1:
            return f
        if f[0][2] < -1:
            return S.tri(p[0], p[2], p[1])


def touching(rng, how):
    """A facet, or two that make a face, and one that touches it, or what is right below its border."""
    den = rng.choice([100, 100, 8])
    r = lambda a, b: F(rng.randrange(a * den, b * den), den)
    down = lambda p, d: (p[0], p[1], p[2] - d)
    while True:
        f = S.tri(*[(r(-5, 5), r(-5, 5), r(2, 4)) for _ in range(3)])
        if f[0][2] < 0:
            f = S.tri(f[1][0], f[1][2], f[1][1])
        if f[0][2] <= 3:
            continue
        v = f[1]
        on = lambda k: tuple(p + (q - p) * k for p, q in zip(v[1], v[2]))
        mid = lambda *w: tuple(sum(c * x for c, x in zip([p[i] for p in v], w)) for i in range(3))
        inner = mid(F(1, 4), F(1, 4), F(1, 2))
        fs, b, c = [f], down(inner, 2), (r(-9, 9), r(-9, 9), F(-30))
        if how == 'corner':
            a = v[0]
        elif how == 'under':
            a = down(v[0], 1)
        elif how == 'side':
            a = down(on(F(rng.randrange(1, 8), 8)), 1)
        elif how == 'on side':
            a = on(F(rng.randrange(1, 8), 8))
        elif how == 'past':      # below a corner from outside
            a = down(tuple(p - (q - p) * F(rng.randrange(1, 8), 4) for p, q in zip(v[0], inner)), 1)
            b = down(tuple(p + (q - p) * F(3, 4) for p, q in zip(v[0], inner)), 1)
        elif how == 'stand':     # on the face, inside it or from side to side
            a, b = rng.choice([(inner, mid(F(1, 2), F(1, 4), F(1, 4))), (v[0], inner), (on(F(1, 4)), inner), (on(F(1, 2)), v[0])])
            c = (a[0] + r(-2, 2), a[1] + r(-2, 2), F(9))
        else:                    # along the seam of two facets, below it
            fs = [f, S.tri(v[1], tuple(x + y - z for x, y, z in zip(v[1], v[2], v[0])), v[2])]
            k, l = rng.choice([(F(1, 8), F(7, 8)), (F(1, 4), F(1, 2)), (F(-1, 4), F(5, 4)), (F(0), F(1)), (F(-1, 2), F(1, 2)), (F(0), F(1, 2))])
            a, b = down(on(k), 1), down(on(l), rng.choice([1, 2]))
        g = S.tri(a, b, c)
        if g[0][2] < 0:
            g = S.tri(a, c, b)
        k = rng.randrange(3)
        fs = fs + [(g[0], g[1][k:] + g[1][:k])]
        if g[0][2] != 0 and separate(fs):
            return fs


def gen_C09(rng, n):
    def C(facets, view=None, **kw):
        facets, sc = any_size(rng, facets, 1, 3)
        args = ([arg('view', view)] if view else []) + [arg('scale', sc)]
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args)])), [('m.stl', S.stl(shuffled(rng, facets)))], rng, **kw)
    for i in range(n):
        k = i % 6
        if k == 0:        # sheets above each other
            m = rng.choice([2, 3, 3, 4, 5, 7])
            yield C([sheet(rng, F(j)) for j in range(m)])
        elif k == 1:      # boxes behind each other, seen from a side
            fs = []
            z = F(0)
            for j in range(rng.choice([2, 3, 4])):
                d = R(rng, 1, 2, 4)
                x, y = R(rng, -3, 3, 4), R(rng, -3, 3, 4)
                fs += S.box((x, y, z), (x + R(rng, 1, 5, 4), y + R(rng, 1, 5, 4), z + d))
                z += d + R(rng, 1, 2, 4)
            yield C(fs, st(rng.choice(['Z+', 'Z-'])))
        elif k == 2:      # a concave solid or several, from anywhere
            fs = solid(rng)
            if len(fs) < 14:
                fs = fs + S.moved(solid(rng), (R10(rng, -2, 8, 1), R10(rng, -2, 8, 1), R10(rng, 7, 9, 1)))
            yield C(fs[:40], angles(rng))
        elif k == 3:      # one long edge behind many strips
            m = rng.choice([2, 3, 4, 6])
            fs = [S.tri((-9, R10(rng, -1, 0, 2), -5), (9, R10(rng, -1, 0, 2), -5), (0, 8, -5))]
            for j in range(m):
                a = R10(rng, -7, 6, 2)
                b = a + R10(rng, 0.2, 5, 2)
                z = F(j, 2)
                fs += S.quad((a, -2, z), (b, -2, z), (b + R10(rng, 0, 1, 1), 9, z), (a + R10(rng, 0, 1, 1) / 2, 9, z))
            yield C(fs)
        elif k == 4:      # nested: a small thing entirely behind a big one, or in front of it
            zs = rng.choice([(0, 3), (3, 0)])
            big = S.box((-4, -4, zs[0]), (4, 4, zs[0] + 1))
            small = S.tetra(*[(R10(rng, -3, 3, 2), R10(rng, -3, 3, 2), zs[1] + R10(rng, 0, 1, 2)) for _ in range(4)])
            yield C(big + small, rng.choice([None, None, loc(10, 20), loc(-30, 15)]))
        else:             # tilted sheets: visible at one end, hidden at the other
            a = S.tri((-5, -1, R10(rng, -3, -1, 1)), (5, -1, R10(rng, 1, 3, 1)), (0, 6, 0))
            fs = [a] + [S.tri((x, -4, 0), (x + R10(rng, 1, 3, 1), -4, 0), (x + R10(rng, -1, 1, 1), 7, R10(rng, -1, 1, 1)))
                        for x in [R10(rng, -5, 3, 1)]]
            fs = [f if f[0][2] > 0 else S.tri(f[1][0], f[1][2], f[1][1]) for f in fs]
            yield C(fs if separate(fs) else [fs[0]], None)
    # hidden parts that overlap, touch or contain each other
    L = [S.tri((-9, 0, -5), (9, 0, -5), (0, 9, -5))]
    def strip(a, b, z):
        return S.quad((a, -1, z), (b, -1, z), (b, 10, z), (a, 10, z))
    for spans in [[(-3, 1), (1, 4)], [(-3, 1), (0, 4)], [(-5, 5), (-1, 1)], [(-1, 1), (-5, 5)], [(-3, 1), (-3, 4)], [(-3, 4), (1, 4)], [(-2, 2), (-2, 2)],
                  [(-8, -6), (-4, -2), (0, 2), (4, 6)], [(-10, 10)], [(-10, 0), (0, 10)], [(-10, -8), (8, 10)], [(-6, 6), (-5, -4), (-3, 3), (4, 8)],
                  [(-3, 1), (2, 4), (0, 3)], [(-9, 9)], [(-9, 0)], [(0, 9)]]:
        for order in (1, -1):
            sp = spans[::order]
            yield C(L + sum([strip(F(a), F(b), F(i)) for i, (a, b) in enumerate(sp)], []))
    for spans in [[(-3, 1), (1, 4)], [(-8, -6), (-6, -2), (-2, 6)]]:      # in one plane
        yield C(L + sum([strip(F(a), F(b), F(0)) for a, b in spans], []))
    # a long edge behind many blinds, apart or over each other
    for m, wide in [(18, F(1, 2)), (34, F(1, 4)), (20, F(3, 2))]:
        yield C([S.tri((-40, 0, -5), (40, 0, -5), (0, 9, -5))] +
                [S.tri((F(4 * j, 2) - m, F(-1) - F(j % 5, 8), F(j % 7)), (F(4 * j, 2) - m + wide * 2, F(-1) - F(j % 3, 8), F(j % 7)), (F(4 * j, 2) - m + wide, F(1) + F(j % 4, 8), F(j % 7)))
                 for j in range(m)])
    # facets that share a corner or a side and hide part of each other from there on
    for i in range(6):
        m = rng.choice([2, 3, 4])
        slopes = sorted(rng.sample(range(-6, 7), m))
        fs = []
        for sl in slopes:
            z = lambda x: F(sl, 2) * x
            x1, x2 = R(rng, 1, 4, 4), R(rng, 1, 4, 4)
            y1, y2 = R(rng, -4, 0, 4), R(rng, 1, 5, 4)
            a, b, c = (0, 0, 0), (x1, y1, z(x1)), (x2, y2, z(x2))
            if i % 3 == 2:
                a = (0, rng.choice([0, 0, 1, 2]), 0)
            if i % 3 == 1 and rng.random() < .5:
                c = (0, R(rng, 2, 4, 2), 0)
            f = S.tri(a, b, c)
            v = f[1]
            r = rng.randrange(3)
            fs.append((f[0], v[r:] + v[:r]))
        if all(f[0][2] > 0 for f in fs):
            yield C(fs)
            yield C([((-n_[0], n_[1], n_[2]), tuple((-p[0], p[1], p[2]) for p in (v[0], v[2], v[1]))) for n_, v in fs])
    # steep facets that dive from above one facet, beside it, to below another part of the same one
    for i in range(4):
        while True:
            lo, hi = R(rng, -9, -2, 2), R(rng, 2, 9, 2)
            x = R(rng, 1, 12, 4)
            fs = ([S.tri((0, -3, -1), (6, 0, 0), (0, 3, 1)), S.tri((-x - 1, R(rng, -1, 1, 4), hi), (2, -1, lo), (2, 1, lo))] if i % 2 else
                  S.quad((0, -3, 0), (5, -3, 0), (5, 3, 0), (0, 3, 0)) + [S.tri((-x, 0, hi), (R(rng, 1, 4, 4), -1, lo), (R(rng, 1, 4, 4), R(rng, 0, 2, 4), lo))])
            if separate(fs):
                break
        yield C(fs)
    for fam in ['corner', 'under', 'side', 'on side', 'past', 'stand', 'stand', 'seam', 'seam', 'seam']:
        for view in (None, None, loc(rng.choice([7, 13, 24, 33, 100]), rng.choice([3, 5, 8, 12])), st('Z+')):
            yield C(touching(rng, fam), view)
    # faces that are hardly in front of what they hide, flat, tilted, small and far from the origin
    for gap in [F(1, 10), F(1, 100), F(1, 500), F(1, 1000), F(1, 2000), F(1, 5000), F(1, 16000)]:
        size, off, tilt = F(1) if gap < F(1, 9000) else rng.choice([F(1), F(1), F(4)]), 0 if gap < F(1, 9000) else rng.choice([0, 0, 16]), rng.choice([F(0), F(0), F(1, 8), -F(1, 4)])
        def flat(a, j):
            ps = [((x + j) * size, y * size) for x, y in a]
            return S.tri(*[(x + off, y + off, tilt * x + gap * j) for x, y in ps])
        m = rng.choice([2, 2, 3, 4])
        fs = [flat([(0, j % 2), (5, F(j, 4)), (1, 4)], j) for j in range(m)]
        yield C(fs)
        yield C(L + strip(F(-3), F(1), -5 + gap) + strip(F(0), F(4), -5 + 2 * gap))
        x, y = R(rng, 0, 1, 8), R(rng, 0, 1, 8)      # all of it, and some of it, under a larger one
        yield C([S.tri((x, y, 0), (x + 1, y, 0), (x, y + 1, 0)), S.tri((x + 1, -2, 0), (6, y, 0), (x + 1, 1, 0)), S.tri((-1, -1, gap), (4, -1, gap), (-1, 4, gap))])
        if rng.random() < .5:
            yield C(S.box((0, 0, 0), (4, 4, 1)) + S.box((1, 1, 1 + gap), (3, 5, 2)), rng.choice([None, st('Z-'), loc(20, 30)]))
    step = S.prism([(0, 0), (4, 0), (4, 1), (2, 1), (2, 3), (0, 3)], 0, 2)
    for v in VIEWS:
        yield C(step, st(v))
        yield C(S.washer(S.ngon(8, 4), S.ngon(8, 2), 0, 1), st(v))
    for v in [loc(30, 60), loc(-20, 120), loc(50, 20), loc(200, -40)]:
        yield C(step, v)
        yield C(S.washer(S.ngon(6, 4), S.ngon(6, 2), 0, 3), v)


def separate(fs):
    """Two triangles don't pass through each other (by sampling their sides)."""
    def hits(seg, t):
        n, v = t
        a, b = seg
        da, db = S.dot(n, S.sub(a, v[0])), S.dot(n, S.sub(b, v[0]))
        if da * db >= 0:
            return False
        k = da / (da - db)
        p = S.add(a, S.mul(S.sub(b, a), k))
        return all(S.dot(n, S.cross(S.sub(v[(i + 1) % 3], v[i]), S.sub(p, v[i]))) > 0 for i in range(3))
    for i, f in enumerate(fs):
        for j, g in enumerate(fs):
            if i != j and any(hits((f[1][k], f[1][(k + 1) % 3]), g) for k in range(3)):
                return False
    return True


# ================================================================ C10
WEDGE = [S.tri(*p) for p in [((0, 0, 0), (3, 0, 0), (0, 0, 5))]]


def chiral():
    """A solid no rotation maps to itself or its mirror image."""
    return S.tetra((0, 0, 0), (3, 0, 0), (0, 5, 0), (1, 1, 7))


def gen_C10(rng, n):
    facets = chiral()
    def C(view, dims=(), f=facets):
        args = [arg('view', view)] if view else []
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args + [arg('scale', ratio(1, 3))], dims)])), [('m.stl', S.stl(f))], rng)
    def D(v=None):
        out = [dim('dim', [arg('at', point(rng)), arg('dir', pt(*v3)), arg('from', pt(*corner(rng, facets))), arg('to', pt(*corner(rng, facets)))])
               for v3 in [vec(rng) for _ in range(rng.choice([0, 1, 2]))]]
        return out
    for v in [None] + [st(x) for x in VIEWS]:
        yield C(v)
        yield C(v, [dim_stmt(rng, facets, None if v is None else v[0].strip('"')) for _ in range(2)])
        name = 'Z+' if v is None else v[0].strip('"')
        yield C(v, [angle_stmt(rng, name)])
        df, c, r = disc(rng, 6, F(2), (F(1), F(1)), name)
        yield C(v, [circle_stmt(rng, 'dia', name, c, r), circle_stmt(rng, 'rad', name, c, r)], df)
        yield C(v, [dim('dim', [arg('at', pt(*paper(name, 4, 4))), arg('dir', pt(*paper(name, 1, 0))), arg('from', fn('near', pt(*paper(name, -9, -9)))),
                                arg('to', fn('near', pt(*paper(name, 9, 9))))])])
    for v in [loc(0, 0), loc('0.0', '-0'), loc(360, 0), loc(0, 360)]:
        if v == loc(0, 0) or '0.0' in v:
            yield C(v, D())
    for ab in [(0, 30), (30, 0), (0, -30), (-30, 0), (0, 60), (0, 120), (45, 45), (-45, 45), (45, -45), (135, 45), (225, 30), (315, 30), (30, 150),
               (720 + 30, 20), (-400, 20), ('12.5', '33.25'), (1, 1), (179, 1), (30, 89), (30, 91), (60, 200), (60, 300), (-170, -170)]:
        yield C(loc(*ab))
    for i in range(n):
        v = angles(rng)
        ds = D()
        if rng.random() < 0.4:
            # points and directions that are turned with the model
            ds.append(dim('angle', [arg('apex', pt(0, 0, 0)), arg('at', pt(3, 5, 0)), arg('from_dir', pt(1, 0, R(rng, -1, 1, 4))),
                                    arg('to_point', pt(R(rng, -2, 0, 4), 5, R(rng, 0, 7, 4)))]))
        if rng.random() < 0.3:
            ds.append(dim('dim', [arg('at', point(rng)), arg('dir', pt(*vec(rng))), arg('from', fn('near', point(rng, -9, 9))),
                                  arg('to', fn('near', fn('near', point(rng, -9, 9))))]))
        f = facets if rng.random() < .7 else solid(rng)
        yield C(v, ds, f if len(f) < 16 else facets)
    # points that are turned before something is looked up with them
    for i in range(6):
        v = angles(rng) if i % 3 else st(rng.choice(VIEWS))
        q = lambda: rng.choice([fn('near', point(rng, -9, 9)), fn('center', point(rng, -9, 9)), fn('near', fn('center', point(rng, -9, 9))), fn('center', fn('near', point(rng, -9, 9))),
                                fn('near', fn('near', point(rng, -9, 9)))])
        yield C(v, [dim('dim', [arg('at', point(rng)), arg('dir', pt(*vec(rng))), arg('from', q()), arg('to', q())]) for _ in range(4)])
    # views that are nearly the same, one after the other
    for i in range(3):
        a, b = rng.choice([(30, 40), (-50, 25), (110, 60)])
        vs = [(a, b), (a + F(1, 2), b), (a, b + F(1, 4)), (a + F(1, 8), b - F(1, 8)), (b, a), (a, -b), (-a, b), (a + 90, b)]
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('view', loc(*w)), arg('scale', ratio(1, 4)), at(j % 4 * 2 - 3, j // 4 * 4 - 2)])
                                                     for j, w in enumerate(shuffled(rng, vs))])), [('m.stl', S.stl(facets))], rng)
    # a circle that is turned to face the viewer only approximately
    for ab in [(0, 20), (30, 10), (-50, 15)]:
        df, c, r = disc(rng, 8, F(2), (F(0), F(0)))
        yield C(loc(*ab), [], df)


# ================================================================ C11
def gen_C11(rng, n):
    def C(facets, args, dims=()):
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args, dims)])), [('m.stl', S.stl(facets))], rng)
    scs = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 2), (1, 10), (10, 1), (1, 100), (7, 3), (1, 64), (5, 8), (100, 100), (25, 1), (1, 7), (2, 4), (13, 17),
           (1, 1000), (3, 1000), ('1.0', '3.0'), ('+2', '6'), (127, 128), (1000000, 1000000), (65536, 65537), (1, 12), (1, 48), (11, 1)]
    for s in scs + [None]:
        a = [arg('scale', ratio(*s))] if s else []
        k = F(s[1]) / F(s[0]) if s else F(1)
        f = S.scaled(chiral(), S.q(k, 64) if k > F(1, 10) else F(1, 8))
        yield C(f, a)
        yield C(f, a + place(rng, 1), [dim_stmt(rng, f)])
    for i in range(n):
        f = S.moved(chiral() if rng.random() < .5 else ONE, tuple(R10(rng, -50, 50, 1) for _ in range(3))) if rng.random() < .6 else chiral()
        a = shuffled(rng, place(rng, .8) + ([arg('scale', ratio(rng.randint(1, 20), rng.randint(1, 60)))] if rng.random() < .8 else []) +
                     ([arg('view', st(rng.choice(VIEWS)))] if rng.random() < .5 else []))
        ds = []
        view = 'Z+'
        for x in a:
            if x[0] == 'view':
                view = x[2].strip('"')
        if rng.random() < 0.6:
            ds = [dim_stmt(rng, f, view)]
        if rng.random() < 0.4:
            ds.append(angle_stmt(rng, view))
        if rng.random() < 0.3:
            f, c, r = disc(rng, view=view)
            ds.append(circle_stmt(rng, rng.choice(['dia', 'rad']), view, c, r))
        yield C(f, a, ds)
    # what isn't seen doesn't count for the bounding box
    t = S.tri((0, 0, 0), (2, 0, 0), (0, 3, 0))
    back = S.tri((-7, 0, 0), (-7, 2, 0), (-5, 0, 0))
    for fs in [[t], [t, (neg(back[0]), back[1])], [t, back], [back], [t, S.tri((9, 9, 0), (9, 9, 5), (9, 12, 0))], [], S.moved([t], (100, 200, 300)),
               [S.tri((-1, -2, 0), (3, -2, 0), (3, 5, 0))], [S.tri((1, 2, 0), (3, 2, 0), (3, 5, 0))], [S.tri((-9, -9, 0), (-3, -8, 0), (-4, -5, 0))]]:
        yield C(fs, [])
        yield C(fs, [arg('scale', ratio(1, 2)), at(1, 1)])
    for k in range(1, 6):        # a facet that is hardly seen counts
        e = F(rng.choice([1, 2, 4]), 10 ** k)
        side = S.tri((2, 0, 0), (2 + e, 0, -3), (3 * e + 2, 5, -3)) if rng.random() < .5 else S.tri((0, 0, 0), (0, 4, 0), (-e, 5, -3))
        yield C([t, side], [])
        yield C([t, S.tri((3, 0, 0), (3, 4 + k, 0), (3 - e, 1, 1))], [arg('scale', ratio(1, 2)), at(1, 1)])
    for k in (-6, -4, 4, 6, 8):
        fs, sc = any_size(rng, chiral(), rng.choice([1, 2]), rng.choice([1, 4]), k)
        yield C(fs, [arg('scale', sc)] + place(rng, .8), [dim_stmt(rng, fs)])
    for p in [('0', '0'), ('-5.5', '-4.25'), ('.1', '.2'), ('-.3', '0'), ('100', '-50'), ('0.001', '0.002'), ('-0', '-0')]:
        yield C(ONE, [at(*p)])


# ================================================================ C12
def gen_C12(rng, n):
    def C(dims, view=None, sc=None, f=ONE, **kw):
        args = ([arg('view', st(view))] if view else []) + ([arg('scale', ratio(*sc))] if sc else [])
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args, dims)])), [('m.stl', S.stl(f))], rng, **kw)
    P = lambda *a: pt(*a)
    def mk(a, d, f, t, *x):
        return dim('dim', [arg('at', P(*a)), arg('dir', P(*d)), arg('from', P(*f)), arg('to', P(*t))] + list(x))
    dirs = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0), (3, 1, 0), (1, 3, 0), (-3, 1, 0), (2, '-.5', 0),
            ('.001', 0, 0), (1000, 1, 0), (0, 1000, 0), ('.01', '-.02', 0), (1, 0, 1), (0, 1, -1), (1, 1, 1), (0, 0, 1), (0, 0, -2)]
    for d in dirs:
        yield C([mk((1, 4, 0), d, (0, 0, 0), (3, 2, 0))])
        yield C([mk((1, -3, 0), d, (3, 2, 0), (0, 0, 0))], sc=(1, 2))
    # around the point where the label has room
    for k in range(0, 40):
        l = F(k, 16)
        if k % 2:
            yield C([mk((l / 2, 2, 0), (1, 0, 0), (0, 0, 0), (l, 0, 0), *fmt_arg(rng))])
        else:
            yield C([mk((2, l / 2, 0), (0, 1, 0), (0, 0, 0), (0, l, 0), *fmt_arg(rng))])
    for sc in [(1, 1), (1, 2), (1, 4), (1, 8), (2, 1), (1, 20), (1, 60)]:
        yield C([mk((1, 1, 0), (1, 2, 0), (0, 0, 0), (2, 1, 0))], sc=sc)
        yield C([mk((1, 1, 0), (2, 1, 0), (0, 0, 0), (2, 1, 0))], sc=sc)
    # what a dim states is the distance to the last digit, however short or long it is
    for k in range(-6, 5):
        for m in [1, F(rng.randrange(11, 99), 10)]:
            l = m * F(10)**k
            f = [arg('fmt', st(rng.choice(['%.9f', '%.12f', '%.7f', '%f'])))]
            yield C([mk((1, 1, 0), (0, 1, 0), (0, l, 0), (0, 0, 0), *f)], sc=(1, 1000) if k > 1 else None)
            yield C([mk((1, 1, 0), (1, -1, 0), (0, l, 0), (l, 0, 0), *f), mk((1, 1, 0), (1, 0, 0), (0, l, 0), (l, 0, 0), *f)], sc=(1, 1000) if k > 1 else None)
    # extension lines on both sides of the dimension line, and on it
    for f, t in [((0, 0, 0), (4, 0, 0)), ((0, 4, 0), (4, 4, 0)), ((0, 0, 0), (4, 4, 0)), ((0, 4, 0), (4, 0, 0)), ((0, 2, 0), (4, 2, 0)), ((0, 2, 0), (4, 0, 0)),
                 ((4, 0, 0), (0, 0, 0)), ((4, 4, 0), (0, 0, 0)), ((2, 2, 0), (2, 2, 0)), ((0, 0, 0), (0, 4, 0)), ((0, 0, 0), (0, 0, 5)), ((1, 1, 1), (1, 1, 1))]:
        for a in [(2, 2, 0), (9, 2, 0), (-5, 2, 0), (2, 2, 3)]:
            yield C([mk(a, (1, 0, 0), f, t)])
    for i in range(n):
        view = rng.choice([None] + VIEWS)
        yield C([dim_stmt(rng, chiral() if rng.random() < .3 else None, view or 'Z+') for _ in range(rng.choice([1, 1, 2]))], view,
                rng.choice([None, (1, 2), (2, 1), (1, 5), (3, 7)]), chiral() if rng.random() < .2 else ONE)
    for i in range(n // 5):
        v = angles(rng)
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('view', v)], [dim_stmt(rng, ONE)])])), [('m.stl', S.stl(ONE))], rng)
    big = lambda: R10(rng, -3000, 3000, 2)
    for i in range(max(4, n // 10)):
        yield C([mk((big(), big(), 0), (big(), big(), 0), (big(), big(), 0), (big(), big(), 0))], sc=(1, 1000))
    for i in range(max(4, n // 10)):
        s = lambda: R10(rng, -1, 1, 4) / 100
        yield C([mk((s(), s(), 0), (s(), s() + 1, 0), (s(), s(), 0), (s(), s(), 0))], sc=(100, 1))


# ================================================================ C13
def gen_C13(rng, n):
    def C(dims, view=None, sc=None):
        args = ([arg('view', st(view))] if view else []) + ([arg('scale', ratio(*sc))] if sc else [])
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args, dims)])), [('m.stl', S.stl(ONE))], rng)
    dirs = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1), (3, 1), (-5, 1), (1, -7), (100, 1), (1, 'e')]
    dirs = dirs[:-1]
    def mk(ap, a, d1, d2, p1, p2, x=()):
        g = lambda w, d, p: arg(w + ('_point' if p else '_dir'), pt(*[ap[i] + d[i] for i in range(2)], 0) if p else pt(*d, 0))
        return dim('angle', [arg('at', pt(*a, 0)), arg('apex', pt(*ap, 0)), g('from', d1, p1), g('to', d2, p2)] + list(x))
    pairs = [(a, b) for a in dirs for b in dirs]
    for a, b in rng.sample(pairs, min(len(pairs), max(40, n // 2))):
        yield C([mk((1, 1), (3, 2), a, b, rng.random() < .5, rng.random() < .5)])
    # blunt and acute, parallel and nearly so
    for k in [1, 2, 3, 4, 5, 6]:
        e = F(1, 10**k)
        for d in [(1, e), (-1, e), (1, -e), (-1, -e)]:
            yield C([mk((0, 0), (2, 1), (1, 0), d, False, rng.random() < .5)])
    for d in [(1, 0), (-1, 0), (2, 0), (0, 0), ('.001', 0), (1000, 0)]:
        for p in (False, True):
            yield C([mk((0, 0), (2, 1), (1, 0), [F(x) for x in d], p, p)])
            yield C([mk((2, 3), (2, 1), [F(x) for x in d], (3, 0), p, not p)])
    # every digit of it, also where cos or sin alone would lose some
    for k in range(7):
        e = F(rng.randrange(1, 9), 10**k)
        for d in [(1, e), (-1, e), (e, 1), (-e, 1)]:
            yield C([mk((0, 0), (2, 1), (1, 0), d, k % 2 == 0, False, [arg('fmt', st(rng.choice(['%.6f', '%.9f', '%.4f'])))])])
    for t in [(1, 2), (3, 7), ('.1', '.3'), (5, '.7'), ('.123', '.457'), (11, 13), ('1.1', '2.3')]:
        t = [F(x) for x in t]
        for k in [2, 3, -1, F(1, 2), -F(7, 8), 10]:
            yield C([mk((0, 0), (2, 1), t, [x * k for x in t], False, False)])
            yield C([mk((1, F(1, 2)), (2, 1), t, [x * k for x in t], True, rng.random() < .5)])
    for i in range(n):
        view = rng.choice([None] + VIEWS)
        yield C([angle_stmt(rng, view or 'Z+') for _ in range(rng.choice([1, 1, 2]))], view, rng.choice([None, (1, 2), (2, 1), (1, 5), (3, 7)]))
    for i in range(n // 5):
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('view', angles(rng))], [angle_stmt(rng, 'Z+')])])), [('m.stl', S.stl(ONE))], rng)
    for a in [(1, 1), (0, 0), (5, 0), (0, 5), (-3, -3), (1, '-.001')]:       # at: right at the apex, behind it
        yield C([mk((0, 0), [F(x) for x in a], (1, 0), (1, 2), False, True)])
        yield C([mk((0, 0), [F(x) for x in a], (-1, 3), (-1, -2), True, False)], sc=(1, 3))


# ================================================================ C14
def ring_model(rng, n, r, c, z=0):
    """Points of a circle as an n-gon of triangles around nothing (a strip)."""
    outer = S.ngon(n, float(r), (float(c[0]), float(c[1])), rng.random() * 6, 10**6)
    inner = [(S.q(c[0] + (p[0] - c[0]) / 2, 10**6), S.q(c[1] + (p[1] - c[1]) / 2, 10**6)) for p in outer]
    out = []
    for i in range(n):
        j = (i + 1) % n
        out += S.quad((*outer[i], z), (*outer[j], z), (*inner[j], z), (*inner[i], z))
    return out


def gen_C14(rng, n):
    def C(facets, dims, view=None, sc=None, shuffle=True):
        args = ([arg('view', st(view))] if view else []) + ([arg('scale', ratio(*sc))] if sc else [])
        return case(cat(load('m', 'm.stl'), page([], [draw('m', args, dims)])), [('m.stl', S.stl(shuffled(rng, facets) if shuffle else facets))], rng)
    def cs(kind, view, c, r, **kw):
        return circle_stmt(rng, kind, view, c, r, **kw)
    for i in range(n):
        view = rng.choice([None, 'Z+'] + VIEWS)
        v = view or 'Z+'
        kind = rng.choice(['dia', 'rad'])
        k = i % 5
        sc = rng.choice([None, (1, 2), (1, 4), (2, 1), (3, 7)])
        if k in (0, 1):
            f, c, r = disc(rng, view=v)
            yield C(f, [cs(kind, v, c, r)], view, sc)
        elif k == 2:      # a plate with two holes
            c1, c2, r1, r2 = (F(-5), F(0)), (F(5), F(1)), R(rng, 1, 3, 4), R(rng, 1, 3, 4)
            f = ring_model(rng, rng.choice([5, 8, 11]), r1, c1) + ring_model(rng, rng.choice([6, 7]), r2, c2)
            yield C(f, [cs('dia', 'Z+', c1, r1 / 2), cs('rad', 'Z+', c2, r2 / 2)], None, sc)
        elif k == 3:      # any vertices
            f = spread(rng, rng.choice([1, 2, 3]))
            yield C(f, [dim(kind, [arg('at', pt(R(rng, -3, 9, 4), R(rng, -3, 9, 4), 0)), arg('dir', pt(nz(rng, lambda: R(rng, -2, 2, 4)), nz(rng, lambda: R(rng, -2, 2, 4)), 0)),
                                   arg('center', pt(R10(rng, -3, 9, 3), R10(rng, -3, 9, 3), 0))])], None, sc)
        else:             # stacked circles: twice the same points on paper
            f, c, r = disc(rng, rng.choice([5, 7, 8]), view='Z+')
            f = f + [(b[0], tuple((p[0], p[1], p[2] - 3) for p in b[1])) for b in f]
            yield C(f, [cs(kind, 'Z+', c, r)], None, sc)
    # what they state is the diameter to the last digit, of circles of any size and with any number of vertices
    for k in range(-3, 5):
        r = F(rng.randrange(11, 99), 10) * F(10)**k
        f, c, _ = disc(rng, rng.choice([5, 7, 8]), F(1), (F(0), F(0)))
        f = S.scaled(f, r)
        yield C(f, [dim(x, [arg('at', pt(r * 2, r * 2, 0)), arg('dir', pt(1, 3, 0)), arg('center', pt(r / 8, 0, 0)), arg('fmt', st(y))])
                    for x, y in [('dia', '%.9f'), ('rad', '%.7f')]], None, (1, 1000) if k > 0 else None)
    for m in (40, 66, 131):
        # not quite round: each vertex counts
        p = S.ngon(m, 3.0, (1.0, 0.0), rng.random(), 10**6)
        p = [(S.q(x * (1 + .01 * i / m), 10**6), S.q(y * (1 - .01 * i / m), 10**6)) for i, (x, y) in enumerate(p)]
        f = [S.tri((1, 0, 2), (*p[i], 0), (*p[(i + 1) % m], 0)) for i in range(m)]
        if m < 60:      # some of them twice, one above the other
            f += [S.tri((1, 0, 3), (*p[i], 1), (*p[(i + 1) % m], 1)) for i in range(m) if i % 7 < 2]
        yield C(f, [dim('dia', [arg('at', pt(5, 5, 0)), arg('dir', pt(1, 3, 0)), arg('center', pt('3.5', 0, 0)), arg('fmt', st('%.9f'))])])
    # the leader: towards every side
    f, c, r = disc(rng, 8, F(2), (F(0), F(0)))
    for d in [(1, 1), (1, -1), (-1, 1), (-1, -1), (3, 1), (1, 3), (1, 0), (0, 1), (-1, 0), (0, -1)]:
        for a in [(4, 4), (-4, 4), (1, 1), (3, '.5'), ('-.5', 3), (0, -4), (2, 9)]:
            if rng.random() < 0.45:
                yield C(f, [dim(rng.choice(['dia', 'rad']), [arg('at', pt(*a, 0)), arg('dir', pt(*d, 0)), arg('center', pt('.1', '.05', 0))])])
    t = [S.tri((0, 0, 0), (4, 0, 0), (0, 3, 0))]
    for x in ['dia', 'rad']:
        g = lambda a=(5, 5, 0), d=(1, 1, 0), c=(0, 0, 0): dim(x, [arg('at', pt(*a)), arg('dir', pt(*d)), arg('center', pt(*c))])
        yield C(t, [g()])
        yield C(t, [g(d=(0, 0, 1))])
        yield C(t, [g(d=(0, 0, 0))])
        yield C(t, [g(d=(1, 2, 5))])
        yield C(t, [g(d=(0, 0, 1))], 'X+')
        yield C([], [g()])
        yield C([S.tri((0, 0, 0), (4, 0, 0), (0, 0, 3))], [g()])                   # seen edge-on: nothing is seen
        yield C(S.quad((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)), [g(c=('.5', '.5', 0))])
        # vertices on a line
        lin = [S.tri((i, 0, 0), (i + 1, 0, 0), (0, 50, 0)) for i in range(4)]
        yield C(lin, [g(c=(2, 0, 0))])
        diag = [S.tri((F(i, 10), F(3 * i, 10), 0), (F(i + 1, 10), F(3 * i + 3, 10), 0), (-50, 50, 0)) for i in range(4)]
        yield C(diag, [g(c=('.2', '.6', 0))])
        far = S.moved(f, (1000, -2000, 0))
        yield C(far, [g(a=(1005, -1990, 0), c=('1000.1', '-2000.1', 0))])
        # a second ring inside or outside a tenth of the radius
        for k in ['0.85', '0.93', '1.05', '1.15']:
            a = S.ngon(7, 4.0, den=10**6)
            b = S.ngon(7, 4.0 * float(k), phase=.4, den=10**6)
            fs = [S.tri((*a[i], 0), (*a[(i + 1) % 7], 0), (0, 30, 0)) for i in range(7)] + [S.tri((*b[i], 0), (*b[(i + 1) % 7], 0), (0, 30, 0)) for i in range(7)]
            fs = [q_ if q_[0][2] > 0 else S.tri(q_[1][0], q_[1][2], q_[1][1]) for q_ in fs if q_[0][2] != 0]
            yield C(fs, [g(c=('3.5', '.7', 0), a=(9, 8, 0))])
    for i in range(max(4, n // 10)):
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('view', angles(rng))], [dim(rng.choice(['dia', 'rad']), [
            arg('at', point(rng)), arg('dir', pt(*vec(rng))), arg('center', point(rng))])])])), [('m.stl', S.stl(spread(rng, 2)))], rng)


# ================================================================ C15
def gen_C15(rng, n):
    def C(facets, dims, view=None, more=()):
        args = [arg('view', view)] if view else []
        return case(cat(load('m', 'm.stl'), load('k', 'k.stl'), page([], [draw('m', args, dims)] + list(more))),
                    [('m.stl', S.stl(shuffled(rng, facets))), ('k.stl', S.stl(S.scaled(chiral(), 2)))], rng)
    def nest(p, names):
        for x in names:
            p = fn(x, p)
        return p
    def D(f, t):
        while True:
            v = [R(rng, -3, 3, 4) for _ in range(3)]
            if v[0] or v[1]:
                break
        return dim('dim', [arg('at', point(rng)), arg('dir', pt(*v)), arg('from', f), arg('to', t)])
    for i in range(n):
        k = i % 4
        fs = rng.choice([chiral, lambda: spread(rng, 2), lambda: solid(rng), lambda: disc(rng, rng.choice([5, 7, 9]))[0]])()
        fs = fs if len(fs) < 60 else chiral()
        P = lambda: pt(*corner(rng, fs)) if rng.random() < .35 else pt(R10(rng, -4, 9, 2), R10(rng, -4, 9, 2), R10(rng, -4, 9, 2))
        names = lambda: rng.choice([['near'], ['near'], ['near', 'near'], ['center'], ['near', 'center'], ['center', 'near'], ['center', 'center'],
                                    ['near', 'center', 'near'], []])
        view = rng.choice([None, None, st(rng.choice(VIEWS)), angles(rng)])
        if k < 3:
            yield C(fs, [D(nest(P(), names()), nest(P(), names()))], view)
        else:
            # every point argument of every kind
            f, c, r = disc(rng, 7)
            g = lambda x, y: nest(pt(x, y, 0), rng.choice([['near'], ['center', 'near'], ['near', 'near']]))
            ds = [dim('dim', [arg('at', g(-9, 0)), arg('dir', rng.choice([g(c[0] + r, c[1]), pt(1, 2, 0)])), arg('from', g(9, 9)), arg('to', g(-9, -9))]),
                  dim('angle', [arg('at', g(9, 0)), arg('apex', fn('center', pt(*c, 0))), arg('from_point', fn('near', pt(20, 1, 0))), arg('to_point', fn('near', pt(1, 20, 0)))]),
                  dim('rad', [arg('at', g(9, 3)), arg('dir', pt(1, 3, 0)), arg('center', rng.choice([fn('center', pt(*c, 0)), pt(c[0] + F(1, 8), c[1], 0)]))])]
            # other draws before and after, with other models and views
            yield C(f, shuffled(rng, ds)[:rng.choice([1, 2, 3])], None,
                    [draw('k', [arg('view', st('X+')), at(2, 2)], [D(fn('near', pt(9, 9, 9)), fn('near', pt(0, 0, 9)))])] if rng.random() < .5 else [])
    # failures
    line = [S.tri((0, 0, 0), (1, 0, 0), (0, 0, 3)), S.tri((0, 0, 0), (4, 0, 0), (0, 3, 0))]
    for p in [fn('near', pt(1, 1, 1)), fn('center', pt(1, 1, 1)), fn('center', fn('near', pt(1, 1, 1))), fn('near', fn('center', pt(0, 0, 0))),
              fn('nearest', pt(1, 1, 1)), fn('near', fn('foo', pt(1, 1, 1))), fn('centre', pt(0, 0, 0)), fn('Near', pt(0, 0, 0)), fn('center', fn('x', fn('near', pt(0, 0, 0))))]:
        for fs in ([], ONE, chiral(), line):
            for w in ['from', 'dir', 'at']:
                if rng.random() < 0.6:
                    a = {'at': pt(1, 3, 0), 'dir': pt(1, '.5', 0), 'from': pt(0, 0, 0), 'to': pt(2, 1, 0)}
                    a[w] = p
                    yield C(fs, [dim('dim', [arg(x, a[x]) for x in a]), D(pt(0, 0, 0), pt(1, 1, 1))])
    lin = [S.tri((i, 0, 0), (i + 1, 0, 0), (0, 50, 0)) for i in range(4)]
    yield C(lin, [D(fn('center', pt(2, 0, 0)), pt(0, 0, 0))])
    # a circle of many vertices, not quite round: each counts
    for m in (40, 70):
        p = S.ngon(m, 3.0, (1.0, 0.0), rng.random(), 10**6)
        p = [(S.q(x * (1 + .01 * i / m), 10**6), S.q(y * (1 - .01 * i / m), 10**6)) for i, (x, y) in enumerate(p)]
        f = [S.tri((1, 0, 2), (*p[i], 0), (*p[(i + 1) % m], 0)) for i in range(m)]
        if m < 60:      # some of them twice, one above the other
            f += [S.tri((1, 0, 3), (*p[i], 1), (*p[(i + 1) % m], 1)) for i in range(m) if i % 7 < 2]
        yield C(f,
                [dim('dim', [arg('at', pt(2, 7, 0)), arg('dir', pt(1, k, 0)), arg('from', fn('center', pt('3.5', 0, 0))), arg('to', pt(0, 0, 0)), arg('fmt', st('%.9f'))]) for k in (0, 2)])
    # points of which only z, or only the last digit, differs
    for e in ['.5', '.001', '.00002']:
        e = F(e)
        fs = [S.tri((0, 0, 0), (4, 0, 0), (0, 4, 0)), S.tri((0, 0, e), (5, 0, e), (0, 5, e)), S.tri((e, 0, 1), (4 + e, 0, 2), (e, 4, 1))]
        for p in [(0, 0, e), (4, 0, 0), (e, 0, 1), (4, 0, e), (0, 0, 9), (4 + e, 0, 2)]:
            yield C(fs, [dim('dim', [arg('at', pt(2, 7, 0)), arg('dir', pt(0, 0, 1)), arg('from', fn('near', pt(*p))), arg('to', pt(0, 0, 0)), arg('fmt', st('%.7f'))]),
                         dim('dim', [arg('at', pt(2, 7, 0)), arg('dir', pt(1, 0, 0)), arg('from', fn('near', pt(*p))), arg('to', pt(0, 0, 0)), arg('fmt', st('%.7f'))])])
    # the same points again in another draw, with an empty one in between
    for i in range(max(3, n // 15)):
        ds = lambda: [D(fn('near', pt(R(rng, 0, 3, 4), 9, 0)), fn('center', pt(0, R(rng, 0, 9, 4), 0)))]
        yield C(chiral(), ds(), st('Z+'), [draw('k', [at(-2, 2), arg('view', st('Y+'))], ds()), draw('m', [at(2, -2), arg('view', st('Z+'))], ds())])


# ================================================================ C16
def rand_draw(rng, name, facets, sc=True):
    v = rng.choice([None] + VIEWS)
    args = []
    if v:
        args.append(arg('view', st(v)))
    elif rng.random() < .3:
        args.append(arg('view', angles(rng)))
    if rng.random() < .5:
        args.append(arg('scale', ratio(rng.randint(1, 3), rng.randint(1, 4))))
    args += place(rng, .5)
    ds = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if any(x[0] == 'view' and x[2] == '[' for x in args):
            ds.append(dim_stmt(rng, facets))
        else:
            ds.append(rng.choice([lambda: dim_stmt(rng, facets, v or 'Z+'), lambda: angle_stmt(rng, v or 'Z+')])())
    return draw(name, shuffled(rng, args), ds)


def gen_C16(rng, n):
    models = {'a': ONE, 'b': chiral(), 'c': S.box((0, 0, 0), (2, 1, 3)), 'd': disc(random.Random(3), 7, F(1), (F(0), F(0)))[0], 'e': []}
    files = [(k + '.stl', S.stl(f)) for k, f in models.items()]
    def circ():
        return draw('d', place(rng, .5) + ([arg('scale', ratio(1, 2))] if rng.random() < .5 else []),
                    [circle_stmt(rng, rng.choice(['dia', 'rad']), 'Z+', (F(0), F(0)), F(1))])
    def item():
        k = rng.random()
        if k < .2:
            return text(some_text(rng), place(rng))
        if k < .35:
            return circ()
        if k < .4:
            return draw('e', place(rng, .5), rng.choice([[], [dim_stmt(rng)]]))
        m = rng.choice('abc')
        return rand_draw(rng, m, models[m])
    lds = lambda toks: cat(*[load(k, k + '.stl') for k in models])
    for i in range(n):
        np = rng.choice([1, 1, 2, 3])
        its = [[item() for _ in range(rng.choice([2, 2, 3, 4]))] for _ in range(np)]
        if rng.random() < .3:      # the same one again
            its[-1].append(its[0][0])
        if rng.random() < .15:
            its.insert(rng.randrange(np + 1), [])
        pages = [page([arg('name', st('p%d' % j))] if rng.random() < .5 else [], x) for j, x in enumerate(its)]
        base = [case(cat(lds(0), page([], [x])), files) for x in sum(its, [])]
        yield case(cat(lds(0), *pages), files, rng, base=base)
    # long histories
    its = [item() for _ in range(22)]
    yield case(cat(lds(0), page([], its)), files, rng, base=[case(cat(lds(0), page([], [x])), files) for x in its])
    its = [item() for _ in range(8)]
    often = [rng.choice(its) for _ in range(34)]
    yield case(cat(lds(0), *[page([], [x]) for x in often]), files, rng, base=[case(cat(lds(0), page([], [x])), files) for x in its])
    its = [draw('b', [at(rng.randrange(-3, 4), rng.randrange(-3, 4))] + ([arg('view', rng.choice([st(rng.choice(VIEWS)), angles(rng)]))] if rng.random() < .7 else []))
           for _ in range(18)]
    yield case(cat(lds(0), page([], its[:9]), page([], its[9:])), files, rng, base=[case(cat(lds(0), page([], [x])), files) for x in its])
    # many annotations of one kind or all in a draw, and many draws of that kind on a page
    def noted(kinds, m, k):
        ds = []
        for j in range(k):
            kind = kinds[j % len(kinds)]
            if kind == 'angle':
                ds.append(angle_stmt(rng, 'Z+'))
            elif kind == 'circle':
                ds.append(circle_stmt(rng, rng.choice(['dia', 'rad']), 'Z+', (F(0), F(0)), F(1)))
            elif kind == 'near':
                ds.append(dim('dim', [arg('at', point(rng)), arg('dir', pt(1, 2, 0)), arg('from', fn('near', point(rng))), arg('to', fn('near', pt(*[int(x) + 5 for x in (1, 2, 3)])))]))
            else:
                ds.append(dim_stmt(rng, models[m], 'Z+'))
        return draw(m, place(rng, .7) + [arg('scale', ratio(1, 4))], ds)
    for kinds, m in [(['angle'], 'a'), (['circle'], 'd'), (['near'], 'b'), (['dim'], 'c'), (['dim', 'angle', 'circle', 'near'], 'd')]:
        its = [noted(kinds, m, rng.choice([9, 17, 33])), noted(kinds, m, 3), noted(kinds, m, rng.choice([10, 12, 20]))]
        yield case(cat(lds(0), page([], its)), files, rng, base=[case(cat(lds(0), page([], [x])), files) for x in its])
    # with and without each optional property
    for i in range(max(6, n // 4)):
        m = rng.choice('abc')
        full = [arg('scale', ratio(3, 2)), arg('view', st(rng.choice(VIEWS[:4]))), at(2, -1)]
        a = draw(m, full, [dim('dim', [arg('at', point(rng)), arg('dir', pt(1, 2, 3)), arg('from', point(rng)), arg('to', point(rng)), arg('fmt', st('<%.1f>'))])])
        b = draw(rng.choice('abc'), rng.sample(full, rng.randrange(3)), [dim('dim', [arg('at', point(rng)), arg('dir', pt(3, 2, 1)), arg('from', point(rng)), arg('to', point(rng))])])
        c = text('t\nu', [at(3, 3)])
        d = text('v\nw')
        its = shuffled(rng, [a, b, c, d, circ()])
        split = rng.randrange(1, 5)
        base = [case(cat(lds(0), page([], [x])), files) for x in its]
        yield case(cat(lds(0), page([arg('name', st('first'))], its[:split]), page([], its[split:])), files, rng, base=base)
    # draws that differ in one thing, and only a little
    near_a = [(a, tuple((x, y, z + F(1, 2) if (x, y, z) == max(v) else z) for x, y, z in v)) for a, v in chiral()]
    for k in range(12):
        m = 'b'
        files2 = list(files)
        one = dict(view=[F(30), F(40)], scale=[1, 2], at=[F(1), F(-1)], to=[F(2), F(3), F(1)], dir=[F(1), F(2), F(1)], fmt='about %.1f')
        two = {x: list(y) if isinstance(y, list) else y for x, y in one.items()}
        if k in (0, 1, 2, 3):
            two['view'] = [[F(61, 2), F(40)], [F(30), F(401, 10)], [F(40), F(30)], [F(30), F(-40)]][k]
        elif k in (4, 5):
            two['scale'] = [[3, 6], [3, 5]][k - 4]
        elif k in (6, 7):
            two['at'] = [[F(5, 4), F(-1)], [F(-1), F(1)]][k - 6]
        elif k == 8:
            two['to'] = [F(2), F(13, 4), F(1)]
        elif k == 9:
            two['fmt'] = 'about %.2f'
        elif k == 10:
            two['dir'] = [F(1), F(9, 4), F(1)]
        else:
            m = 'b2'
            files2 += [('sub/b.stl', S.stl([(S.tri(*v)[0], v) for a, v in near_a]))]

        def D(o, name):
            return draw(name, [arg('view', loc(*o['view'])), arg('scale', ratio(*o['scale'])), at(*o['at'])],
                        [dim('dim', [arg('at', pt(3, 3, 1)), arg('dir', pt(*o['dir'])), arg('from', fn('near', pt(0, 0, 0))), arg('to', pt(*o['to'])), arg('fmt', st(o['fmt']))])])
        lds2 = lambda: cat(lds(0), load('b2', 'sub/b.stl')) if m == 'b2' else lds(0)
        x, y = D(one, 'b'), D(two, m)
        its = [[x, y], [y, x]][rng.randrange(2)]
        pages = [page([], its)] if rng.random() < .5 else [page([], its[:1]), page([], its[1:] + its[:1])]
        yield case(cat(lds2(), *pages), files2, rng, base=[case(cat(lds2(), page([], [i])), files2) for i in (x, y)])


# ================================================================ C17
def gen_C17(rng, n):
    names = ['', 'A', 'Sheet', 'x' * 40, 'x' * 150, '(paren)', '\\', '%', 'a b', '\xe9', '$0', 'p\\351', 'i' * 99]
    for np in [0, 1, 2, 3, 5, 9, 10, 11, 12, 25, 100, 101]:
        for k in range(2 if np < 30 else 1):
            toks = cat(*[page([arg('name', st(rng.choice(names)))] if rng.random() < .7 else [], []) for _ in range(np)])
            yield case(toks, [], rng, **dict(flags(rng), **({'number': True} if k == 0 else {})))
    hdr = ['', 'n', 'My Drawing', 'a\nshowpage', 'a\r0 0 moveto', 'x\x0cshowpage', '\n\n', '%', '%%EOF', '(', ')', '\\', '$0 $1 $2', '\nshowpage\n', 'a' * 300,
           '\xe9\xff', "'", '"', '<<', '\r\n(', '\tt', 'end\n', '\x04', '--name=x', '=']
    for h in hdr:
        yield case(page([arg('name', st('P'))], [text('t')]), [], rng, name=h, timestamp=rng.random() < .3, number=rng.random() < .5)
    for p in ['in.script', 'a b.s', 'x\nshowpage', 'x\r(', 'sub\n/x', '%', '$1', '(', '\\', '@ROOT@/x', './y', 'z\x0cpop', 'n\xe9', 'a' * 200]:
        yield case(page([arg('name', st('P'))], [text('t')]), [], rng, path=p, **flags(rng))
    for t in (True, False):
        for m in (True, False):
            for np in (0, 1, 2, 11):
                yield case(cat(*[page([arg('name', st('p%d' % i))], []) for i in range(np)]), [], rng, timestamp=t, number=m)
    for np, t, d in [(2, 951827389, 7), (3, 1700000000, 60), (12, 4102444795, 3600), (1, 0, 1), (5, 1582979990, 1), (2, 1709208001, 40000), (4, 43199, 86400)]:
        yield case(cat(*[page([arg('name', st('p%d' % i))], [text('t')]) for i in range(np)]), [], rng, timestamp=True, number=np != 3, tick=(t, d))
    for d in range(3):      # flags that aren't given
        yield case(cat(page(), page([], [text('x')])), [], rng, timestamp=True, number=True, implicit=True)
    for nm in names:
        yield case(cat(page([arg('name', st(nm))]), page(), page([arg('name', st(nm + '2'))])), [], rng, **flags(rng))
    for i in range(n):
        its = lambda: [text(some_text(rng), place(rng)) for _ in range(rng.choice([0, 1]))]
        yield case(cat(load('m', 'm.stl'), *[page([arg('name', st(some_text(rng).replace('\n', '')))] if rng.random() < .7 else [],
                                                  its() + ([draw('m', [arg('scale', ratio(1, 2))])] if rng.random() < .3 else []))
                                             for _ in range(rng.choice([1, 2, 3, 4, 13]))]), [('m.stl', S.stl(ONE))], rng, **flags(rng))


# ================================================================ C18
def gen_C18(rng, n):
    def C(facets, args=(), dims=(), more=()):
        return case(cat(load('m', 'm.stl'), page([], [draw('m', list(args), dims)] + list(more))), [('m.stl', S.stl(facets))], rng)
    W = lambda: rng.choice([0, 0, 1, 1, -1, 2, F(1, 10**6), 10**6, -10**6, F(3, 10**6), 12345, F(1, 1000), F(999999), F(1, 8), F(-1, 125)])
    same = lambda k: [W() for _ in range(k)]
    def P():
        k = rng.random()
        if k < .2:
            return pt(0, 0, 0)
        if k < .3:
            return fn(rng.choice(['near', 'center']), pt(*same(3)))
        return pt(*same(3))
    def fcs():
        k = rng.randrange(7)
        if k == 0:
            return []
        if k == 1:
            return ONE
        if k == 2:
            return [((0, 0, 1), (tuple(same(3)), tuple(same(3)), tuple(same(3)))) for _ in range(rng.choice([1, 2, 3]))]
        if k == 3:
            p = tuple(same(3))
            return [((0, 0, 1), (p, p, p)), ((0, 0, 1), (p, p, tuple(same(3))))] + ONE
        if k == 4:
            return S.scaled(chiral(), rng.choice([F(1, 10**6), F(1, 1000), 10**5]))
        if k == 5:
            return [S.tri((0, 0, 0), (1, 0, 0), (0, 0, 1)), S.tri((0, 0, 0), (0, 1, 0), (0, 0, 1))]     # all edge-on from above
        return S.moved(solid(rng), tuple(same(3)))
    def args():
        a = []
        if rng.random() < .5:
            a.append(arg('scale', ratio(rng.choice([1, 1, 2, 1000, 10**6, 999999999]), rng.choice([1, 1, 2, 1000, 10**6, 999999999]))))
        if rng.random() < .5:
            a.append(arg('view', some_view(rng) or st('Y-')) if rng.random() < .8 else arg('view', loc(W(), W())))
        if rng.random() < .3:
            a.append(at(W(), W()))
        return a
    def dm():
        k = rng.choice(['dim', 'dim', 'angle', 'dia', 'rad'])
        p = P()
        Q = lambda: p if rng.random() < .3 else P()
        if k == 'dim':
            a = [arg('at', Q()), arg('dir', Q()), arg('from', Q()), arg('to', Q())]
        elif k == 'angle':
            a = [arg('at', Q()), arg('apex', Q()), arg('from_' + rng.choice(['dir', 'point']), Q()), arg('to_' + rng.choice(['dir', 'point']), Q())]
        else:
            a = [arg('at', Q()), arg('dir', Q()), arg('center', Q())]
        return dim(k, a + fmt_arg(rng))
    for i in range(n):
        yield C(fcs(), args(), [dm() for _ in range(rng.choice([0, 1, 1, 1, 2]))])
    z = pt(0, 0, 0)
    mk = lambda a, d, f, t: dim('dim', [arg('at', a), arg('dir', d), arg('from', f), arg('to', t)])
    for a in [z, pt(1, 1, 1)]:
        for d in [pt(1, 0, 0), pt(0, 1, 0), pt(0, 0, 1), pt(1, 1, 0)]:
            for f, t in [(z, z), (a, a), (z, pt(0, 0, 5)), (z, pt(5, 0, 0)), (z, pt(0, 5, 0)), (pt(0, 0, 3), pt(0, 0, 3))]:
                yield C(ONE, [], [mk(a, d, f, t)])
    for v in VIEWS:
        for d in [pt(1, 0, 0), pt(0, 1, 0), pt(0, 0, 1)]:
            yield C(ONE, [arg('view', st(v))], [mk(z, d, z, pt(1, 2, 3))])
    ag = lambda a, ap, f, t: dim('angle', [arg('at', a), arg('apex', ap), f, t])
    for f in [arg('from_dir', z), arg('from_point', z), arg('from_dir', pt(0, 0, 1)), arg('from_dir', pt(1, 0, 0)), arg('from_point', pt(1, 0, 0)), arg('from_dir', pt(1, 0, 1))]:
        for t in [arg('to_dir', z), arg('to_point', z), arg('to_dir', pt(0, 0, 1)), arg('to_dir', pt(0, 1, 0)), arg('to_dir', pt(-1, 0, 1)), arg('to_point', pt(0, 1, 5))]:
            yield C(ONE, [], [ag(rng.choice([z, pt(1, 1, 0)]), z, f, t)])
    sq = S.quad((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0))
    for k in ['dia', 'rad']:
        for a in [z, pt('.5', '.5', 0), pt(2, 2, 0)]:
            for d in [pt(1, 0, 0), pt(0, 1, 0), pt(0, 0, 1), pt(1, 1, 0), z]:
                yield C(sq, [], [dim(k, [arg('at', a), arg('dir', d), arg('center', pt('.5', '.5', 0))])])
    for f in ['%.0f', '%400f', '%.200f', '%-300.2f', '%0300f']:
        yield C(ONE, [], [dim('dim', [arg('at', z), arg('dir', pt(1, 0, 0)), arg('from', z), arg('to', pt(1, 1, 0)), arg('fmt', st(f))])])
    for np in [50]:
        yield case(cat(load('m', 'm.stl'), *[page([arg('name', st('(%d\\' % i))], [text('t)%d' % i), draw('m')]) for i in range(np)]), [('m.stl', S.stl(ONE))], rng)


# ================================================================ C19
def rand_fmt(rng):
    f = ''.join(rng.sample('-+ #0', rng.choice([0, 0, 1, 1, 2])))
    w = rng.choice(['', '', '1', '5', '12', '30', '07'[1:]])
    p = rng.choice(['', '', '.', '.0', '.1', '.2', '.3', '.5', '.9', '.12', '.20'])
    lit = lambda: rng.choice(['', '', '', 'x', '%%', ' mm', '\xb0', '(', ')', '\\', '"', 'R=', '%%%%', '\n', 'f', '.3', '5', 'a%%b', ' ', '$', '\xe9'])
    return lit() + lit() + '%' + f + w + p + 'f' + lit() + lit()


BAD_FMT = ['', 'x', '%', '%%', '%%f', '%d', '%s', '%e', '%g', '%F', '%a', '%i', '%u', '%x', '%c', '%n', '%p', '%E', '%G', '%f%f', '%f %d', '%f%', '%f %', '% ',
           '%.', '%5', '%-', '%.2', '%*f', '%.*f', '%f%s', '%q', '%.-1f', '%5.f.%f', '%f%%%f', '%%%', '%%%%', '%f%n', '%v', '%b', '%\n', '%"', '%&', '%.2.3f', '%5 f',
           '%f\\%', 'abc%', '%D', '%A', '%ff%', '% d', '%+s', '%05d']


def gen_C19(rng, n):
    df, c, r = disc(random.Random(9), 7, F(2), (F(1), F(2)))
    files = [('m.stl', S.stl(df))]
    def S4(kind, f):
        a = [] if f is None else [arg('fmt', st(f))]
        if kind == 'dim':
            return dim('dim', [arg('at', pt(1, 5, 0)), arg('dir', pt(R(rng, 1, 3), R(rng, -2, 2), 0)), arg('from', point(rng)), arg('to', point(rng))] + a)
        if kind == 'angle':
            return angle_stmt2(rng, a)
        return dim(kind, [arg('at', pt(5, 6, 0)), arg('dir', pt(1, 2, 0)), arg('center', pt('1.1', 2, 0))] + a)
    kinds = ['dim', 'angle', 'dia', 'rad']
    # each of them wrong for each kind, on pages of their own
    for k in kinds:
        # %q and second conversions with digits may be what an implementation adds
        fs = [f for f in BAD_FMT if '\n' not in f and 'q' not in f and f != '%f%%f']
        yield case('load m = "m.stl";\n' + '\n'.join(render(page([], [draw('m', [], [S4(k, f)])])) for f in fs) + '\n', files)
        yield case('load m = "m.stl";\n' + '\n'.join(render(page([], [draw('m', [], [S4(k, f)])])) for f in FORMATS) + '\n', files)
    for f in rng.sample(BAD_FMT, 20):
        k = rng.choice(kinds)
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(k, f)])])), files, rng)
    for k in kinds:
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(k, None)])])), files, rng)
        for f in rng.sample(FORMATS, 12):
            yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(k, f)])])), files, rng)
        for f in rng.sample(BAD_FMT, 8):
            yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(k, f)])])), files, rng)
    for i in range(n):
        f = rand_fmt(rng)
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(rng.choice(kinds), f) for _ in range(rng.choice([1, 2, 3]))])])), files, rng)
    # values that round up, are zero, or are large
    for x in ['0', '.0005', '.9995', '.99949', '9.9996', '99.99951', '1e', '1000000', '123456.789', '.5', '1.5', '2.5', '.125', '.0625', '.000001']:
        if x == '1e':
            continue
        for f in [None, '%.0f', '%.1f', '%.3f', '%8.2f', '%f']:
            a = [] if f is None else [arg('fmt', st(f))]
            yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('scale', ratio(1, 10))], [
                dim('dim', [arg('at', pt(0, 1, 0)), arg('dir', pt(1, 0, 0)), arg('from', pt(0, 0, 0)), arg('to', pt(x, 0, 0))] + a)])])), files, rng)
    # statements don't inherit formats
    for k in kinds:
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [], [S4(k, '<%.1f>'), S4(k, None), S4(rng.choice(kinds), None), S4(k, '%.5f')])])), files, rng)


def angle_stmt2(rng, extra):
    s = angle_stmt(rng, 'Z+')
    # drop a fmt it may have chosen itself, use ours
    args, cur, depth = [], [], 0
    for t in s[2:-2]:
        if t == ',' and depth == 0:
            args.append(cur)
            cur = []
            continue
        depth += t in '[(' and t != '' and len(t) == 1
        depth -= t in '])' and len(t) == 1
        cur.append(t)
    args.append(cur)
    return dim('angle', [a for a in args if a[0] != 'fmt'] + list(extra))


# ================================================================ C21
def gen_C21(rng, n):
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'corpus', '*.script')
    ex = [open(p, 'rb').read().decode('latin-1') for p in sorted(glob.glob(here))]
    stls = [S.stl(chiral()), S.stl(solid(rng), rng), S.stl(spread(rng, 3), rng)]
    F_ = faults(rng)
    def script():
        k = rng.random()
        if ex and k < .2:
            return rng.choice(ex)
        if k < .6:
            return render(furnished(rng, rng.choice([1, 2]), fault=rng.choice(F_)), rng, rng.choice(['plain', 'wild', 'tight']))
        return render(lang_base(rng), rng, rng.choice(['wild', 'plain']))
    def mangle(s):
        s = list(s)
        for _ in range(rng.choice([0, 1, 1, 2, 4, 10])):
            if not s:
                break
            j = rng.randrange(len(s))
            m = rng.randrange(7)
            if m == 0:
                del s[j:j + rng.randrange(1, 20)]
            elif m == 1:
                s[j] = chr(rng.randrange(256))
            elif m == 2:
                s.insert(j, rng.choice(['{', '}', '"', '\\', '[', '(', '\x00', '1e9', '-', '9' * 40, '\n', '//', 'e', '.', '%', 'near(', 'center(', ')']))
            elif m == 3:
                k = rng.randrange(len(s))
                s[j:j] = s[k:k + rng.randrange(1, 60)]
            elif m == 4:
                s = s[:j]
            elif m == 5:
                s[j:j + 1] = [chr(rng.randrange(256)) for _ in range(rng.randrange(8))]
            else:
                # another number
                while j < len(s) and not s[j].isdigit():
                    j += 1
                s[j:j + 1] = rng.choice(['0', '-1', '1000000000000', '1e300', '1e-300', '.', '1e38', '4294967296', '1e154', '1e200', '-1e100', '3.4e38', '1e-45'])
        return ''.join(s)
    for i in range(n):
        a, b = script(), rng.choice(stls)
        if rng.random() < .6:
            a = mangle(a)
        if rng.random() < .5:
            b = mangle(b)
        yield case(a, [('m.stl', b), ('n.stl', rng.choice(stls)), ('dir', ('dir', '')),
                       ('testcases/cube.stl', rng.choice(stls)), ('testcases/hole.stl', b), ('/dev/null', '')], rng, **flags(rng))
    big = lambda *a: case(*a, light=True)
    for k in [1, 10, 100, 500, 1000]:          # depth and size
        yield big(cat(load('m', 'm.stl'), page([], [draw('m', [], [dim('dim', [arg('at', pt(0, 1, 0)), arg('dir', pt(1, 0, 0)), arg('from', pt(0, 0, 0)), arg('to', sum([['near', '(']] * k, []) + pt(1, 2, 3) + [')'] * k)])])])),
                   [('m.stl', S.stl(ONE))], rng)
    yield big('{' * 20000, [])
    yield big('page {} ' * 3000, [])
    yield big('"' + 'a' * 200000 + '"', [])
    yield big('page { text [' + '"x" ' * 5000 + '] {} }', [])
    yield big('page { name=' + '9' * 100000 + '; }', [])
    yield big('page { ' + 'a' * 100000 + '=1; }', [])
    yield big('x' + '(' * 5000, [])
    yield big('page { draw m { dim(a=' + 'f(' * 5000, [])
    yield big('//' + 'x' * 100000, [])
    yield big('load m="' + 'a' * 5000 + '"; page{draw m{}}', [])
    yield big('load m="' + 'a/' * 3000 + '"; page{draw m{}}', [])
    L = cat(load('m', 'm.stl'), page([], [draw('m', [], [dim_stmt(rng)])]))
    for b in ['solid ' + 'x' * 300000 + '\n', ' ' * 100000 + 'endsolid', 'vertex ' * 10000, 'vertex 1 2 3\n' * 20000, 'facet normal 0 0 1\n' * 5000,
              'facet normal 0 0 1\n' + 'vertex 1 2 3\n' * 5000 + 'endfacet\n', 'vertex 1' + '0' * 20000 + ' 0 0\n', 'vertex ' + '1.2.3.4e' * 999 + ' 0 0\n',
              '\x00' * 1000, '\xff' * 1000, 'solid\r\nendsolid\r\n', 'vertex 1e400 0 0\n', 'endfacet\n' * 1000]:
        yield big(L, [('m.stl', b)], rng)
    huge = ['1e300', '-1e300', '1e155', '1e-155', '1e-320', '1e308', '1e77', '1e78', '1e103', '5e-324', '1e40', '-1e39', '3']
    for i in range(max(10, n // 6)):
        fs = ''
        for _ in range(rng.choice([1, 2, 3])):
            fs += 'facet normal 0 0 1\n' + ''.join('vertex %s\n' % ' '.join(rng.choice(huge + ['0', '1', '2']) for _ in range(3)) for _ in range(3)) + 'endfacet\n'
        yield case(cat(load('m', 'm.stl'), page([], [draw('m', [arg('view', some_view(rng) or st('Z+'))], [dim_stmt(rng), dim('dia', [arg('at', pt(1, 1, 0)), arg('dir', pt(1, 1, 0)), arg('center', pt(0, 0, 0))])])])), [('m.stl', fs)], rng)


# ================================================================ C22
def namesakes(rng):
    """Names that are easily taken for each other."""
    yield ['part', 'Part', 'PART', 'pArt', 'part_', '_part', 'part0', 'part1', 'part01', 'par']
    yield ['a', 'aa', 'aaa', 'A', 'b', 'ab', 'ba', 'B', '_', '__']
    for k in (7, 8, 15, 16, 31, 32, 40, 63, 64, 100, 255, 256, 1000):
        stem = 'n' * (k - 1) + 'x'
        yield shuffled(rng, [stem, stem + 'a', stem + 'b', stem[:-1] + 'y', stem + '_a', stem + 'A', stem[:-1]])
    yield ['near', 'center', 'dims', 'draws', 'textx', 'loads', 'm', 'page1', 'angle_', 'radi']


def gen_C22(rng, n):
    pool = []
    for i in range(n):
        k = i % 5
        if k == 4:
            df, c, r = disc(rng, rng.choice([5, 7, 12]))
            dims = [circle_stmt(rng, 'dia', 'Z+', c, r), dim_stmt(rng, df, 'Z+')]
            view, fs = None, df
        elif k == 3:
            fs, view = spread(rng, 4), None
            dims = [dim('dim', [arg('at', point(rng)), arg('dir', pt(1, 2, 0)), arg('from', fn('near', pt(R10(rng, 0, 9, 2), R10(rng, 0, 9, 2), 0))), arg('to', fn('near', pt(R10(rng, 0, 9, 2), 0, 0)))])]
        else:
            fs = solid(rng)
            view = some_view(rng)
            dims = [dim_stmt(rng, fs)]
        if len(fs) > 40:
            fs = fs[:40]
        args = ([arg('view', view)] if view else []) + [arg('scale', ratio(1, 2))]
        body = lambda nm: page([arg('name', st('P'))], [draw(nm, args, dims)])
        base = case(cat(load('m', 'm.stl'), body('m')), [('m.stl', S.stl(fs))])
        # the same shape written down in another way
        def listing(fs):
            how = rng.randrange(6)
            out = list(fs)
            if how in (0, 1):
                out = shuffled(rng, out)
            if how in (1, 2):
                out = [(a, b[j:] + b[:j]) for a, b in out for j in [rng.randrange(3)]]
            if how in (1, 3):
                out = [(a, b[::-1]) if rng.random() < .5 else (a, b) for a, b in out]
            if how == 4:
                return S.stl(out, rng, 'x', 3)
            if how == 5:
                return S.stl(shuffled(rng, out)[:], rng, '', 2)
            if how == 0 and rng.random() < .5:
                out = out[::-1]
            return S.stl(out)
        nm = rng.choice(['m', 'm', 'zzz', 'A', 'dim_', 'm1'])
        more = rng.random()
        loads = [load(nm, 'm.stl')]
        files = [('m.stl', listing(fs))]
        if more < .3:
            files.append(('o.stl', S.stl(solid(rng))))
            loads.insert(rng.choice([0, 1]), load(rng.choice(['other', 'a', 'zzzz']), 'o.stl'))
        elif more < .4:
            loads.append(load('again', 'm.stl'))
        yield case(cat(*loads, body(nm)), files, rng, rng.choice(['plain', 'wild']), base=[base], alike=base, rerun=True)
    # which model it is depends on the whole name, and on nothing but the name
    for names in namesakes(rng):
        shapes = [[S.tri((0, 0, 0), (i + 1, 0, 0), (0, 4 - i % 3, 0)), S.tri((i + 1, 0, 0), (i + 2, 5, 0), (0, 4 - i % 3, 0))] for i in range(len(names))]
        files = [('%d.stl' % i, S.stl(f)) for i, f in enumerate(shapes)]
        i = rng.randrange(len(names))
        body = lambda nm: page([arg('name', st('P'))], [draw(nm, [arg('scale', ratio(1, 2))], [])])
        base = case(cat(load('m', '%d.stl' % i), body('m')), files)
        order = shuffled(rng, range(len(names)))
        yield case(cat(*[load(names[j], '%d.stl' % j) for j in order], body(names[i])), files, rng, base=[base], alike=base)
        # all but that one
        yield case(cat(*[load(names[j], '%d.stl' % j) for j in order if j != i], body(names[i])), files, rng)
        yield case(cat(*[load(names[j], '%d.stl' % j) for j in order],
                       *[page([], [draw(names[j], [arg('scale', ratio(1, 2))], [])]) for j in range(len(names))]), files, rng)
    # many facets in other orders
    for k in range(4):
        h = {(a, b): R(rng, 0, 1, 16) for a in range(12) for b in range(12)}
        fs = S.field(9 - k % 2, 9, lambda a, b: h[a, b]) if k < 3 else spread(rng, 14)
        dims = [dim('dim', [arg('at', pt(1, -1, 0)), arg('dir', pt(1, 0, 0)), arg('from', fn('near', pt(0, 0, 0))), arg('to', fn('near', pt(R(rng, 2, 8), 9, 0)))])]
        other = [fs[::-1], shuffled(rng, fs), fs[1::2] + fs[::2], fs[len(fs) // 2:] + fs[:len(fs) // 2]][k]
        body = page([], [draw('m', [arg('scale', ratio(1, 2))], dims)])
        base = case(cat(load('m', 'm.stl'), body), [('m.stl', S.stl(fs))])
        yield case(cat(load('m', 'm.stl'), body), [('m.stl', S.stl(other))], rng, alike=base, base=[base])


# ================================================================ C20
def gen_C20(rng, n):
    """Scripts that are wrong somewhere, under all kinds of names."""
    names = ['in.script', 'sub/dir/x.s', './in.script', 'a b.txt', 'x:7:.s', 'n\xe9.s', '%s', '%n%d%100s.s', "q'\"\\.s", '@ROOT@/abs.s', 'tab\t.s',
             'long' * 50 + '.s', ':', '[1,2]', 'a' * 255, '(0,0)', '\x01\x7f\xff', 'sub//x.s', '-']
    wrong = ['$', '"open', '"a\\q"', '1e999', '9' * 60, '.', '-', '+', '/', '\xff', '\x00', '}', 'x', '%s', '%', '"str"', '12', 'page', ';']
    for i in range(n):
        kind = rng.random()
        if kind < .35:
            cs = [c for c in gen_C03(rng, 3)][:3]
            yield dict(rng.choice(cs), path=rng.choice(names))
            continue
        toks = lang_base(rng)
        body = render(toks, rng, rng.choice(['wild', 'wild', 'tall', 'tight', 'plain']))
        lines = body.split('\n')
        if kind < .7:
            # ... and something wrong inserted somewhere between tokens
            j = rng.randrange(len(toks) + 1)
            body = (render(toks[:j], rng, 'wild') if j else '') + rng.choice([' ', '\n', '\t\t', '\n\n\n ', '\r\n', ' // c\n  ']) + rng.choice(wrong) + \
                rng.choice([' ', '\n']) + (render(toks[j:], rng, 'wild') if j < len(toks) else '')
        else:
            fill = rng.choice([' ', '\t', '\r', '\n', '// x\n', 'page{}', 'page {}\n', '\n ' ])
            body = fill * rng.choice([1, 2, 9, 10, 11, 99, 100, 300, 1000]) + rng.choice(['', ' ', '\t ']) + rng.choice(wrong) + rng.choice(['', '\n', ' x'])
        yield case(body, [('n.stl', S.stl(ONE))], path=rng.choice(names))
    # far down, far to the right
    yield case('\n' * 65600 + '   ' + rng.choice(wrong) + '\n', [('n.stl', S.stl(ONE))], path=rng.choice(names))
    yield case('\n' + ' ' * 65600 + rng.choice(wrong) + '\n', [('n.stl', S.stl(ONE))], path=rng.choice(names))
    yield case('//' + '/' * 33000 + '\n' * 33000 + ' ' * 33000 + rng.choice(wrong) + '\n', [('n.stl', S.stl(ONE))], path=rng.choice(names))


# ================================================================ C23
def gen_C23(rng, n):
    """What the rule's own action does: the models are where it says."""
    import bzl
    import models
    while n > 0:
        t = models.random_target(rng)
        if t['kind'] != 'stl2pdf' or ',' in t['label'] or t['label'].startswith('--'):
            continue
        n -= 1
        try:
            r, _ = bzl.analyze(t)
        except Exception:
            continue       # as well
        run = [a for a in r['actions'] if a['exe'] == r['tool']]
        if len(run) != 1:
            continue       # the model of the rule tells
        flags = dict(x[2:].split('=', 1) for x in run[0]['argv'] if x.startswith('--') and '=' in x)
        toks, its = [], []
        shorts = {}
        for d in r['deps']:
            shorts.setdefault(d['short'], d)
        for i, s in enumerate(shorts):
            toks += load('m%d' % i, s)
            its.append(draw('m%d' % i, [at(i - 4, 0)]))
        files = [(d['path'], S.stl(S.box((0, 0, 0), (k + 1, 1, 1)))) for k, d in enumerate(r['deps']) if d['path'] in run[0]['inputs']]
        if r['main']['path'] not in run[0]['inputs']:
            continue
        yield case(cat(toks, page([], its)), files, rng, 'plain', path=flags.get('script', 'in.script'),
                   loadpath=flags.get('load_path', ''), name=flags.get('name', ''), timestamp=True, implicit=True)
