"""Models (lists of facets with exact coordinates) and STL files of them."""
from fractions import Fraction as F
import math


def q(x, den=1000):
    """The nearest number with a finite decimal expansion."""
    return F(round(x * den), den)


def dec(x):
    """The exact decimal notation of a fraction whose denominator is 2^a 5^b."""
    x = F(x)
    n, d, k = x.numerator, x.denominator, 0
    while d != 1:
        n *= 10
        k += 1
        g = math.gcd(n, d)
        n, d = n // g, d // g
        if k > 400:
            raise ValueError(x)
    s = str(abs(n)).rjust(k + 1, '0')
    if k:
        s = s[:-k] + '.' + s[-k:]
    return ('-' if n < 0 else '') + s


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def mul(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def tri(a, b, c):
    """A facet that faces where a, b, c run counterclockwise."""
    a, b, c = (tuple(F(x) for x in p) for p in (a, b, c))
    return (cross(sub(b, a), sub(c, a)), (a, b, c))


def quad(a, b, c, d):
    return [tri(a, b, c), tri(a, c, d)]


def box(lo, hi):
    (x, y, z), (X, Y, Z) = lo, hi
    p = lambda i, j, k: ((x, X)[i], (y, Y)[j], (z, Z)[k])
    return (quad(p(0, 0, 1), p(1, 0, 1), p(1, 1, 1), p(0, 1, 1)) + quad(p(0, 0, 0), p(0, 1, 0), p(1, 1, 0), p(1, 0, 0)) +
            quad(p(1, 0, 0), p(1, 1, 0), p(1, 1, 1), p(1, 0, 1)) + quad(p(0, 0, 0), p(0, 0, 1), p(0, 1, 1), p(0, 1, 0)) +
            quad(p(0, 1, 0), p(0, 1, 1), p(1, 1, 1), p(1, 1, 0)) + quad(p(0, 0, 0), p(1, 0, 0), p(1, 0, 1), p(0, 0, 1)))


def tetra(a, b, c, d):
    vol = dot(cross(sub(b, a), sub(c, a)), sub(d, a))
    if vol > 0:
        b, c = c, b
    return [tri(a, b, c), tri(a, d, b), tri(b, d, c), tri(c, d, a)]


def ngon(n, r, c=(0, 0), phase=0.0, den=1000):
    return [(q(c[0] + r * math.cos(phase + 2 * math.pi * i / n), den), q(c[1] + r * math.sin(phase + 2 * math.pi * i / n), den))
            for i in range(n)]


def ears(poly):
    """Triangulates a simple counterclockwise polygon: index triples."""
    idx, out = list(range(len(poly))), []
    area = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    while len(idx) > 3:
        for k in range(len(idx)):
            i, j, l = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            a, b, c = poly[i], poly[j], poly[l]
            if area(a, b, c) <= 0:
                continue
            if any(m not in (i, j, l) and area(a, b, poly[m]) >= 0 and area(b, c, poly[m]) >= 0 and area(c, a, poly[m]) >= 0
                   for m in idx):
                continue
            out.append((i, j, l))
            del idx[k]
            break
        else:
            raise ValueError('no ear')
    out.append(tuple(idx))
    return out


def prism(poly, z0, z1):
    """A simple counterclockwise polygon from z0 to z1."""
    at = lambda p, z: (p[0], p[1], z)
    out = []
    for i, j, k in ears(poly):
        out.append(tri(at(poly[i], z1), at(poly[j], z1), at(poly[k], z1)))
        out.append(tri(at(poly[i], z0), at(poly[k], z0), at(poly[j], z0)))
    n = len(poly)
    for i in range(n):
        a, b = poly[i], poly[(i + 1) % n]
        out += quad(at(a, z0), at(b, z0), at(b, z1), at(a, z1))
    return out


def washer(outer, inner, z0, z1):
    """A ring between two polygons with as many corners."""
    at = lambda p, z: (p[0], p[1], z)
    out, n = [], len(outer)
    for i in range(n):
        a, b, c, d = outer[i], outer[(i + 1) % n], inner[(i + 1) % n], inner[i]
        out += quad(at(a, z1), at(b, z1), at(c, z1), at(d, z1))
        out += quad(at(a, z0), at(d, z0), at(c, z0), at(b, z0))
        out += quad(at(a, z0), at(b, z0), at(b, z1), at(a, z1))
        out += quad(at(c, z0), at(d, z0), at(d, z1), at(c, z1))
    return out


def field(nx, ny, h, dx=1, dy=1, x0=0, y0=0):
    """A surface over a grid, h(i, j) high: seen from above nothing hides anything."""
    p = lambda i, j: (F(x0) + F(dx) * i, F(y0) + F(dy) * j, F(h(i, j)))
    out = []
    for i in range(nx):
        for j in range(ny):
            out += quad(p(i, j), p(i + 1, j), p(i + 1, j + 1), p(i, j + 1))
    return out


def moved(facets, d):
    return [(n, tuple(add(p, d) for p in v)) for n, v in facets]


def turned(facets, perm, sign):
    """Axes exchanged and mirrored; perm/sign must be a rotation to stay a solid."""
    t = lambda p: tuple(p[perm[i]] * sign[i] for i in range(3))
    return [(t(n), tuple(t(p) for p in v)) for n, v in facets]


def scaled(facets, k):
    return [(n, tuple(mul(p, k) for p in v)) for n, v in facets]


# ---------------------------------------------------------------- notation
def notation(x, rng):
    """Some decimal notation of x."""
    s = dec(x)
    neg = s.startswith('-')
    s = s.lstrip('-')
    kind = rng.randrange(8)
    if kind == 0 and '.' not in s:
        s += rng.choice(['.', '.0', '.000'])
    elif kind == 1:
        i, _, f = s.partition('.')
        e = rng.randrange(1, 6)
        s = i.rjust(e + 1, '0')
        s = s[:-e] + '.' + s[-e:] + f + rng.choice(['e', 'E']) + rng.choice(['', '+', '+0', '0']) + str(e)
    elif kind == 2:
        i, _, f = s.partition('.')
        e = rng.randrange(1, 5)
        f = f.ljust(e, '0')
        s = i + f[:e] + '.' + f[e:] + rng.choice(['e', 'E']) + '-' + rng.choice(['', '0']) + str(e)
    elif kind == 3 and s.startswith('0.'):
        s = s[1:]
    elif kind == 4 and '.' in s:
        s += '0' * rng.randrange(1, 4)
    elif kind == 5:
        s = '0' * rng.randrange(1, 3) + s
    if neg:
        return '-' + s
    return ('+' if rng.random() < 0.15 else '') + s


def unit(n):
    l = math.sqrt(float(dot(n, n))) or 1.0
    return tuple(float(x) / l for x in n)


def normal_text(n, rng):
    """How exporters write normals."""
    if rng is None or rng.random() < 0.5:
        return [dec(x) for x in n]
    k = rng.randrange(3)
    if k == 0:
        return ['%.6g' % x for x in unit(n)]
    if k == 1:
        return ['%.6e' % x for x in unit(n)]
    return [notation(x, rng) for x in n]


def facet_lines(f, rng=None):
    n, v = f
    sp = (lambda: ' ' * rng.choice([1, 1, 1, 2, 5])) if rng else (lambda: ' ')
    ind = (lambda k: ' ' * rng.randrange(0, 7)) if rng else (lambda k: ' ' * k)
    end = (lambda: ' ' * rng.choice([0, 0, 0, 1, 3])) if rng else (lambda: '')
    num = (lambda x: notation(x, rng)) if rng else dec
    row = lambda k, w, t: ind(k) + w + ''.join(sp() + x for x in t) + end()
    return ([row(2, 'facet normal', normal_text(n, rng)), ind(4) + 'outer loop' + end()] +
            [row(6, 'vertex', [num(x) for x in p]) for p in v] +
            [ind(4) + 'endloop' + end(), ind(2) + 'endfacet' + end()])


def stl(facets, rng=None, name='model', solids=1):
    """An STL file; with rng in some layout."""
    out = []
    cuts = sorted(rng.randrange(len(facets) + 1) for _ in range(solids - 1)) if rng and solids > 1 else []
    out.append('solid' + (' ' + name if name else ''))
    for i, f in enumerate(facets):
        for _ in range(cuts.count(i)):
            out += ['endsolid' + (' ' + name if name else ''), 'solid']
        out += facet_lines(f, rng)
    out.append('endsolid' + (' ' + name if name else ''))
    return '\n'.join(out) + '\n'
