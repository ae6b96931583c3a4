"""Scripts as sequences of tokens."""
from fractions import Fraction as F
from shapes import dec

WORD = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.')


def num(x):
    return [x if isinstance(x, str) else dec(F(x))]


def quote(s):
    """A string token that says s."""
    out = '"'
    for c in s:
        out += '\\n' if c == '\n' else '\\' + c if c in '"\\' else c
    return out + '"'


def st(*parts):
    return [quote(p) for p in parts]


def loc(x, y):
    return ['['] + num(x) + [','] + num(y) + [']']


def pt(x, y, z):
    return ['['] + num(x) + [','] + num(y) + [','] + num(z) + [']']


def fn(name, p):
    return [name, '('] + p + [')']


def ratio(a, b):
    return num(a) + [':'] + num(b)


def arg(name, value):
    return [name, '='] + value


def at(x, y):
    return ['@'] + loc(x, y)


def stmts(args):
    out = []
    for a in args:
        out += a + [';']
    return out


def mix(args, items, rng=None):
    """Arguments and items in the order given, or any that keeps that of each."""
    a, b, out = [x + [';'] for x in args], list(items), []
    while a or b:
        if rng and a and b:
            out += (a if rng.random() < 0.5 else b).pop(0)
        else:
            out += (a or b).pop(0)
    return out


def load(name, file):
    return ['load', name, '='] + st(file) + [';']


def page(args=(), items=(), rng=None):
    return ['page', '{'] + mix(args, items, rng) + ['}']


def draw(name, args=(), dims=(), rng=None):
    return ['draw', name, '{'] + mix(args, dims, rng) + ['}']


def text(parts, args=()):
    parts = [parts] if isinstance(parts, str) else parts
    return ['text', '['] + st(*parts) + [']', '{'] + stmts(args) + ['}']


def dim(kind, args):
    out = [kind, '(']
    for i, a in enumerate(args):
        out += ([','] if i else []) + a
    return out + [')', ';']


def cat(*parts):
    out = []
    for p in parts:
        out += p
    return out


# ---------------------------------------------------------------- layout
def needs_space(a, b):
    return a[-1] in WORD and b[0] in WORD


COMMENTS = ['// note\n', '//\n', '// load x = "y";\n', '//"\n', '// } page {\n', '//// \t\\\n', '// \xe9\xff\n', "// don't\n"]


def render(tokens, rng=None, style='plain'):
    """plain: a line per statement; tight: as short as possible; tall: most
    tokens on lines of their own; wild: anything between tokens."""
    out = []
    for i, t in enumerate(tokens):
        prev = tokens[i - 1] if i else None
        if prev is None:
            gap = ''
        elif style == 'tight':
            gap = ' ' if needs_space(prev, t) else ''
        elif style == 'plain':
            gap = '\n' if prev in '{};' or t == '}' else ' '
        elif style == 'tall':
            gap = rng.choice(['\n', '\n', ' ', '\n\n', ' \n\t'])
        else:
            gap = ''
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                gap += rng.choice([' ', '\t', '\n', '\r', '\r\n', '  ', ' '] + [rng.choice(COMMENTS)])
            if not gap and needs_space(prev, t):
                gap = rng.choice([' ', '\n', '\t', '//\n'])
        out.append(gap + t)
    s = ''.join(out)
    if style == 'wild':
        return rng.choice(['', '\n', ' ', '// head\n', '\t\n\n']) + s + rng.choice(['', '\n', ' ', ' // end', '\n//', '\r\n'])
    return s + ('' if style == 'tight' else '\n')
