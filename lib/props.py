"""What decides each property: generator, the differences that count, sizes.

A check runs the generated cases in the real program and has TLC compare each
run with the specification (Conform.tla).  Only the kinds of difference (tags)
listed here are the fault of the property; its generator sees to it that they
are.  `need` names what has to have been seen for the check to mean something.
"""
import re

INK = ['stray.*', 'model.*', 'dim.*', 'angle.*', 'circle.*', 'title.*', 'text.*', 'border']
REJ = ['rejected.*']

# property -> dict(gen, tags, quick, thorough, variant, mc)
#   quick: n for the generator and the most cases to run; thorough: rounds
PROPS = {
    'C01': dict(tags=['accepted.*', 'rejected.*', 'partial', 'crash', 'hang', 'beyond', 'pages.count']),
    'C02': dict(tags=['diag.*', 'rejected.silently', 'crash', 'hang', 'beyond']),
    'C03': dict(tags=['accepted.syntax', 'rejected.syntax', 'diag.missing.syntax', 'text.*', 'title.*', 'pages.count',
                      'accepted.load.*', 'accepted.props', 'accepted.unknown', 'accepted.twice', 'rejected.*', 'dim.*', 'crash', 'hang', 'beyond', 'partial', 'stray.text']),
    'C04': dict(tags=['text.*', 'title.*', 'stray.*', 'ps.*', 'odd', 'rejected.*', 'pages.count', 'crash', 'hang', 'beyond']),
    'C05': dict(tags=['accepted.*', 'rejected.*', 'diag.missing.*', 'crash', 'hang', 'beyond'] + INK),
    'C06': dict(tags=['accepted.load.*', 'rejected.*', 'diag.missing.load.*', 'model.*', 'stray.*', 'accepted.props', 'crash', 'hang', 'beyond']),
    'C07': dict(tags=['accepted.load.*', 'rejected.*', 'diag.missing.load.*', 'model.*', 'stray.*', 'crash', 'hang', 'beyond']),
    'C08': dict(tags=['model.*', 'stray.*', 'rejected.*', 'crash', 'hang', 'beyond']),
    'C09': dict(tags=['model.*', 'stray.*', 'rejected.*', 'crash', 'hang', 'beyond']),
    'C10': dict(tags=INK + REJ + ['crash', 'hang', 'beyond']),
    'C11': dict(tags=INK + REJ + ['crash', 'hang', 'beyond']),
    'C12': dict(tags=['dim.*', 'stray.*', 'rejected.*', 'accepted.dir', 'crash', 'hang', 'beyond']),
    'C13': dict(tags=['angle.*', 'stray.*', 'rejected.*', 'accepted.parallel', 'accepted.dir', 'crash', 'hang', 'beyond']),
    'C14': dict(tags=['circle.*', 'stray.*', 'rejected.*', 'accepted.circle', 'accepted.dir', 'crash', 'hang', 'beyond']),
    'C15': dict(tags=['dim.*', 'angle.*', 'circle.*', 'stray.*', 'accepted.*', 'rejected.*', 'diag.missing.pick', 'crash', 'hang', 'beyond']),
    'C16': dict(tags=INK + REJ + ['pages.count', 'crash', 'hang', 'beyond']),
    'C17': dict(tags=['pages.count', 'page.size', 'status', 'header', 'status', 'border', 'title.*', 'ps.*', 'odd', 'rejected.*', 'stray.*', 'text.*', 'crash', 'hang', 'beyond']),
    'C18': dict(tags=['ps.*', 'crash', 'hang', 'beyond', 'rejected.silently', 'odd']),
    'C19': dict(tags=['accepted.fmt', 'rejected.*', 'dim.label.*', 'angle.label.*', 'circle.label.*', 'diag.missing.fmt', 'crash', 'hang', 'beyond', 'stray.text']),
    'C20': dict(tags=['diag.columns', 'diag.missing.syntax', 'diag.line', 'rejected.silently', 'accepted.syntax', 'crash', 'hang', 'beyond']),
    'C21': dict(tags=['crash', 'hang', 'beyond', 'partial', 'rejected.silently'], variant='asan'),
    'C23': dict(tags=['accepted.*', 'rejected.*', 'model.*', 'header', 'status', 'crash', 'hang', 'beyond']),
    'C22': dict(tags=INK + REJ + ['differs', 'unlike', 'crash', 'hang', 'beyond', 'pages.count']),
}

# generator sizes: (n of the quick tier, most cases of the quick tier, n of a thorough round)
SIZES = {'C01': (60, 180, 200), 'C02': (80, 150, 250), 'C03': (120, 420, 500), 'C04': (60, 200, 200), 'C05': (125, 150, 690),
         'C06': (70, 200, 250), 'C07': (80, 220, 250), 'C08': (60, 125, 230), 'C09': (60, 200, 220), 'C10': (50, 125, 200),
         'C11': (60, 160, 200), 'C12': (80, 310, 300), 'C13': (80, 320, 300), 'C14': (70, 155, 200), 'C15': (80, 190, 250),
         'C16': (45, 82, 150), 'C17': (60, 160, 200), 'C18': (80, 220, 300), 'C19': (60, 330, 300), 'C20': (120, 135, 400), 'C21': (90, 140, 300),
         'C22': (60, 105, 200), 'C23': (40, 40, 150)}


def matches(tag, patterns):
    for p in patterns:
        if p.endswith('.*'):
            if tag == p[:-2] or tag.startswith(p[:-1]):
                return True
        elif tag == p:
            return True
    return False
