"""The design models (MC_*.tla) and the parts of the program that are bound to
the specification in another way than by running the whole program.

check(ck) yields (name, {'size': {...}, 'bad': [(data, tags)...]}) for the
property and tier of the Check ck; replay(name, data) judges one again.
"""
import json
import os
import random
import re
import subprocess

import build
import bzl
import runner
import tlc

CASE = re.compile(r'^"CASE (.*)"$', re.M)


class ModelError(tlc.TlcError):
    pass


def cases_of(text):
    """The cases a model printed."""
    return [json.loads(tlc.unquote(c)) for c in dict.fromkeys(m.group(1) for m in CASE.finditer(text))]


def mc(module, timeout=600, heap='4g', workers=8, cfg=None, env=None):
    """Checks a design model; a violation there is an error in the spec."""
    ok, states, trans, text = tlc.check(module, workers=workers, timeout=timeout, heap=heap, cfg=cfg, env=env)
    if not ok:
        raise ModelError('the design model %s fails:\n%s' % (module, text[-3000:]))
    return states, trans, text


# ---------------------------------------------------------------- ErrMsg
def _b(s):
    return s.encode('latin-1')


def report_errors(groups):
    """What the reporter writes for groups of calls: [(stderr, stdout)...]."""
    exe = build.build_error_reporter()
    inp = b''
    for calls in groups:
        inp += b'%d\n' % len(calls)
        for c in calls:
            f, t = _b(c['file'][0]) if c['file'] else b'', _b(c['text'])
            inp += b'%d %d %d %d %d %d %d\n' % (bool(c['file']), len(f), c['bl'], c['bc'], c['el'], c['ec'], len(t)) + f + t + b'\n'
    p = subprocess.run([exe], input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, cwd=build.BUILD)
    out, at, res = p.stdout, 0, []
    while at < len(out):
        nl = out.index(b'\n', at)
        e, o = map(int, out[at:nl].split())
        at = nl + 1
        res.append((out[at:at + e].decode('latin-1'), out[at + e:at + e + o].decode('latin-1')))
        at += e + o
    while len(res) < len(groups):      # it crashed
        res.append(('(crash, status %d)' % p.returncode, ''))
    return res


def judge_errors(groups):
    obs = report_errors(groups)
    # what is far too long is wrong however it goes on
    most = [400 + sum(200 + len(c['text']) + sum(map(len, c['file'])) for c in g) for g in groups]
    recs = [dict(calls=g, obs=dict(err=e[:k], out=o[:k])) for g, k, (e, o) in zip(groups, most, obs)]
    vs, s, t = tlc.conform(recs, module='ErrMsgTrace')
    return [([g], v['tags']) for g, v in zip(groups, vs) if v['tags']], s, t


def random_calls(rng):
    def text():
        k = rng.randrange(6)
        if k == 0:
            return ''.join(chr(rng.randrange(1, 256)) for _ in range(rng.choice([0, 1, 5, 40, 300])))
        if k == 1:
            return rng.choice(['%s', '%n', '%', '%%', '%d %x %100s %*d', '\\', '"', "'", '\n', '\r\n', ': ', '??', ' ', '\t', '\x1b[0m'])
        if k == 2:
            return chr(rng.randrange(33, 127)) * rng.choice([1, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 5000])
        return rng.choice(['syntax error, unexpected NUM', 'a.s', 'dir/in.script', 'x y', 'error x:1:[1,2]: y', ''])
    num = lambda: rng.choice([0, 1, 2, 9, 10, 99, 100, 12345, 2147483647, -1, -2147483648, rng.randrange(1000000)])
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        l = num()
        out.append(dict(file=[] if rng.random() < .2 else [text()], bl=l, bc=num(), el=rng.choice([l, l, num()]), ec=num(), text=text()))
    return out


def errmsg(ck):
    s, t, text = mc('MC_ErrMsg')
    cs = cases_of(text)
    obs = report_errors([c['calls'] for c in cs])
    bad = [([c['calls']], [['message', repr((c['want'], o))]]) for c, o in zip(cs, obs) if o != (c['want'], '')]
    yield 'ErrMsg', dict(size=dict(states=s, transitions=t, replayed=len(cs)), bad=bad)
    rng = random.Random('errmsg %s' % ck.seed)
    groups = [random_calls(rng) for _ in range(250 if ck.tier == 'quick' else 4000)]
    bad, s, t = judge_errors(groups)
    yield 'ErrMsgTrace', dict(size=dict(states=s, transitions=t, replayed=len(groups)), bad=bad)


# ---------------------------------------------------------------- Rule
def judge_rules(configs):
    recs, bad = [], []
    for c in configs:
        try:
            r, declared = bzl.analyze(c)
        except Exception as e:      # the rule fails
            bad.append(([c], [['fails', repr(e)]]))
            continue
        recs.append((c, r))
    vs, s, t = tlc.conform([r for _, r in recs], module='RuleTrace')
    bad += [([c], v['tags']) for (c, _), v in zip(recs, vs) if v['tags']]
    return bad, s, t


def rules(ck):
    s, t, text = mc('MC_Rule')
    cs = cases_of(text)
    bad, s2, t2 = judge_rules(cs)
    yield 'Rule', dict(size=dict(states=s + s2, transitions=t + t2, replayed=len(cs)), bad=bad)
    rng = random.Random('rule %s' % ck.seed)
    cs = [random_target(rng) for _ in range(150 if ck.tier == 'quick' else 3000)]
    bad, s, t = judge_rules(cs)
    yield 'RuleTrace', dict(size=dict(states=s, transitions=t, replayed=len(cs)), bad=bad)


ROOTS = ['', '', 'bazel-out/k8-fastbuild/bin', 'bazel-out/k8-fastbuild/bin', 'bazel-out/k8-opt/bin', 'bazel-out/host/genfiles', 'bazel-out/x_1-y.z/bin']


def random_target(rng):
    pk = rng.choice(['', 'pkg', 'pkg', 'a/b', 'deep/er/and/deeper'])
    pre = pk + '/' if pk else ''
    f = lambda n: dict(root=rng.choice(ROOTS), short=rng.choice([pre, pre, 'other/', 'lib/x/', '']) + n)
    deps = [f('m%d%s' % (i, rng.choice(['.stl', '.stl', '-a_b.stl', '.x.STL', ' c.stl']))) for i in range(rng.choice([0, 1, 2, 3, 5, 9, 20]))]
    return dict(kind=rng.choice(['stl2pdf', 'stl2pdf', 'scad_binary']), package=pk, deps=deps,
                main=f(rng.choice(['in.script', 'x', 'a b.example', 'a.scad'])),
                out=dict(root=ROOTS[2], short=pre + rng.choice(['out.pdf', 'sub/dir/o.pdf', 'x.y.z', 'a.stl'])),
                label=rng.choice(['doc', 'my-doc_1', 'x/y', 'a.b+c', 'T', 'name=x', 'a,b', '--x']))


# ---------------------------------------------------------------- models whose behaviours are replayed in the program
# property -> (module, how many of its cases the quick tier replays; the thorough one replays all)
REPLAYED = {
    'C01': [('MC_Pipeline', 343)],
    'C02': [('MC_Pipeline', 343)],
    'C03': [('MC_Lex', 1500), ('MC_Grammar', 1500)],
    'C04': [('MC_Text', 1885)],
    'C05': [('MC_Props', 2500)],
    'C06': [('MC_Load', 500)],
    'C07': [('MC_Stl', 700), ('MC_StlNum', 400)],
    'C08': [('MC_Mesh', 900), ('MC_Crease', 1200)],
    'C09': [('MC_Overlap', 600), ('MC_Touch', 600), ('MC_Hide', 250)],
    'C10': [('MC_View', 300)],
    'C11': [('MC_Layout', 384)],
    'C12': [('MC_Dim', 400)],
    'C13': [('MC_Angle', 600)],
    'C14': [('MC_Circle', 250)],
    'C15': [('MC_Near', 400), ('MC_Circle', 120)],
    'C16': [('MC_History', 110)],
    'C17': [('MC_Furniture', 150)],
    'C18': [('MC_Degenerate', 1000)],
    'C19': [('MC_Fmt', 3000)],
    'C20': [('MC_Grammar', 1200), ('MC_Lex', 400)],
    'C22': [('MC_Rearrange', 250)],
    'C21': [('MC_Overlap', 900), ('MC_Mesh', 200), ('MC_Stl', 300), ('MC_Lex', 300), ('MC_Fmt', 1500)],
}
# property -> modules that only check the specification itself
LAWS = {'C03': ['MC_LexLaws'], 'C04': ['MC_LexLaws'], 'C10': ['MC_Num']}
AT_ONCE = 4000


def to_case(d):
    """A case that a model printed: script, files [[path, text]...], and whatever else a case can have."""
    return runner.case(d['script'], [(f[0], f[2] if len(f) > 2 else 'file', f[1]) for f in d.get('files', ())],
                       **{k: v for k, v in d.items() if k not in ('script', 'files')})


LOAD = 'load m = "m.stl";\n'
PENTAGON = ('facet normal 0 0 1\nvertex 5 0 0\nvertex 3 4 0\nvertex -4 3 0\nendfacet\nfacet normal 0 0 1\nvertex 5 0 0\nvertex -4 3 0\n'
            'vertex -3 -4 0\nendfacet\nfacet normal 0 0 1\nvertex 5 0 0\nvertex -3 -4 0\nvertex 4 -3 0\nendfacet\n')


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def stl_cases(cs):
    return [runner.case(LOAD + 'page { draw m { %s} }\n' % ('view = %s; ' % c['view'] if c.get('view') else ''), [('m.stl', 'file', c['stl'])]) for c in cs]


def rearranged(cs):
    def one(name, c, stl):
        return runner.case('load %s = "m.stl";\npage { draw %s { %s %s } }\n' % (name, name, c['set'], c['dims']), [('m.stl', 'file', stl)])
    return [dict(one(c['name'], c, c['stl']), alike=one('m', c, c['plain'])) for c in cs]


def batches(cs, kind, right, wrong):
    """Statements in scripts of their own kind: right ones, and wrong ones a line each."""
    files = [('m.stl', 'file', PENTAGON)]

    def script(group):
        if kind == 'page':
            return LOAD + '\n'.join(c['stmt'] for c in group) + '\n'
        if kind in ('draw', 'text'):
            return LOAD + 'page {\n' + '\n'.join(c['stmt'] for c in group) + '\n}\n'
        at = lambda i: '@ [%d, %d];' % (i % 8 * 2 - 7, i // 8 * 2 - 8)
        return LOAD + 'page {\n' + '\n'.join('draw m { %s scale = 1 : 8;\n%s\n}' % (at(i), c['stmt']) for i, c in enumerate(group)) + '\n}\n'
    for c in cs:
        if c.get('err') or c.get('unsure'):
            yield runner.case(script([c]), files)
    for bad, n in ((False, right), (True, wrong)):
        for g in chunks([c for c in cs if c['bad'] == bad and not c.get('err') and not c.get('unsure')], n):
            yield runner.case(script(g), files)


def props_cases(cs):
    out = []
    for k in sorted({c['kind'] for c in cs}):
        mine = [c for c in cs if c['kind'] == k]
        # draws and texts at the same place can't be told apart
        out += batches(mine, k, {'draw': 1, 'text': 1, 'page': 10}.get(k, 8), 40)
    return out


def own_pages(cs, right=6, wrong=12):
    """Statements each in a draw on a page of its own."""
    for bad, n in ((False, right), (True, wrong)):
        for g in chunks([c for c in cs if c['bad'] == bad and not c['unsure']], n):
            yield pages(g)
    for c in cs:
        if c['unsure']:
            yield pages([c])


def many_pages(cs):
    return own_pages(cs, 25)


def pages(group):
    files = {}
    text = ''
    for c in group:
        stl = c.get('stl', PENTAGON)
        name = files.setdefault(stl, 'm%d' % len(files))
        text += 'page { draw %s { %s%s%s } }\n' % (name, 'scale = %s; ' % c['scale'] if c.get('scale') else '', c.get('set', ''), c['stmt'].replace('\n', ' '))
    return runner.case(''.join('load %s = "%s.stl";\n' % (n, n) for n in files.values()) + text, [(n + '.stl', 'file', d) for d, n in files.items()])


def fmt_cases(cs):
    import script as sc
    out = []
    for i, c in enumerate(cs):
        f = sc.quote(c['fmt'])
        c['kind'] = ['dim', 'angle', 'dia', 'rad'][i % 4]
        c['stmt'] = {'dim': 'dim(at = [1, 7, 0], dir = [1, 0, 0], from = [-3, 0.5, 0], to = [%d.%d, 1, 0], fmt = %s);' % (i % 7, i % 1000 + 1, f),
                     'angle': 'angle(at = [2, 3, 0], apex = [0, 0, 0], from_dir = [1, 0, 0], to_point = [%d.%d, 2, 0], fmt = %s);' % (i % 7 - 3, i % 1000 + 1, f),
                     'dia': 'dia(at = [6, %d.%d, 0], dir = [1, 1, 0], center = [0.25, 0, 0], fmt = %s);' % (i % 7 - 3, i % 1000 + 1, f),
                     'rad': 'rad(at = [6, %d.%d, 0], dir = [2, 1, 0], center = [0.25, 0, 0], fmt = %s);' % (i % 7 - 3, i % 1000 + 1, f)}[c['kind']]
        c['bad'], c['unsure'] = c['k'] == 'bad', c['k'] == 'unsure'
    for k in ('dim', 'angle', 'dia', 'rad'):
        out += batches([c for c in cs if '\n' not in c['fmt'] and c['kind'] == k], k, 16, 40)
    return out


def text_cases(cs):
    import script as sc

    def literals(i, s):
        """Different ways to write it."""
        if i % 4 == 1 and s:
            k = i // 4 % (len(s) + 1)
            return sc.quote(s[:k]) + ' // "\n' + sc.quote(s[k:])
        if i % 4 == 2:
            return '"' + ''.join('\\n' if c == '\n' else '\\' + c if c in '"\\\'?' else c for c in s) + '"'
        return sc.quote(s)
    for b, g in enumerate(chunks(cs, 70)):
        blocks = ['text [%s] { @[%d, %s]; }' % (literals(i, c['s']), i % 5 * 2 - 5, '%.1f' % (i // 5 * .6 - 4)) for i, c in enumerate(g)]
        if b % 3 == 0:
            yield runner.case('page {\n' + '\n'.join(blocks) + '\n}\n')
        elif b % 3 == 1:
            yield runner.case('\n'.join('page { name = %s; %s }' % (literals(i, c['s']), blocks[i] if i % 4 == 0 else '') for i, c in enumerate(g[:35])) + '\n')
        else:
            yield runner.case('\n'.join('page { %s }' % t for t in blocks) + '\n', number=False)


BUILD = {'MC_Degenerate': own_pages, 'MC_Rearrange': rearranged, 'MC_Crease': many_pages, 'MC_Text': text_cases, 'MC_Stl': stl_cases, 'MC_Mesh': stl_cases, 'MC_Overlap': stl_cases, 'MC_Touch': stl_cases, 'MC_Hide': stl_cases, 'MC_StlNum': stl_cases, 'MC_Props': props_cases, 'MC_Fmt': fmt_cases,
         'MC_Dim': own_pages, 'MC_Angle': own_pages, 'MC_Circle': own_pages, 'MC_Near': own_pages, 'MC_Layout': own_pages}


def replayed(ck, module, quick):
    deep = os.path.join(tlc.SPEC, module + '_deep.cfg')      # larger bounds
    s, t, text = mc(module, cfg=deep if ck.tier != 'quick' and os.path.exists(deep) else None, timeout=600 if ck.tier == 'quick' else 1800)
    raw = cases_of(text)
    rng = random.Random('%s %s' % (module, ck.seed))
    rng.shuffle(raw)
    total = len(raw)
    if ck.tier == 'quick':
        raw = raw[:quick]
    cases = list(BUILD.get(module, lambda cs: [to_case(c) for c in cs])(raw))
    if ck.variant == 'asan':
        cases = [dict(c, light=True) for c in cases]
    done = 0
    for g in chunks(cases, AT_ONCE):
        ck.explore(g)
        done += len(g)
        if ck.violations or (ck.tier != 'quick' and ck.left() < -900):
            break
    yield module, dict(size=dict(states=s, transitions=t, cases=total, chosen=len(raw), replayed=done), bad=[])


def laws(module):
    s, t, _ = mc(module)
    yield module, dict(size=dict(states=s, transitions=t), bad=[])


def check(ck):
    for module in LAWS.get(ck.prop, ()):
        yield from laws(module)
    for module, quick in REPLAYED.get(ck.prop, ()):
        yield from replayed(ck, module, quick)
    if ck.prop == 'C20':
        yield from errmsg(ck)
    elif ck.prop == 'C23':
        yield from rules(ck)


def replay(name, data):
    if name.startswith('ErrMsg'):
        return judge_errors(data)[0]
    if name.startswith('Rule'):
        return judge_rules(data)[0]
    raise ModelError('nothing known about ' + name)
