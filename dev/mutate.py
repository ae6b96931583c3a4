#!/usr/bin/env python3
"""Development aid: mutation testing of the checks.

mutate.py N [SEED [FILE...]]: N random small changes to the sources, each
tried on the cases of all the checks (their quick tiers, with fewer of the
models' cases).  Mutants that behave differently in some case are judged; the
survivors are printed with what they change.
"""
import collections, multiprocessing, concurrent.futures, glob, os, random, re, shutil, subprocess, sys, tempfile
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import build, gen, models, props, runner, tlc

N = int(sys.argv[1])
SEED = sys.argv[2] if len(sys.argv) > 2 else '1'
ONLY = sys.argv[3:]
rng = random.Random('mutate' + SEED)
PER_MODEL = int(os.environ.get('PER_MODEL', '150'))

OPS = [(r' < ', [' <= ', ' > ']), (r' <= ', [' < ']), (r' > ', [' >= ', ' < ']), (r' >= ', [' > ']), (r' == ', [' != ']), (r' != ', [' == ']),
       (r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ']), (r' / ', [' * ']), (r' && ', [' || ']), (r' \|\| ', [' && ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\.x\(\)', ['.y()']), (r'\.y\(\)', ['.x()', '.z()']), (r'\.z\(\)', ['.y()']),
       (r'\bfirst\b', ['second']), (r'\bsecond\b', ['first']), (r'\bmin\b', ['max']), (r'\bmax\b', ['min']), (r'\bsin\b', ['cos']), (r'\bcos\b', ['sin']),
       (r'\+=', ['-=']), (r'-=', ['+=']), (r'&=', ['|=']), (r'\|=', ['&=']), (r'(?<=[(, =])!(?=[a-zA-Z(])', ['']), (r'(?<=[(, =])-(?=[a-zA-Z(\d])', ['']),
       (r'(?<![\w.])\d+(?![\w.])', ['+1', '-1', '*2']), (r'(?<![\w])\d*\.\d+(?![\w.])', ['*1.05', '*0.95', '*2']), (r'\bfrom\b', ['to']), (r'\bto\b', ['from']),
       (r'\bcontinue;', ['break;', '']), (r'\bbreak;', ['']), (r'\bif \(', ['if (false && ', 'if (true || ']), (r'\bRowVector3d\b', []), (r'\b0\b', ['1']),
       (r'\bpush_back\b', []), (r'\bnorm\b', []), (r'\.empty\(\)', ['.size()']), (r'\bstd::abs\(', ['(']), (r'\.normalized\(\)', ['']), (r'\bsquaredNorm\b', ['norm'])]


def mutants(path):
    text = open(path, encoding='latin-1').read()
    lines = text.split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', 'using', 'namespace', 'template', 'extern', 'static_assert')) or 'LOG(INFO)' in l:
            continue
        code = l.split('//')[0] if '"' not in l else l
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                if 'include' in l or l[:m.start()].count('"') % 2:
                    continue
                for r in reps:
                    new = (m.group(0) + r if r[:1] in '+-*' and r[1:2].isdigit() else r)
                    if r[:1] in '+-*' and r[1:2].isdigit():
                        new = '(' + m.group(0) + ' ' + r[0] + ' ' + r[1:] + ')'
                    yield i, l[:m.start()] + new + l[m.end():]
        if s.endswith(';') and not re.match(r'(const |auto|int|double|return|static|std::\w+[ <]|Eigen::|break|continue|virtual|bool|case|public|using|struct|class|\w+ \w+;|\}|~?\w+\(.*\) *(const)?( override)?;)', s):
            yield i, '/* ' + s.replace('*/', '') + ' */;'


def corpus():
    out = []
    for p in sorted(props.PROPS):
        n, most, _ = props.SIZES[p]
        cs = list(getattr(gen, 'gen_' + p)(random.Random('%s 1 1' % p), n))
        random.Random(1).shuffle(cs)
        for c in cs[:most]:
            out.append((p, c))
    def one(m):
        return m, models.cases_of(models.mc(m, workers=2)[2])
    mods = sorted({m for v in models.REPLAYED.values() for m, _ in v})
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        raws = dict(ex.map(one, mods))
    for p, v in models.REPLAYED.items():
        for m, _ in v:
            raw = [dict(r) for r in raws[m]]
            random.Random(m).shuffle(raw)
            cs = list(models.BUILD.get(m, lambda cs: [models.to_case(c) for c in cs])(raw[:PER_MODEL * (5 if m in ('MC_Props', 'MC_Fmt') else 1)]))
            out += [(p, c) for c in cs[:PER_MODEL]]
    keep = []
    for p, c in out:
        if c.get('light') or c['broken'].startswith('output-limit'):
            continue
        c = dict(c, rerun=False)
        c.pop('alike', None)
        if c['timestamp'] and not c.get('tick'):
            c['tick'] = (1000000000, 1)
        keep.append((p, c))
    random.Random(2).shuffle(keep)
    return keep


def raw(r):
    o = r['obs']
    root = re.compile(r's2p-\w+')
    f = lambda s: re.sub(r'% Time: .*', '% Time', re.sub(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', 'TIME', root.sub('ROOT', s)))
    return o['status'], f(o['out']), re.sub(r'(?m)^(@LOG \w) \S+ \d+\]', r'\1', re.sub(r'(?m)^@LOG I.*\n', '', re.sub(r'\(\S*/stl-to-ps/[\w./-]+:\d+\)', '(SRC)', f(o['stderr']))))


def call(k):
    return TRY(k)


def main():
    work = tempfile.mkdtemp(prefix='mut-')
    try:
        go(work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(work):
    src = build.SRC
    files = [f for f in build._files() if not build._is_test(f) and f.endswith(('.cc', '.h')) and not os.path.basename(f).startswith(('gen.', 'eigen_wrap'))]
    if ONLY:
        files = [f for f in files if os.path.basename(f) in ONLY]
    all_ = [(f, i, l) for f in files for i, l in mutants(f)]
    print(len(all_), 'possible mutants', flush=True)
    chosen = rng.sample(all_, min(N, len(all_)))
    g = work + '/gen'
    build.generate(g)
    objd = work + '/obj'
    os.makedirs(objd)
    cmds, objs = build.compile_cmds('plain', g, objd)
    build._parallel(cmds)
    exe0 = work + '/base'
    build._run(build.link_cmd('plain', objs, exe0))
    cs = corpus()
    print(len(cs), 'cases', flush=True)
    base = [raw(r) for r in runner.run_all(exe0, [c for _, c in cs])]
    again = [raw(r) for r in runner.run_all(exe0, [c for _, c in cs])]
    print('noise:', collections.Counter(p for (p, _), a, b in zip(cs, base, again) if a != b), flush=True)
    cs, base = zip(*[(c, a) for c, a, b in zip(cs, base, again) if a == b])

    def compile_one(k):
        f, i, l = chosen[k]
        d = '%s/m%d' % (work, k)
        os.makedirs(d + '/repo')
        shutil.copytree(src, d + '/repo/stl-to-ps')
        rel = os.path.relpath(f, src)
        p = d + '/repo/stl-to-ps/' + rel
        lines = open(f, encoding='latin-1').read().split('\n')
        lines[i] = l
        open(p, 'w', encoding='latin-1').write('\n'.join(lines))
        out = []
        try:
            for c, o in zip(cmds, objs):
                b = os.path.basename(o)[:-2]
                if rel.endswith('.cc') and b != rel:
                    out.append(o)
                    continue
                c2 = [x.replace(objd, d).replace(build.REPO + '/stl-to-ps', d + '/repo/stl-to-ps') for x in c]
                c2 = ['-I' + d + '/repo' if x == '-I' + build.REPO else x for x in c2]
                build._run(c2)
                out.append(d + '/' + os.path.basename(o))
            exe = d + '/exe'
            build._run(build.link_cmd('plain', out, exe))
            return exe
        except build.BuildError:
            return None

    def try_one(k):
        exe = compile_one(k)
        if not exe:
            shutil.rmtree('%s/m%d' % (work, k), ignore_errors=True)
            return None
        hangs = 0
        per = collections.Counter()
        ends, mild = [], []           # cases that end differently, and others
        for (p, c), b in zip(cs, base):
            if per[p, 0] >= 2 and per[p, 1] >= 2:
                continue
            try:
                r = runner.run(exe, c, timeout=5)
            except Exception:
                continue
            x = raw(r)
            if x == b:
                continue
            k2 = int(x[0] != b[0])
            if per[p, k2] < 2:
                per[p, k2] += 1
                (ends if k2 else mild).append((p, r))
            hangs += r['obs']['status'] == 999
            if hangs > 2 or (len(ends) >= 16 and len(mild) >= 16):
                break
        diff = ends[:16] + mild[:max(16, 30 - len(ends))]
        shutil.rmtree('%s/m%d' % (work, k), ignore_errors=True)
        return diff

    counts = collections.Counter()
    by = collections.Counter()
    step = 40
    for at in range(0, len(chosen), step):
        ks = list(range(at, min(at + step, len(chosen))))
        global TRY
        TRY = try_one
        with multiprocessing.get_context('fork').Pool(8) as ex:
            res = ex.map(call, ks, chunksize=1)
        recs = [r for d in res if d for _, r in d]
        vs = iter(tlc.conform(recs, jobs=8, timeout=900)[0] if recs else [])
        for k, d in zip(ks, res):
            f, i, l = chosen[k]
            if d is None:
                counts['does not compile'] += 1
                continue
            killers, tags = set(), collections.Counter()
            for p, r in d:
                v = next(vs)
                for t in v['tags']:
                    tags[t[0]] += 1
                    if props.matches(t[0], props.PROPS[p]['tags']):
                        killers.add(p)
            for p in killers:
                by[p] += 1
            kind = 'killed' if killers else 'unjudged' if d else 'same'
            counts[kind] += 1
            if kind != 'killed':
                old = open(f, encoding='latin-1').read().split('\n')[i]
                print('%s %s:%d\n   -%s\n   +%s   %s' % (kind, os.path.basename(f), i + 1, old.strip(), l.strip(),
                      '%d differ: %s %s' % (len(d), sorted({p for p, _ in d}), dict(tags)) if d else ''), flush=True)
        print('--', dict(counts), flush=True)
    print(dict(by))


main()
