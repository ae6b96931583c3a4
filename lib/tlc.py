"""Runs TLC on the modules in /verif/spec."""
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def classes():
    """The directory with the Java parts of the spec, compiled when needed."""
    srcs = [os.path.join(SPEC, f) for f in ('Num.java', 'Trace.java')]
    key = hashlib.sha256(b''.join(open(s, 'rb').read() for s in srcs)).hexdigest()[:16]
    out = os.path.join(BUILD, 'cls-' + key)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(prefix='cls-tmp-', dir=BUILD)
        p = subprocess.run(['javac', '-cp', JAR + ':' + COMM, '-d', tmp] + srcs, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if p.returncode:
            raise TlcError(p.stdout.decode())
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return out


def start(module, env=None, workers=4, cfg=None, heap='3g', extra=(), lib=None):
    """A running TLC: (process, its scratch directory)."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ, LC_ALL='C.UTF-8')
    e.update(env or {})
    cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-Djava.io.tmpdir=' + meta,
           '-DTLA-Library=' + SPEC, '-cp', '%s:%s:%s' % (classes(), JAR, COMM), 'tlc2.TLC',
           '-workers', str(workers), '-metadir', os.path.join(meta, 'states'), '-noGenerateSpecTE',
           '-config', cfg or os.path.join(SPEC, module + '.cfg')]
    cmd += list(extra) + [os.path.join(lib or SPEC, module + '.tla')]
    out = open(os.path.join(meta, 'out'), 'wb')
    p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=meta, env=e)
    out.close()
    return p, meta


def finish(p, meta, timeout):
    """(exit code, output) of a TLC from start()."""
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        rc = -1
    with open(os.path.join(meta, 'out'), 'rb') as f:
        text = f.read().decode('utf-8', 'replace')
    shutil.rmtree(meta, ignore_errors=True)
    return rc, text


def stats(text):
    """States and transitions from TLC's summary."""
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', text)
    if not m:
        return 0, 0
    return int(m.group(2)), int(m.group(1))


def quiet(text):
    """Without the lines about what was loaded."""
    return '\n'.join(l for l in text.split('\n') if not l.startswith(('Parsing file', 'Semantic processing', 'Linting of', 'Loading ', '"CASE')))


def check(module, cfg=None, workers=8, timeout=800, env=None, heap='6g', extra=()):
    """Model checks a module: (ok, distinct states, transitions, output)."""
    rc, text = finish(*start(module, env, workers, cfg, heap, extra), timeout)
    if rc not in (0, 12, 13) and not (rc == 11):
        raise TlcError('TLC failed on %s (%d):\n%s' % (module, rc, quiet(text)[-8000:]))
    s, t = stats(text)
    return rc == 0, s, t, text


VERDICT = re.compile(r'^"VERDICT (\d+) (.*)"$', re.M)


def unquote(s):
    """TLC prints strings with quotes and backslashes escaped."""
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m.group(1), m.group(1)), s)


def conform(cases, module='Conform', jobs=4, timeout=800):
    """Judges recorded runs.  Returns (verdicts in order, states, transitions).

    A verdict is {'tags': [[tag, details]...], 'size': {...}}.
    """
    if not cases:
        return [], 0, 0
    verdicts, states, trans = [None] * len(cases), 0, 0
    left = list(range(len(cases)))
    for _ in range(8):
        got, culprits, s, t = conform_some([cases[i] for i in left], module, jobs, timeout)
        states, trans = states + s, trans + t
        for k, v in got.items():
            verdicts[left[k]] = v
        for k in culprits:
            # output that no operator of the specification is defined for
            verdicts[left[k]] = dict(tags=[['beyond', culprits[k]]], size=dict(NOTHING))
        left = [i for i in left if verdicts[i] is None]
        if not left:
            break
    for i in left:
        verdicts[i] = dict(tags=[], size=dict(NOTHING))
    return verdicts, states, trans


NOTHING = dict(ok=False, unsure=True, faults=0, pages=0, ink=0)


def conform_some(cases, module, jobs, timeout):
    """(verdicts by index, what TLC can't evaluate by index, states, transitions)"""
    jobs = max(1, min(jobs, (len(cases) + 7) // 8))
    chunks = [list(range(i, len(cases), jobs)) for i in range(jobs)]
    tmp = tempfile.mkdtemp(prefix='cases-')
    running = []
    verdicts, culprits = {}, {}
    states = trans = 0
    try:
        for n, idx in enumerate(chunks):
            path = os.path.join(tmp, '%d.ndjson' % n)
            with open(path, 'w') as f:
                for i in idx:
                    f.write(json.dumps(cases[i]) + '\n')
            running.append((idx, start(module, {'CASES': path}, workers=2)))
        for idx, (p, meta) in running:
            rc, text = finish(p, meta, timeout)
            for m in VERDICT.finditer(text):
                verdicts[idx[int(m.group(1)) - 1]] = json.loads(unquote(m.group(2)))
            if rc != 0:
                at = re.findall(r'^/\\ run = (\d+)$', text, re.M)
                if rc == -1 or 'OutOfMemory' in text or not at or idx[int(at[-1]) - 1] in verdicts:
                    raise TlcError('TLC failed (%d):\n%s' % (rc, quiet(text)[-6000:]))
                said = text[text.find('Error: '):]
                culprits[idx[int(at[-1]) - 1]] = ' '.join(said[:300].split())
            s, t = stats(text)
            states += s
            trans += t
    finally:
        for _, (p, meta) in running:
            if p.poll() is None:
                p.kill()
                p.wait()
            shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    missing = [i for i in range(len(cases)) if i not in verdicts]
    if missing and not culprits:
        raise TlcError('no verdict about case %d of %d' % (missing[0], len(cases)))
    return verdicts, culprits, states, trans
