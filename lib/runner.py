"""Runs stl-to-ps on generated inputs and records what it does.

A case is a dict:
  script    bytes of the script
  files     [(path, kind, data)], kind file, dir, or broken; paths relative to
            the working directory, or beginning with @ROOT@ for absolute ones
  loadpath, name (str), timestamp, number (bool)
  path      how the script is named
  broken    '' or what can't be done: 'script-missing', 'script-dir', 'script'
            (with fault), 'output-full', 'output-dir', 'output-limit:N' (no
            file may be longer than N bytes), 'input' (a model, with fault)
Optional:
  fault     'NAME:K': reads of that file fail from byte K on
  pieces    'N' or 'i': reads and writes do at most N bytes, or are interrupted
  tick      (T, D): the clock says T, T + D, T + 2 D... every time it is asked
  implicit  the flags for timestamp and number are not given
  rerun     run it again under other circumstances; the same has to come out
  base      simpler cases, see check.py
  alike     a case that the same drawing has to come out of
@ROOT@ in script, loadpath and paths stands for the scratch directory.
"""
import concurrent.futures
import datetime
import hashlib
import os
import shutil
import signal
import subprocess
import tempfile
import threading

TIMEOUT = 60
LONGEST = 24 << 20
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')


def case(script, files=(), **kw):
    if isinstance(script, str):
        script = script.encode('latin-1')
    c = dict(script=script, files=[(p, k, d.encode('latin-1') if isinstance(d, str) else d) for p, k, d in files],
             loadpath='', name='', timestamp=False, number=True, path='in.script', broken='')
    c.update(kw)
    return c


_LOCK = threading.Lock()


def shim():
    """The library that makes reads and writes fail."""
    src = os.path.join(VERIF, 'lib', 'fault.c')
    key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'fault-%s.so' % key)
    with _LOCK:
        if not os.path.exists(out):
            os.makedirs(BUILD, exist_ok=True)
            tmp = out + '.%d' % os.getpid()
            subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', tmp, src, '-ldl'], check=True)
            os.rename(tmp, out)
    return out


def _sub(b, root):
    return b.replace(b'@ROOT@', root.encode())


def _enc(s):
    return s.encode('latin-1') if isinstance(s, str) else s


def _dec(b):
    return b.decode('latin-1')


def stamp(t):
    return datetime.datetime.fromtimestamp(t, datetime.timezone.utc).strftime('%Y-%m-%d %I:%M:%S')


def clock(t0, t1):
    out, t = [], int(t0)
    while t <= int(t1) + 1 and len(out) < 200:
        out.append(stamp(t))
        t += 1
    return out


STALE = b'%!PS-Adobe-3.0\n%%Pages: 90\n' + b''.join(
    b'%%%%Page: %d %d\n7 7 moveto\n(page %d of 90) show\nnewpath 5 5 moveto 787 607 lineto stroke\nshowpage\n' % (i, i, i) for i in range(1, 91)) + b'%%EOF\n'


def _once(exe, c, root, env, timeout, prefix=()):
    """Sets up the files and runs the program: (status, stderr, output, seconds)."""
    broot = root.encode()
    script = _sub(c['script'], root)
    loadpath = _sub(_enc(c['loadpath']), root)
    path = _sub(_enc(c['path']), root)
    files = []
    for p, k, d in c['files']:
        full = _sub(_enc(p), root)
        if c.get('fault') and c['broken'] == 'input' and full == _enc(c['fault'].rsplit(':', 1)[0]):
            k = 'broken'
        files.append((full, k, d))
        at = os.path.join(broot, full)
        if not os.path.normpath(at).startswith(broot):
            continue  # only for /dev/null as an empty model
        if k == 'dir':
            os.makedirs(at, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(at), exist_ok=True)
            with open(at, 'wb') as f:
                f.write(d)
    at = os.path.join(broot, path)
    broken = c['broken']
    if broken == 'script-dir':
        os.makedirs(at)
    elif broken != 'script-missing':
        os.makedirs(os.path.dirname(at), exist_ok=True)
        with open(at, 'wb') as f:
            f.write(script)
    out = b'out.ps'
    if broken == 'output-full':
        out = b'/dev/full'
    elif broken == 'output-dir':
        os.makedirs(os.path.join(root, 'out.ps'))
    elif broken == 'output-nodir':
        out = b'no/such/out.ps'
    if c.get('stale'):                 # what an earlier run has left
        with open(os.path.join(root, 'out.ps'), 'wb') as f:
            f.write(STALE)
    e = dict(os.environ, TZ='UTC', LC_ALL='C', TMPDIR=root)
    if c.get('fault'):
        e['S2P_FAIL'] = c['fault']
    if c.get('pieces'):
        e['S2P_PIECES'] = c['pieces']
    if c.get('tick'):
        e['S2P_TICK'] = '%d:%d' % tuple(c['tick'])
    if c.get('fault') or c.get('pieces') or c.get('tick'):
        e['LD_PRELOAD'] = shim()
    e.update(env or {})
    args = list(prefix) + [exe.encode()]
    if broken != 'flags-noscript':
        args.append(b'--script=' + (b'' if broken == 'flags-emptyscript' else path))
    if broken != 'flags-nooutput':
        args.append(b'--output=' + (b'' if broken == 'flags-emptyoutput' else out))
    if broken == 'flags-unknown':
        args.append(b'--load_paths=x')
    if broken == 'flags-value':
        args.append(b'--number_pages=maybe')
    if loadpath:
        args.append(b'--load_path=' + loadpath)
    if c['name']:
        args.append(b'--name=' + _enc(c['name']))
    if not c.get('implicit'):
        args.append(b'--timestamp=' + (b'true' if c['timestamp'] else b'false'))
        args.append(b'--number_pages=' + (b'true' if c['number'] else b'false'))
    t0 = datetime.datetime.now().timestamp()
    try:
        p = subprocess.run(args, cwd=root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout)
        status, err = p.returncode, p.stderr
    except subprocess.TimeoutExpired as x:
        status, err = 999, x.stderr or b''
    t1 = datetime.datetime.now().timestamp()
    body = b''
    if os.path.isfile(os.path.join(root, 'out.ps')):
        with open(os.path.join(root, 'out.ps'), 'rb') as f:
            body = f.read(LONGEST + 1)
        if len(body) > LONGEST:      # far more than anything here makes
            body = body[:100000]
    return dict(cwd=_dec(_enc(root)), script=_dec(script), loadpath=_dec(loadpath), name=_dec(_enc(c['name'])), path=_dec(path),
                timestamp=c['timestamp'], number=c['number'], broken=broken.split('-')[0],
                files=[dict(path=_dec(p), kind=k, data=_dec(d)) for p, k, d in files],
                # with no time shown any one will do
                times=([''] if not c['timestamp'] else clock(t0, t1) if not c.get('tick') else
                       [stamp(c['tick'][0] + k * c['tick'][1]) for k in range(100)]),
                obs=dict(status=status, stderr=_dec(err[:4 << 20]), out=_dec(body)))


def _scratch(f):
    root = tempfile.mkdtemp(prefix='s2p-')
    try:
        return f(root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(exe, c, env=None, timeout=TIMEOUT):
    """The record of a run, as Conform.tla wants it."""
    prefix = ()
    broken = c['broken']
    if broken.startswith('output-limit:'):
        n = int(broken.split(':')[1])
        whole = _scratch(lambda root: _once(exe, dict(c, broken=''), root, env, timeout))
        if whole['obs']['status'] != 0 or len(whole['obs']['out']) <= n:
            broken = ''       # the limit doesn't matter
        prefix = (b'/usr/bin/prlimit', b'--fsize=%d' % n, b'--core=0', b'/usr/bin/env', b'--ignore-signal=XFSZ')
    r = _scratch(lambda root: _once(exe, c, root, env, timeout, prefix))
    r['broken'] = '' if broken == 'input' else broken.split('-')[0]
    if c.get('light'):
        r['light'] = True
    if c.get('rerun'):
        again = dict(env or {}, MALLOC_PERTURB_='165', HOME='/nonexistent', S2P_PAD='x' * 3001)
        r['obs']['twin'] = _scratch(lambda root: _once(exe, c, root, again, timeout))['obs']['out']
    if c.get('alike'):
        r['obs']['alike'] = _scratch(lambda root: _once(exe, c['alike'], root, env, timeout))['obs']['out']
    return r


def run_all(exe, cases, env=None, jobs=8, timeout=TIMEOUT):
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda c: run(exe, c, env, timeout), cases))
