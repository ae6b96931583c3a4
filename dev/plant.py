#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/ID from the list of bugs in dev/plant/bugs*.py.

  plant.py [ID...]    make (and confirm) these, or all that don't exist yet
"""
import glob, json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'ca28a44'
bugs = {}
for f in sorted(glob.glob(V + '/dev/plant/bugs*.py')):
    for b in runpy.run_path(f)['BUGS']:
        assert b['id'] not in bugs, b['id']
        bugs[b['id']] = b


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(b):
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = tmp + '/repo'
        sh(['git', 'clone', '-q', '/repo', repo])
        original = sh(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd=repo).stdout.decode().split()[-1]
        for f, old, new in b['edits']:
            p = os.path.join(repo, 'stl-to-ps', f)
            s = open(p).read()
            if s.count(old) != 1:
                return 'edit of %s matches %d times: %r' % (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=repo).stdout
        blame = ''
        for f in {e[0] for e in b['edits']}:
            # lines removed must be the original's
            p = 'stl-to-ps/' + f
            for l in sh(['git', 'blame', '-s', 'HEAD', '--', p], cwd=repo).stdout.decode('latin-1').split('\n'):
                blame += l + '\n'
        out = os.path.join(V, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + '/patch.diff', 'wb').write(diff)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write('from d import *\n' + b['demo'].strip('\n') + '\n')
        shutil.copy(V + '/dev/plant/d.py', out)
        shutil.copytree(V + '/shim', out + '/shim')
        for n, t in b.get('extra', {}).items():
            open(os.path.join(out, n), 'w').write(t)
        json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(out + '/meta.json', 'w'), indent=1)
        demo = tmp + '/demo'
        shutil.copytree(out, demo)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        p = sh([demo + '/demo.sh'], cwd=repo, env=env)
        if p.returncode in (0, 3):
            return 'demo on patched: %d %s' % (p.returncode, p.stdout.decode('latin-1')[-600:])
        said = p.stdout.decode('latin-1').strip()[-200:]
        p = sh([demo + '/demo.sh'], cwd='/repo', env=env)
        if p.returncode:
            return 'demo on clean: %d %s' % (p.returncode, p.stdout.decode('latin-1')[-600:])
        p = sh(['python3', V + '/dev/gtests.py'], env=dict(os.environ, VERIF_REPO=repo, PYTHONDONTWRITEBYTECODE='1'))
        if p.returncode:
            return 'existing tests: %s' % p.stdout.decode('latin-1')[-1200:]
        return 'ok   (%s)' % said
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


want = sys.argv[1:] or [i for i in bugs if not os.path.exists(os.path.join(V, 'seeded', i))]
for i in want:
    r = make(bugs[i])
    print(i, r, flush=True)
    if not r.startswith('ok'):
        shutil.rmtree(os.path.join(V, 'seeded', i), ignore_errors=True)
