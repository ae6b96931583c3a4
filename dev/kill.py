#!/usr/bin/env python3
"""Development aid: runs a planted bug's check against it.  kill.py [-a] [ID...]   -a: every check"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = args[:1] == ['-a']
ids = args[1:] if every else args
ids = ids or sorted(os.listdir(V + '/seeded'))
tmp = tempfile.mkdtemp(prefix='kill-')
try:
    v = tmp + '/verif'
    shutil.copytree(V, v, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'build'))
    for i in ids:
        repo = tmp + '/repo'
        shutil.rmtree(repo, ignore_errors=True)
        subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
        subprocess.run(['git', 'apply', '%s/seeded/%s/patch.diff' % (V, i)], cwd=repo, check=True)
        prop = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
        for p in (['C%02d' % n for n in range(1, 24)] if every else [prop]):
            t = time.time()
            r = subprocess.run(['python3', v + '/check.py', p], env=dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1')),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            text = r.stdout.decode('latin-1')
            n = text.count('VIOLATION property=' + p)
            first = [l for l in text.split('\n') if l.startswith(p + ': ')][:1]
            print('%-22s %s rc=%d violations=%d %.0fs %s' % (i, p, r.returncode, n, time.time() - t, first[0][:150] if first else text[-300:]), flush=True)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
