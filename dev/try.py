"""Judges the repository's own example scripts: a quick look at the whole chain."""
import sys, os, glob, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, runner, tlc
exe = build.build()
files = [('testcases/' + os.path.basename(f), 'file', open(f, 'rb').read()) for f in glob.glob('/repo/testcases/*.stl')]
cs, names = [], []
files.append(('/dev/null', 'file', b''))
for f in sorted(glob.glob('/repo/testcases/*.example') + glob.glob('/repo/testcases/*.case')):
    if len(sys.argv) > 1 and sys.argv[1] not in f: continue
    names.append(os.path.basename(f)); cs.append(runner.case(open(f, 'rb').read(), files))
recs = runner.run_all(exe, cs)
t = time.time()
vs, s, tr = tlc.conform(recs)
for n, r, v in zip(names, recs, vs):
    print(n, r['obs']['status'], v['size'], len(v['tags']))
    for x in v['tags'][:int(sys.argv[2]) if len(sys.argv) > 2 else 5]: print('   ', x[0], x[1][:300])
print(s, tr, time.time() - t)
