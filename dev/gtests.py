"""Development aid: builds and runs the repository's own gtest files with the shims."""
import os, sys, subprocess, tempfile, glob
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build as B
d = tempfile.mkdtemp(prefix='gt-')
gen = d + '/gen'
B.generate(gen)
cmds, objs = B.compile_cmds('plain', gen, d, lambda b: b != 'stl-to-ps-main.cc')
tests = sorted(glob.glob(B.SRC + '/*_test.cc'))
for t in tests + [B.SRC + '/test_main.cc']:
    cmds.append(['g++', '-std=c++17', '-w', '-O1', '-I' + B.VERIF + '/shim', '-I' + B.REPO, '-I' + gen,
                 '-I/usr/include/eigen3', '-DEIGEN_INITIALIZE_MATRICES_BY_ZERO', '-c', t, '-o', d + '/' + os.path.basename(t) + '.o'])
B._parallel(cmds)
bad = 0
for t in tests:
    b = os.path.basename(t)
    exe = d + '/' + b + '.exe'
    B._run(B.link_cmd('plain', objs + [d + '/' + b + '.o', d + '/test_main.cc.o'], exe, ['-lgmock', '-lgtest']))
    p = subprocess.run([exe], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(b, p.returncode, p.stdout.decode('utf-8', 'replace').strip().splitlines()[-1])
    if p.returncode:
        bad = 1
        print('\n'.join(l for l in p.stdout.decode('utf-8', 'replace').splitlines() if 'FAILED' in l or 'Failure' in l))
import shutil; shutil.rmtree(d)
sys.exit(bad)
