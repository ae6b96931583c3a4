"""Builds the stl-to-ps program from /repo's current working tree.

The repository's own build (Bazel) needs the network, so the sources are
compiled directly: bison, flex and g++, with /verif/shim standing in for the
two headers that are not installed here (absl/log, re2) and for
@bazel_rules//parser.  Every *.cc of /repo/stl-to-ps takes part except the
tests, so a file that a change adds is picked up.  The result is cached under
/verif/build by the hash of everything that goes into it.
"""
import concurrent.futures
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'stl-to-ps')
BUILD = os.path.join(VERIF, 'build')

FLAGS = {
    'plain': ['-O1'],
    # -O1 keeps the stack small; the leak checker is off at run time.
    'asan': ['-O1', '-g', '-fno-omit-frame-pointer',
             '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
             '-D_GLIBCXX_ASSERTIONS'],
}
LINK = {'plain': [], 'asan': ['-fsanitize=address,undefined']}


class BuildError(Exception):
    pass


def _files():
    out = []
    for pat in ('*.cc', '*.h', '*.y', '*.l', '*.hh', '*.cpp', '*.inc'):
        out += glob.glob(os.path.join(SRC, '**', pat), recursive=True)
    return sorted(set(out))


def _is_test(path):
    b = os.path.basename(path)
    return b.endswith('_test.cc') or b == 'test_main.cc'


def _hash(variant, extra=()):
    h = hashlib.sha256()
    h.update(repr((variant, FLAGS[variant], LINK[variant])).encode())
    shim = sorted(glob.glob(os.path.join(VERIF, 'shim', '**', '*.h'), recursive=True))
    for f in [f for f in _files() if not _is_test(f)] + shim + list(extra):
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf-8', 'replace')[-6000:]))


def _parallel(jobs):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(_run, j) for j in jobs]:
            f.result()


def generate(gen):
    d = os.path.join(gen, 'stl-to-ps')
    os.makedirs(d, exist_ok=True)
    _run(['bison', '--defines=%s/parser.tab.h' % d, '-o', '%s/parser.tab.cc' % d,
          os.path.join(SRC, 'parser.y')])
    _run(['flex', '--header-file=%s/lexer.yy.h' % d, '-o', '%s/lexer.yy.cc' % d,
          os.path.join(SRC, 'lexer.l')])


def compile_cmds(variant, gen, out, want=None):
    srcs = [f for f in _files() if f.endswith(('.cc', '.cpp')) and not _is_test(f)]
    srcs += [os.path.join(gen, 'stl-to-ps', n) for n in ('parser.tab.cc', 'lexer.yy.cc')]
    cmds, objs = [], []
    for s in srcs:
        b = os.path.basename(s)
        if want and not want(b):
            continue
        o = os.path.join(out, b + '.o')
        # BUILD: the parser library is compiled with exceptions, the rest without
        # them (.bazelrc).
        exc = [] if b in ('parser.cc', 'parser.tab.cc', 'lexer.yy.cc') else ['-fno-exceptions']
        cmds.append(['g++', '-std=c++17', '-w'] + FLAGS[variant] + exc + [
            '-I' + os.path.join(VERIF, 'shim'), '-I' + REPO, '-I' + gen,
            '-I/usr/include/eigen3', '-DEIGEN_INITIALIZE_MATRICES_BY_ZERO',
            '-c', s, '-o', o])
        objs.append(o)
    return cmds, objs


def link_cmd(variant, objs, exe, extra=()):
    absl = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
    return (['g++'] + FLAGS[variant] + objs + list(extra) + ['-o', exe] + LINK[variant] +
            ['-Wl,--start-group'] + absl + ['-Wl,--end-group', '-l:libre2.so.10', '-lpthread'])


def build(variant='plain'):
    """Path of the program built from /repo's current tree."""
    os.makedirs(BUILD, exist_ok=True)
    key = _hash(variant)
    final = os.path.join(BUILD, 'prog-%s-%s' % (variant, key))
    exe = os.path.join(final, 'stl-to-ps')
    if os.path.exists(exe):
        return exe
    # Only the build of the current tree is worth keeping.
    for old in glob.glob(os.path.join(BUILD, 'prog-%s-*' % variant)):
        shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix='tmp-', dir=BUILD)
    try:
        gen = os.path.join(tmp, 'gen')
        generate(gen)
        cmds, objs = compile_cmds(variant, gen, tmp)
        _parallel(cmds)
        _run(link_cmd(variant, objs, os.path.join(tmp, 'stl-to-ps')))
        for f in objs:
            os.unlink(f)
        try:
            os.rename(tmp, final)
        except OSError:
            if not os.path.exists(exe):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


def build_error_reporter():
    """The small driver around stl2ps::error (parser_support.cc)."""
    os.makedirs(BUILD, exist_ok=True)
    drv = os.path.join(VERIF, 'lib', 'error_driver.cc')
    key = _hash('plain', [drv])
    exe = os.path.join(BUILD, 'errdrv-' + key)
    if os.path.exists(exe):
        return exe
    for old in glob.glob(os.path.join(BUILD, 'errdrv-*')):
        os.unlink(old)
    tmp = exe + '.%d' % os.getpid()
    _run(['g++', '-std=c++17', '-w', '-O1', '-I' + REPO, drv,
          os.path.join(SRC, 'parser_support.cc'), '-o', tmp])
    os.rename(tmp, exe)
    return exe


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'plain'))
