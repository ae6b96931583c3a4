"""Writes /verif/MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ('every run judged is a complete run of the program built from /repo\'s working tree, compared by TLC with the run of the same inputs in '
        'StlToPs.tla; ')
NOTES = {
    'C01': 'Generated scripts, models, flags and injected faults (missing/unreadable files, read errors at each byte, short reads and EINTR, full disk, '
           'limits on the output size).  Exhaustive over the design model of the pipeline (MC_Pipeline).',
    'C02': 'Generated scripts with one to many mistakes; every diagnostic is attributed to a mistake that the specification found.',
    'C03': 'Generated, mutated and byte-mutated scripts; MC_Lex and MC_Grammar replay all short token sequences.',
    'C20': 'Scripts with syntax errors under all kinds of names, and the error reporter alone: all short histories of MC_ErrMsg replayed, random calls judged by ErrMsgTrace.',
    'C21': 'Runs under ASan, UBSan and the checked C++ library.',
    'C23': 'rule.bzl is executed (Starlark is close enough to Python) for all targets of MC_Rule and random ones; Rule.tla judges the declared actions and runs '
           'them in a sandbox of their inputs.',
}
checks = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    t = 'TLA+ specification checked with TLC; conformance of recorded runs of the real program'
    if p == 'C23':
        t = 'TLA+ specification checked with TLC; conformance of the declared actions'
    checks.append(dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=t, level='model_checking',
                       level_note=BASE + NOTES.get(p, 'inputs are generated for this property.') +
                       ' Bounded by the inputs generated; trusts the stand-ins for absl/log, re2 and the parser template in shim/, Num.java and TLC. '
                       'Runs whose outcome hangs on floating-point rounding are only judged for form.'))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=[],
         notes='No hooks: everything is observed from outside (exit status, stderr, output file), or by calling stl2ps::error and executing rule.bzl.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
