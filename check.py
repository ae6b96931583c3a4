#!/usr/bin/env python3
"""Checks a property of /repo's stl-to-ps.

  check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: it held on everything explored; 1: it didn't, with a line
VIOLATION property=ID replay=FILE; 2: the check itself failed.
"""
import argparse
import collections
import json
import os
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build          # noqa: E402
import gen            # noqa: E402
import models         # noqa: E402
import props          # noqa: E402
import runner         # noqa: E402
import tlc            # noqa: E402

ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:exitcode=77:detect_stack_use_after_return=1',
        'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:exitcode=77:print_stacktrace=1'}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.p = props.PROPS[prop]
        self.t0 = time.time()
        self.budget = 100 if tier == 'quick' else 600
        self.states = self.trans = 0
        self.design = []
        self.count = collections.Counter()
        self.other = collections.Counter()
        self.violations = []
        self.samples = []
        self.known = known_findings(prop)

    def left(self):
        return self.budget - (time.time() - self.t0)

    def setup(self):
        self.variant = self.p.get('variant', 'plain')
        self.exe = build.build(self.variant)
        self.env = ASAN if self.variant == 'asan' else None
        self.timeout = 30 if self.variant == 'asan' else 20

    def judge(self, cases):
        recs = runner.run_all(self.exe, cases, self.env, timeout=self.timeout)
        vs, s, t = tlc.conform(recs, jobs=8, timeout=max(240, 2 * self.budget))
        self.states += s
        self.trans += t
        return recs, vs

    def relevant(self, v):
        return [t for t in v['tags'] if props.matches(t[0], self.p['tags'])]

    def round(self, cases):
        """Judges cases, along with the simpler ones they are based on."""
        bases, where = [], {}
        for c in cases:
            for b in c.get('base', ()):
                if id(b) not in where:
                    where[id(b)] = len(bases)
                    bases.append(b)
        recs, vs = self.judge(list(cases) + bases)
        bad = []
        for c, r, v in zip(cases, recs, vs):
            size = v['size']
            self.count['runs'] += 1
            self.count['unsure'] += size['unsure']
            self.count['accepted'] += bool(size['ok'] and not size['unsure'])
            self.count['rejected'] += not size['ok']
            self.count['pages'] += size['pages']
            self.count['ink'] += size['ink']
            tags = self.relevant(v)
            for t in v['tags']:
                if t not in tags:
                    self.other[t[0]] += 1
            if tags and any(self.relevant(vs[len(cases) + where[id(b)]]) for b in c.get('base', ())):
                self.count['simpler case fails too'] += 1
                continue
            if tags:
                bad.append((c, r, tags))
        for i in range(0, len(recs), max(1, len(recs) // 3)):
            if len(self.samples) < 5:
                self.samples.append(sample(recs[i], vs[i]))
        return bad

    def confirm(self, bad):
        """Runs suspects again; what happens again counts."""
        again = self.round([c for c, _, _ in bad])
        self.count['confirming runs'] += len(bad)
        return again

    def settle(self, found):
        if found:
            for c, r, tags in self.confirm(found[:20]):
                key = known(self.known, c, tags)
                if key:
                    print('KNOWN-FINDING: property=%s %s' % (self.prop, key))
                else:
                    self.report(c, r, tags)

    def explore(self, cases):
        """Judges the cases of a model."""
        self.settle(self.round(cases))

    def report(self, c, r, tags):
        self.violation(dict(case=pack(c), observed=r['obs']), tags)

    def report_model(self, name, data, tags):
        self.violation(dict(model=name, data=data), tags)

    def violation(self, what, tags):
        where = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(where, exist_ok=True)
        path = os.path.join(where, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, **what, differences=tags), f, indent=1)
        self.violations.append(dict(replay=path, differences=[[t[0], t[1][:300]] for t in tags[:8]]))
        if len(self.violations) <= 3:
            print('%s: %s' % (self.prop, '; '.join('%s %s' % (t[0], t[1][:160]) for t in tags[:4])))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))

    def run(self):
        self.setup()
        n, most, big = props.SIZES[self.prop]
        g = getattr(gen, 'gen_' + self.prop)
        found = []
        no = 0
        while True:
            no += 1
            rng = random.Random('%s %s %s' % (self.prop, self.seed, no))
            cases = list(g(rng, n if self.tier == 'quick' else big))
            limit = most if self.tier == 'quick' else 700
            if len(cases) > limit:
                keep = sorted(rng.sample(range(len(cases)), limit))
                cases = [cases[i] for i in keep]
            t = time.time()
            found += self.round(cases)
            took = time.time() - t
            if found or self.tier == 'quick' or self.left() < 1.3 * took + 60:
                break
        self.rounds = no
        self.settle(found)
        for name, res in models.check(self):
            self.design.append(dict(model=name, **res['size']))
            self.states += res['size'].get('states', 0)
            self.trans += res['size'].get('transitions', 0)
            if name.startswith(('ErrMsg', 'Rule')):       # the others are among the runs
                self.count['replayed'] += res['size'].get('replayed', 0)
            for data, tags in res['bad'][:20]:
                self.report_model(name, data, tags)
        self.evidence()
        print('%s: %d runs judged, %d violations, %.0f s' %
              (self.prop, self.count['runs'], len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0

    def evidence(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=self.states, transitions=self.trans,
                                traces_validated_against_impl=self.count['runs'] + self.count['replayed'],
                                samples=self.samples, rounds=self.rounds,
                                design_models=self.design,
                                counts={k: self.count[k] for k in sorted(self.count)},
                                rule='every run of the program is compared with the run of StlToPs.tla; differences of these kinds '
                                     'violate this property: ' + ' '.join(self.p['tags']),
                                other_differences=dict(self.other)),
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=['absl/log, re2 and the parser template are replaced by the stand-ins in /verif/shim',
                               'runs whose outcome depends on floating-point rounding (counted as unsure) are only judged for '
                               'a well-formed document and a diagnosed rejection'])
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def sample(r, v):
    return dict(script=r['script'][:400], status=r['obs']['status'], spec=v['size'], differences=len(v['tags']))


# ---- cases as files
def pack(c):
    d = dict(c)
    d['script'] = c['script'].decode('latin-1')
    d['files'] = [[p, k, x.decode('latin-1')] for p, k, x in c['files']]
    d['base'] = [pack(b) for b in c.get('base', ())]
    if c.get('alike'):
        d['alike'] = pack(c['alike'])
    return d


def unpack(d):
    c = dict(d)
    c['script'] = d['script'].encode('latin-1')
    c['files'] = [(p, k, x.encode('latin-1')) for p, k, x in d['files']]
    c['base'] = [unpack(b) for b in d.get('base', ())]
    if d.get('alike'):
        c['alike'] = unpack(d['alike'])
    return c


# ---- known findings
def known_findings(prop):
    out = []
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' ', 2)[2].strip())
    return out


def known(entries, c, tags):
    """Entries are 'TAG SCRIPT-SUBSTRING | what fails'."""
    for e in entries:
        head, what = e.split(' | ', 1)
        tag, sub = head.split(' ', 1)
        if all(t[0] == tag for t in tags) and sub.encode('latin-1') in c['script']:
            return what
    return None


def replay(path):
    d = json.load(open(path))
    ck = Check(d['property'], 'quick', 0)
    ck.setup()
    if 'model' in d:
        bad = [(None, None, tags) for _, tags in models.replay(d['model'], d['data'])]
    else:
        bad = ck.round([unpack(d['case'])])
    for c, r, tags in bad:
        for t in tags:
            print(t[0], t[1])
    print('still fails' if bad else 'holds')
    return 1 if bad else 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a.add_argument('--replay')
    o = a.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        if o.replay:
            return replay(o.replay)
        return Check(o.property, o.tier, seed).run()
    except (build.BuildError, tlc.TlcError) as e:
        print('check failed: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
