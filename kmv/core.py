"""Common part of all checks: tier, seed, evidence, violations."""
import json
import os
import random
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('KMV_EVIDENCE') or os.path.join(ROOT, 'evidence')


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.validated = 0
        self.samples, self.notes, self.models = [], {}, []
        self.violations = []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, name, r):
        """Account for one TLC run."""
        if r is None:
            return
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': name, 'distinct_states': r.distinct, 'states_generated': r.generated,
                            'depth': r.depth})

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, what, detail):
        self.violations.append({'what': what, 'detail': detail})

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def finish(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples or ['(none)'], 'models': self.models}
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': cov,
              'assumptions': ASSUMPTIONS,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if not self.violations:
            print('%s: held on everything explored (%s tier, %d model states, %d traces/cases against the code, %.1f s)'
                  % (self.prop, self.tier, self.states, self.validated, time.time() - self.t0))
            return 0
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, self.prop + '.json')
        with open(path, 'w') as f:
            json.dump(self.violations[:20], f, indent=1, default=str)
        for v in self.violations[:5]:
            print('%s: %s' % (self.prop, str(v['what'])[:400]))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        sys.stdout.flush()
        return 1


ASSUMPTIONS = [
    'CPython, numpy, scipy and scikit-learn behave as documented',
    'floating-point results are compared with a tolerance; real numbers are abstracted to value identities in the specification',
    'single-threaded use of each object',
]
