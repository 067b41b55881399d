"""Self-test: giving an optional argument its other value changes what the harness of C30 observes."""
import sys
from kmv import interface as I, tlc
r = tlc.run('Signatures')
dead = set()
for x in r.tagged('GEN'):
    c = x['c']
    if c['p'] == 0 and len(c['k']) == 1:
        key = (c['f'], c['k'][0])
        hit = False
        for seed in range(6):
            d = dict(c, seed=seed)
            if not I.equal(I.observed(d, [], {c['k'][0]: I.target}), I.observed(d, [], {})):
                hit = True
                break
        if not hit:
            dead.add(key)
for k in sorted(dead):
    print('not told apart:', *k)
