"""Checks C01..C07, C24 (part), C25 on KernelMatrix: scenarios -> real code -> KMTrace.tla."""
import json
import os
import subprocess
import sys
import tempfile
from multiprocessing import Pool

from . import fixed, km, km_gen, tlc

BLOCK = ('get', 'getlin', 'diag')
WHOLE = ('full', 'sparse', 'normed', 'centered', 'frob', 'normalize', 'center')


def _record(scn):
    return km.Recorder(scn).run()


def record_all(scns, procs=6):
    if len(scns) < 40:
        return [_record(s) for s in scns]
    with Pool(procs) as p:
        return p.map(_record, scns, chunksize=max(1, len(scns) // (procs * 8)))


# ---- which clauses belong to which property: (clause, op, two samples?) -------------------
def belongs(prop, clause, fail, trace, scn):
    op = trace['events'][fail['event'] - 1]['op']
    two = fail['two']
    kind, _, of = clause.partition('-')
    if prop == 'C01':
        return not two and kind in ('value', 'format', 'accept') and of in BLOCK
    if prop == 'C02':
        return not two and ((kind in ('view', 'format', 'accept') and of in WHOLE) or clause == 'norm-error')
    if prop == 'C03':
        return kind == 'eval'
    if prop == 'C05':
        return two and (kind in ('value', 'format', 'view', 'accept') or clause in
                        ('sizes', 'norm-error', 'refuse-center', 'refuse-centered', 'refuse-diag'))
    if prop == 'C04':
        if clause in ('attach-rejects', 'attach-accepts'):
            return True
        ops = [o['op'] for o in scn['ops'][:fail['event'] - 1]]
        later = sum(o in ('attach1', 'attach2') for o in ops) > 1 or 'attachbad' in ops or \
            (sum(o in ('attach1', 'attach2') for o in ops) == 1 and 'setattr' in ops[:_first_attach(ops)])
        return clause.startswith('attr-') or clause == 'sizes' or \
            (later and kind in ('value', 'view', 'format', 'accept', 'refuse'))
    if prop == 'C06':
        if clause in ('refuse-get', 'refuse-getbad', 'refuse-getlin', 'accept-get', 'value-get'):
            return True
        if clause == 'error-class':
            return op == 'get'
        refused = any(e['op'] in ('get', 'getbad', 'getlin') and e['out'] != 'ok'
                      for e in trace['events'][:fail['event'] - 1])
        this_refused = op in ('get', 'getbad') and trace['events'][fail['event'] - 1]['out'] != 'ok'
        return (refused and kind in ('value', 'view', 'accept')) or (this_refused and kind == 'eval')
    if prop == 'C07':
        if clause == 'fault-reported':
            return True
        armed = any(o['op'] == 'arm' for o in scn['ops'][:fail['event'] - 1])
        return armed and kind in ('value', 'view', 'accept', 'format')
    if prop == 'C24':
        return clause in ('inputs-unchanged', 'results-unchanged')
    if prop == 'C25':
        # (non-finite matrices are returned all the same)
        return clause in ('warn-nonfinite', 'no-false-warning') or \
            (['raw', fail['key']] in trace['nonfinite'] and (kind == 'accept' or clause in ('view-full', 'value-get')))
    raise KeyError(prop)


def _first_attach(ops):
    for i, o in enumerate(ops):
        if o in ('attach1', 'attach2'):
            return i
    return 0


# ---- is the failure due to what the property is about?  The same program without the re-attachments
#      (refused accesses, faults) must be fine, else the failure belongs to another property.
def reduced(prop, scn, event):
    ops, pos = scn['ops'], event - 1
    if prop == 'C04':
        starts = [i for i in range(pos + 1) if ops[i]['op'] in ('attach1', 'attach2')]
        if not starts:
            return None
        keep = [i for i in range(starts[-1], len(ops)) if ops[i]['op'] != 'attachbad']
    elif prop == 'C06':
        if ops[pos]['op'] in ('get', 'getbad', 'getlin'):
            return None
        keep = [i for i in range(len(ops)) if not ops[i].get('_refused')]
    elif prop == 'C07':
        keep = [i for i in range(len(ops)) if ops[i]['op'] != 'arm']
    else:
        return None
    if pos not in keep or len(keep) == len(ops):
        return None
    return dict(scn, ops=[ops[i] for i in keep]), keep.index(pos) + 1


def fresh_process_trace(scn):
    """Records a scenario in a process of its own."""
    with tempfile.NamedTemporaryFile('w', suffix='.json', delete=False) as f:
        json.dump(scn, f)
    try:
        out = subprocess.run([sys.executable, '-m', 'kmv.rerun', f.name], stdout=subprocess.PIPE, check=True,
                             cwd=tlc.ROOT, timeout=300).stdout
        return json.loads(out)
    finally:
        os.unlink(f.name)


def judge(ctx, prop, scns, label, limit=3):
    """Runs scenarios on the real code, validates the traces with TLC, reports violations of prop."""
    traces = record_all(scns)
    r, fails = tlc.validate('KMTrace', traces, workers=6)
    ctx.model('KMTrace/' + label, r)
    ctx.validated += len(traces)
    ctx.notes['events_' + label] = sum(len(t['events']) for t in traces)
    if scns:
        ctx.sample({'label': label, 'scenario': {k: scns[0][k] for k in ('kernel', 'keep', 'samples')},
                    'ops': scns[0]['ops'][:8], 'first_events': traces[0]['events'][:3]})
    fails.sort(key=lambda f: (f['trace'], f['event']))
    done, reported = set(), 0
    for f in fails:
        t = f['trace'] - 1
        if t in done:
            continue
        scn, trace = scns[t], traces[t]
        mine = sorted(c for c in f['clauses'] if belongs(prop, c, f, trace, scn))
        if any(c.startswith('attach-') for c in f['clauses']):
            done.add(t)               # the state is unknown from here on
        if not mine:
            continue
        if reported >= limit:
            break
        for i, e in enumerate(trace['events']):
            scn['ops'][i]['_refused'] = e['op'] in ('get', 'getbad', 'getlin') and e['out'] != 'ok'
        red = reduced(prop, scn, f['event'])
        if red is not None:
            t2 = fresh_process_trace(red[0])
            _, fails2 = tlc.validate('KMTrace', [t2])
            if any(g['event'] == red[1] and set(g['clauses']) & set(mine) for g in fails2):
                done.add(t)           # it fails without them as well: not this property
                continue
        done.add(t)
        reported += 1
        ctx.violation('%s: %s violated at call %d (%s) of a history' % (label, ', '.join(mine), f['event'],
                                                                       trace['events'][f['event'] - 1]['op']),
                      {'module': 'KMTrace', 'clauses': mine, 'scenario': scn, 'event': f['event'],
                       'observed': trace['events'][f['event'] - 1]})
    return traces


def subset(ctx, seq, k):
    seq = list(seq)
    if len(seq) <= k:
        return seq
    idx = sorted(ctx.rng.sample(range(len(seq)), k))
    return [seq[i] for i in idx]


def has(hist, pred):
    return any(pred(e) for e in hist)


# --------------------------------------------------------------------------- the checks
def cached_family(ctx, prop, attach, faults, quick_n, thorough_n, attrs=False, pred=None, keeps=(True, False)):
    for keep in keeps:
        hs = km_gen.cache_histories(ctx, keep, attach, faults, attrs)
        if pred:
            hs = [h for h in hs if pred(h)]
        total = len(hs)
        hs = subset(ctx, hs, ctx.pick(quick_n, thorough_n))
        scns = [km_gen.from_history(ctx, h, keep, i) for i, h in enumerate(hs)]
        ctx.notes['model_transitions_replayed_keep_%s' % keep] = '%d of %d' % (len(hs), total)
        judge(ctx, prop, scns, 'model-histories(keep=%s,attach=%d,faults=%s)' % (keep, attach, faults))


def walks(ctx, prop, n, length, label='walks', **kw):
    judge(ctx, prop, [km_gen.walk(ctx, i, length, **kw) for i in range(n)], label)


def large(ctx, prop, n, **kw):
    pool = [30, 33, 50, 64, 65, 70] + ([100, 128] if ctx.thorough else [])
    scns = []
    for i in range(n):
        sizes = {'A': ctx.rng.choice(pool), 'B': ctx.rng.choice(pool + [1, 2, 10]), 'C': ctx.rng.choice([1, 3, 20, 40])}
        scns.append(km_gen.walk(ctx, 500 + i, 10, sizes=sizes, **kw))
    scns += [km_gen.huge(ctx, 700 + i, two=ctx.rng.random() < kw.get('two', .4)) for i in range(ctx.pick(2, 8))]
    judge(ctx, prop, scns, 'large')


def index_cases(ctx, prop):
    r = tlc.run('KMIndex', {'MaxN': ctx.pick('3', '4'), 'MaxList': '3'})
    ctx.model('KMIndex', r)
    cases = r.tagged('GEN')
    scns, group = [], {}
    for c in cases:
        group.setdefault(c['n'], []).append(c['ix'])
    for n, ixs in sorted(group.items()):
        ctx.rng.shuffle(ixs)
        per = 40
        for s in range(0, len(ixs), per):
            m = ctx.rng.choice([1, 2, 4, 5])
            two = ctx.rng.random() < .5
            ops = [{'op': 'attach2', 's': 'A', 't': 'B'} if two else {'op': 'attach1', 's': 'A'}]
            for ix in ixs[s:s + per]:
                ix = dict(ix)
                if ix['k'] == 'list':
                    ix['as'] = km_gen.container(ctx.rng, ix['v'])
                other = km_gen.rand_index(ctx.rng, m if two else n, 0)
                if two and ctx.rng.random() < .5:        # A has n rows: first dimension
                    ops.append({'op': 'get', 'ix': ix, 'iy': other})
                elif two:
                    ops.append({'op': 'get', 'ix': ix, 'iy': {'k': 'int', 'v': ctx.rng.randrange(m)}})
                else:
                    ops.append({'op': 'get', 'ix': other, 'iy': ix} if ctx.rng.random() < .5
                               else {'op': 'get', 'ix': ix, 'iy': other})
            ops += km_gen.probe_all(ctx.rng)
            cfg = ctx.rng.choice(km_gen.CONFIGS)
            scns.append({'kernel': cfg[0], 'keep': ctx.rng.random() < .5, 'probe': True, 'ops': ops,
                         'samples': km_gen.data(cfg, {'A': n, 'B': m}, ctx.seed + s)})
    ctx.notes['index_objects'] = len(cases)
    judge(ctx, prop, scns, 'index-objects')


def c01(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('1', '3'))
    cached_family(ctx, 'C01', 1, False, 900, 99999)
    walks(ctx, 'C01', ctx.pick(300, 4000), 14, two=.15)
    walks(ctx, 'C01', ctx.pick(80, 1000), 30, label='long-walks', two=.1, bad=.1, faults=.03)
    large(ctx, 'C01', ctx.pick(16, 120), two=.1)


def c02(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('1', '3'), Keep='FALSE')
    cached_family(ctx, 'C02', 1, False, 900, 99999)
    walks(ctx, 'C02', ctx.pick(300, 4000), 14, two=.1)
    walks(ctx, 'C02', ctx.pick(60, 400), 10, label='zero-selfsimilarity', two=.0,
          cfg=({'name': 'linear'}, 'zerorow', 'float64', 3, False))
    large(ctx, 'C02', ctx.pick(16, 120), two=.05)


def c03(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('1', '3'))
    cached_family(ctx, 'C03', 1, False, 900, 99999)
    walks(ctx, 'C03', ctx.pick(350, 4000), 14, two=.45)
    for kernel in ('nanlin', 'nanlow'):                     # values that are not numbers
        for bad in ('nan', 'inf'):
            walks(ctx, 'C03', ctx.pick(25, 400), 10, label='no-numbers', two=.4,
                  cfg=({'name': kernel, 'params': {'thr': .2, 'bad': float(bad)}}, 'normal', 'float64', 3, False))
    walks(ctx, 'C03', ctx.pick(40, 400), 10, label='zeros', two=.4, cfg=({'name': 'linear'}, 'zerorow', 'float64', 3, False))
    large(ctx, 'C03', ctx.pick(14, 100), two=.4)


def c04(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('2', '3'), WithFaults='FALSE')
    pred = lambda h: h[-1]['op'] in ('attach1', 'attach2', 'attachbad') or len(
        [e for e in h if e['op'] in ('attach1', 'attach2')]) > 1 or has(h, lambda e: e['op'] == 'attachbad')
    cached_family(ctx, 'C04', 2, False, 1300, 99999, attrs=True, pred=pred)
    walks(ctx, 'C04', ctx.pick(300, 4000), 18, reattach=.2, badattach=.08, attrs=.2)
    sz = lambda: {'A': 4, 'B': 4, 'C': 4}
    walks(ctx, 'C04', ctx.pick(150, 1500), 14, label='same-size-samples', reattach=.25, badattach=.06, attrs=.15,
          sizes=sz(), inplace=.5)
    large(ctx, 'C04', ctx.pick(6, 50), reattach=.3)


def c05(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('1', '3'), Keep='FALSE')
    pred = lambda h: has(h, lambda e: e['op'] == 'attach2')
    cached_family(ctx, 'C05', 1, False, 800, 99999, pred=pred)
    walks(ctx, 'C05', ctx.pick(350, 4000), 14, two=1.0)
    walks(ctx, 'C05', ctx.pick(80, 600), 12, label='square-pairs', two=1.0, sizes={'A': 5, 'B': 5, 'C': 5})
    walks(ctx, 'C05', ctx.pick(40, 300), 10, label='one-array-twice', two=1.0, reattach=.15, same_object=.6)
    sz = ctx.rng.choice([4, 6, 7])
    for how in ('parts', 'overlap'):
        walks(ctx, 'C05', ctx.pick(25, 250), 10, label='slices-' + how, two=1.0, reattach=.15, together=how,
              sizes={'A': sz, 'B': sz, 'C': sz})
    walks(ctx, 'C05', ctx.pick(40, 300), 10, label='zero-selfsimilarity', two=1.0,
          cfg=({'name': 'linear'}, 'zerorow', 'float64', 3, False))
    large(ctx, 'C05', ctx.pick(14, 100), two=1.0)


def c06(ctx):
    index_cases(ctx, 'C06')
    walks(ctx, 'C06', ctx.pick(300, 4000), 16, bad=.5)
    large(ctx, 'C06', ctx.pick(6, 40), bad=.4)
    fixed.constant_access(ctx)


def c07(ctx):
    km_gen.explore_cache(ctx, MaxAttach=ctx.pick('1', '3'))
    pred = lambda h: has(h, lambda e: e['op'] == 'arm')
    cached_family(ctx, 'C07', 1, True, 1300, 20000, pred=pred)
    walks(ctx, 'C07', ctx.pick(350, 4000), 18, faults=.25, bad=.0)
    large(ctx, 'C07', ctx.pick(8, 60), faults=.3)


def nonfinite_walks(ctx, prop):
    bads = ['nan', 'inf', '-inf']
    scns = []
    for i in range(ctx.pick(220, 2500)):
        which = ctx.rng.random()
        if which < .55:
            cfg = ({'name': 'nanlin', 'params': {'thr': ctx.rng.choice([0.0, 1.0, 3.0, 6.0, 1e6]),
                                                 'bad': float(ctx.rng.choice(bads))}}, 'normal', 'float64', 3, False)
        elif which < .7:
            cfg = ({'name': 'sigmoid', 'params': {'offset': -1.0}}, 'normal', 'float64', 3, False)
        elif which < .8:
            cfg = ({'name': 'poly', 'params': {'degree': 90}}, 'big', 'float64', 2, False)
        elif which < .88:                                    # finite, but their sum is not
            cfg = ({'name': 'mixed', 'params': {'w': 3e307}}, 'uniform', 'float64', 3, False)
        else:
            cfg = ctx.rng.choice(km_gen.CONFIGS)
        s = km_gen.walk(ctx, 900 + i, ctx.rng.choice([0, 0, 1, 2, 6]), cfg=cfg, bad=0, attrs=0, reattach=.08)
        scns.append(s)
    judge(ctx, prop, scns, 'non-finite')


def lone_nonfinite(ctx, prop, count):
    """Large samples of which one pair (or one point with itself) has no finite value."""
    scns, rng = [], ctx.rng
    for i in range(count):
        two = rng.random() < .4
        kernel = rng.choice([{'name': 'nanlow', 'params': {'bad': float(rng.choice(['nan', 'inf', '-inf']))}},
                             {'name': 'nanlin', 'params': {'thr': 1000.0, 'bad': float(rng.choice(['nan', 'inf', '-inf']))}}])
        pool = [2, 5, 33, 66, 70, 90, 105, 130]
        sizes = {'A': rng.choice(pool[2:]), 'B': rng.choice(pool), 'C': rng.choice([3, 20])}
        cfg = (kernel, 'spike', 'float64', 2, False)
        first = {'op': 'attach2', 's': 'A', 't': 'B'} if two else {'op': 'attach1', 's': 'A'}
        scns.append(km_gen.walk(ctx, 1900 + i, rng.choice([0, 1, 3]), cfg=cfg, bad=0, attrs=0, reattach=.05, sizes=sizes, first=first))
    judge(ctx, prop, scns, 'lone-non-finite')


def c25(ctx):
    nonfinite_walks(ctx, 'C25')
    lone_nonfinite(ctx, 'C25', ctx.pick(14, 150))
    cached_family(ctx, 'C25', 1, False, 300, 3000)
    walks(ctx, 'C25', ctx.pick(100, 1500), 8)
    large(ctx, 'C25', ctx.pick(8, 60))


def c24_km(ctx):
    cached_family(ctx, 'C24', 1, False, 300, 3000)
    walks(ctx, 'C24', ctx.pick(200, 2500), 16, faults=.05)
    large(ctx, 'C24', ctx.pick(6, 60))
