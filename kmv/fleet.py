"""C29: objects do not influence each other, and copies are faithful (Fleet.tla, Estimators.tla with Copies)."""
import copy
import pickle
import warnings

import numpy as np

from kernelmethods import base as kmb

from . import estim, kernels, km, km_checks, km_gen, tlc
from .cases import Run, near, replay

COPY = {'deepcopy': copy.deepcopy, 'pickle': lambda x: pickle.loads(pickle.dumps(x))}


def COMPOSITES(kind, ms, w):
    if kind == 'prod':
        return np.prod(ms, axis=0)
    if kind == 'avg':
        return np.sum(ms, axis=0) / len(ms)
    return sum(a * m for a, m in zip(w, ms))


class Fleet:
    """Runs a history of Fleet.tla on real objects; records one trace (KMTrace) per object."""

    def __init__(self, scn):
        self.scn = scn
        self.rec, self.obj, self.ops, self.events, self.kept = {}, {}, {}, {}, {}
        self.keep = {}
        flat = [dict(o, op=o['op']) for o in scn['flat']]
        self.base = km.Recorder({'kernel': scn['kernel'], 'keep': True, 'samples': scn['samples'], 'ops': flat, 'probe': False, 'naming': scn['naming']})
        self.shared = kernels.build(scn['kernel'])
        self.sets = {}

    def member(self, h):
        if self.scn['mode'] == 'group':
            return self.sets[0 if h <= 2 else 1][(h - 1) % 2]
        return self.obj[h]

    def recorder(self, src=None):
        r = copy.copy(self.base if src is None else src)
        return r

    def birth(self, h):
        keep = self.scn['keeps'][h % len(self.scn['keeps'])]
        kf = self.shared if self.scn['share'] else kernels.build(self.scn['kernel'])
        self.rec[h], self.events[h], self.ops[h], self.keep[h], self.kept[h] = self.recorder(), [], [], keep, []
        self.rec[h].one = self.rec[h].two = None
        return kmb.KernelMatrix(kf, normalized=keep, name='KM')

    def adopt(self, g, h):
        self.rec[g] = self.recorder(self.rec[h])
        self.events[g], self.ops[g] = list(self.events[h]), list(self.ops[h])
        self.keep[g], self.kept[g] = self.keep[h], []

    def one(self, h, op, act=None):
        """One call on object h, recorded as km.Recorder does."""
        rec = self.rec[h]
        ev = {'op': op['op']}
        exc = val = None
        with warnings.catch_warnings(record=True) as caught, np.errstate(all='ignore'):
            warnings.simplefilter('always')
            try:
                val = rec.call(self.member(h), None, op, ev) if act is None else act(rec, ev)
            except Exception as e:            # noqa: whatever the code raises
                exc = e
        ev['out'] = km.outcome(exc)
        ev['warned'] = any(issubclass(w.category, km.KernelMethodsWarning) for w in caught)
        ev['evlog'], ev['ev'], ev['mutated'] = False, [], False
        ev['stale'] = not all(km._same(a, b) for a, b in self.kept[h])
        if exc is None:
            rec.observe(op, val, ev, self.kept[h])
        self.events[h].append(ev)
        self.ops[h].append(op)

    def run(self):
        scn = self.scn
        if scn['mode'] == 'solo':
            self.obj[1] = self.birth(1)
        else:
            self.sets[0] = kmb.KernelSet([self.birth(1), self.birth(2)])
        for e in scn['hist']:
            o = e['op']
            if o == 'call':
                self.one(e['h'], e['e'])
            elif o == 'new':
                self.obj[e['h']] = self.birth(e['h'])
            elif o == 'copy':
                self.obj[e['g']] = COPY[e['how']](self.obj[e['h']])
                self.adopt(e['g'], e['h'])
            elif o == 'copyset':
                i = 0 if e['h'] <= 2 else 1
                self.sets[1 - i] = COPY[e['how']](self.sets[i])
                for k in (1, 2):
                    self.adopt(2 * (1 - i) + k, 2 * i + k)
            elif o == 'attachset':
                i = 0 if e['h'] <= 2 else 1
                exc = []

                def act(rec, ev, first):
                    ev['s'] = e['s']
                    rec.one, rec.two = e['s'], None
                    if first:
                        first.clear()
                        try:
                            self.sets[i].attach_to(rec.samples[e['s']], **({} if scn['naming'] == 'none' else {'name': e['s'] if scn['naming'] == 'own' else 'X'}))
                        except Exception as x:     # noqa
                            exc.append(x)
                    if exc:
                        raise exc[0]
                first = [True]
                for k in (1, 2):
                    self.one(2 * i + k, {'op': 'attach1', 's': e['s']}, lambda r, v: act(r, v, first))
        out = []
        b = self.base
        for h in sorted(self.events):
            out.append({'keep': self.keep[h],
                        'samples': {k: {'n': len(a), 'zero': b.zero[k]} for k, a in b.before.items()},
                        'raw': {k: b.ids.mat(m) for k, m in b.raw.items()}, 'nonfinite': b.nonfinite, 'events': self.events[h]})
        return out


def _fleet(scn):
    f = Fleet(scn)
    try:
        return f.run(), {h: f.ops[h] for h in sorted(f.ops)}, None
    except Exception as e:        # noqa
        return [], {}, '%s: %s' % (type(e).__name__, e)


def scenario(ctx, hist, mode, i):
    rng = ctx.rng
    cfg = km_gen.CONFIGS[i % len(km_gen.CONFIGS)]
    live = {1} if mode == 'solo' else {1, 2}
    att = {}
    for e in hist:
        if e['op'] == 'new':
            live.add(e['h'])
            att.pop(e['h'], None)
        elif e['op'] == 'copy':
            live.add(e['g'])
            att[e['g']] = att.get(e['h'])
        elif e['op'] == 'copyset':
            b = 0 if e['h'] <= 2 else 2
            for k in (1, 2):
                live.add(2 - b + k)
                att[2 - b + k] = att.get(b + k)
        elif e['op'] == 'attachset':
            b = 0 if e['h'] <= 2 else 2
            att[b + 1] = att[b + 2] = (e['s'],)
        elif e['op'] == 'call' and e['e']['op'] in ('attach1', 'attach2'):
            att[e['h']] = tuple(e['e'][x] for x in 'st' if x in e['e'])
    # in the end everything is read from every object, in turns
    tails = {}
    for h in sorted(live):
        t = []
        if att.get(h):
            names = ['full', 'normed', 'frob', 'sparse'] + (['centered', 'diag'] if len(att[h]) == 1 else [])
            t = [{'op': o} for o in names if o != 'sparse' or len(att[h]) == 1] + [{'op': 'get', 'ix': km_gen.ALL, 'iy': km_gen.ALL}, {'op': 'sizes'},
                                              {'op': 'get', 'ix': {'k': 'int', 'v': 1}, 'iy': {'k': 'int', 'v': 0}}]
        t += [{'op': 'attrs'}, {'op': 'getattr', 'n': 'p', 'dflt': 'none'}, {'op': 'setattr', 'n': 'q', 'v': str(h)}, {'op': 'attrs'}]
        rng.shuffle(t)
        tails[h] = t
    tail = []
    while any(tails.values()):
        h = rng.choice([h for h in tails if tails[h]])
        tail.append({'op': 'call', 'h': h, 'e': tails[h].pop()})
    hist = copy.deepcopy(hist) + tail
    tokens = dict(zip(('x', 'y'), rng.sample(['x', 'y', '@0', '@F', '@N', '@e', '@[]', '@1', '@t', '@t', '@d'], 2)))
    for e in hist:
        if e['op'] == 'call' and e['e']['op'] == 'setattr':
            e['e']['v'] = tokens.get(e['e']['v'], e['e']['v'])
    flat = [e['e'] for e in hist if e['op'] == 'call'] + [{'op': 'attach1', 's': s} for s in 'AB']
    sizes = rng.choice([{'A': 3, 'B': 3}, {'A': 2, 'B': 2}, {'A': 5, 'B': 5}])
    return {'mode': mode, 'hist': hist, 'flat': flat, 'kernel': cfg[0], 'share': rng.random() < .7, 'naming': rng.choice(km_gen.NAMINGS),
            'keeps': rng.choice([[True], [False], [True, False]]), 'samples': km_gen.data(cfg, sizes, ctx.seed * 77 + i, rng.choice(km_gen.LAYOUTS))}


def judge(ctx, label, scns, limit=3):
    from multiprocessing import Pool
    with Pool(6) as p:
        res = p.map(_fleet, scns, chunksize=max(1, len(scns) // 48))
    traces, where, bad = [], [], 0
    for i, (ts, ops, err) in enumerate(res):
        if err:
            bad += 1
            if bad <= limit:
                ctx.violation('%s: %s' % (label, err), {'scenario': scns[i]})
        for t, h in zip(ts, ops):
            traces.append(t)
            where.append((i, h))
    r, fails = tlc.validate('KMTrace', traces, workers=6)
    ctx.model('KMTrace/' + label, r)
    ctx.validated += len(scns)
    ctx.notes['objects_' + label] = len(traces)
    ctx.sample({'label': label, 'history': scns[0]['hist'][:6], 'kernel': scns[0]['kernel']})
    seen = set()
    fails.sort(key=lambda f: (f['trace'], f['event']))
    for f in fails:
        i, h = where[f['trace'] - 1]
        mine = sorted(c for c in f['clauses'] if c not in ('warn-nonfinite', 'no-false-warning'))
        if (i, h) in seen or not mine or bad >= limit:
            continue
        seen.add((i, h))
        ops = res[i][1][h]
        alone = {'kernel': scns[i]['kernel'], 'keep': traces[f['trace'] - 1]['keep'], 'samples': scns[i]['samples'], 'ops': ops, 'probe': False}
        t2 = km_checks.fresh_process_trace(alone)
        _, again = tlc.validate('KMTrace', [t2])
        if any(g['event'] == f['event'] and set(g['clauses']) & set(mine) for g in again):
            continue                      # wrong also when it is the only object: not this property
        bad += 1
        ctx.violation('%s: object %d: %s at its call %d (%s), not so when it is alone' % (label, h, ', '.join(mine), f['event'], ops[f['event'] - 1]['op']),
                      {'scenario': scns[i], 'clauses': mine, 'object': h, 'event': f['event']})


# ------------------------------------------------------------------------------------------------ kernel functions, composites
def j_function(c):
    """Copies of kernel functions compute the same, also after the original's parameters were changed."""
    k = kernels.build(c['spec'])
    rs = np.random.RandomState(c['seed'])
    if c['spec']['name'] == 'matchcount':
        w = np.array(['a', 'b', 'ab', ''])
        x, y = w[rs.randint(4, size=6)], w[rs.randint(4, size=6)]
    else:
        x, y = rs.rand(6), rs.rand(6)
    want = kernels.reference(c['spec'], x, y)
    if not near(k(x, y), want, 1e-7, 1e-12):
        return None                                       # (another property)
    r = Run(COPY[c['how']], k)
    if r.exc is not None:
        return 'copying %s: %r' % (k, r)
    q = r.val
    if type(q) is not type(k) or str(q) != str(k) or q.name != k.name or not near(q(x, y), want, 1e-9, 1e-13):
        return 'a copy of %s computes %r, not %r (it is %s)' % (k, Run(q, x, y), want, q)
    other = kernels.build({'name': c['spec']['name'], 'params': c['other']})
    o = float(other(x, y))
    if not near(k(x, y), want, 1e-7, 1e-12) or not near(q(x, y), want, 1e-7, 1e-12) or not near(other(x, y), o):
        return 'another %s changes the values of this one' % type(k).__name__


FUNCS = [({'name': 'linear'}, {}), ({'name': 'poly', 'params': {'degree': 2, 'gamma': .5, 'b': 2.}}, {'degree': 3, 'b': 0.}), ({'name': 'poly'}, {'degree': 5}),
         ({'name': 'gaussian', 'params': {'sigma': .7}}, {'sigma': 3.}), ({'name': 'gaussian'}, {'sigma': .1}),
         ({'name': 'laplacian', 'params': {'gamma': .4}}, {'gamma': 2.}), ({'name': 'laplacian'}, {'gamma': 5.}),
         ({'name': 'chi2', 'params': {'gamma': .3}}, {'gamma': 1.}), ({'name': 'sigmoid', 'params': {'gamma': .2, 'offset': -1.}}, {'offset': 1.}),
         ({'name': 'sigmoid'}, {'gamma': 3.}), ({'name': 'hadamard', 'params': {'alpha': 1}}, {'alpha': 2}), ({'name': 'hadamard'}, {'alpha': 1}),
         ({'name': 'matchcount', 'params': {'return_perc': False}}, {'return_perc': True}), ({'name': 'matchcount'}, {'return_perc': False}),
         ({'name': 'mixed', 'params': {'w': 2.}}, {'w': 1.}), ({'name': 'sqdist'}, {})]


def j_composite(c):
    """Composites over the same set, and copies of them, are independent."""
    rs = np.random.RandomState(c['seed'])
    n = c['n']
    X, Z = rs.randn(n, 2), rs.randn(n, 2)
    spec = [{'name': 'linear'}, {'name': 'gaussian', 'params': {'sigma': 1.}}, {'name': 'poly', 'params': {'degree': 2}}][:c['m']]

    def fresh(on):
        s = kmb.KernelSet([kmb.KernelMatrix(kernels.build(k), normalized=False) for k in spec])
        s.attach_to(on)
        return s
    w = rs.rand(len(spec)) + .1
    S = fresh(X)
    want = {k: COMPOSITES(k, [np.array(m.full) for m in fresh(X)], w) for k in ('sum', 'prod', 'avg', 'wavg')}

    def make(k, s):
        return {'sum': kmb.SumKernel, 'prod': kmb.ProductKernel, 'avg': kmb.AverageKernel}[k](s) if k != 'wavg' else kmb.WeightedAverageKernel(s, w.copy())

    def fit(k, q):
        q.fit(w.copy()) if k == 'sum' else q.fit()
        return q
    order = list(c['order'])
    cs = {k: make(k, S) for k in order}
    for k in order:
        fit(k, cs[k])
    for k in order:
        if not near(cs[k].composite_KM, want[k], 1e-7, 1e-9):
            return None if not near(fit(k, make(k, fresh(X))).composite_KM, want[k], 1e-7, 1e-9) else 'the %s kernel is changed by others over the same set' % k
    k = order[0]
    r = Run(COPY[c['how']], cs[k])
    if r.exc is not None:
        return 'copying a composite: %r' % r
    q = r.val
    if not near(q.composite_KM, want[k], 1e-7, 1e-9) or not near(q.full, want[k], 1e-7, 1e-9) or str(q) != str(cs[k]):
        return 'the copy of a fitted %s kernel differs' % k
    q.km_set.attach_to(Z)                                 # the copy has its own set
    fit(k, q)
    z = COMPOSITES(k, [np.array(m.full) for m in fresh(Z)], w)
    if not near(q.composite_KM, z, 1e-7, 1e-9):
        return 'the copy of a %s kernel does not follow its own set' % k
    if not near(cs[k].composite_KM, want[k], 1e-7, 1e-9):
        return 'using a copy of a %s kernel changes the original' % k
    for m, f in zip(S, fresh(X)):
        if not near(m.full, f.full, 1e-7, 1e-9):
            return 'using a copy of a composite attaches the members of the original'
    u = make(k, S)
    v = COPY[c['how']](u)
    fit(k, v)
    if not Run(lambda: u.composite_KM).raised(ValueError):
        return 'fitting a copy fits the original'


def j_fixed(c):
    rs = np.random.RandomState(c['seed'])
    M = rs.randn(4, 4)
    M = M + M.T
    p, q = kmb.KernelMatrixPrecomputed(M.copy()), kmb.ConstantKernelMatrix(3, c['value'])
    if c['seed'] % 2:
        q.full
    other = kmb.ConstantKernelMatrix(3, c['value'] + 1)
    other.full
    for o, full in ((p, M), (q, np.full((3, 3), c['value']))):
        r = Run(COPY[c['how']], o)
        if r.exc is not None:
            return 'copying %s: %r' % (o, r)
        if str(r.val) != str(o) or not near(r.val.full, full) or not near(o.full, full) or len(r.val) != len(o) or \
                not near(r.val.diag, np.diag(full)) or not near(r.val[0, :], full[0, :] if o is p else full[:1, :]):
            return 'a copy of %s differs' % o
        a = np.array(r.val.full)
        r.val.full[...] = 17.0                             # the copy has its own entries
        if not near(o.full, full):
            return 'a copy of %s shares its entries with the original: %r' % (o, a)
    if not near(other.full, np.full((3, 3), c['value'] + 1)):
        return 'constant matrices influence each other'


# ------------------------------------------------------------------------------------------------ estimators
def alone(scn, pos):
    """The history of the object addressed by event pos, made on a single object."""
    log = {}
    for e in scn['hist'][:pos + 1]:
        o = e['op']
        if o == 'new':
            log['e'] = [e]
        elif o == 'copy':
            log[e['r']] = list(log[e['s']])
        elif o in ('clone', 'share'):
            log[e['r']] = [dict(scn['hist'][0], par=e['par'])]
        else:
            log[e['s']].append(dict(e, s='e'))
    e = scn['hist'][pos]
    return [log[e['s']]] + ([log[e['r']] + [{'op': 'get', 's': 'e', 'par': e['par'], 'out': 'ok'}]] if e['op'] in estim.MAKING else [])


def j_estimator(scn):
    r = estim.run_scenario(scn)
    if r is None:
        return None
    import re
    m = re.search(r'call (\d+) ', r)
    pos = int(m.group(1)) if m else len(scn['hist']) - 1
    for h in alone(scn, pos):
        if estim.run_scenario(dict(scn, hist=h, how=(scn['how'] * 3)[:len(h)])) is not None:
            return None                                    # wrong also when alone
    return r


def estimators(ctx):
    ctx.model('Estimators/copies', tlc.run('Estimators', {'Copies': 'TRUE'}))
    scns, rng = [], ctx.rng
    made = lambda h: any(e['op'] in ('copy', 'share') for e in h) and h[-1]['op'] == 'predict'
    for names, classes in ((['k_func', 'normalized'], ('KernelMachine', 'KernelMachineRegressor')), (['k_bucket', 'C'], ('OptimalKernelSVC', 'OptimalKernelSVR'))):
        hs = estim.histories(ctx, names, ctx.pick(5, 6), ctx.pick(260, 3000), ctx.pick(200, 2500), made, weighted=False, tests=2, depth=11, copies=True)
        for i, h in enumerate(hs):
            cls = classes[i % 2]
            if cls.startswith('Kernel'):
                vals, fixed = {'k_func': rng.sample(estim.KF[:-1], 2), 'normalized': rng.choice([[True, False], [False, True]])}, {}
            else:
                vals, fixed = {'k_bucket': copy.deepcopy(rng.sample(estim.BUCKETS[:5] + estim.BUCKETS[7:], 2)), 'C': [1.0, 10.0]}, {'method': 'align/corr'}
            scns.append(estim.tidy(estim.base_scenario(ctx, 'C29', cls, h, vals, fixed, rng.choice(['int', 'pm', 'float']))))
    replay(ctx, 'estimators', scns, j_estimator, parallel=True)


def c29(ctx):
    for mode in ('solo', 'group'):
        ctx.model('Fleet/' + mode, tlc.run('Fleet', {'Mode': '"%s"' % mode, 'MaxLevel': ctx.pick('6', '8')}))
        r = tlc.run('Fleet', {'Mode': '"%s"' % mode, 'MaxLevel': ctx.pick('5', '6')}, cfg='FleetGen.cfg', workers=1)
        ctx.model('Fleet/generate ' + mode, r)
        hs = sorted(r.tagged('GEN'), key=str)
        more = [h for h in hs if len(h) > 1 and any(e['op'] in ('copy', 'new', 'copyset') for e in h)]
        n = ctx.pick(450, 6000)
        if len(more) > n:
            more = ctx.rng.sample(more, n)
        more += tlc.simulate(ctx, 'Fleet', {'Mode': '"%s"' % mode, 'MaxLevel': '100'}, 'FleetGen.cfg', ctx.pick(250, 3000), 12)
        judge(ctx, mode, [scenario(ctx, h, mode, i) for i, h in enumerate(more)])
    hows = sorted(COPY)
    replay(ctx, 'kernel-functions', [{'spec': s, 'other': o, 'how': h, 'seed': ctx.rng.randrange(10 ** 6)} for s, o in FUNCS for h in hows
                                     for _ in range(ctx.pick(4, 40))], j_function)
    replay(ctx, 'composites', [{'seed': ctx.rng.randrange(10 ** 6), 'n': ctx.rng.choice([2, 3, 6]), 'm': ctx.rng.choice([2, 3]), 'how': ctx.rng.choice(hows),
                                'order': ctx.rng.sample(['sum', 'prod', 'avg', 'wavg'], ctx.rng.choice([1, 2, 3, 4]))} for _ in range(ctx.pick(150, 2000))],
           j_composite, parallel=True)
    replay(ctx, 'fixed', [{'seed': i, 'how': h, 'value': v} for i in range(4) for h in hows for v in (0.0, -2.5, 3.0)], j_fixed)
    estimators(ctx)
