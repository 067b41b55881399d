"""C16: composite kernels and linear combinations, against Composite.tla and MatrixOps.tla."""
import numpy as np

from kernelmethods import base as kmb
from kernelmethods.operations import linear_combination

from . import kernels, tlc
from .cases import Run, enumerate_cases, evaluate_cases, near, replay
from .matrix import rand_int_mat

CLASSES = {'sum': kmb.SumKernel, 'product': kmb.ProductKernel, 'average': kmb.AverageKernel,
           'weighted': kmb.WeightedAverageKernel}
ERR = {'ValueError': ValueError, 'TypeError': TypeError, 'RuntimeError': RuntimeError}


class Lookup:
    """Kernel function whose values are the entries of given matrices: point 100*v+i is the i-th of version v."""

    def __init__(self, mats):
        self.mats = mats

    def __call__(self, x, y):
        a, b = int(np.ravel(x)[0]), int(np.ravel(y)[0])
        return float(self.mats[a // 100][a % 100][b % 100])


def lookup_kernel(mats):
    fn = Lookup(mats)

    def entry(x, y):
        return fn(x, y)
    return kmb.KernelFromCallable(entry)


def sample(v, n):
    return np.array([[100 * v + i] for i in range(n)], dtype=float)


def weights(rng, k):
    """Named integer weights for k members."""
    while True:
        w2 = [rng.choice([-3, -2, -1, 0, 2, 4]) for _ in range(k)]
        if sum(w2) != 0:
            break
    z = [rng.randint(-4, 4) for _ in range(k - 1)] + [0]
    z[-1] = -sum(z)
    return {'w1': [rng.randint(1, 5) for _ in range(k)], 'w2': w2, 'z': z,
            'short': [1] * (k - 1), 'long': [1] * (k + 1)}


def as_weights(w, how):
    return [list(w), tuple(w), np.array(w, dtype=float), np.array(w), np.array(w, dtype=float).reshape(-1, 1)][how]


def make_scenario(ctx, hist, i, size):
    rng = ctx.rng
    n = rng.choice([1, 2, 3, 4])
    mats = {v: [rand_int_mat(rng, n, n, True, -4, 4) for _ in range(size)] for v in (1, 2)}
    pre = hist[0]['term']['ver'] == 1 and not any(e['op'] == 'attach' for e in hist) and rng.random() < .5
    return {'hist': hist, 'n': n, 'mats': mats, 'w': weights(rng, size), 'pre': pre, 'size': size,
            'how': [rng.randrange(5) for _ in hist], 'scale': rng.choice([1.0, 1.0, .5])}


def needed(scn):
    """The terms of a scenario, as cases for the specification."""
    out = {}
    for e in scn['hist']:
        t = e['term']
        if e['out'] != 'ok' or t['kind'] in ('', 'members'):
            continue
        Ms, k = scn['mats'][t['ver']], len(scn['mats'][1])
        w = scn['w'][t['w']] if t['w'] != 'none' else [1] * k
        if t['kind'].startswith('lincomb'):
            c = {'op': 'lincomb', 'Ms': Ms, 'w': w, 'norm': t['kind'] == 'lincombn'}
        else:
            c = {'op': 'comp', 'kind': t['kind'], 'Ms': Ms, 'w': w}
        out[(t['kind'], t['ver'], t['w'])] = c
    return out


def run_scenario(scn):
    n, size, W = scn['n'], scn['size'], scn['w']
    held = {}

    def given(name, how):
        """The weights of that name, the same object whenever given in the same form."""
        return held.setdefault((name, how), as_weights(W[name], how))
    members = []
    ver = scn['hist'][0]['term']['ver']
    for k in range(size):
        if scn['pre'] and k % 2 == 0:
            members.append(kmb.KernelMatrixPrecomputed(np.array(scn['mats'][1][k], dtype=float)))
        else:
            m = kmb.KernelMatrix(lookup_kernel({v: scn['mats'][v][k] for v in (1, 2)}), normalized=False)
            if scn['pre']:
                m.attach_to(sample(1, n))
            members.append(m)
    ks = kmb.KernelSet(members)
    if ver == 1 and not scn['pre']:
        ks.attach_to(sample(1, n))
    comp, bad = None, None
    for p, e in enumerate(scn['hist'][1:], 1):
        o, how = e['op'], scn['how'][p]
        if o == 'new':
            a = (ks,) + ((given(e['w'], how % 4),) if e['kind'] == 'weighted' else ())
            r = Run(CLASSES[e['kind']], *a)
            if r.exc is None and e['out'] == 'ok':
                comp = r.val
        elif o == 'newbad':
            what = [[members[0], members[-1]], None, members[0], np.eye(3)][how % 4]
            r = Run(CLASSES[e['kind']], *((what, [1, 1]) if e['kind'] == 'weighted' else (what,)))
        elif o == 'fit':
            r = Run(comp.fit) if e['w'] == 'none' else Run(comp.fit, given(e['w'], how))
        elif o in ('full', 'composite_KM'):
            r = Run(getattr, comp, o)
        elif o == 'attach':
            r = Run(ks.attach_to, sample(e['v'], n))
        elif o == 'lincomb':
            r = Run(linear_combination, ks, given(e['w'], how % 4), norm_weights=e['norm'])
        elif o == 'members':
            r = Run(lambda: [np.array(m.full, dtype=float) for m in ks])
        if e['out'] != 'ok':
            if not r.raised(ERR[e['out']]):
                return 'call %d (%s): expected %s, got %r' % (p, o, e['out'], r)
            continue
        if r.exc is not None:
            return 'call %d (%s): unexpected %r' % (p, o, r)
        t = e['term']
        if t['kind'] == 'members':
            want = np.array(scn['mats'][t['ver']], dtype=float)
            if not near(np.array(r.val), want):
                return 'call %d: the members were altered' % p, {'got': [m.tolist() for m in r.val]}
        elif t['kind']:
            q = scn['expected']['%s/%d/%s' % (t['kind'], t['ver'], t['w'])]
            want = np.array(q['m'], dtype=float) / q['den']
            if not isinstance(r.val, np.ndarray) or not near(r.val, want, 1e-9, 1e-9):
                return 'call %d (%s of %s): differs from its definition' % (p, o, t['kind']), \
                    {'got': repr(r.val), 'want': want.tolist()}
    return bad


def histories(ctx, size):
    r = tlc.run('Composite', {'Size': str(size)})
    ctx.model('Composite/size=%d' % size, r)
    r = tlc.run('Composite', {'Size': str(size)}, cfg='CompositeGen.cfg', workers=1)
    ctx.model('Composite/generate size=%d' % size, r)
    hs = r.tagged('GEN')
    if size > 1:
        hs += tlc.simulate(ctx, 'Composite', {'Size': str(size)}, 'CompositeGen.cfg', ctx.pick(60, 1500), 14)
    return hs


def c16(ctx):
    for size in (1, 2, 3):
        hs = histories(ctx, size)
        scns = [make_scenario(ctx, h, i, size) for i, h in enumerate(hs)]
        todo, where = [], []
        for i, s in enumerate(scns):
            for key, c in needed(s).items():
                todo.append(c)
                where.append((i, key))
        for s in scns:
            s['expected'] = {}
        for (i, key), g in zip(where, evaluate_cases(ctx, 'MatrixCases', todo, label='terms size=%d' % size)):
            scns[i]['expected']['%s/%d/%s' % key] = g['e']['r']
        replay(ctx, 'histories(size=%d)' % size, scns, run_scenario)
    cs = enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"comp", "lincomb"}', 'Hi': ctx.pick('1', '2')}, 'composites')
    replay(ctx, 'enumerated', cs, j_case)
    two_sample(ctx, ctx.pick(150, 3000))
    real_valued(ctx, ctx.pick(100, 1500))


def j_case(g):
    c, e = g['c'], g['e']
    ks = kmb.KernelSet([kmb.KernelMatrixPrecomputed(np.array(m, dtype=float)) for m in c['Ms']])
    if c['op'] == 'lincomb':
        r = Run(linear_combination, ks, c['w'], c['norm'])
    else:
        def go():
            k = CLASSES[c['kind']](*((ks, c['w']) if c['kind'] == 'weighted' else (ks,)))
            k.fit(*((c['w'],) if c['kind'] == 'sum' else ()))
            return k.full
        r = Run(go)
    if e['out'] != 'ok':
        return None if r.raised(ERR[e['out']]) else 'expected %s, got %r' % (e['out'], r)
    want = np.array(e['r']['m'], dtype=float) / e['r']['den']
    if r.exc is not None or not near(r.val, want, 1e-12, 1e-12):
        return '%s: %r, expected %r' % (c.get('kind'), r, want.tolist())


def two_sample(ctx, count):
    """Linear combinations of two-sample sets: K(X,Y) of any shape."""
    rng, cases = ctx.rng, []
    for _ in range(count):
        n, m, k = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5]), rng.choice([1, 2, 3, 4])
        W = weights(rng, k) if k > 1 else {'w1': [3], 'z': [0], 'long': [1, 2]}
        cases.append({'op': 'lincomb', 'Ms': [rand_int_mat(rng, n, m, False) for _ in range(k)],
                      'w': W[rng.choice(list(W))], 'norm': rng.random() < .5})
    cases = [c for c in cases if c['w']]
    gs = evaluate_cases(ctx, 'MatrixCases', cases, label='two-sample')
    for g in gs:
        g['c']['how'] = rng.randrange(4)

    def judge(g):
        c, e = g['c'], g['e']
        n, m = len(c['Ms'][0]), len(c['Ms'][0][0])
        ks = []
        for M in c['Ms']:
            k = kmb.KernelMatrix(lookup_kernel({1: M}), normalized=False)
            k.attach_to(sample(1, n), sample_two=sample(1, m))
            ks.append(k)
        w, ks = as_weights(c['w'], c['how'] % 4), kmb.KernelSet(ks)
        for turn in ('', ' (the second time)'):
            r = Run(linear_combination, ks, w, norm_weights=c['norm'])
            if e['out'] != 'ok':
                if not r.raised(ERR[e['out']]):
                    return 'expected %s, got %r%s' % (e['out'], r, turn)
                continue
            want = np.array(e['r']['m'], dtype=float).reshape(n, m) / e['r']['den']
            if r.exc is not None or not near(r.val, want, 1e-9, 1e-9):
                return 'two-sample linear_combination: %r, expected %r%s' % (r, want.tolist(), turn)
    replay(ctx, 'two-sample', gs, judge)


def real_valued(ctx, count):
    specs = [{'name': 'linear'}, {'name': 'gaussian'}, {'name': 'poly', 'params': {'degree': 2}}, {'name': 'laplacian'},
             {'name': 'hadamard'}, {'name': 'sqdist'}]
    cs = [{'n': ctx.rng.choice([2, 3, 8, 21, 40]), 'ks': ctx.rng.choices(range(len(specs)), k=ctx.rng.choice([2, 3, 5, 7])),
           'normed': ctx.rng.random() < .5, 'seed': ctx.rng.randrange(10 ** 6)} for _ in range(count)]

    def judge(c):
        rs = np.random.RandomState(c['seed'])
        X = rs.randn(c['n'], 4)
        ks = kmb.KernelSet([kmb.KernelMatrix(kernels.build(specs[k]), normalized=c['normed']) for k in c['ks']])
        ks.attach_to(X)
        full = []
        for k in c['ks']:
            M = np.array([[kernels.reference(specs[k], x, y) for y in X] for x in X])
            full.append(M / np.sqrt(np.outer(np.diag(M), np.diag(M))) if c['normed'] else M)
        w = rs.randn(len(full)) * 3
        if c['seed'] % 3 == 0:
            for m in rs.permutation(len(full)):      # some members were used before
                _ = ks[int(m)][0, :] if m % 2 else ks[int(m)].full
        sc = max(np.abs(f).max() for f in full)
        got = {}
        s = kmb.SumKernel(ks)
        s.fit()
        got['sum'] = (s.full, sum(full))
        s.fit(w)
        got['sum w'] = (s.composite_KM, sum(a * b for a, b in zip(w, full)))
        s.fit(list(np.abs(w)))
        got['sum |w|'] = (s.full, sum(a * b for a, b in zip(np.abs(w), full)))
        p = kmb.ProductKernel(ks)
        p.fit()
        p.fit()
        want = np.ones_like(full[0])
        for f in full:
            want = want * f
        a = kmb.AverageKernel(ks)
        a.fit()
        got['average'] = (a.full, sum(full) / len(full))
        a.fit()
        got['average again'] = (a.composite_KM, sum(full) / len(full))
        v = kmb.WeightedAverageKernel(ks, w)
        v.fit()
        v.fit()
        got['weighted'] = (v.full, sum(x * b for x, b in zip(w, full)))
        got['lincomb'] = (linear_combination(ks, w), sum(x * b for x, b in zip(w, full)))
        u = np.abs(w) + .1
        u0 = u.copy()
        got['lincomb norm'] = (linear_combination(ks, u, norm_weights=True), sum(x * b for x, b in zip(u0, full)) / u0.sum())
        got['lincomb u'] = (linear_combination(ks, u), sum(x * b for x, b in zip(u0, full)))
        for name, (g, f) in got.items():
            if not near(g, f, 1e-8, 1e-9 * sc * (1 + np.abs(w).max())):
                return '%s of %d members on %d points differs from its definition' % (name, len(full), c['n'])
        if not near(p.full, want, 1e-8, 1e-12 * np.abs(want).max()):
            return 'product of %d members differs from its definition' % len(full)
        for m, f in zip(ks, full):
            if not near(m.full, f, 1e-8, 1e-10 * sc):
                return 'a member was altered'
    replay(ctx, 'real-valued', cs, judge)
