"""C18 (ranking, selection) and C19 (similarity), against Ranking.tla and MatrixCases.tla (Align, Corr, Outer, Best, Pairwise)."""
import math
import warnings

import numpy as np

from kernelmethods import base as kmb
from kernelmethods.ranking import find_optimal_kernel, rank_kernels
from kernelmethods.sampling import KernelBucket, correlation_km, ideal_kernel, pairwise_similarity

from . import kernels, tlc
from .cases import Run, enumerate_cases, evaluate_cases, near, replay
from .matrix import present, rand_int_mat, ref_align, ref_center

ROWS = [[a, b] for a in (-2, -1, 0, 1, 2) for b in (-1, 0, 1)]


def row_lookup(mats, index):
    """Kernel whose value on two known rows is the entry of a matrix; mats: version -> matrix, index: row -> (version, i)."""
    def entry(x, y):
        v, i = index[tuple(int(a) for a in np.ravel(x))]
        w, j = index[tuple(int(a) for a in np.ravel(y))]
        return float(mats[v][i][j])
    return kmb.KernelFromCallable(entry)


# additional parameters of the alignment ranking; the last ones say what an undefined alignment counts as
PARAMS = [{}, {'centered_already': False}, {'estimator_name': 'SVR'}, {'estimator_name': 'SVM', 'centered_already': False},
          {'value_if_zero_division': -1.0}, {'value_if_zero_division': .25, 'centered_already': False}]


def value(r):
    """dot / sqrt(n1 n2), or None where undefined"""
    if r['n1'] == 0 or r['n2'] == 0:
        return None
    return r['dot'] / math.sqrt(r['n1']) / math.sqrt(r['n2'])


# ------------------------------------------------------------------------------------------------ C18: histories (align/corr)
def scenario(ctx, hist, i):
    rng = ctx.rng
    n, size = rng.choice([2, 3, 4]), rng.choice([1, 2, 3, 4, 6])
    rows = rng.sample(ROWS, 2 * n)
    smp = {1: rows[:n], 2: rows[n:]}
    mats = []
    for k in range(size - 1):
        p = rng.random()
        if mats and p < .25:
            mats.append({'dup': rng.randrange(len(mats))})
            continue
        m = {}
        for v in ('1', '2'):
            M = rand_int_mat(rng, n, n, True, -3, 3)
            if rng.random() < .12:                         # vanishes when centered
                a = rng.randint(-2, 2)
                M = [[a] * n for _ in range(n)]
            if rng.random() < .08 and ctx.prop == 'C18':   # not a number: can not be chosen
                i_, j_ = rng.randrange(n), rng.randrange(n)
                M[i_][j_] = M[j_][i_] = 'nan'
            m[v] = M
        mats.append(m)
    kind = rng.choice(['pm', 'int', 'lab'])
    t = {x: [{'pm': lambda: rng.choice([-1, 1]), 'int': lambda: rng.randint(-3, 3), 'lab': lambda: rng.choice([0, 1, 2])}[kind]()
             for _ in range(n)] for x in ('t1', 't2')}
    return {'hist': hist, 'n': n, 'smp': {str(v): smp[v] for v in smp}, 'mats': mats, 't': t, 'how': [rng.randrange(12) for _ in hist],
            'kw': [rng.choice([0, 0, rng.randrange(len(PARAMS))]) for _ in hist]}


def lin(smp):
    return [[sum(a * b for a, b in zip(x, y)) for y in smp] for x in smp]


def members_of(scn):
    """Integer matrix of every member on every sample ('nan' entries possible)."""
    out = [{v: lin(scn['smp'][v]) for v in ('1', '2')}]
    for m in scn['mats']:
        out.append(out[m['dup'] + 1] if 'dup' in m else m)
    return out


def has_nan(M):
    return any('nan' in r for r in M)


def queries(scn):
    todo = {}
    for e in scn['hist']:
        t = e['term']
        if t['kind'] in ('scores', 'best'):
            for k, m in enumerate(members_of(scn)):
                if not has_nan(m[str(t['ver'])]):
                    todo[(t['ver'], t['t'], k)] = {'op': 'align', 'A': m[str(t['ver'])],
                                                   'B': [[a * b for b in scn['t'][t['t']]] for a in scn['t'][t['t']]]}
    return todo


def ranks(scores, members, vanish):
    """Dense ranks (-1: NaN); None if two different kernels tie (their rounding errors decide)."""
    order = sorted({round(s, 9) for s in scores if s is not None})
    for a in range(len(scores)):
        for b in range(a):
            if scores[a] is not None and scores[b] is not None and abs(scores[a] - scores[b]) < 1e-7 \
                    and members[a] is not members[b] and not (vanish[a] and vanish[b]):
                return None
    return [-1 if s is None else order.index(round(s, 9)) for s in scores]


def run_scenario(scn):
    smp = {int(v): np.array(scn['smp'][v], dtype=float) for v in scn['smp']}
    index = {tuple(r): (v, i) for v in scn['smp'] for i, r in enumerate(scn['smp'][v])}
    mem = members_of(scn)
    b = KernelBucket(None, None, None, None, None, normalize_kernels=False)
    for m in mem[1:]:
        b.append(kmb.KernelMatrix(row_lookup({v: [[float(x) for x in r] for r in m[v]] for v in m}, index), normalized=False))
    objs = list(b)
    for p, (e, how) in enumerate(zip(scn['hist'], scn['how'])):
        o = e['op']
        name = ['align/corr', 'align/corr', 'ALIGN/CORR', 'Align/Corr'][how % 4]
        t = scn['t'].get(e['t'])
        t = t if t is None else (list(t), tuple(t), np.array(t), np.array(t, dtype=float))[how % 4]
        if o == 'attach':
            r = Run(b.attach_to, smp[e['v']])
        elif o == 'rank':
            kw = PARAMS[scn['kw'][p]]
            r = Run(rank_kernels, b, t, method=name, **kw) if how % 3 else Run(rank_kernels, b, t, **kw)
        elif o == 'find':
            kw = {k: x for k, x in PARAMS[scn['kw'][p]].items() if k != 'value_if_zero_division'}
            r = Run(find_optimal_kernel, b, smp[e['v']], t, method=name, **kw)
        elif o == 'badfind':
            r = Run(find_optimal_kernel, b, smp[e['v']], t, method=['cv', 'align', '', 'cv risk', 'corr/align'][how % 5])
        elif o == 'badrank':
            r = Run(rank_kernels, b, t, method=['align', '', 'xyz', 'cv risk', 'corr'][how % 5])
        elif o == 'nonbucket':
            r = Run(find_optimal_kernel, [objs, None, kmb.KernelSet([kmb.KernelMatrix(kernels.build({'name': 'linear'}))]), objs[0], 'light'][how % 5],
                    smp[1], t, method='align/corr')
        elif o == 'read':
            r = Run(lambda: [np.array(k.full, dtype=float) for k in b])
        if e['out'] != 'ok':
            if not r.raised({'NotImplementedError': NotImplementedError, 'TypeError': TypeError}[e['out']]):
                return 'call %d (%s): %r instead of %s' % (p, o, r, e['out'])
            continue
        if r.exc is not None:
            if o == 'find' and scn['best'].get('%d/%s' % (e['term']['ver'], e['term']['t'])) is None:
                continue                              # no kernel with a score
            return 'call %d (%s): unexpected %r' % (p, o, r)
        if list(b) != objs or any(x is not y for x, y in zip(b, objs)):
            return 'call %d (%s) changed the members of the bucket' % (p, o)
        tm = e['term']
        key = '%d/%s' % (tm['ver'], tm['t'])
        if tm['kind'] == 'members':
            want = [np.array(m[str(tm['ver'])], dtype=float) for m in mem]
            if not all(near(g, w) for g, w in zip(r.val, want)):
                return 'call %d: members do not hold the sample attached last' % p, repr(r.val)
        elif tm['kind'] == 'scores':
            want = scn['scores'][key]
            if np.shape(r.val) != (len(objs),):
                return 'call %d: %r is not one score per kernel' % (p, r.val)
            for k, (g, w) in enumerate(zip(np.asarray(r.val, dtype=float), want)):
                if w == 'nan':
                    continue
                if k in scn['vanish'][key]:
                    w = PARAMS[scn['kw'][p]].get('value_if_zero_division', 0.0)
                if not near(g, w, 1e-9, 1e-9):
                    return 'call %d: score of kernel %d is %r, expected %r' % (p, k, g, w)
        elif tm['kind'] == 'best':
            if not any(r.val is x for x in objs):
                return 'call %d: find_optimal_kernel did not return a member of the bucket' % p
            for k in objs:
                if k.num_samples != scn['n']:
                    return 'call %d: find_optimal_kernel left a member unattached' % p
            want = scn['best'][key]
            if want not in (None, 'ambiguous') and r.val is not objs[want]:
                return 'call %d: find_optimal_kernel returned member %d instead of %d (scores %r)' % (
                    p, [x is r.val for x in objs].index(True), want, scn['scores'][key])


def attach_scores(ctx, scns):
    todo, where = [], []
    for i, s in enumerate(scns):
        s['scores'], s['best'], s['vanish'] = {}, {}, {}
        for key, c in queries(s).items():
            todo.append(c)
            where.append((i, key))
    got, vanish = {}, set()
    for (i, key), g in zip(where, evaluate_cases(ctx, 'MatrixCases', todo, label='alignments')):
        got[(i,) + key] = 0.0 if g['e']['out'] == 'vanishing' else value(g['e']['r'])
        if g['e']['out'] == 'vanishing':
            vanish.add((i,) + key)                    # exactly 0, whatever the rounding
    choose = []
    for i, s in enumerate(scns):
        mem = members_of(s)
        for ver in (1, 2):
            for t in ('t1', 't2'):
                sc = [got.get((i, ver, t, k)) for k in range(len(mem))]
                if all(x is None for x in sc):
                    continue
                key = '%d/%s' % (ver, t)
                s['vanish'][key] = [k for k in range(len(mem)) if (i, ver, t, k) in vanish]
                s['scores'][key] = ['nan' if x is None else x for x in sc]
                rk = ranks(sc, mem, [(i, ver, t, k) in vanish for k in range(len(mem))])
                if rk is None:
                    s['best'][key] = 'ambiguous'
                else:
                    choose.append((s, key, {'op': 'choose', 's': rk}))
    for (s, key, _), g in zip(choose, evaluate_cases(ctx, 'MatrixCases', [c for _, _, c in choose], label='choices')):
        s['best'][key] = g['e']['i'] - 1


def align_histories(ctx, count, prop='C18'):
    ctx.model('Ranking', tlc.run('Ranking'))
    r = tlc.run('Ranking', {'MaxLen': '3'}, cfg='RankingGen.cfg', workers=1)
    ctx.model('Ranking/generate', r)
    hs = sorted((h for h in r.tagged('GEN') if any(e['op'] in ('rank', 'find') for e in h) or len(h) <= 2), key=str)
    if len(hs) > count:
        hs = ctx.rng.sample(hs, count)
    hs += tlc.simulate(ctx, 'Ranking', {'MaxLen': '10'}, 'RankingGen.cfg', ctx.pick(100, 1000), 11)
    scns = [scenario(ctx, h, i) for i, h in enumerate(hs)]
    attach_scores(ctx, scns)
    replay(ctx, 'histories', scns, run_scenario)
    ctx.notes['unambiguous_choices'] = sum(1 for s in scns for v in s['best'].values() if isinstance(v, int))


# ------------------------------------------------------------------------------------------------ real-valued buckets
POOL = [{'name': 'poly', 'params': {'degree': d}} for d in (2, 3)] + [{'name': 'gaussian', 'params': {'sigma': s}} for s in (.3, 1., 4.)] + \
       [{'name': 'laplacian', 'params': {'gamma': g}} for g in (.1, 2.)] + [{'name': 'sqdist'}, {'name': 'mixed', 'params': {'w': .2}},
        {'name': 'hadamard', 'params': {'alpha': 1}}, {'name': 'chi2', 'params': {'gamma': .5}}]
NPOOL = len(POOL)
# almost the linear kernel: their scores differ little
POOL += [{'name': 'poly', 'params': {'degree': 1, 'gamma': g, 'b': 0.0}} for g in (1.0001, 1.001, 1.01, .999)]


def real_bucket(c):
    rs = np.random.RandomState(c['seed'])
    X = np.abs(rs.randn(c['n'], c['d'])) + .05
    b = KernelBucket(None, None, None, None, None, normalize_kernels=c['normed'])
    specs = [{'name': 'linear'}] + [POOL[k] for k in c['ks']]
    for s in specs[1:]:
        b.append(kmb.KernelMatrix(kernels.build(s), normalized=c['normed']))
    full = []
    for s in specs:
        K = np.array([[kernels.reference(s, x, y) for y in X] for x in X])
        full.append(K / np.sqrt(np.outer(np.diag(K), np.diag(K))) if c['normed'] else K)
    y = (X @ rs.randn(c['d']) + .3 * rs.randn(c['n']))
    if c['task'] == 'clf':
        y = np.digitize(y, np.quantile(y, np.arange(1, c['classes']) / c['classes']))
        y = np.where(rs.rand(c['n']) < .1, rs.randint(0, c['classes'], c['n']), y)
        y = (y * 2 - 1) if c['labels'] == 'pm' else y
    return X, y, b, specs, full


def align0(A, B):
    """Alignment, 0 where a centered matrix vanishes."""
    if min(np.linalg.norm(ref_center(M)) for M in (A, B)) < 1e-10:
        return 0.0
    return ref_align(A, B)


def pick_best(scores, specs, exact=False):
    """First highest score; None when different kernels are within rounding of the best."""
    best = int(np.nanargmax(scores))
    for k, s in enumerate(scores):
        if k != best and not np.isnan(s) and abs(s - scores[best]) < 1e-9 * max(1, abs(scores[best])) \
                and (s != scores[best] or not exact) and specs[k] != specs[best]:
            return None
    return best


def real_cases(ctx, count, task=None):
    rng = ctx.rng
    return [{'n': rng.choice([9, 12, 15, 20]), 'd': rng.choice([1, 2, 4]), 'seed': rng.randrange(10 ** 6), 'normed': rng.random() < .5,
             'ks': [rng.randrange(NPOOL) for _ in range(rng.choice([0, 1, 2, 3, 4]))],
             'task': task or rng.choice(['clf', 'reg']), 'classes': rng.choice([2, 2, 3]), 'labels': rng.choice(['pm', 'int']),
             'how': rng.randrange(12)} for _ in range(count)]


def j_align_real(c):
    X, y, b, specs, full = real_bucket(c)
    want = np.array([align0(K, np.outer(y, y)) for K in full])
    r = Run(find_optimal_kernel, b, X, y, method='align/corr')
    if r.exc is not None:
        return 'find_optimal_kernel(align/corr): %r' % r
    best = pick_best(want, specs)
    if best is not None and r.val is not b[best]:
        return 'find_optimal_kernel(align/corr) returned member %d, scores %r' % ([r.val is k for k in b].index(True), want.tolist())
    g = Run(rank_kernels, b, y, method='align/corr')
    if g.exc is not None or not near(g.val, want, 1e-7, 1e-9):
        return 'scores %r, expected %r' % (g, want.tolist())


def cv_scores(full, y, est, folds):
    """Best cross-validated score over the grid of C, per kernel."""
    from sklearn.model_selection import GridSearchCV
    from sklearn.svm import SVC, SVR
    out = []
    for K in full:
        gs = GridSearchCV(SVR(kernel='precomputed') if est == 'SVR' else SVC(kernel='precomputed'),
                          {'C': [10.0 ** e for e in range(-6, 6)]}, cv=folds)
        gs.fit(K, y)
        out.append(gs.best_score_)
    return np.array(out)


def own_matrices(X, specs, full, normed):
    """The matrices as fresh KernelMatrix objects compute them: an SVM can amplify rounding errors."""
    out = []
    for sp, F in zip(specs, full):
        k = kmb.KernelMatrix(kernels.build(sp), normalized=normed)
        k.attach_to(X)
        out.append(np.array(k.full, dtype=float))
        if not near(out[-1], F, 1e-8, 1e-10):
            return 'kernel matrix of %r is wrong' % sp
    return out


def j_cv(c):
    X, y, b, specs, full = real_bucket(c)
    full = own_matrices(X, specs, full, c['normed'])
    if isinstance(full, str):
        return full
    est = 'SVR' if c['task'] == 'reg' else ['SVM', 'SVC', 'svm'][c['how'] % 3]
    folds = [3, 3, 2, 4][c['how'] % 4]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if c['task'] == 'clf' and min(np.bincount(y - y.min())[np.bincount(y - y.min()) > 0]) < folds:
            return None
        s = cv_scores(full, y, est, folds)
    spread = s.max() - s.min()
    if 0 < spread < 1e-6:
        return None
    want = 100 * (s - s.min()) / spread if spread > 0 else np.zeros(len(s))
    kw = {'num_folds': folds, 'estimator_name': est}
    if folds == 3 and c['how'] % 2 == 0:
        del kw['num_folds']
    if est == 'SVM' and c['how'] % 5 == 0:
        del kw['estimator_name']
    if c['how'] % 3 == 0:                                     # ranking first
        b.attach_to(X)
        g = Run(rank_kernels, b, y, method='cv_risk', **kw)
        f = Run(find_optimal_kernel, b, X, y, method='CV_risk' if c['how'] == 0 else 'cv_risk', **kw)
    else:
        f = Run(find_optimal_kernel, b, X, y, **kw) if c['how'] % 2 else Run(find_optimal_kernel, b, X, y, method='cv_risk', **kw)
        g = Run(rank_kernels, b, y, method='cv_risk', **kw)
    tol = 1e-6
    if g.exc is not None or not near(g.val, want, tol, tol * 100):
        return 'cv_risk scores of %s: %r, expected %r' % (est, g, want.tolist())
    if f.exc is not None or not any(f.val is k for k in b):
        return 'find_optimal_kernel(cv_risk): %r' % f
    got = [f.val is k for k in b].index(True)
    if want[got] < want.max() - (1e-6 if c['task'] == 'clf' else .2):
        return 'find_optimal_kernel(cv_risk) returned member %d, scores %r' % (got, want.tolist())
    if c['task'] == 'clf' and pick_best(want, specs, True) is not None and got != pick_best(want, specs, True):
        return 'find_optimal_kernel(cv_risk) returned member %d, not the first best; scores %r' % (got, want.tolist())


def c18(ctx):
    align_histories(ctx, ctx.pick(900, 6000))
    cs = enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"choose"}'}, 'choose')
    ctx.notes['choices_checked_in_the_model'] = len(cs)
    replay(ctx, 'align-real', real_cases(ctx, ctx.pick(600, 6000)), j_align_real, parallel=True)
    cv = real_cases(ctx, ctx.pick(60, 900))
    for c in cv:                                               # (indefinite kernels: libsvm may not converge)
        c['ks'] = [k for k in c['ks'] if POOL[k]['name'] != 'sqdist' and (c['normed'] or POOL[k] != POOL[1])]
    close = real_cases(ctx, ctx.pick(10, 120), 'reg')
    for c in close:
        c['n'], c['d'] = ctx.rng.choice([9, 10]), ctx.rng.choice([2, 4])
        c['ks'], c['normed'] = ctx.rng.sample(range(NPOOL, len(POOL)), ctx.rng.choice([1, 2, 3])), False
    replay(ctx, 'cv', cv + close, j_cv, parallel=True)


# ------------------------------------------------------------------------------------------------ C19
def as_member(M, n, how):
    if how % 2 == 0 and all(M[i][j] == M[j][i] for i in range(n) for j in range(n)):
        return kmb.KernelMatrixPrecomputed(np.array(M, dtype=float))
    index = {(i,): ('1', i) for i in range(n)}
    k = kmb.KernelMatrix(row_lookup({'1': M}, index), normalized=False)
    k.attach_to(np.arange(n, dtype=float).reshape(-1, 1))
    return k


def j_pairwise(g):
    c, e = g['c'], g['e']
    n, how = len(c['Ms'][0]), c['how']
    ks = kmb.KernelSet([as_member(M, n, how + i) for i, M in enumerate(c['Ms'])])
    if how % 5 == 0:                                           # members read before
        for k in ks:
            k.full
    r = Run(pairwise_similarity, ks, metric=c['metric']) if how % 3 or c['metric'] != 'corr' else Run(pairwise_similarity, ks)
    if r.exc is not None or np.shape(r.val) != (len(c['Ms']),) * 2:
        return 'pairwise_similarity(%s) of %d matrices: %r' % (c['metric'], len(c['Ms']), r)
    for a in range(len(c['Ms'])):
        for b in range(len(c['Ms'])):
            w = value(e['r'][a][b])
            if w is None:
                if c['metric'] == 'corr':
                    continue                                   # correlation with a constant: undefined
                w = 0.0
            if not near(r.val[a][b], w, 1e-9, 1e-9):
                return 'pairwise_similarity(%s) entry (%d,%d): %r, expected %r' % (c['metric'], a, b, r.val[a][b], w)
    fin = np.nan_to_num(np.asarray(r.val, dtype=float), nan=7.0)
    if not np.array_equal(fin, fin.T):
        return 'pairwise_similarity(%s) is not symmetric' % c['metric']
    again = Run(pairwise_similarity, ks, metric=c['metric'])
    if again.exc is not None or not near(again.val, r.val):
        return 'pairwise_similarity: another result the second time'


def j_ideal(g):
    c, e = g['c'], g['e']
    v, how = c['v'], c['how']
    forms = [list(v), tuple(v), np.array(v), np.array(v, dtype=float), np.array(v).reshape(-1, 1), np.array(v, dtype=float)[::-1].copy()[::-1],
             np.array(v, dtype=np.float32), np.repeat(np.array(v, dtype=float), 2)[::2]]
    r = Run(ideal_kernel, forms[how % len(forms)])
    if r.exc is not None or not isinstance(r.val, np.ndarray) or not near(r.val, np.array(e['m'], dtype=float), 1e-6 if how % 8 == 6 else 1e-12):
        return 'ideal_kernel(%r): %r, expected %r' % (forms[how % len(forms)], r, e['m'])


def j_corr(g):
    c, e = g['c'], g['e']
    if e['out'] != 'ok':
        return None
    A, B = present(c['A'], c['hA']), present(c['B'], c['hB'])
    w = value(e['r'])
    for r in (Run(correlation_km, A, B), Run(correlation_km, B, A)):
        if r.exc is not None or np.ndim(r.val) != 0 or not near(r.val, w, 1e-7, 1e-7):
            return 'correlation_km(%r, %r): %r, expected %r' % (c['A'], c['B'], r, w)


def j_sim_real(c):
    X, y, b, specs, full = real_bucket(c)
    b.attach_to(X)
    want = np.empty((len(full),) * 2)
    for a, A in enumerate(full):
        for k, B in enumerate(full):
            if c['metric'] == 'align':
                want[a, k] = align0(A, B)
            else:
                p, q = (A - A.mean()).ravel(), (B - B.mean()).ravel()
                if min(p @ p, q @ q) < 1e-14:
                    return None                                # correlation with a constant: undefined
                want[a, k] = p @ q / math.sqrt(p @ p) / math.sqrt(q @ q)
    r = Run(pairwise_similarity, b, metric=c['metric'])
    if r.exc is not None or not near(r.val, want, 1e-6, 1e-8):
        return 'pairwise_similarity(%s) of %d kernels: %r, expected %r' % (c['metric'], len(full), r, want.tolist())
    for k, M in enumerate(full):
        if not near(b[k].full, M, 1e-8, 1e-10):
            return 'pairwise_similarity altered member %d' % k
    i, j = c['how'] % len(full), (c['how'] // 3) % len(full)
    if c['metric'] == 'corr':
        g = Run(correlation_km, full[i], full[j])
        if g.exc is not None or not near(g.val, want[i, j], 1e-6, 1e-8):
            return 'correlation_km: %r, expected %r' % (g, want[i, j])


def c19(ctx):
    rng = ctx.rng
    gs = enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"pairwise"}', 'Hi': ctx.pick('1', '3')}, 'pairwise')
    cs = []
    for _ in range(ctx.pick(400, 4000)):
        n, size = rng.choice([2, 3, 4]), rng.choice([1, 1, 2, 3, 4, 5, 7])
        Ms = [rand_int_mat(rng, n, n, rng.random() < 1, -4, 4) for _ in range(size)]
        for i in range(1, size):
            if rng.random() < .15:
                Ms[i] = [[2 * x for x in r] for r in Ms[rng.randrange(i)]]
            elif rng.random() < .1:
                q = [rng.randint(-3, 3) for _ in range(n)]
                Ms[i] = [[q[a] + q[b] for b in range(n)] for a in range(n)]     # vanishes when centered
        cs.append({'op': 'pairwise', 'metric': rng.choice(['corr', 'align']), 'Ms': Ms})
    gs2 = evaluate_cases(ctx, 'MatrixCases', cs, label='pairwise-random')
    for g in gs + gs2:
        g['c']['how'] = rng.randrange(30)
    replay(ctx, 'pairwise-enumerated', gs, j_pairwise)
    replay(ctx, 'pairwise-random', gs2, j_pairwise)
    gs = enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"ideal"}'}, 'ideal') + evaluate_cases(
        ctx, 'MatrixCases', [{'op': 'ideal', 'v': [rng.randint(-90, 90) for _ in range(rng.choice([1, 2, 5, 13, 40]))]} for _ in range(ctx.pick(200, 1000))], label='ideal-random')
    for g in gs:
        g['c']['how'] = rng.randrange(8)
    replay(ctx, 'ideal', gs, j_ideal)
    gs = enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"corr"}'}, 'corr')
    from .matrix import random_cases
    gs += evaluate_cases(ctx, 'MatrixCases', random_cases(ctx, 'corr', ctx.pick(300, 3000)), label='corr-random')
    for g in gs:
        for h in ('hA', 'hB'):
            g['c'][h] = rng.choice(['c', 'f', 'strided', 'int', 'readonly', 'neg'])
    replay(ctx, 'correlation', gs, j_corr)
    replay(ctx, 'real-valued', [dict(c, metric=rng.choice(['corr', 'align'])) for c in real_cases(ctx, ctx.pick(200, 2000))], j_sim_real)
