"""C28: invalid data are rejected by the estimators, against Estimators.tla (BadFit, LateFit, BadPredict)."""
import copy
import warnings

import numpy as np
import scipy.sparse

from . import estim, tlc
from .cases import Run, replay

FIT = ('nanX', 'infX', 'neginfX', 'short_y', 'long_y', 'oneD', 'threeD', 'norows', 'nocols', 'nany', 'y2d', 'textX', 'noy', 'complexX', 'sparseX', 'ragged', 'scalarX')
LATE = ('oneclass', 'short_w', 'long_w', 'w2d', 'text_w', 'zero_w', 'negative_w', 'one_row_y')
TEST = ('nanX', 'infX', 'neginfX', 'narrow', 'wide', 'oneD', 'threeD', 'norows', 'nocols', 'noX', 'textX', 'complexX', 'sparseX', 'scalarX')


def spoil(A, kind, how):
    """A, made invalid."""
    A = np.array(A, dtype=float)
    i, j = how * 7 % A.shape[0], how * 5 % A.shape[1]
    v = {'nanX': np.nan, 'infX': np.inf, 'neginfX': -np.inf}.get(kind)
    if v is not None:
        A[i, j] = v
        return A.tolist() if how % 3 == 0 else A
    return {'oneD': lambda: A[:, 0], 'threeD': lambda: A[:, :, None], 'norows': lambda: A[:0], 'nocols': lambda: A[:, :0],
            'textX': lambda: np.array([['a%d' % (r % 3)] * A.shape[1] for r in range(len(A))]), 'noX': lambda: None,
            'complexX': lambda: A + 1j, 'sparseX': lambda: scipy.sparse.csr_matrix(A), 'ragged': lambda: A.tolist()[:-1] + [A[-1].tolist() + [1.]],
            'scalarX': lambda: 3.5, 'narrow': lambda: A[:, :max(1, A.shape[1] - 1 - how % 2)] if A.shape[1] > 1 else A[:, :0],
            'wide': lambda: np.hstack([A] * (2 + how // 5 % 2))[:, :A.shape[1] + 1 + how % 5] if how % 4 else np.hstack([A, A])}.get(kind, lambda: A)()


def use(w, e, ev, how):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _use(w, e, ev, how)


def _use(w, e, ev, how):
    kind, form, reg = ev['kind'], w.scn['form'], w.scn['cls'] in estim.REG
    if ev['op'] == 'badpredict':
        T = spoil(w.ts[1 + how % 3], kind, how)
        r = Run(e.predict, T)
        if r.exc is None:
            return 'predict returned %r' % r
        if w.state[ev['s']] and not r.raised((ValueError, TypeError)):
            return 'predict raised %r instead of ValueError or TypeError' % r
        return None
    X, y = w.tr[ev['d']]
    X, y, wt = spoil(X, kind, how), np.array(y), None
    n = len(y)
    if kind == 'short_y':
        y = y[:-1]
    elif kind == 'long_y':
        y = np.append(y, y[:1])
    elif kind == 'nany':
        y = np.asarray(np.arange(n) % 2, dtype=float)
        y[how % n] = (np.nan, np.inf, -np.inf)[how % 3]
    elif kind == 'y2d':
        y = np.column_stack([y, y])
    elif kind == 'noy':
        y = None
    elif kind == 'one_row_y':
        wt = 2.5                                              # a number is no list of weights
    elif kind == 'oneclass':
        if reg:
            wt = np.ones(n - 1)
        y = np.array([y[0]] * n)
    elif kind.endswith('_w') or kind == 'w2d':
        wt = {'short_w': lambda: np.ones(n - 1), 'long_w': lambda: np.ones(n + 1), 'nan_w': lambda: np.where(np.arange(n) == how % n, np.nan, 1.),
              'inf_w': lambda: np.where(np.arange(n) == how % n, np.inf, 1.), 'w2d': lambda: np.ones((n, 2)),
              'text_w': lambda: ['a'] * n, 'zero_w': lambda: np.zeros(n), 'negative_w': lambda: -np.ones(n)}[kind]()
    r = Run(e.fit, X, y, **({} if wt is None else {'sample_weight': wt}))
    if r.exc is None:
        return 'fit accepted it'
    if ev['op'] == 'latefit':
        w.state[ev['s']] = False                              # what is left behind is not specified
    if ev['op'] == 'badfit' and not r.raised((ValueError, TypeError)):
        return 'fit raised %r instead of ValueError or TypeError' % r
    return None


def c28(ctx):
    q = lambda k: '{%s}' % ', '.join('"%s"' % x for x in k)
    ctx.model('Estimators/rejects', tlc.run('Estimators', {'BadFits': q(FIT), 'LateFits': q(LATE), 'BadTests': q(TEST), 'MaxLevel': ctx.pick('6', '100')}))
    scns, rng = [], ctx.rng

    def keep(h):
        """Ends with a rejected call, or with something observable after one."""
        ops = [e['op'] for e in h]
        return ops[-1] in ('badfit', 'latefit', 'badpredict') or (ops[-1] == 'predict' and any(o in ('badfit', 'badpredict', 'latefit') for o in ops))
    for names, classes in ((['normalized'], ('KernelMachine', 'KernelMachineRegressor')), (['C'], ('OptimalKernelSVC', 'OptimalKernelSVR'))):
        hs = estim.histories(ctx, names, 3, ctx.pick(500, 6000), ctx.pick(500, 5000), keep, weighted=False, tests=2, depth=9, bad=(FIT, LATE, TEST))
        for i, h in enumerate(hs):
            for cls in classes:
                if cls.startswith('Kernel'):
                    vals, fixed = {'normalized': rng.choice([[True, False], [False, True]])}, {'k_func': rng.choice(estim.KF[:-1])}
                else:
                    vals, fixed = {'C': [1.0, 10.0]}, {'method': 'align/corr', 'k_bucket': copy.deepcopy(rng.choice(estim.BUCKETS[:5]))}
                s = estim.tidy(estim.base_scenario(ctx, 'C28', cls, h, vals, fixed,
                                                   rng.choice(['int', 'pm', 'float'] + (['str'] if cls == 'KernelMachine' else []))))
                scns.append(s)
    replay(ctx, 'histories', scns, estim.run_scenario, parallel=True)
