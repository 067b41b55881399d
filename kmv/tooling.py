"""C27: the estimators inside scikit-learn's tools, against Estimators.tla (Tools)."""
import copy
import warnings

import joblib
import numpy as np
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from sklearn.metrics import accuracy_score, r2_score
from sklearn.model_selection import GridSearchCV, KFold, StratifiedKFold, cross_val_predict, cross_val_score, cross_validate
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import StandardScaler
from sklearn.utils import check_array
from sklearn.utils.validation import check_is_fitted

from . import estim, tlc
from .cases import Run, near, replay

KINDS = ('cvpredict', 'cvscore', 'grid', 'pipeline', 'score', 'isfitted')


def score(reg, y, p):
    return r2_score(y, p) if reg else accuracy_score(y, p)


def same(reg, got, want):
    if reg:
        return near(got, want, 1e-6, 1e-7 * (1 + np.abs(want).max()))
    return np.asarray(got).tolist() == np.asarray(want).tolist()


def use(w, e, ev, how):
    """Hands the estimator e to the tool and compares the outcome with its term."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _use(w, e, ev, how)


def _use(w, e, ev, how):
    reg = w.scn['cls'] in estim.REG
    kind, par, form = ev['kind'], ev['par'], w.scn['form']
    X, y = w.tr[ev['d']]
    Xs = check_array(estim.shown(X, form))
    if kind == 'isfitted':
        r = Run(check_is_fitted, e)
        fitted = w.state[ev['s']]
        if fitted and r.exc is not None:
            return 'scikit-learn takes the fitted estimator for unfitted: %r' % r
        if not fitted and not r.raised(NotFittedError):
            return 'scikit-learn takes the unfitted estimator for fitted'
        return None
    if kind == 'score':
        r = Run(e.score, estim.shown(X, form), y)
        ref = w.predicted(w.trained(ev['term']['f']), Xs)
        if r.exc is not None:
            return 'unexpected %r' % r
        if ref is not None and not near(r.val, score(reg, y, ref), 1e-6, 1e-7):
            return '%r, but the predictions score %r' % (r.val, score(reg, y, ref))
        return None
    k = 2 + how % 2
    cv = (KFold if reg else StratifiedKFold)(k, shuffle=True, random_state=how)
    splits = [(a, b) for a, b in cv.split(X, y)]
    A = estim.shown(X, form) if form != 'list' else Xs
    back = {'n_jobs': 2} if how % 6 == 5 else {}

    def folds(par):
        out = []
        for a, b in splits:
            # scikit-learn hands out A[a], whose layout in memory decides about rounding
            f = w.fitted(par, check_array(A[a]), y[a])
            out.append((b, w.predicted(f, check_array(A[b]))))
        return out
    with joblib.parallel_config('threading'):
        if kind == 'cvpredict':
            r = Run(cross_val_predict, e, A, y, cv=splits, **back)
            if r.exc is not None:
                return 'unexpected %r' % r
            for b, p in folds(par):
                if p is not None and not same(reg, r.val[b], p):
                    return 'rows %s: %r, but an estimator trained on the other rows predicts %r' % (b.tolist(), np.asarray(r.val)[b].tolist(), p.tolist())
        elif kind == 'cvscore':
            if how % 3 == 0:
                r = Run(lambda: cross_validate(e, A, y, cv=splits, **back)['test_score'])
            else:
                r = Run(cross_val_score, e, A, y, cv=splits, **back)
            if r.exc is not None:
                return 'unexpected %r' % r
            for v, (b, p) in zip(r.val, folds(par)):
                if p is not None and not near(v, score(reg, y[b], p), 1e-6, 1e-7):
                    return 'fold %s scores %r, but an estimator trained on the other rows scores %r' % (b.tolist(), v, score(reg, y[b], p))
        elif kind == 'grid':
            n = sorted(par)[how % len(par)]
            r = Run(GridSearchCV(e, {n: list(w.own[n])}, cv=splits, error_score='raise', **back).fit, A, y)
            if r.exc is not None:
                return 'unexpected %r' % r
            means = []
            for v in range(len(w.own[n])):
                fs = folds(dict(par, **{n: v + 1}))
                if any(p is None for _, p in fs):
                    return None
                means.append(float(np.mean([score(reg, y[b], p) for b, p in fs])))
            if not near(r.val.cv_results_['mean_test_score'], means, 1e-6, 1e-7):
                return 'grid over %s scores %r, expected %r' % (n, r.val.cv_results_['mean_test_score'].tolist(), means)
            if abs(means[0] - means[1]) < 1e-6 and means[0] != means[1]:
                return None
            best = int(np.argmax(means))
            T = w.ts[1]
            want = w.predicted(w.fitted(dict(par, **{n: best + 1}), check_array(A), y), estim.plain(T, form))
            got = Run(r.val.predict, estim.shown(T, form))
            if want is not None and (got.exc is not None or not same(reg, got.val, want)):
                return 'after the search over %s predictions are %r, expected %r' % (n, got, want.tolist())
        elif kind == 'pipeline':
            if form == 'f32' or form == 'int':
                A = np.asarray(A, dtype=float)
            pipe = make_pipeline(StandardScaler(), clone(e)) if how % 2 else Pipeline([('scale', StandardScaler()), ('svm', clone(e))])
            r = Run(pipe.fit, A, y)
            if r.exc is not None:
                return 'unexpected %r' % r
            sc = StandardScaler().fit(A)
            T = w.ts[2]
            T = estim.plain(T, form) if form not in ('f32', 'int') else np.asarray(estim.plain(T, form), dtype=float)
            want = w.predicted(w.fitted(par, check_array(sc.transform(A)), y), check_array(sc.transform(T)))
            got = Run(pipe.predict, T)
            if got.exc is not None:
                return 'predict in a pipeline: %r' % got
            if want is not None and not same(reg, got.val, want):
                return 'in a pipeline: %r, expected %r' % (got, want.tolist())
    return None


def c27(ctx):
    ctx.model('Estimators/tools', tlc.run('Estimators', {'Tools': '{%s}' % ', '.join('"%s"' % k for k in KINDS), 'MaxLevel': ctx.pick('8', '100')}))
    scns, rng = [], ctx.rng
    used = lambda h: any(e['op'] == 'tool' for e in h)
    for names, classes in ((['k_func', 'normalized'], ('KernelMachine', 'KernelMachineRegressor')), (['k_bucket', 'C'], ('OptimalKernelSVC', 'OptimalKernelSVR'))):
        hs = estim.histories(ctx, names, ctx.pick(4, 5), ctx.pick(220, 3000), ctx.pick(110, 1500), used, weighted=False, tests=2, depth=8, tools=KINDS)
        for i, h in enumerate(hs):
            cls = classes[i % 2]
            if cls.startswith('Kernel'):
                vals, fixed = {'k_func': rng.sample(estim.KF[:-1], 2), 'normalized': rng.choice([[True, False], [False, True]])}, {}
            else:
                vals, fixed = {'k_bucket': copy.deepcopy(rng.sample(estim.BUCKETS[:5] + estim.BUCKETS[7:], 2)), 'C': [1.0, 10.0]}, {'method': 'align/corr'}
            s = estim.tidy(estim.base_scenario(ctx, 'C27', cls, h, vals, fixed,
                                               rng.choice(['int', 'pm', 'float'] + (['str'] if cls == 'KernelMachine' else []))))
            s['classes'] = 2
            scns.append(s)
    replay(ctx, 'histories', scns, estim.run_scenario, parallel=True)
