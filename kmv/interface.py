"""C30: argument order, defaults and public names, against Signatures.tla and Imports.tla."""
import contextlib
import io
import os
import subprocess
import sys

import numpy as np

from kernelmethods import algorithms as al
from kernelmethods import base as kb
from kernelmethods import categorical as ca
from kernelmethods import numeric_kernels as nk
from kernelmethods import operations as op
from kernelmethods import ranking as rk
from kernelmethods import sampling as sa

from . import tlc
from .cases import Run, near, replay

NUMERIC = ('HadamardKernel', 'PolyKernel', 'GaussianKernel', 'LaplacianKernel', 'Chi2Kernel', 'SigmoidKernel', 'LinearKernel')
ALT = {'HadamardKernel': {'alpha': 2}, 'PolyKernel': {'degree': 2, 'gamma': .5, 'b': .25}, 'GaussianKernel': {'sigma': .75}, 'LaplacianKernel': {'gamma': .3},
       'Chi2Kernel': {'gamma': .6}, 'SigmoidKernel': {'gamma': .15, 'offset': .05}, 'LinearKernel': {}}


def flat(v):
    """Something comparable."""
    if isinstance(v, np.ndarray):
        return ['array', list(v.shape), v.tolist()]
    if isinstance(v, (list, tuple)):
        return [flat(x) for x in v]
    if isinstance(v, dict):
        return {k: flat(x) for k, x in sorted(v.items())}
    if isinstance(v, (np.bool_, np.number)):
        return v.item()
    if isinstance(v, kb.BaseKernelFunction):
        return [type(v).__name__, str(v)]
    if isinstance(v, sa.KernelBucket):
        return [str(k.kernel) for k in v]
    return v


def equal(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return isinstance(a, (int, float)) and isinstance(b, (int, float)) and near(a, b, 1e-9)
    return type(a) is type(b) and a == b


def _lin(x, y, w=1.0):
    return w * float(np.dot(x, y)) + 2.0


def attached(X, *names):
    s = kb.KernelSet(name='mine')
    for k in (nk.GaussianKernel(1.), nk.PolyKernel(2), nk.LinearKernel()):
        s.append(kb.KernelMatrix(k, normalized=False))
    s.attach_to(X)
    return s


def target(f, seed):
    """(callable, required arguments, other values of the optional ones, observation of the result)."""
    rs = np.random.RandomState(seed)
    n, d = 4 + seed % 3, 2 + seed % 2
    X, Y = rs.uniform(.2, 1.5, (n, d)), rs.uniform(.2, 1.5, (n + 1, d))
    y = np.arange(n) % 2 * 2 - 1
    G = X @ X.T + .5 * np.eye(n)
    H = Y[:n] @ Y[:n].T + .5 * np.eye(n)
    c = rs.randint(0, 3, (n, 6)).astype(str)
    if f in NUMERIC:
        def see(k):
            out = [k(X[0], X[1]), k(X[1], X[1]), k(Y[0], X[2]), k.name]
            if not k.skip_input_checks if hasattr(k, 'skip_input_checks') else True:
                out += [k(X[0].tolist(), tuple(X[1])), Run(k, X[0], np.append(X[1], 1.)).raised(ValueError), Run(k, X, X).raised(ValueError)]
            return out
        return getattr(nk, f), (), dict(ALT[f], skip_input_checks=True), see
    if f == 'MatchCountKernel':
        return ca.MatchCountKernel, (), {'return_perc': False, 'skip_input_checks': True}, lambda k: [k(c[0], c[1]), k(c[2], c[2]), k.name, Run(k, c[0].tolist(), c[1].tolist()).out]
    if f == 'KernelFromCallable':
        return kb.KernelFromCallable, (_lin,), {'name': 'other'}, lambda k: [k(X[0], X[1]), k.name, str(k)]
    if f == 'KernelMatrix':
        def see(k):
            k.attach_to(X)
            return [k.name, k.full, k[0, 1], k.diagonal()]
        return kb.KernelMatrix, (nk.PolyKernel(2),), {'normalized': False, 'name': 'other'}, see
    if f == 'KernelMatrix_attach_to':
        k = kb.KernelMatrix(nk.GaussianKernel(1.), normalized=bool(seed % 2), name='mine')
        return k.attach_to, (X,), {'name_one': 'first', 'sample_two': Y, 'name_two': 'second'}, lambda _: [k.full, k.shape, k.num_samples, str(k)]
    if f == 'KernelMatrix_get_attr':
        k = kb.KernelMatrix(nk.LinearKernel())
        k.set_attr('there', 5)
        return k.get_attr, (('there', 'not')[seed % 2],), {'value_if_not_found': 'missing'}, lambda v: v
    if f == 'KernelMatrix_normalize':
        k = kb.KernelMatrix(nk.PolyKernel(2), normalized=bool(seed % 2))
        k.attach_to(X)
        return k.normalize, (), {'method': ('cosine', 'Cosine')[seed % 2]}, lambda _: [k.normed_km]
    if f == 'KernelMatrixPrecomputed':
        return kb.KernelMatrixPrecomputed, (G,), {'name': 'other'}, lambda k: [k.full, k.name, k.size, k[0, 1]]
    if f == 'ConstantKernelMatrix':
        return kb.ConstantKernelMatrix, (n,), {'value': 3, 'name': 'other', 'dtype': 'int'}, lambda k: [k.full, str(k.full.dtype), k.name, k.size, k[0, 1]]
    if f == 'KernelSet':
        ks = [kb.KernelMatrixPrecomputed(G, name='g'), kb.KernelMatrixPrecomputed(H, name='h')]
        return kb.KernelSet, (), {'km_list': ks, 'name': 'other', 'num_samples': n}, \
            lambda s: [s.name, s.size, s.num_samples, [k.name for k in s], Run(s.append, kb.KernelMatrixPrecomputed(np.eye(n + 1))).out]
    if f == 'KernelSet_take':
        return attached(X).take, ([2, 0],), {'name': 'other'}, lambda s: [s.name, s.size, [str(k.kernel) for k in s]]
    if f == 'KernelSet_attach_to':
        s = kb.KernelSet(name='mine')
        for k in (nk.GaussianKernel(1.), nk.LinearKernel()):
            s.append(kb.KernelMatrix(k, normalized=False))
        return s.attach_to, (X,), {'name': 'first', 'attr_name': 'color', 'attr_value': 'blue'}, \
            lambda _: [s.num_samples, [k.full for k in s], [str(k) for k in s], [k.attributes() for k in s]]
    if f == 'KernelSet_get_attr':
        s = attached(X)
        s.set_attr('there', [3, 1, 2])
        return s.get_attr, (('there', 'not')[seed % 2],), {'value_if_not_found': 'missing'}, lambda v: v
    if f in ('SumKernel', 'ProductKernel', 'AverageKernel', 'WeightedAverageKernel'):
        def see(k):
            k.fit()
            return [k.name, k.full]
        return getattr(kb, f), (attached(X),) + ((np.array([1., .5, .25]),) if f[0] == 'W' else ()), {'name': 'other'}, see
    if f in ('KernelBucket', 'make_kernel_bucket'):
        def see(b):
            b.attach_to(X[:2])
            return [b.name, b.size, [str(k.kernel) for k in b], [k.full for k in b], [k.kernel(X[0], X[1]) for k in b],
                    [Run(k.kernel, X[0].tolist(), X[1].tolist()).exc is None for k in b]]
        if f == 'KernelBucket':
            return sa.KernelBucket, (), {'poly_degree_values': (2,), 'rbf_sigma_values': (.7, 5), 'laplace_gamma_values': (.9,), 'sigmoid_gamma_values': (.4,),
                                         'sigmoid_offset_values': (.5,), 'name': 'other', 'normalize_kernels': False, 'skip_input_checks': True}, see
        return sa.make_kernel_bucket, (), {'strategy': 'light', 'normalize_kernels': False, 'skip_input_checks': True}, see
    if f == 'pairwise_similarity':
        return sa.pairwise_similarity, (attached(X),), {'metric': 'align' if seed % 2 == 0 else 'corr'}, lambda v: v
    if f in ('find_optimal_kernel', 'rank_kernels', 'CV_ranking'):
        Xb = np.vstack([rs.uniform(.2, 1., (6, 2)), rs.uniform(.6, 1.5, (6, 2))])
        t = np.array([-1] * 6 + [1] * 6)
        b = sa.KernelBucket(poly_degree_values=(2, 3), rbf_sigma_values=(.3, 1.), laplace_gamma_values=(.5,), sigmoid_gamma_values=None, sigmoid_offset_values=None)
        if f == 'find_optimal_kernel':
            return rk.find_optimal_kernel, (b, Xb, t), {'method': 'align/corr'}, lambda k: [str(k.kernel), k.full]
        b.attach_to(Xb)
        if f == 'rank_kernels':
            return rk.rank_kernels, (b, t), {'method': 'cv_risk'}, lambda v: np.asarray(v)
        return rk.CV_ranking, (b, t), {'num_folds': 2, 'estimator_name': 'SVR'}, lambda v: np.asarray(v)
    if f == 'get_estimator':
        return rk.get_estimator, (), {'learner_id': 'svr'}, lambda v: [type(v[0]).__name__, v[0].kernel, v[0].C, sorted(v[1])]
    if f in ('is_positive_semidefinite', 'is_PSD'):
        M = np.diag([1.0] * (n - 1) + [-(10.0 ** -(4 + seed % 6))])
        return getattr(op, f), (M,), {'tolerance': 1e-3, 'verbose': True}, bool
    if f == 'normalize_km':
        return op.normalize_km, (G,), {'method': 'COSINE'}, lambda v: v
    if f == 'normalize_km_2sample':
        return op.normalize_km_2sample, (X @ Y.T, np.diag(X @ X.T), np.diag(Y @ Y.T)), {'method': 'Cosine'}, lambda v: v
    if f == 'alignment_centered':
        A, B = (np.ones((n, n)), H) if seed % 3 == 0 else (G, H)
        return op.alignment_centered, (A, B), {'value_if_zero_division': -7.5, 'centered_already': True}, lambda v: v
    if f == 'linear_combination':
        return op.linear_combination, (attached(X), np.array([1., 2., 3.])), {'norm_weights': True}, lambda v: np.asarray(v)
    if f in ('KernelMachine', 'KernelMachineRegressor'):
        def see(e):
            p = e.get_params()
            return [p, e.fit(np.vstack([X, Y]), np.arange(2 * n + 1) % 2).predict(X)]
        return getattr(al, f), (), {'k_func': nk.PolyKernel(2), 'learner_id': 'svm' if f == 'KernelMachine' else 'svr', 'normalized': True}, see
    alt = {'k_bucket': 'light', 'method': 'align/corr', 'C': 5., 'epsilon': .02, 'shrinking': False, 'tol': 1e-5}
    return getattr(al, f), (), alt, lambda e: e.get_params()


def value(text):
    return eval(text, {'GaussianKernel': nk.GaussianKernel})


def observed(c, args, kw):
    fn, req, alt, see = target(c['f'], c['seed'])
    kw = {k: alt[k] if v is target else v for k, v in kw.items()}
    args = [alt[a] for a in args]
    with contextlib.redirect_stdout(io.StringIO()) as said:
        r = Run(fn, *req, *args, **kw)
    if r.exc is not None:
        return ['raised', type(r.exc).__name__]
    s = Run(see, r.val)
    if s.exc is not None:
        return ['observing it raised', repr(s)]
    return [flat(s.val), bool(said.getvalue())]


def j_call(x):
    """The call as made, and the same with every optional argument given by name."""
    c, full = x['c'], x['full']
    order = [p['n'] for p in full]
    if c['f'] == 'KernelMatrix_attach_to' and 'name_two' in [p['n'] for p in full if p['v'] == 'alt'] and \
            'sample_two' not in [p['n'] for p in full if p['v'] == 'alt']:
        return None                                           # a name for nothing
    c = dict(c, seed=x['seed'])
    got = observed(c, order[:c['p']], {k: target for k in c['k']})
    want = observed(c, [], {p['n']: target if p['v'] == 'alt' else value(p['v']) for p in full})
    if isinstance(want, list) and want and want[0] == 'observing it raised':
        return '%s with all arguments by name: %s' % (c['f'], want[1])
    if not equal(got, want):
        return '%s(%s): %s, but with all arguments by name and the published defaults %s' % (
            c['f'], ', '.join(['positional ' + a for a in order[:c['p']]] + ['%s=..' % k for k in c['k']]), str(got)[:200], str(want)[:200])


PROBE = r'''
import importlib, sys, warnings
warnings.simplefilter('ignore')
seen = {}
for m in sys.argv[1].split(','):
    if m == '*':
        ns = {}
        exec('from kernelmethods import *', ns)
        import kernelmethods
        for n in kernelmethods.__all__:
            if n not in ns:
                print('BAD from kernelmethods import * lacks', n)
    elif m.startswith('kernelmethods:'):
        n = m.split(':')[1]
        ns = {}
        exec('from kernelmethods import ' + n, ns)
        seen[n] = ns[n]
    else:
        importlib.import_module(m)
import kernelmethods
for n, mod in [x.split('=') for x in sys.argv[2].split(',')]:
    a = getattr(importlib.import_module('kernelmethods.' + mod), n)
    b = getattr(kernelmethods, n)
    if a is not b or (n in seen and seen[n] is not a):
        print('BAD', n, 'of the package is not that of', mod)
try:
    kernelmethods.NoSuchThing
    print('BAD: NoSuchThing found')
except AttributeError:
    pass
print('DONE')
'''


def j_import(c):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    repo = os.environ.get('KMV_REPO', '/repo')
    env['PYTHONPATH'] = repo + os.pathsep + env.get('PYTHONPATH', '')
    p = subprocess.run([sys.executable, '-c', PROBE, ','.join(c['steps']), ','.join('%s=%s' % (x['n'], x['m']) for x in c['names'])], env=env, cwd='/',
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    out = p.stdout.decode()
    if 'BAD' in out or 'DONE' not in out:
        return 'after importing %s: %s' % (', '.join(c['steps']), (out + p.stderr.decode())[-400:])


def c30(ctx):
    r = tlc.run('Signatures')
    ctx.model('Signatures', r)
    cases = sorted(r.tagged('GEN'), key=str)
    if len(cases) != r.distinct:
        raise tlc.MachineryError('Signatures: %d cases, %d states' % (len(cases), r.distinct))
    for x in cases:
        x['seed'] = ctx.rng.randrange(10 ** 6)
    more = []
    for x in cases:
        heavy = x['c']['f'] in ('KernelBucket', 'make_kernel_bucket', 'CV_ranking', 'find_optimal_kernel')
        for _ in range(ctx.pick(1 if heavy else 5, 5 if heavy else 60)):
            more.append(dict(x, seed=ctx.rng.randrange(10 ** 6)))
    replay(ctx, 'calls', cases + more, j_call, parallel=True)
    r = tlc.run('Imports', {'MaxSteps': ctx.pick('2', '3')})
    ctx.model('Imports', r)
    orders = sorted(r.tagged('GEN'), key=str)
    ctx.rng.shuffle(orders)
    orders = [o for o in orders if len(o['steps']) == 1] + [o for o in orders if len(o['steps']) > 1][:ctx.pick(24, 400)]
    replay(ctx, 'imports', orders, j_import, parallel=True)
