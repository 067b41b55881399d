"""C08-C10: kernel functions, against KernelFuncs.tla / KernelFuncCases.tla."""
import functools
import math
import warnings

import numpy as np

from kernelmethods import numeric_kernels as nk
from kernelmethods.base import KernelFromCallable
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.config import Chi2NegativeValuesException

from . import kernels
from .cases import Run, enumerate_cases, evaluate_cases, near, replay

ERR = {'ValueError': ValueError, 'TypeError': TypeError, 'Chi2NegativeValuesException': Chi2NegativeValuesException}
NAMES = sorted(kernels.CLASSES)
DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float16', 'float32', 'float64', 'bool']
FORMS = ['list', 'tuple', 'floats', 'nplist', 'col', 'col3', 'strided', 'rev', 'readonly', 'object', 'column'] + DTYPES


def fits(v, form):
    if form == 'bool':
        return all(a in (0, 1) for a in v)
    if form in DTYPES and not form.startswith('float'):
        i = np.iinfo(form)
        return all(i.min <= a <= i.max for a in v)
    if form == 'float16':
        return all(abs(a) <= 2048 for a in v)
    if form == 'float32':
        return all(abs(a) <= 2 ** 24 for a in v)
    return True


def shape_vec(v, form):
    """The same vector, in another guise."""
    f = np.array(v, dtype=float)
    if form == 'list':
        return list(v)
    if form == 'tuple':
        return tuple(v)
    if form == 'floats':
        return [float(a) for a in v]
    if form == 'nplist':
        return [np.int64(a) for a in v]
    if form == 'col':
        return f.reshape(-1, 1)
    if form == 'col3':
        return f.reshape(-1, 1, 1)
    if form == 'strided':
        b = np.full(3 * len(v) + 1, 99.5)
        b[:3 * len(v):3] = f
        return b[:3 * len(v):3]
    if form == 'rev':
        return f[::-1].copy()[::-1]
    if form == 'readonly':
        f.setflags(write=False)
        return f
    if form == 'object':
        return np.array([int(a) for a in v], dtype=object)
    if form == 'column':                       # column of a 2D Fortran/C array
        b = np.full((len(v), 3), -7.25)
        b[:, 1] = f
        return b[:, 1]
    return np.array(v, dtype=form)


def evaluate(t):
    """A term of KernelFuncs.tla as a float."""
    k = t['t']
    if k == 'int':
        return float(t['v'])
    if k == 'pow':
        return (t['num'] / t['den']) ** t['deg']
    if k == 'exp':
        return math.exp(-t['num'] / t['den'])
    if k == 'tanh':
        return math.tanh(t['num'] / t['den'])
    s = math.fsum(a / b for a, b in t['terms'])
    if k == 'sum':
        return s
    if k == 'expsum':
        return math.exp(-t['num'] / t['den'] * s)
    raise KeyError(k)


def real_params(k, p):
    return {n: (v if n in ('degree', 'alpha') else v / 4) for n, v in p.items() if n != 'none'}


def scalar(v):
    return np.ndim(v) == 0 and isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool)


def decorate(ctx, gs, skip=True):
    for g in gs:
        c = g['c']
        c['fx'] = ctx.rng.choice([f for f in FORMS if fits(c['x'], f)])
        c['fy'] = ctx.rng.choice([f for f in FORMS if fits(c['y'], f)]) if ctx.rng.random() < .7 else \
            (c['fx'] if fits(c['y'], c['fx']) else 'list')
    return gs


def same(got, want, scale=0.0):
    return near(got, want, 1e-9, 1e-300 + 1e-12 * scale)


def j_num(g):
    c, e = g['c'], g['e']
    p = real_params(c['k'], c['p'])
    kf = kernels.build({'name': c['k'], 'params': p})
    kskip = kernels.build({'name': c['k'], 'params': dict(p, skip_input_checks=True)})
    x, y = shape_vec(c['x'], c['fx']), shape_vec(c['y'], c['fy'])
    fx, fy = np.array(c['x'], dtype=float), np.array(c['y'], dtype=float)
    runs = [('k(x,y)', Run(kf, x, y)), ('k(y,x)', Run(kf, y, x)), ('k(x,y) again', Run(kf, x, y)),
            ('skip_input_checks', Run(kskip, fx, fy)), ('skip_input_checks, swapped', Run(kskip, fy, fx))]
    want = None
    if e['out'] == 'ok':
        want = evaluate(e['term'])
        sc = 1.0
        if e['term']['t'] == 'int':                       # cancellation in sums of products
            sc = sum(abs(a * b) for a, b in zip(c['x'], c['y']))
        elif e['term']['t'] == 'pow':
            sc = 0.0
        elif e['term']['t'] in ('exp', 'expsum'):
            sc = 0.0
    for what, r in runs:
        if want is None:
            if not r.raised(ERR[e['out']]):
                return '%s(%r): %s of %r (%s), %r (%s): %r, expected %s' % (c['k'], p, what, c['x'], c['fx'], c['y'], c['fy'], r, e['out'])
        elif r.exc is not None or not scalar(r.val) or not same(r.val, want, sc):
            return '%s(%r): %s of %r (%s), %r (%s): %r, expected %r' % (c['k'], p, what, c['x'], c['fx'], c['y'], c['fy'], r, want)


def random_cases(ctx, count):
    rng, out = ctx.rng, []
    for i in range(count):
        k = rng.choice(NAMES)
        d = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 100])
        lim = rng.choice([1, 3, 10, 100, 127])
        lo = 0 if k == 'chi2' and rng.random() < .9 else -lim
        sparse = rng.choice([0, 0, .3, .8])
        x, y = [[0 if rng.random() < sparse else rng.randint(lo, lim) for _ in range(d)] for _ in range(2)]
        if rng.random() < .08:
            y = list(x)
        p = {'linear': lambda: {'none': 0},
             'poly': lambda: {'degree': rng.choice([1, 2, 3, 4, 5]), 'gamma': rng.choice([4, 1, 2, -3, 0]), 'b': rng.choice([4, 0, -6, 12])},
             'gaussian': lambda: {'sigma': rng.choice([1, 2, 4, 8, 40, 400, 2000])},
             'laplacian': lambda: {'gamma': rng.choice([4, 1, 0, 8])},
             'chi2': lambda: {'gamma': rng.choice([4, 1, 0, 6])},
             'sigmoid': lambda: {'gamma': rng.choice([4, 1, -2, 0]), 'offset': rng.choice([4, 0, -8, 1])},
             'hadamard': lambda: {'alpha': rng.choice([1, 2]) if lim > 10 else rng.choice([1, 2, 3])}}[k]()
        out.append({'op': 'num', 'k': k, 'p': p, 'x': x, 'y': y})
    return out


# -------------------------------------------------------------------------------------------------- beyond TLC's range
BIG = [('int8', 127), ('int16', 2 ** 15 - 1), ('int32', 2 ** 31 - 1), ('int64', 2 ** 52), ('uint8', 255), ('uint16', 2 ** 16 - 1),
       ('uint32', 2 ** 32 - 1), ('uint64', 2 ** 52), ('float16', 2048), ('float32', 2 ** 24), ('float64', 1e6), ('float64', 1e-6),
       ('float64', 1.0)]
REALP = {'linear': [{}], 'poly': [{}, {'degree': 2, 'gamma': .37, 'b': -1.5}, {'degree': 5, 'gamma': .01, 'b': 0}, {'degree': 1}],
         'gaussian': [{}, {'sigma': .3}, {'sigma': 7.1}, {'sigma': 1e4}], 'laplacian': [{}, {'gamma': .01}, {'gamma': 3.3}],
         'chi2': [{}, {'gamma': .05}], 'sigmoid': [{}, {'gamma': .013, 'offset': -.4}, {'gamma': -.2, 'offset': 0}],
         'hadamard': [{}, {'alpha': 1}, {'alpha': 2}, {'alpha': .5}, {'alpha': 2.5}]}


def big_cases(ctx, count):
    rng = ctx.rng
    return [{'k': rng.choice(NAMES), 'd': rng.choice([1, 2, 3, 5, 16, 64, 200]), 't': rng.randrange(len(BIG)), 'u': rng.choice([None, rng.randrange(len(BIG))]),
             'i': rng.random(), 'seed': rng.randrange(10 ** 6), 'pi': rng.randrange(60)} for _ in range(count)]


def j_big(c):
    p = REALP[c['k']][c['pi'] % len(REALP[c['k']])]
    rs = np.random.RandomState(c['seed'])

    def vec(ti, base=None):
        t, lim = BIG[ti]
        v = rs.uniform(-1, 1, c['d']) * lim
        if base is not None and c['i'] < .5:
            v = base.astype(float) + v * 1e-3
        if c['k'] == 'chi2' or t.startswith('uint'):
            v = np.abs(v)
        if t in ('float64', 'float32', 'float16'):
            return np.clip(v, -65000, 65000).astype(t) if t == 'float16' else v.astype(t)
        i = np.iinfo(t)
        return np.clip(np.rint(v), float(i.min), min(float(i.max), 2.0 ** 53)).astype(t)
    x = vec(c['t'])
    y = vec(c['t'] if c['u'] is None else c['u'], x)
    kf = kernels.build({'name': c['k'], 'params': p})
    try:
        want = kernels.reference({'name': c['k'], 'params': p}, x.tolist(), y.tolist())
    except OverflowError:
        return None
    xf, yf = x.astype(float), y.astype(float)
    dot_scale = float(np.sum(np.abs(xf * yf)))
    for what, r in (('k(x,y)', Run(kf, x, y)), ('k(y,x)', Run(kf, y, x)), ('lists', Run(kf, x.tolist(), y.tolist())),
                    ('skip', Run(kernels.build({'name': c['k'], 'params': dict(p, skip_input_checks=True)}), xf, yf))):
        if r.exc is not None or not scalar(r.val):
            return '%s(%r): %s of %s and %s: %r' % (c['k'], p, what, x.dtype, y.dtype, r)
        got = float(r.val)
        if c['k'] == 'linear':
            ok = near(got, want, 1e-9, 1e-12 * dot_scale)
        elif c['k'] == 'poly':
            d = p.get('degree', 3)
            b = abs(p.get('b', 1.0)) + abs(p.get('gamma', 1.0)) * dot_scale
            ok = near(got, want, 1e-8, 1e-11 * b ** d)
        elif c['k'] == 'sigmoid':
            ok = near(got, want, 1e-8, 1e-10 + min(1, 1e-12 * dot_scale))
        elif c['k'] == 'hadamard':
            ok = near(got, want, 1e-8)
        else:
            ok = near(got, want, 1e-7, 1e-300)
        if not ok:
            return '%s(%r): %s of %s and %s vectors of length %d: %r, expected %r' % (c['k'], p, what, x.dtype, y.dtype, c['d'], got, want)


def c08(ctx):
    gs = decorate(ctx, enumerate_cases(ctx, 'KernelFuncCases', {'Ops': '{"num"}', 'MaxDim': ctx.pick('2', '3'), 'Neg': ctx.pick('2', '1')}, 'num'))
    replay(ctx, 'enumerated', gs, j_num)
    gs = decorate(ctx, evaluate_cases(ctx, 'KernelFuncCases', random_cases(ctx, ctx.pick(2500, 20000))))
    replay(ctx, 'random', gs, j_num)
    replay(ctx, 'beyond-32-bit-and-real', big_cases(ctx, ctx.pick(3000, 60000)), j_big)


# -------------------------------------------------------------------------------------------------- C09
class Opaque:
    pass


def make_input(d, form):
    """An input of the described shape and element kind."""
    n = int(np.prod(d['shape'])) if d['shape'] else 1
    e = d['elem']
    el = {'num': [1.5, 2.0, 3.0, 4.0], 'numstr': ['1.5', '2', '3e0', '4'], 'bool': [True, False, True, True],
          'objnum': [1, 2.5, 3, 4], 'badstr': ['x', 'y', 'z', '1'], 'dict': [{}, {'a': 1}, {}, {}],
          'bytes': [b'x', b'yz', b'', b'1']}[e]
    vals = [el[i % 4] for i in range(n)]
    dt = object if e in ('objnum', 'dict') else None
    a = np.empty(n, dtype=object) if dt is object else None
    if a is not None:
        for i, v in enumerate(vals):
            a[i] = v
    else:
        a = np.array(vals)
    a = a.reshape(tuple(d['shape']))
    if form == 'list' and d['shape']:
        return a.tolist()
    return a


def j_input(g):
    c, e = g['c'], g['e']
    for form in ('array', 'list'):
        for cls in (0, 1):
            kf = kernels.build({'name': c['k'], 'params': {'skip_input_checks': False} if cls else {}})
            x, y = make_input(c['dx'], form), make_input(c['dy'], 'array' if cls else form)
            for what, r in (('', Run(kf, x, y)), (' (swapped)', Run(kf, y, x))):
                if e['out'] == 'ok':
                    if r.exc is not None or not scalar(r.val):
                        return '%s kernel of valid inputs %r, %r%s: %r' % (c['k'], c['dx'], c['dy'], what, r)
                elif not r.raised(ValueError):
                    return '%s kernel of invalid inputs %r, %r%s: %r' % (c['k'], c['dx'], c['dy'], what, r)


ODD = [('set', {1.0, 2.0}), ('str', 'abc'), ('numstr', '3'), ('int', 3), ('float', 2.5), ('ragged', [[1, 2], [3]]),
       ('ragged2', [1, [2, 3]]), ('opaque', Opaque()), ('opaques', [Opaque(), Opaque()]), ('dict', {'a': 1}), ('nested', [[1.0, 2.0], [3.0, 4.0]]),
       ('fn', len), ('lists', [[1], [2], ['x']]), ('matrix', np.eye(2)), ('3d', np.ones((2, 2, 2))), ('gen', (i for i in range(3)))]


def j_odd(c):
    kf = kernels.build({'name': c['k']})
    bad, good = dict(ODD)[c['what']], [1.0, 2.0]
    for a, b in ((bad, good), (good, bad), (bad, bad)):
        r = Run(kf, a, b)
        if not r.raised(ValueError):
            return '%s kernel of a %s: %r instead of ValueError' % (c['k'], c['what'], r)


def j_neg(c):
    """chi2 and negative values, anywhere, in any guise."""
    v = [0.0 if i % 3 == 0 else float(i) for i in range(c['d'])]
    w = list(v)
    w[c['at']] = c['neg']
    w = shape_vec([int(a) for a in w], c['form']) if c['neg'] == int(c['neg']) else np.array(w)
    kf = nk.Chi2Kernel(gamma=c['gamma'], skip_input_checks=c['skip'])
    if c['skip']:
        w, v = np.array(w, dtype=float).ravel(), np.array(v)
    for a, b in ((w, v), (v, w), (w, w)):
        r = Run(kf, a, b)
        if not r.raised(Chi2NegativeValuesException):
            return 'chi2 kernel with %r at %d: %r' % (c['neg'], c['at'], r)


def j_alpha(c):
    a = c['alpha']
    a = {'int': int, 'float': float, 'np': np.float64, 'npint': np.int64, 'f32': np.float32, 'neg': lambda v: -float(v)}[c['as']](a)
    for skip in (True, False):
        r = Run(nk.HadamardKernel, alpha=a, skip_input_checks=skip)
        if c['alpha'] == 0 and not r.raised(ValueError):
            return 'HadamardKernel(alpha=%r): %r' % (a, r)
        if c['alpha'] > 0 and c['as'] != 'neg' and (r.exc is not None or r.val.alpha != a):
            return 'HadamardKernel(alpha=%r): %r' % (a, r)


LOG = []


def f0():
    return 1


def f1(x):
    return 1


def f2(x, y):
    LOG.append((x, y, {}))
    return RESULT[0]


def f3(x, y, z=None):
    LOG.append((x, y, {'z': z}))
    return RESULT[0]


def f4(x, y, z=None, w=7):
    LOG.append((x, y, {'z': z, 'w': w}))
    return RESULT[0]


RESULT = [None]


class Callee:
    def __call__(self, x, y):
        LOG.append((x, y, {}))
        return RESULT[0]

    def meth(self, x, y):
        LOG.append((x, y, {}))
        return RESULT[0]

    def meth1(self, x):
        return 1

    def meth3(self, x, y, z=None):
        LOG.append((x, y, {'z': z}))
        return RESULT[0]


class Callee1:
    def __call__(self, x):
        return 1


def callables(n):
    return {0: [f0, lambda: 1], 1: [f1, lambda x: 1, Callee1(), Callee().meth1, functools.partial(f2, 1)],
            2: [f2, Callee(), Callee().meth, functools.partial(lambda q, x, y: f2(x, y), 0), lambda x, y: f2(x, y)],
            3: [f3, Callee().meth3, lambda x, y, z=None: f3(x, y, z)], 4: [f4]}[n]


NOT_CALLABLE = [None, 3, 'linear', [f2], {'f': f2}, np.eye(2), (f2, f2), 1.5, object()]


def j_callable(g):
    c, e = g['c'], g['e']
    fs = callables(c['n']) if c['callable'] else NOT_CALLABLE
    for f in fs:
        for kw in ({}, {'name': 'mine'}):
            r = Run(KernelFromCallable, f, **kw)
            if e['out'] == 'ok':
                if r.exc is not None:
                    return 'KernelFromCallable(%r): %r' % (f, r)
            elif not r.raised(TypeError):
                return 'KernelFromCallable(%r): %r instead of TypeError' % (f, r)


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and bool(np.all(a == b))
    return type(a) is type(b) and a == b


def j_forward(c):
    rs = np.random.RandomState(c['seed'])
    things = [[1, 2, 3], (1.5, 2), 'abc', rs.randn(3), rs.randint(0, 5, (2, 2)), np.array(['a', 'b']), Opaque(), {'g': 1}, None, 5, np.float32(2.5), []]
    x, y = things[rs.randint(len(things))], things[rs.randint(len(things))]
    RESULT[0] = things[rs.randint(len(things))] if rs.rand() < .3 else rs.randn()
    pick = rs.randint(4)
    params = {}
    if pick >= 2:
        if rs.rand() < .8:
            params['z'] = things[rs.randint(len(things))]
        if pick == 3 and rs.rand() < .8:
            params['w'] = things[rs.randint(len(things))]
    f = [f2, Callee().meth, f3, f4][pick]
    k = KernelFromCallable(f, **params)
    want_p = {**({'z': None} if pick >= 2 else {}), **({'w': 7} if pick == 3 else {}), **params}
    for _ in range(2):                          # the same on every call
        del LOG[:]
        r = Run(k, x, y)
        if r.exc is not None:
            return 'wrapped callable: unexpected %r' % r
        if len(LOG) != 1:
            return 'wrapped callable called %d times' % len(LOG)
        gx, gy, gp = LOG[0]
        if not eq(gx, x) or not eq(gy, y):
            return 'wrapped callable got %r, %r instead of %r, %r' % (gx, gy, x, y)
        if set(gp) != set(want_p) or not all(eq(gp[n], want_p[n]) for n in gp):
            return 'wrapped callable got parameters %r instead of %r' % (gp, want_p)
        if not eq(r.val, RESULT[0]):
            return 'wrapped callable: result %r instead of %r' % (r.val, RESULT[0])


def c09(ctx):
    gs = enumerate_cases(ctx, 'KernelFuncCases', {'Ops': '{"input"}'}, 'input')
    if not ctx.thorough:
        gs = [g for g in gs if g['e']['out'] == 'ok' or ctx.rng.random() < .5]
    replay(ctx, 'inputs', gs, j_input)
    replay(ctx, 'odd-inputs', [{'k': k, 'what': w} for k in NAMES for w, _ in ODD], j_odd)
    gs = enumerate_cases(ctx, 'KernelFuncCases', {'Ops': '{"callable"}'}, 'callable')
    replay(ctx, 'callables', gs, j_callable)
    rng = ctx.rng
    replay(ctx, 'forwarding', [{'seed': rng.randrange(10 ** 6)} for _ in range(ctx.pick(1500, 20000))], j_forward)
    # unequal lengths of many sizes, chi2 with negative values, from the specification
    cs = []
    for i in range(ctx.pick(700, 6000)):
        k = rng.choice(NAMES)
        a, b = rng.choice([(1, 2), (3, 2), (5, 4), (1, 7), (30, 31), (2, 4), (6, 3), (16, 1), (0, 1), (0, 2), (0, 5)])
        if rng.random() < .5:
            a, b = b, a
        p = {'linear': {'none': 0}, 'poly': {'degree': 2, 'gamma': 4, 'b': 4}, 'gaussian': {'sigma': 8}, 'laplacian': {'gamma': 4},
             'chi2': {'gamma': 4}, 'sigmoid': {'gamma': 4, 'offset': 4}, 'hadamard': {'alpha': 1}}[k]
        cs.append({'op': 'num', 'k': k, 'p': p, 'x': [rng.randint(0, 9) for _ in range(a)], 'y': [rng.randint(0, 9) for _ in range(b)]})
    gs = decorate(ctx, evaluate_cases(ctx, 'KernelFuncCases', cs, label='lengths'))
    for g in gs:
        g['c']['fx'] = g['c']['fx'] if g['c']['fx'] != 'nplist' else 'list'

    def j_len(g):
        c = g['c']
        kf = kernels.build({'name': c['k'], 'params': real_params(c['k'], c['p'])})
        for a, b in ((shape_vec(c['x'], c['fx']), shape_vec(c['y'], c['fy'])),) * 1:
            for r in (Run(kf, a, b), Run(kf, b, a)):
                if not r.raised(ERR[g['e']['out']]):
                    return '%s kernel on vectors of length %d (%s) and %d (%s): %r' % (c['k'], len(c['x']), c['fx'], len(c['y']), c['fy'], r)
    replay(ctx, 'lengths', gs, j_len)
    negs = [{'d': d, 'at': at, 'neg': neg, 'skip': skip, 'gamma': ga, 'form': form}
            for d in (1, 2, 3, 8) for at in range(d) for neg in (-1, -3, -1e-12, -.5, -1e300) for skip in (False, True)
            for ga in (1.0, 0.0) for form in ('list', 'int8', 'int64', 'float32', 'strided', 'tuple')
            if not (neg != int(neg) and form != 'list') and not (abs(neg) > 100 and form != 'list')]
    replay(ctx, 'chi2-negative', negs, j_neg)
    replay(ctx, 'hadamard-alpha', [{'alpha': a, 'as': t} for a in (0, 1, 2, 3) for t in ('int', 'float', 'np', 'npint', 'f32', 'neg')], j_alpha)


# -------------------------------------------------------------------------------------------------- C10
def cat(v, form):
    if form == 'list':
        return list(v)
    if form == 'tuple':
        return tuple(v)
    a = np.array(v, dtype=str)
    if form == 'wide':
        return a.astype('<U40')
    if form == 'strided':
        b = np.array([''] * (2 * len(v)), dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if form == 'rev':
        return a[::-1].copy()[::-1]
    if form == 'readonly':
        a.setflags(write=False)
    if form == 'npstr':
        return [np.str_(x) for x in v]
    return a


CATFORMS = ['list', 'tuple', 'array', 'wide', 'strided', 'rev', 'readonly', 'npstr']


def j_match(g):
    c, e = g['c'], g['e']
    kf = MatchCountKernel(return_perc=c['perc'], skip_input_checks=c['skip'])
    x, y = cat(c['x'], c['fx']), cat(c['y'], c['fy'])
    for what, r in (('k(x,y)', Run(kf, x, y)), ('k(y,x)', Run(kf, y, x))):
        if e['out'] != 'ok':
            if not r.raised(ValueError):
                return '%s of lengths %d, %d: %r' % (what, len(c['x']), len(c['y']), r)
        else:
            want = e['num'] / e['den']
            if r.exc is not None or not scalar(r.val) or not near(r.val, want, 1e-12):
                return '%s (perc=%s) of %r (%s) and %r (%s): %r, expected %r' % (what, c['perc'], c['x'], c['fx'], c['y'], c['fy'], r, want)
    r = Run(kf, x, cat(c['x'], c['fx']))
    if r.exc is not None or not near(r.val, 1.0 if c['perc'] else len(c['x']), 1e-12):
        return 'k(x,x) of %r: %r' % (c['x'], r)


WORDS = ['a', 'b', 'A', 'ab', 'abc', '', ' ', 'a ', ' a', 'x\ty', 'é', 'e\u0301', '日本', '1', '1.0', 'nan', 'None', 'abcdefghijklmnopqrstuvwxyz', 'True']


def cat_decorate(ctx, gs):
    for g in gs:
        for f, v in (('fx', 'x'), ('fy', 'y')):
            g['c'][f] = ctx.rng.choice(CATFORMS if len(g['c'][v]) > 1 else ['array', 'wide', 'strided', 'rev', 'readonly'])
    return gs


def j_nonstring(c):
    kf = MatchCountKernel(return_perc=c['perc'], skip_input_checks=c['skip'])
    good = np.array(['1', '2', '1'])
    bad = {'ints': [1, 2, 1], 'floats': [1.0, 2.0, 1.0], 'int array': np.array([1, 2, 1]), 'float array': np.array([1., 2., 1.]),
           'bool': np.array([True, False, True]), 'bools': [True, False, True], 'bytes': np.array([b'1', b'2', b'1']),
           'bytes list': [b'1', b'2', b'1'], 'objects': np.array([1, 2, 1], dtype=object), 'object instances': np.array([Opaque(), Opaque(), Opaque()]),
           'tuple': (1, 2, 1), 'uint8': np.array([1, 2, 1], dtype=np.uint8), 'float32': np.array([1, 2, 1], dtype=np.float32)}[c['what']]
    pairs = {'both': (bad, bad), 'first': (bad, good), 'second': (good, bad)}
    r = Run(kf, *pairs[c['where']])
    if not r.raised(TypeError):
        return 'match-count kernel of %s (%s): %r instead of TypeError' % (c['what'], c['where'], r)


def c10(ctx):
    gs = cat_decorate(ctx, enumerate_cases(ctx, 'KernelFuncCases', {'Ops': '{"match"}'}, 'match'))
    replay(ctx, 'enumerated', gs, j_match)
    rng, cs = ctx.rng, []
    for i in range(ctx.pick(1500, 12000)):
        d = rng.choice([1, 2, 3, 5, 7, 10, 33, 100, 257, 300])
        ws = rng.sample(WORDS, rng.randint(1, len(WORDS)))
        x = [rng.choice(ws) for _ in range(d)]
        y = [a if rng.random() < .4 else rng.choice(ws) for a in x]
        if rng.random() < .1:
            y = y[:-1] or y + ['a']
        cs.append({'op': 'match', 'x': x, 'y': y, 'perc': rng.random() < .5, 'skip': rng.random() < .5})
    ids = {w: 'w%d' % i for i, w in enumerate(WORDS)}         # TLC only compares: identities of categories
    gs = evaluate_cases(ctx, 'KernelFuncCases', [dict(c, x=[ids[a] for a in c['x']], y=[ids[a] for a in c['y']]) for c in cs])
    for g, c in zip(gs, cs):
        g['c'].update(x=c['x'], y=c['y'])
    replay(ctx, 'random', cat_decorate(ctx, gs), j_match)
    whats = ['ints', 'floats', 'int array', 'float array', 'bool', 'bools', 'bytes', 'bytes list', 'objects', 'object instances', 'tuple', 'uint8', 'float32']
    replay(ctx, 'non-string', [{'what': w, 'where': h, 'perc': p, 'skip': s} for w in whats for h in ('both', 'first', 'second')
                               for p in (True, False) for s in (True, False)], j_nonstring)
