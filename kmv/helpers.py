"""C31: the helpers for kernel functions, against Helpers.tla."""
import functools

import numpy as np
import scipy.sparse as sp

from kernelmethods import utils as ut

from .cases import Run, enumerate_cases, evaluate_cases, near, replay


class Thing:
    def __repr__(self):
        return 'thing'


def content(s, elem, seed=0):
    """An object array / numeric array of a shape (-1: length zero)."""
    shape = tuple(max(x, 0) for x in s)
    rs = np.random.RandomState(seed % 10 ** 6)
    n = int(np.prod(shape)) if shape else 1
    v = rs.randint(-50, 50, n)
    if elem == 'int':
        a = v.astype([np.int64, np.int16, np.uint8][seed % 3] if (v >= 0).all() else [np.int64, np.int16, np.int32][seed % 3])
    elif elem == 'float':
        a = (v + rs.rand(n)).astype([np.float64, np.float64, np.float32][seed % 3])
    elif elem == 'bool':
        a = v > 0
    elif elem == 'numstr':
        a = np.array([str(x) for x in v], dtype='U8')
    elif elem == 'objnum':
        a = np.array([int(x) for x in v], dtype=object)
    elif elem == 'badstr':
        a = np.array([str(x) for x in v], dtype='U8')
        if n:
            a[[0, n - 1, n // 2][seed % 3]] = 'x1'
    else:
        a = np.array([float(x) for x in v], dtype=object)
        if n:
            a[[0, n - 1, n // 2][seed % 3]] = {'a': 1}
    return a.reshape(shape)


WANT = {'number': np.number, 'float64': np.float64, 'none': None}


def as_given(a, form):
    if form == 'list' and a.dtype.kind in 'ifUb' and a.dtype in (np.int64, np.float64, np.dtype('U8'), np.dtype(bool)) and a.size:
        return a.tolist()
    if form == 'tuple' and a.ndim == 1 and a.dtype in (np.int64, np.float64) and a.size:
        return tuple(a.tolist())
    if form == 'readonly':
        a = a.copy()
        a.setflags(write=False)
        return a
    if form == 'strided' and a.ndim and a.size:
        b = np.concatenate([a, a])[::1]
        b = np.repeat(a, 2, axis=0)[::2]
        return b
    return a


def empty_ok(s, elem):
    """What an array without elements holds is nobody's business."""
    return elem in ('badstr', 'dict') and any(x == -1 for x in s)


def shown_right(r, a, e):
    want = np.asarray(a).reshape(e['shape'])
    v = r.val
    if type(v) is not np.ndarray or v.shape != tuple(e['shape']):
        return 'returned %r for shape %s' % (v, a.shape)
    if e['type'] == 'same':
        return None if v.dtype == np.asarray(a).dtype and np.array_equal(v, want) else 'returned %r for %r' % (v, a)
    if v.dtype != np.float64 or not np.array_equal(v, want.astype(np.float64)):
        return 'returned %r for %r' % (v, a)


def j_vector(g):
    c, e = g['c'], g['e']
    if empty_ok(c['s'], c['elem']):
        return None
    a = content(c['s'], c['elem'], g['seed'])
    given, kept = as_given(a, g['form']), a.copy()
    kw = [{'ensure_dtype': WANT[c['want']]}, {} if c['want'] == 'number' else {'ensure_dtype': WANT[c['want']]}][g['seed'] % 2]
    if c['op'] == 'vector':
        r, name = Run(ut.ensure_ndarray_1D, given, **kw), 'ensure_ndarray_1D'
    else:
        if c['cols'] != -1:
            kw['ensure_num_cols'] = c['cols']
        r, name = Run(ut.ensure_ndarray_2D, given, **kw), 'ensure_ndarray_2D'
    if not (isinstance(given, (list, tuple)) or np.array_equal(a, kept)):
        return '%s changed its input' % name
    if e['out'] != 'ok':
        return None if r.raised(ValueError) else '%s(%s of %s): %r instead of ValueError' % (name, c['s'], c['elem'], r)
    if r.exc is not None:
        return '%s(%s of %s): %r' % (name, c['s'], c['elem'], r)
    bad = shown_right(r, np.asarray(given), e)
    return bad and '%s %s' % (name, bad)


def j_pair(g):
    c, e = g['c'], g['e']
    x, y = content(c['x']['s'], c['x']['elem'], g['seed']), content(c['y']['s'], c['y']['elem'], g['seed'] + 1)
    gx, gy = as_given(x, g['form']), as_given(y, g['form2'])
    kw = {} if c['want'] == 'number' and g['seed'] % 2 else {'ensure_dtype': WANT[c['want']]}
    r = Run(ut.check_input_arrays, gx, gy, **kw)
    if e['out'] != 'ok':
        return None if r.raised(ValueError) else 'check_input_arrays(%s, %s): %r instead of ValueError' % (c['x'], c['y'], r)
    if r.exc is not None or len(r.val) != 2:
        return 'check_input_arrays(%s, %s): %r' % (c['x'], c['y'], r)
    for v, given, ee in zip(r.val, (gx, gy), (e['x'], e['y'])):
        q = Run(lambda: v)
        bad = shown_right(q, np.asarray(given), ee)
        if bad:
            return 'check_input_arrays ' + bad


def j_scale(g):
    c, e = g['c'], g['e']
    q = np.array(c['q'], dtype=float) * g['k'] + g['shift']
    given = {'array': q, 'list': q.tolist(), 'tuple': tuple(q.tolist()), 'int': np.array(c['q'])}[g['form']]
    before = np.array(given)
    r = Run(ut.min_max_scale, given)
    want = np.array(e['num'], dtype=float) / e['den']
    if g['k'] < 0:
        want = want.max() - want
    if r.exc is not None or not near(r.val, want, 1e-9, 1e-6 if g['shift'] else 1e-12) or np.asarray(r.val).dtype.kind != 'f':
        return 'min_max_scale(%r): %r, expected %s' % (given, r, want.tolist())
    if not np.array_equal(np.array(given), before):
        return 'min_max_scale changed its input'


def j_finite(g):
    c, e = g['c'], g['e']
    rs = np.random.RandomState(g['seed'])
    A = np.array([[rs.randint(-9, 9) if x == 'num' else float(x) for x in r] for r in c['F']], dtype=float)
    if g['pad'] == 3:                                            # (numbers near the end of the range: finite all the same)
        A = np.where(np.isfinite(A), np.where(A < 0, -1.7e308, 1.7e308), A)
    elif g['pad']:                                               # somewhere in a larger matrix of numbers
        B = rs.randn(g['pad'] + A.shape[0], g['pad'] + A.shape[1]) * rs.choice([1.0, 1e300])
        i, j = rs.randint(g['pad'] + 1, size=2)
        B[i:i + A.shape[0], j:j + A.shape[1]] = A
        A = B
    forms = {'array': lambda: A, 'f': lambda: np.asfortranarray(A), 'csr': lambda: sp.csr_matrix(A), 'csc': lambda: sp.csc_matrix(A),
             'lil': lambda: sp.lil_matrix(A), 'coo': lambda: sp.coo_matrix(A), 'csra': lambda: sp.csr_array(A), 'flat': lambda: A.ravel(),
             'f32': lambda: np.where(np.isfinite(A), np.clip(A, -9, 9), A).astype(np.float32), 'dok': lambda: sp.dok_matrix(A)}
    r = Run(ut.contains_nan_inf, forms[g['form']]())
    if r.exc is not None or bool(r.val) != e['v'] or not isinstance(r.val, (bool, np.bool_)):
        return 'contains_nan_inf (%s) of %s: %r' % (g['form'], c['F'], r)


def j_sym(g):
    c, e = g['c'], g['e']
    A = np.array(c['A'], dtype=float)
    if g['pad']:
        rs = np.random.RandomState(g['seed'])
        n = len(A) + g['pad']
        B = rs.randn(n, n)
        B = B + B.T
        p = rs.permutation(n)[:len(A)]
        B[np.ix_(p, p)] = A
        A = B
    A = A * g['k'] if g['form'] != 'int' or g['pad'] else np.array(c['A'])
    r = Run(ut.not_symmetric, A)
    if r.exc is not None or bool(r.val) != e['v']:
        return 'not_symmetric of %s: %r' % (c['A'], r)


def function_of(n, how):
    names = ['x', 'y', 'z', 'u', 'v'][:n]
    env = {}
    body = 'return 0.0'
    if how == 'lambda':
        return eval('lambda %s: 0.0' % ', '.join(names))
    if how == 'defaults':
        names = [a + ('=1.0' if i >= 2 else '') for i, a in enumerate(names)]
    if how == 'keyword' and n > 2:
        names = names[:2] + ['*'] + names[2:]
    exec('def func(%s): %s' % (', '.join(names), body), env)
    if how == 'object':
        exec('class C:\n def __call__(self%s): return 0.0' % ''.join(', ' + a for a in names), env)
        return env['C']()
    if how == 'method':
        exec('class C:\n def f(self%s): return 0.0' % ''.join(', ' + a for a in names), env)
        return env['C']().f
    if how == 'static':
        exec('class C:\n @staticmethod\n def f(%s): return 0.0' % ', '.join(names), env)
        return env['C'].f
    if how == 'partial':
        exec('def func(%s): return 0.0' % ', '.join(['first'] + names), env)
        return functools.partial(env['func'], 1)
    return env['func']


NOT_CALLABLE = [None, 3, 'dot', [1, 2], Thing(), 2.5, {'a': 1}, np.ones(3)]


def j_callable(g):
    c, e = g['c'], g['e']
    f = function_of(c['n'], g['how']) if c['callable'] else NOT_CALLABLE[g['seed'] % len(NOT_CALLABLE)]
    kw = {} if c['min'] == 2 and g['seed'] % 2 else {'min_num_args': c['min']}
    r = Run(ut.check_callable, f, **kw)
    if e['out'] == 'ok':
        return None if r.exc is None and r.val is f else 'check_callable of a %s of %d parameters: %r' % (g['how'], c['n'], r)
    return None if r.raised(TypeError) else 'check_callable(%r) with %d parameters, %d required: %r' % (f, c['n'], c['min'], r)


def j_iter(g):
    c, e = g['c'], g['e']
    n = c['n']
    o = {'list': lambda: list(range(n)), 'tuple': lambda: tuple(range(n)), 'set': lambda: set(range(n)), 'dict': lambda: {i: 1 for i in range(n)},
         'array': lambda: np.arange(n), 'range': lambda: range(n), 'frozenset': lambda: frozenset(range(n)), 'str': lambda: 'abcdefg'[:n],
         'int': lambda: n, 'none': lambda: None, 'float': lambda: n + .5, 'object': lambda: Thing()}[c['kind']]()
    a = () if c['min'] == 1 and g['seed'] % 2 else (c['min'],)
    r = Run(ut.is_iterable_but_not_str, o, *a)
    if r.exc is not None or r.val is not e['v']:
        return 'is_iterable_but_not_str(%r%s): %r' % (o, ', %s' % a if a else '', r)


def others(ctx):
    """Names of callables, names of operations."""
    def f(x, y):
        return 0.0
    cases = [('function', f, None, 'f'), ('lambda', lambda x, y: 0, None, '<lambda>'), ('object', Thing(), None, ''), ('partial', functools.partial(f, 1), None, ''),
             ('given', f, 'mine', 'mine'), ('given', f, '', ''), ('given', Thing(), 'mine', 'mine'), ('number', f, 5, '5'), ('builtin', max, None, 'max'), ('class', Thing, None, 'Thing')]

    def judge(i):
        what, fn, name, want = cases[i]
        r = Run(ut.get_callable_name, fn, name) if name is not None else Run(ut.get_callable_name, fn)
        if r.exc is not None or r.val != want:
            return 'get_callable_name of a %s: %r, expected %r' % (what, r, want)
    replay(ctx, 'callable-names', list(range(len(cases))), judge)

    def operation(c):
        r = Run(ut.check_operation_kernel_matrix, c[0])
        if (c[1] is None and not r.raised(ValueError)) or (c[1] is not None and (r.exc is not None or r.val != c[1])):
            return 'check_operation_kernel_matrix(%r): %r' % (c[0], r)
    replay(ctx, 'operations', [('sum', 'sum'), ('Sum', 'sum'), ('PRODUCT', 'product'), ('product', 'product'), ('average', 'average'), ('Average', 'average'),
                               ('', None), ('sums', None), ('minus', None), ('su', None), ('sum ', None)], operation)


def random_cases(ctx, count):
    rng, out = ctx.rng, []
    for _ in range(count):
        n = rng.choice([1, 2, 5, 9, 40, 200])
        out.append({'op': 'scale', 'q': [rng.randint(-1000, 1000) for _ in range(n)]})
        n, m = rng.choice([1, 3, 6, 12]), rng.choice([1, 2, 7, 12])
        A = [['num'] * m for _ in range(n)]
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            A[rng.randrange(n)][rng.randrange(m)] = rng.choice(['nan', 'inf', '-inf'])
        out.append({'op': 'finite', 'F': A})
        n = rng.choice([1, 2, 3, 6, 12])
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = rng.randint(-50, 50)
        if n > 1 and rng.random() < .6:
            i, j = rng.sample(range(n), 2)
            A[i][j] += rng.choice([-1, 1])
        out.append({'op': 'sym', 'A': A})
        out.append({'op': rng.choice(['vector']), 's': [rng.choice([2, 7, 30, 1, 300])] + [1] * rng.randrange(3), 'elem': rng.choice(['int', 'float', 'numstr', 'bool', 'badstr', 'dict']),
                    'want': rng.choice(['number', 'float64', 'none'])})
        a, b = rng.choice([(5, 5), (5, 6), (30, 30), (300, 300), (300, 299), (2, 1)])
        out.append({'op': 'pair', 'x': {'s': [a] + [1] * rng.randrange(3), 'elem': rng.choice(['int', 'float', 'numstr'])},
                    'y': {'s': [b] + [1] * rng.randrange(3), 'elem': rng.choice(['int', 'float', 'numstr'])}, 'want': rng.choice(['number', 'float64'])})
    return out


def c31(ctx):
    rng = ctx.rng

    def go(label, cases):
        by = {}
        for g in cases:
            g = dict(g, seed=rng.randrange(10 ** 6), form=rng.choice(['plain', 'list', 'tuple', 'readonly', 'strided']), form2=rng.choice(['plain', 'list', 'tuple', 'readonly']),
                     k=1.0, pad=0, shift=0.0)
            op = g['c']['op']
            if op == 'scale':
                g['form'] = rng.choice(['array', 'list', 'tuple', 'int'])
                if g['form'] != 'int':
                    g['k'], g['shift'] = rng.choice([1.0, 1e-4, 1e6, .3, -1.0]), rng.choice([0.0, 0.0, 1.0, 1e5])
                    if g['k'] == 1e-4:
                        g['shift'] = 0.0
            elif op == 'finite':
                g['form'] = rng.choice(['array', 'f', 'csr', 'csc', 'lil', 'coo', 'csra', 'flat', 'f32', 'dok'])
                g['pad'] = rng.choice([0, 0, 3, 20, 80])
            elif op == 'sym':
                g['form'], g['k'], g['pad'] = rng.choice(['float', 'int']), rng.choice([1.0, 1e6, .01, 2e-4]), rng.choice([0, 0, 2, 30, 200])
            elif op == 'callable':
                g['how'] = rng.choice(['def', 'lambda', 'defaults', 'keyword', 'object', 'method', 'static', 'partial'])
            by.setdefault(op, []).append(g)
        for op, gs in sorted(by.items()):
            replay(ctx, '%s-%s' % (op, label), gs, {'vector': j_vector, 'matrix': j_vector, 'pair': j_pair, 'scale': j_scale, 'finite': j_finite, 'sym': j_sym,
                                                    'callable': j_callable, 'iter': j_iter}[op])
    e = enumerate_cases(ctx, 'Helpers', {'MaxAxis': ctx.pick('2', '3')})
    for _ in range(ctx.pick(2, 6)):
        go('enumerated', e)
    go('random', evaluate_cases(ctx, 'Helpers', random_cases(ctx, ctx.pick(400, 6000))))
    others(ctx)
