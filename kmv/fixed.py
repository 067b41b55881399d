"""C23: precomputed and constant matrices, against FixedMatrices.tla."""
import numpy as np

from kernelmethods.base import ConstantKernelMatrix, KernelMatrixPrecomputed, KernelSet
from kernelmethods.config import KMAccessError, KMSetAdditionError

from .cases import Run, enumerate_cases, evaluate_cases, replay
from .km import BAD_PER_DIM, BAD_WHOLE, NONE, index_object
from .matrix import present

FORMS = ('c', 'f', 'strided', 'int', 'readonly', 'neg', 'f32', 'list', 'tuple', 'intlist', 'int8', 'arrays', 'matrixlike')


class ArrayLike:
    """Something numpy can convert, but not an ndarray."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)


def shown(A, form, k):
    if form == 'list':
        return (np.array(A, dtype=float).reshape(len(A), -1) * k).tolist()
    if form == 'tuple':
        return tuple(tuple(r) for r in (np.array(A, dtype=float) * k).tolist())
    if form == 'arrays':
        return [np.array(r, dtype=float) * k for r in A]
    if form == 'matrixlike':
        return ArrayLike(np.array(A, dtype=float) * k)
    if form == 'intlist' and k == int(k):
        return (np.array(A) * int(k)).tolist()
    if form == 'int8' and k == 1.0 and np.abs(A).max() < 100:
        return np.array(A, dtype=np.int8)
    return present(A, form, k)


def eq(v, want, shape):
    return np.shape(v) == tuple(shape) and np.asarray(v).dtype.kind in 'fiu' and \
        np.array_equal(np.asarray(v, dtype=float), np.asarray(want, dtype=float).reshape(shape))


def j_pre(g):
    c, e, k = g['c'], g['e'], g['k']
    kw = {} if g['named'] is None else {'name': g['named']}
    r = Run(KernelMatrixPrecomputed, shown(c['A'], g['form'], k), **kw)
    if e['out'] != 'ok':
        return None if r.raised(ValueError) else 'non-square or non-symmetric input (%s): %r' % (g['form'], r)
    if r.exc is not None:
        return 'symmetric matrix (%s) rejected: %r' % (g['form'], r)
    p, n = r.val, e['n']
    A = np.array(c['A'], dtype=float) * k
    for order in g['reads']:
        q = Run(lambda: {'full': lambda: p.full, 'diag': lambda: p.diag, 'size': lambda: p.size, 'num': lambda: p.num_samples,
                         'len': lambda: len(p), 'elem': lambda: [[p[i, j] for j in range(n)] for i in range(n)],
                         'rows': lambda: [p[i] for i in range(n)]}[order]())
        if q.exc is not None:
            return '%s of a precomputed matrix: %r' % (order, q)
        ok = {'full': lambda: type(q.val) is np.ndarray and eq(q.val, A, (n, n)), 'diag': lambda: eq(q.val, np.array(e['diag']) * k, (n,)),
              'size': lambda: q.val == n, 'num': lambda: q.val == n, 'len': lambda: q.val == n,
              'elem': lambda: eq(q.val, A, (n, n)), 'rows': lambda: eq(q.val, A, (n, n))}[order]()
        if not ok:
            return '%s of a precomputed matrix: %r' % (order, q)


def j_jitter(g):
    """The same matrix after roundings elsewhere: accepted or rejected alike, and shown as it was given."""
    rs = np.random.RandomState(g['seed'])
    A = np.array(g['c']['A'], dtype=float).reshape(len(g['c']['A']), -1)
    A = A * g['k']
    if g['pad'] and A.shape[0] == A.shape[1] and A.size:      # somewhere in a larger matrix
        B = rs.randn(len(A) + g['pad'], len(A) + g['pad'])
        B = B + B.T
        q = rs.permutation(len(B))[:len(A)]
        B[np.ix_(q, q)] = A
        A = B
    A = A * (1 + g['eps'] * rs.randn(*A.shape))
    given = A.copy()
    if g['how'] == 'set':
        S = KernelSet(name='fed')
        r = Run(lambda: (S.append(A), S[0])[1])
    else:
        r = Run(KernelMatrixPrecomputed, A.tolist() if g['how'] == 'list' else A)
    if g['e']['out'] != 'ok':
        return None if r.raised(ValueError) else 'non-square or non-symmetric input: %r' % r
    if r.exc is not None:
        return 'matrix symmetric up to rounding rejected: %r' % r
    p, n = r.val, len(given)
    for what, got, want in (('full', lambda: p.full, given), ('diag', lambda: p.diag, np.diag(given)), ('element', lambda: p[0, n - 1], given[0, n - 1]),
                            ('element', lambda: p[n - 1, 0], given[n - 1, 0]), ('full', lambda: p.full, given)):
        q = Run(got)
        if q.exc is not None or np.shape(q.val) != np.shape(want) or not np.array_equal(np.asarray(q.val), want):
            return '%s of a precomputed matrix differs from what was given: %r' % (what, q)


def _np_index(ix, as_):
    if ix['k'] == 'list':
        return {'list': list, 'array': np.array, 'a32': lambda v: np.array(v, dtype=np.int32), 'a2': lambda v: np.array(v, dtype='i2')}[as_](ix['v'])
    if ix['k'] == 'int':
        return np.int64(ix['v']) if as_ in ('array', 'a2') else ix['v']
    return index_object(ix)


def j_index(g):
    c, e, k = g['c'], g['e'], g['k']
    p = KernelMatrixPrecomputed(shown(c['A'], g['form'], k))
    if 'iy' in c:
        r = Run(lambda: p[_np_index(c['ix'], g['as']), _np_index(c['iy'], g['as'])])
    else:
        r = Run(lambda: p[_np_index(c['ix'], g['as'])])
    if e['out'] != 'ok':
        return None if r.raised(KMAccessError) else 'invalid access %s: %r' % ([c['ix'], c.get('iy')], r)
    want = np.array(e['v'], dtype=float) * k
    if r.exc is not None or not eq(r.val, want, e['shape']):
        return 'access %s: %r, expected %s' % ([c['ix'], c.get('iy')], r, want.tolist())
    if not eq(p.full, np.array(c['A']) * k, np.shape(c['A'])):
        return 'full after an access: %r' % (p.full,)


VALUES = [0.0, 1, -2.5, 3, 1e-9, 7.25e8, np.float32(0.5), -1, True]


def j_const(g):
    c, v, n = g['c'], g['value'], g['c']['n']
    C = ConstantKernelMatrix(n, v, **g['kw'])
    dt = np.dtype(g['kw'].get('dtype', 'float'))
    full, diag = np.full((n, n), v, dtype=dt), np.full(n, v, dtype=dt)
    for what in g['reads']:
        r = Run(lambda: {'full': lambda: C.full, 'diag': lambda: C.diag, 'size': lambda: C.size, 'num': lambda: C.num_samples,
                         'len': lambda: len(C), 'shape': lambda: C.shape, 'all': lambda: C[:, :], 'elem': lambda: C[0, n - 1]}[what]())
        if r.exc is not None:
            return '%s of a constant matrix: %r' % (what, r)
        x = r.val
        ok = {'full': lambda: type(x) is np.ndarray and x.dtype == dt and np.array_equal(x, full),
              'all': lambda: np.array_equal(x, full), 'elem': lambda: np.array_equal(x, full[:1, :1]),
              'diag': lambda: np.array_equal(x, diag) and x.dtype == dt,
              'size': lambda: x == n, 'num': lambda: x == n, 'len': lambda: x == n, 'shape': lambda: tuple(x) == (n, n)}[what]()
        if not ok:
            return '%s of ConstantKernelMatrix(%d, %r): %r' % (what, n, v, r)


def j_constpair(g):
    c, e, v = g['c'], g['e'], g['value']
    C = ConstantKernelMatrix(c['n'], v)
    if g['warm']:
        C.full
    r = Run(lambda: C[index_object(dict(c['ix'], **g['as'][0])), index_object(dict(c['iy'], **g['as'][1]))])
    if e['out'] == 'ok':
        if r.exc is not None or not eq(r.val, np.full((e['rows'], e['cols']), float(v)), (e['rows'], e['cols'])):
            return 'constant matrix (n=%d) at %s, %s: %r' % (c['n'], c['ix'], c['iy'], r)
    elif e['out'] == 'KMAccessError' and not r.raised(KMAccessError):
        return 'constant matrix (n=%d) at %s, %s: %r, expected KMAccessError' % (c['n'], c['ix'], c['iy'], r)
    elif r.exc is None:
        return 'constant matrix (n=%d) at %s, %s: %r, expected an error' % (c['n'], c['ix'], c['iy'], r)


def j_feed(g):
    c, e = g['c'], g['e']
    S = KernelSet(name='fed')
    q = [shown(A, f, 1.0) for A, f in zip(c['q'], g['forms'])]
    if g['once'] and all(o == 'ok' for o in e['outs']):
        r = Run(KernelSet, q)
        if r.exc is not None:
            return 'KernelSet of plain matrices: %r' % r
        S = r.val
    else:
        for A, out in zip(q, e['outs']):
            r = Run(S.append, A)
            cls = {'ValueError': ValueError, 'KMSetAdditionError': KMSetAdditionError}.get(out)
            if (cls is None and r.exc is not None) or (cls is not None and not r.raised(cls)):
                return 'append of a plain matrix: %r, expected %s' % (r, out)
    if len(S) != len(e['ms']) or (e['ms'] and S.num_samples != e['num']):
        return '%d members, num_samples %r' % (len(S), S.num_samples)
    for m, A in zip(S, e['ms']):
        if not isinstance(m, KernelMatrixPrecomputed) or not eq(m.full, A, np.shape(A)):
            return 'member %r' % (m,)


def constant_histories(ctx):
    return ['full', 'diag', 'size', 'num', 'len', 'shape', 'all', 'elem']


def decorate(ctx, g):
    rng = ctx.rng
    g['form'] = rng.choice(FORMS)
    g['k'] = rng.choice([1.0, 1.0, 2.0, 1024.0, 0.5, -1.0])
    g['as'] = rng.choice(['list', 'array', 'a32', 'a2'])
    g['named'] = rng.choice([None, None, 'mine'])
    g['reads'] = rng.sample(['full', 'diag', 'size', 'num', 'len', 'elem', 'rows'], 7)
    g['forms'] = [rng.choice(FORMS) for _ in range(4)]
    g['once'] = rng.random() < .5
    return g


def random_mats(ctx, count):
    out = []
    for _ in range(count):
        n = ctx.rng.choice([1, 2, 3, 4, 5, 7, 9, 20])
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = ctx.rng.randint(-60, 60)
        if n > 1 and ctx.rng.random() < .4:                  # asymmetric in one place
            i, j = ctx.rng.sample(range(n), 2)
            A[i][j] += ctx.rng.choice([-1, 1])
        elif ctx.rng.random() < .1:
            A = A + [A[0]]
        elif n > 1 and ctx.rng.random() < .1:
            A = [r[:-1] for r in A]
        out.append({'op': 'pre', 'A': A})
    return out


def rand_np_index(rng, n):
    c = rng.random()
    if c < .3:
        return {'k': 'int', 'v': rng.randint(-n - 1, n)}
    if c < .7:
        f = lambda: rng.choice([NONE, rng.randint(-n - 2, n + 2)])
        return {'k': 'slice', 'a': f(), 'b': f(), 'c': rng.choice([NONE, 1, 2, 3, -1, -2, -3])}
    lo = rng.choice([-n, -n, -n - 1])
    return {'k': 'list', 'v': [rng.randint(lo, n - 1) for _ in range(rng.choice([1, 2, 3, 3, 4]))]}


def random_access(ctx, count, bad=.08):
    out = []
    for _ in range(count):
        n = ctx.rng.choice([1, 2, 3, 4, 6, 9, 11])
        A = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                A[i][j] = A[j][i] = 100 * i + j
        if ctx.rng.random() < .15:
            out.append({'op': 'presingle', 'A': A, 'ix': rand_np_index(ctx.rng, n)})
        elif ctx.rng.random() < .5:
            out.append({'op': 'prepair', 'A': A, 'ix': rand_np_index(ctx.rng, n), 'iy': rand_np_index(ctx.rng, n)})
        else:
            from .km_gen import rand_index
            n = ctx.rng.choice([1, 2, 5, 17, 60])
            strip = lambda d: {k: v for k, v in d.items() if k != 'as'}
            ok = lambda d: d['k'] not in ('list-float', 'list-bool', 'list-str', 'farray', 'barray', 'mask', 'list-npbool', 'list-mixbool', 'oarray')     # not specified
            ix, iy = (strip(rand_index(ctx.rng, n, bad)) for _ in 'ab')
            if ok(ix) and ok(iy):
                out.append({'op': 'constpair', 'n': n, 'ix': ix, 'iy': iy})
    return out


def in_containers(ctx, g):
    """A pair of indices into a constant matrix, each in some container."""
    from .km_gen import container
    rng = ctx.rng
    how = lambda d: ({'as': container(rng, d['v'])} if d['k'] == 'list' else {'as': rng.choice(['int', 'int', 'np'])})
    return dict(g, value=rng.choice(VALUES), warm=rng.random() < .3, **{'as': [how(g['c'][x]) for x in ('ix', 'iy')]})


def constant_access(ctx):
    """C06: accesses of constant matrices, most of them invalid."""
    cases = enumerate_cases(ctx, 'FixedMatrices', {'Ops': '{"constpair"}', 'MaxN': ctx.pick('2', '3')}, label='constant-indices')
    more = [c for c in random_access(ctx, ctx.pick(1500, 20000), .35) if c['op'] == 'constpair']
    for label, gs in (('enumerated', cases), ('random', evaluate_cases(ctx, 'FixedMatrices', more, label='constant-accesses'))):
        replay(ctx, 'constant-' + label, [in_containers(ctx, g) for g in gs], j_constpair, parallel=len(gs) > 3000)

    def whole(x):
        r = Run(lambda: ConstantKernelMatrix(x[1], 2.0)[BAD_WHOLE[x[0]]])
        if r.exc is None:
            return 'constant matrix (n=%d) indexed with %s: %r, expected an error' % (x[1], x[0], r)
    replay(ctx, 'constant-dimensions', [(k, n) for k in BAD_WHOLE for n in (1, 2, 3, 5)], whole)


def other_inputs(ctx):
    """Inputs that are no matrices of real numbers at all: the specification's Accepted is about matrices."""
    M = np.eye(2)
    bad = [('0d', np.array(1.0)), ('1d', np.ones(4)), ('3d', np.ones((2, 2, 2))), ('3d-1', np.ones((2, 2, 1))), ('number', 3.0),
           ('list1', [1.0, 2.0]), ('hermitian', np.array([[1, 1j], [-1j, 1]])), ('complex-symmetric', np.array([[1, 1j], [1j, 1]])),
           ('complex-diag', np.diag([1 + 1j, 2])), ('ragged', [[1.0, 2.0], [2.0]]), ('deep', [[[1.0]]]), ('empty-list', []),
           ('complex-late', np.eye(5) * np.array([1, 1, 1, 1, 1 + 2j]))]

    def judge(x):
        r = Run(KernelMatrixPrecomputed, x[1])
        if not r.raised(ValueError):
            return 'KernelMatrixPrecomputed(%s): %r' % (x[0], r)
    replay(ctx, 'not-matrices', bad, judge)

    p = KernelMatrixPrecomputed(M)

    def access(how):
        r = Run(lambda: p[{'three': (0, 0, 0), 'str': 'a', 'float': 0.5, 'list3': ([0], [0], [0]), 'dict': {}, 'pair-str': ('a', 0),
                           'obj': object(), 'big': 10, 'neg': -3, 'mask': np.array([True, False, True])}[how]])
        if not r.raised(KMAccessError):
            return 'access with %s: %r' % (how, r)
    replay(ctx, 'bad-access', ['three', 'str', 'float', 'list3', 'dict', 'pair-str', 'obj', 'big', 'neg', 'mask'], access)


def c23(ctx):
    rng = ctx.rng

    def go(label, cases):
        by = {}
        for g in cases:
            by.setdefault(g['c']['op'], []).append(decorate(ctx, g))
        for op, gs in sorted(by.items()):
            if op == 'const':
                gs = [dict(g, value=v, kw=kw, reads=rng.sample(constant_histories(ctx), 8) + rng.sample(constant_histories(ctx), 3))
                      for g in gs for v in VALUES for kw in ({}, {'name': 'k'}, {'dtype': 'float32'}, {'dtype': 'float64', 'name': None},
                                                             {'dtype': 'int64'}) if kw.get('dtype') != 'int64' or v == int(v)]
            elif op == 'constpair':
                gs = [in_containers(ctx, g) for g in gs]
            replay(ctx, '%s-%s' % (op, label), gs, {'pre': j_pre, 'prepair': j_index, 'presingle': j_index, 'const': j_const,
                                                    'constpair': j_constpair, 'feed': j_feed}[op], parallel=len(gs) > 3000)

    cases = enumerate_cases(ctx, 'FixedMatrices', {'Ops': '{"pre", "presingle", "const", "feed"}'}, label='shapes')
    go('enumerated', cases)
    cases = enumerate_cases(ctx, 'FixedMatrices', {'Ops': '{"prepair", "constpair"}', 'MaxN': ctx.pick('2', '3')}, label='indices')
    go('enumerated', cases)
    mats = evaluate_cases(ctx, 'FixedMatrices', random_mats(ctx, ctx.pick(400, 5000)), label='matrices')
    replay(ctx, 'rounded', [{'c': g['c'], 'e': g['e'], 'seed': rng.randrange(10 ** 6), 'eps': rng.choice([1e-16, 1e-13, 1e-10]), 'k': rng.choice([1.0, 1e6, 1e-2, .37, 2e-4]), 'pad': rng.choice([0, 0, 0, 2, 60, 200]),
                             'how': rng.choice(['array', 'array', 'list', 'set'])} for g in mats], j_jitter)
    go('random', mats)
    go('random-access', evaluate_cases(ctx, 'FixedMatrices', random_access(ctx, ctx.pick(3000, 40000)), label='accesses'))
    other_inputs(ctx)
