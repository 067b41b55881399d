"""C11, C12, C13 (and parts of C19): operations on kernel matrices, against MatrixOps.tla / MatrixCases.tla."""
import math

import numpy as np

from kernelmethods import base as kmb
from kernelmethods import operations as ops
from kernelmethods.config import KMNormError

from .cases import Run, enumerate_cases, evaluate_cases, near, replay

LAYOUTS = ('c', 'f', 'strided', 'int', 'readonly', 'neg', 'f32')


def present(A, how, k=1.0):
    a = np.array(A, dtype=float).reshape(len(A), -1) * k
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'strided':
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), 7.5)
        b[::2, ::3] = a
        return b[::2, ::3]
    if how == 'int' and k == int(k):
        return a.astype(np.int64)
    if how == 'readonly':
        a.setflags(write=False)
    if how == 'neg':
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if how == 'f32':
        return a.astype(np.float32)
    return a


def tol(how):
    return 1e-4 if how == 'f32' else 1e-9


def is_matrix(v, shape):
    return isinstance(v, np.ndarray) and v.ndim == 2 and v.shape == tuple(shape) and v.dtype.kind in 'fiu'


def is_scalar(v):
    return np.ndim(v) == 0 and not isinstance(v, (str, bool, np.bool_)) and np.isreal(v)


def expect_error(run, out):
    cls = {'ValueError': ValueError, 'KMNormError': KMNormError, 'TypeError': TypeError}[out]
    if not run.raised(cls):
        return 'expected %s, got %r' % (out, run)


def decorate(ctx, cases):
    """Fixes layout and scale of each case (deterministic by seed)."""
    for g in cases:
        g['how'] = ctx.rng.choice(LAYOUTS)
        g['k'] = ctx.rng.choice([1.0, 1.0, 2.0, 1024.0, 0.5])
        # powers of two: the results scale exactly
        if g['c']['op'] in ('normalize', 'normalize2') and ctx.rng.random() < .3:
            g['k'] = ctx.rng.choice([2.0 ** 990, 2.0 ** 600, 2.0 ** 520, 2.0 ** 200, 2.0 ** -12])
        elif g['c']['op'] in ('align', 'alignc') and g['e']['out'] == 'ok' and ctx.rng.random() < .3:
            g['k'] = ctx.rng.choice([2.0 ** 450, 2.0 ** 200, 2.0 ** 60, 2.0 ** -12, 2.0 ** -13])
            g['k2'] = ctx.rng.choice([1.0, 1.0, 2.0 ** -12, 2.0 ** -13, 2.0 ** 20])
            if g['k'] < 1 and g['k2'] == 1:
                g['k2'] = 2.0 ** -13
        if not 1e-6 < g['k'] < 1e6 and g['how'] in ('f32', 'int'):
            g['how'] = 'c'
    return cases


# ------------------------------------------------------------------ judges
def j_center(g):
    c, e = g['c'], g['e']
    r = Run(ops.center_km, present(c['A'], g['how'], g['k']))
    if e['out'] != 'ok':
        return expect_error(r, e['out'])
    want = np.array(e['num'], dtype=float) / e['den'] * g['k']
    if r.exc is not None or not is_matrix(r.val, want.shape):
        return 'center_km: %r' % r
    if not near(r.val, want, tol(g['how']), tol(g['how']) * 10 * g['k'] * max(1, np.abs(c['A']).max())):
        return 'center_km differs from its definition', {'got': r.val.tolist(), 'want': want.tolist()}


def _norm_want(num, den):
    return np.array(num, dtype=float) / np.sqrt(np.array(den, dtype=float))


def j_normalize(g):
    c, e = g['c'], g['e']
    if e['out'] == 'unspecified':
        return
    m = ('cosine', 'Cosine', 'COSINE')[len(str(c)) % 3]
    r = Run(ops.normalize_km, present(c['A'], g['how'], g['k']), m)
    if e['out'] != 'ok':
        return expect_error(r, e['out'])
    want = _norm_want(e['num'], e['den'])
    if r.exc is not None or not is_matrix(r.val, want.shape):
        return 'normalize_km: %r' % r
    if not near(r.val, want, tol(g['how']), 1e-12):
        return 'normalize_km differs from its definition', {'got': r.val.tolist(), 'want': want.tolist()}
    again = Run(ops.normalize_km, r.val)
    if again.exc is not None or not near(again.val, want, tol(g['how']), 1e-12):
        return 'normalizing again changes the matrix: %r' % again


def j_normalize2(g):
    c, e = g['c'], g['e']
    kx = g['k']
    r = Run(ops.normalize_km_2sample, present(c['A'], g['how'], kx), np.array(c['dx'], dtype=float) * kx,
            np.array(c['dy'], dtype=float) * kx)
    if e['out'] != 'ok':
        return expect_error(r, e['out'])
    want = _norm_want(e['num'], e['den'])
    if r.exc is not None or not is_matrix(r.val, want.shape):
        return 'normalize_km_2sample: %r' % r
    if not near(r.val, want, tol(g['how']), 1e-12):
        return 'normalize_km_2sample differs from its definition', {'got': r.val.tolist(), 'want': want.tolist()}


def j_frob(g):
    c, e = g['c'], g['e']
    A, B = present(c['A'], g['how'], g['k']), present(c['B'], 'c' if g['how'] == 'f32' else g['how'], 1.0)
    for x, y in ((A, B), (B, A)):
        r = Run(ops.frobenius_product, x, y)
        if e['out'] != 'ok':
            m = expect_error(r, e['out'])
            if m:
                return m
        elif r.exc is not None or not is_scalar(r.val) or not near(r.val, e['v'] * g['k'], 1e-9, 1e-9):
            return 'frobenius_product: %r, expected %r' % (r, e['v'] * g['k'])


def j_norm(g):
    r = Run(ops.frobenius_norm, present(g['c']['A'], g['how'], g['k']))
    want = math.sqrt(g['e']['v']) * g['k']
    if r.exc is not None or not is_scalar(r.val) or not near(r.val, want, tol(g['how']), 1e-12):
        return 'frobenius_norm: %r, expected %r' % (r, want)


def j_align(g):
    c, e = g['c'], g['e']
    how = 'c' if g['how'] == 'f32' else g['how']
    A, B = present(c['A'], how, g['k']), present(c['B'], how, g.get('k2', 1.0))
    kw = {'centered_already': True} if c['op'] == 'alignc' else {}
    for x, y in ((A, B), (B, A)):
        r = Run(ops.alignment_centered, x, y, **kw)
        if e['out'] == 'ok':
            want = e['r']['dot'] / math.sqrt(e['r']['n1']) / math.sqrt(e['r']['n2'])
            if r.exc is not None or not is_scalar(r.val) or not near(r.val, want, 1e-9, 1e-9):
                return 'alignment_centered: %r, expected %r' % (r, want)
        elif e['out'] == 'vanishing':
            m = expect_error(r, 'ValueError')
            if m:
                return m
            for v in (0.0, -2.5, 7):
                r = Run(ops.alignment_centered, x, y, value_if_zero_division=v, **kw)
                if r.exc is not None or r.val != v:
                    return 'alignment of a vanishing matrix: %r, requested %r' % (r, v)
            m = expect_error(Run(ops.alignment_centered, x, y, value_if_zero_division='raise', **kw), 'ValueError')
            if m:
                return m
        else:
            m = expect_error(r, e['out'])
            if m:
                return m


def j_psd(g):
    c, e = g['c'], g['e']
    for k, (t, want) in enumerate(zip((None, .5, 1.5), e['t'])):
        # (single precision could not tell a zero eigenvalue from a slightly negative one)
        A = present(c['A'], 'c' if g['how'] == 'f32' else g['how'], g['k'] if (t is None and g['k'] >= 1) else 1.0)
        r = Run(ops.is_PSD, A) if t is None else Run(ops.is_positive_semidefinite, A, t) if k == 1 \
            else Run(ops.is_PSD, A, tolerance=t)
        if r.exc is not None or bool(r.val) != want or not isinstance(r.val, (bool, np.bool_)):
            return 'is_PSD(tolerance=%s): %r, expected %r' % (t, r, want)


JUDGES = {'center': j_center, 'normalize': j_normalize, 'normalize2': j_normalize2, 'frob': j_frob, 'norm': j_norm,
          'align': j_align, 'alignc': j_align, 'psd': j_psd}


def judge_op(g):
    return JUDGES[g['c']['op']](g)


# ------------------------------------------------------------------ case sources
def rand_int_mat(rng, n, m, sym, lo=-9, hi=9):
    A = [[rng.randint(lo, hi) for _ in range(m)] for _ in range(n)]
    if sym and n == m:
        for i in range(n):
            for j in range(i):
                A[i][j] = A[j][i]
    return A


def random_cases(ctx, op, count):
    rng, out = ctx.rng, []
    for _ in range(count):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7])
        sq = rng.random() < .93
        m = n if sq else rng.choice([x for x in (1, 2, 3, 5, 8) if x != n])
        c = {'op': op}
        if op in ('center', 'norm'):
            c['A'] = rand_int_mat(rng, n, m, sq and rng.random() < .5)
        elif op == 'normalize':
            c['A'] = rand_int_mat(rng, n, m, sq and rng.random() < .6)
            if sq:
                for i in range(n):
                    c['A'][i][i] = rng.randint(1, 30)
                if rng.random() < .3:
                    c['A'][rng.randrange(n)][0 if n == 1 else rng.randrange(n)] = 0
                if rng.random() < .3:
                    i = rng.choice([0, n - 1, rng.randrange(n)])
                    c['A'][i][i] = 0
        elif op == 'normalize2':
            m = rng.choice([1, 2, 3, 4, 5, 6])
            c['A'] = rand_int_mat(rng, n, m, False)
            c['dx'] = [rng.randint(1, 40) for _ in range(n if rng.random() < .93 else n + 1)]
            c['dy'] = [rng.randint(1, 40) for _ in range(m if rng.random() < .93 else max(1, m - 1) if m > 1 else 2)]
            if rng.random() < .2:
                v = rng.choice([c['dx'], c['dy']])
                v[rng.choice([0, -1])] = 0
        elif op in ('frob', 'align', 'alignc', 'corr'):
            if op == 'frob' and rng.random() < .4:
                m = rng.choice([1, 2, 4, 7])
            lim = 9 if n <= 4 else 4
            c['A'] = rand_int_mat(rng, n, m, sq and rng.random() < .5, -lim, lim)
            c['B'] = rand_int_mat(rng, n if rng.random() < .95 else n + 1, m, sq and rng.random() < .5, -lim, lim)
            if op == 'align' and rng.random() < .12 and n == m:     # a centered matrix that vanishes
                r, q = [rng.randint(-5, 5) for _ in range(n)], [rng.randint(-5, 5) for _ in range(n)]
                c[rng.choice('AB')] = [[r[i] + q[j] for j in range(n)] for i in range(n)]
            if rng.random() < .1:
                c['B'] = [[3 * x for x in row] for row in c['A']]
        elif op == 'psd':
            n = rng.choice([1, 2, 3, 4, 4, 5])
            m = n if rng.random() < .95 else n + 1
            p = rng.random()
            if p < .35 or m != n:
                c['A'] = rand_int_mat(rng, n, m, m == n, -3, 4)
            else:                       # Gram matrix, maybe spoiled in one place
                X = [[rng.randint(-2, 2) for _ in range(rng.choice([1, 2, n]))] for _ in range(1)]
                d = len(X[0])
                X += [[rng.randint(-2, 2) for _ in range(d)] for _ in range(n - 1)]
                c['A'] = [[sum(a * b for a, b in zip(x, y)) for y in X] for x in X]
                if p > .6:
                    i, j = rng.randrange(n), rng.randrange(n)
                    c['A'][i][j] += rng.choice([-1, 1, 2])
                    if rng.random() < .6:
                        c['A'][j][i] = c['A'][i][j]
        out.append(c)
    return out


def small_and_random(ctx, op, n, neg='1', hi='2'):
    cs = decorate(ctx, enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"%s"}' % op, 'Neg': neg, 'Hi': hi}, op))
    replay(ctx, op + '-enumerated', cs, judge_op)
    cs = decorate(ctx, evaluate_cases(ctx, 'MatrixCases', random_cases(ctx, op, n), label=op + '-random'))
    replay(ctx, op + '-random', cs, judge_op)


# ------------------------------------------------------------------ large, real-valued (reference formulas)
def ref_center(A):
    A = np.asarray(A, dtype=np.longdouble)
    return np.asarray(A - A.mean(axis=0)[None, :] - A.mean(axis=1)[:, None] + A.mean(), dtype=float)


def ref_align(A, B, centered=False):
    if not centered:
        A, B = ref_center(A), ref_center(B)
    return float(np.sum(A * B) / math.sqrt(np.sum(A * A)) / math.sqrt(np.sum(B * B)))


def big_matrix(rs, n, kind):
    if kind == 'gram':
        X = rs.randn(n, 5)
        return X @ X.T + .1 * np.eye(n)
    if kind == 'rbf':
        X = rs.randn(n, 3)
        return np.exp(-((X[:, None] - X[None]) ** 2).sum(-1))
    if kind == 'sym':
        A = rs.randn(n, n)
        return A + A.T + 6 * np.eye(n)
    if kind == 'gen':
        return rs.randn(n, n) + 5 * np.eye(n)
    if kind == 'offset':
        A = rs.rand(n, n)
        return A + A.T + 100.0
    A = rs.rand(n, n) * 1e-3 + np.eye(n) * 1e-2
    return (A + A.T) / 2


KINDS = ('gram', 'rbf', 'sym', 'gen', 'offset', 'small')


def large_center(ctx, count):
    cs = [{'n': ctx.rng.choice([1, 2, 3, 10, 31, 64, 100, 129]), 'kind': ctx.rng.choice(KINDS),
           'seed': ctx.rng.randrange(10 ** 6), 'how': ctx.rng.choice(['c', 'f', 'strided', 'neg'])} for _ in range(count)]

    def judge(c):
        rs = np.random.RandomState(c['seed'])
        A = big_matrix(rs, c['n'], c['kind'])
        s = np.abs(A).max()
        a = present(A.tolist(), c['how'])
        r = Run(ops.center_km, a)
        if r.exc is not None or not is_matrix(r.val, A.shape) or not near(r.val, ref_center(A), 1e-9, 1e-10 * s * c['n']):
            return 'center_km of a %d x %d matrix differs from its definition' % A.shape, repr(r)
        again = Run(ops.center_km, r.val)
        if again.exc is not None or not near(again.val, r.val, 1e-9, 1e-10 * s * c['n']):
            return 'centering again changes the matrix', repr(again)
        if np.abs(r.val.sum(axis=0)).max() > 1e-9 * s * c['n'] or np.abs(r.val.sum(axis=1)).max() > 1e-9 * s * c['n']:
            return 'row or column sums of the centered matrix do not vanish'
        B = big_matrix(rs, c['n'], KINDS[c['seed'] % len(KINDS)])
        want = math.fsum((A * B).ravel())
        r = Run(ops.frobenius_product, a, B)
        if r.exc is not None or not near(r.val, want, 1e-9, 1e-10 * np.abs(A * B).sum()):
            return 'frobenius_product: %r, expected %r' % (r, want)
        if c['n'] >= 3:
            nd = np.sqrt(np.sum(ref_center(B) ** 2))
            if nd > 1e-6 and np.sqrt(np.sum(ref_center(A) ** 2)) > 1e-6:
                want = ref_align(A, B)
                for x, y, k in ((a, B, 1), (B, a, 1), (a * 3.5, B + 2.0, 1), (a - 1.5, B * 1e3, 1)):
                    r = Run(ops.alignment_centered, x, y)
                    if r.exc is not None or not near(r.val, want, 1e-7, 1e-7) or abs(r.val) > 1 + 1e-9:
                        return 'alignment_centered: %r, expected %r' % (r, want)
                r = Run(ops.alignment_centered, a, a)
                if r.exc is not None or not near(r.val, 1.0, 1e-9):
                    return 'alignment with itself: %r' % r
                want = ref_align(A, B, True)
                r = Run(ops.alignment_centered, a, B, centered_already=True)
                if r.exc is not None or not near(r.val, want, 1e-8, 1e-9):
                    return 'alignment_centered(centered_already): %r, expected %r' % (r, want)
    replay(ctx, 'large-center-align', cs, judge)


def large_normalize(ctx, count):
    cs = [{'n': ctx.rng.choice([1, 2, 3, 10, 31, 64, 100, 129]), 'm': ctx.rng.choice([1, 2, 3, 9, 50, 101]),
           'kind': ctx.rng.choice(['gram', 'rbf', 'sym', 'gen', 'small']), 'zero': ctx.rng.random() < .25,
           'seed': ctx.rng.randrange(10 ** 6), 'how': ctx.rng.choice(['c', 'f', 'strided', 'neg'])} for _ in range(count)]

    def judge(c):
        rs = np.random.RandomState(c['seed'])
        n, m = c['n'], c['m']
        A = big_matrix(rs, n, c['kind'])
        A[np.diag_indices(n)] = np.abs(np.diag(A)) + 1e-3
        z = rs.randint(n)
        if c['zero']:
            A[z, z] = rs.choice([0.0, 1e-300, -0.0, 1e-12])
        r = Run(ops.normalize_km, present(A.tolist(), c['how']))
        if c['zero']:
            if not r.raised(KMNormError):
                return 'normalize_km with a zero self-similarity at %d of %d: %r' % (z, n, r)
        else:
            d = np.diag(A)
            want = A / np.sqrt(d)[:, None] / np.sqrt(d)[None, :]
            if r.exc is not None or not is_matrix(r.val, A.shape) or not near(r.val, want, 1e-9, 1e-12):
                return 'normalize_km of a %d x %d matrix differs from its definition' % A.shape, repr(r)
            s = np.exp(rs.randn(n))
            r = Run(ops.normalize_km, A * s[:, None] * s[None, :])
            if r.exc is not None or not near(r.val, want, 1e-9, 1e-12):
                return 'normalize_km depends on the scale of the points', repr(r)
        K, dx, dy = rs.randn(n, m), rs.rand(n) * 9 + .01, rs.rand(m) * 9 + .01
        if c['zero']:
            (dx if c['seed'] % 2 else dy)[0 if c['seed'] % 3 == 0 else -1] = 0.0
        r = Run(ops.normalize_km_2sample, present(K.tolist(), c['how']), dx, dy)
        if c['zero']:
            if not r.raised(KMNormError):
                return 'normalize_km_2sample with a zero self-similarity: %r' % r
        elif r.exc is not None or not near(r.val, K / np.sqrt(np.outer(dx, dy)), 1e-9, 1e-12):
            return 'normalize_km_2sample differs from its definition', repr(r)
        for f, a in ((ops.normalize_km, (A,)), (ops.normalize_km_2sample, (K, dx, dy))):
            for meth in ('minmax', 'cosin', '', 'cosine '):
                r = Run(f, *a, method=meth)
                if not r.raised(NotImplementedError):
                    return 'method %r: %r' % (meth, r)
        for shape in ((n, n + 1), (n + 1, n), (1, 3), (3, 1)):
            r = Run(ops.normalize_km, np.ones(shape))
            if not r.raised(ValueError):
                return 'normalize_km on shape %s: %r' % (shape, r)
        for a in ((K, dx[:-1], dy), (K, dx, dy[:-1]), (K, dy, dx), (K.T, dx, dy), (K, np.append(dx, 1.0), dy)):
            if a[1].size == a[0].shape[0] and a[2].size == a[0].shape[1]:
                continue
            r = Run(ops.normalize_km_2sample, *a)
            if not r.raised(ValueError):
                return 'normalize_km_2sample with shapes %s: %r' % ([x.shape for x in a], r)
    replay(ctx, 'large-normalize', cs, judge)


def large_psd(ctx, count):
    rng = ctx.rng
    cs = [{'n': rng.choice([2, 3, 5, 12, 30, 60]), 'seed': rng.randrange(10 ** 6),
           'what': rng.choice(['eig', 'eig', 'block', 'asym', 'slant', 'nan', 'tol', 'shape', 'gram', 'verbose'])} for _ in range(count)]

    def judge(c):
        rs = np.random.RandomState(c['seed'])
        n, what = c['n'], c['what']
        kw = {}
        Q = np.linalg.qr(rs.randn(n, n))[0]
        lam = rs.rand(n) * rs.choice([1.0, 5.0])
        lam[0] = 0.0
        if what in ('eig', 'verbose'):
            lam[rs.randint(n)] = rs.choice([-2e-6, -3e-6, -1e-4, -1e-2, -1.0, -5e-7, -1e-9, 0.0, .5])
            A, want = (Q * lam) @ Q.T, bool(lam.min() >= -1e-6)
            A = (A + A.T) / 2
        elif what == 'tol':
            t = float(rs.choice([1e-9, 1e-8, 1e-4, 1e-2, .1, 1.0]))
            lam[rs.randint(n)] = t * rs.choice([-2.0, -1.5, -.5, -.9])
            A, want = (Q * lam) @ Q.T, bool(lam.min() >= -t)
            A, kw = (A + A.T) / 2, {'tolerance': t}
        elif what == 'block':
            A = np.diag(rs.rand(n) + .5)
            i, j = rs.choice(n, 2, replace=False)
            v = rs.choice([.3, 5.0])
            A[i, j] = A[j, i] = v
            want = bool(A[i, i] * A[j, j] >= v * v)
        elif what == 'asym':
            A = Q @ np.diag(lam + 1) @ Q.T
            A = (A + A.T) / 2
            i, j = rs.choice(n, 2, replace=False)
            A[i, j] += rs.choice([.05, -.1, 1.0])
            want = False
        elif what == 'slant':                          # symmetric up to a small fraction of the entry, or of the matrix
            A = np.diag(rs.rand(n) + n) + rs.rand(n, n) / 3 + .05
            A = (A + A.T) / 2 * 10.0 ** rs.randint(0, 7)
            i, j = rs.choice(n, 2, replace=False)
            want = bool(rs.randint(2))
            A[i, j] *= 1 + (rs.choice([1e-15, 1e-12]) if want else rs.choice([2e-4, -3e-4, 1e-3, -8e-3]))
        elif what == 'nan':
            A = Q @ np.diag(lam + 1) @ Q.T
            A = (A + A.T) / 2
            i, j = rs.randint(n), rs.randint(n)
            A[i, j] = A[j, i] = np.nan
            want = False
        elif what == 'shape':
            A = np.ones((n, n + rs.choice([-1, 1])))
            want = False
        else:
            X = rs.randn(n, rs.choice([1, 3, n]))
            A = X @ X.T
            A = (A + A.T) / 2
            want = True
        if what == 'verbose':
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                r = Run(ops.is_PSD, A, verbose=True)
        else:
            r = Run(ops.is_PSD, A, **kw)
        if r.exc is not None or bool(r.val) != want:
            return 'is_PSD (%s): %r, expected %r' % (what, r, want), {'A': A.tolist(), 'kw': kw}
    replay(ctx, 'large-psd', cs, judge)

    def bad(x):
        r = Run(ops.is_PSD, {'list': [[1.0]], 'none': None, 'str': 'a', 'int': 3, 'tuple': ((1.0, 0.0), (0.0, 1.0))}[x])
        if not r.raised(TypeError):
            return 'is_PSD of a %s: %r' % (x, r)
    replay(ctx, 'psd-non-array', ['list', 'none', 'str', 'int', 'tuple'], bad)


class Given(kmb.BaseKernelFunction):
    """A kernel function of the user's."""

    def __init__(self, f):
        super().__init__(name='given')
        self.f = f

    def __call__(self, x, y):
        return float(self.f(np.asarray(x, dtype=float), np.asarray(y, dtype=float)))

    def __str__(self):
        return self.name


def kernel_of(kind, p):
    v = [.1, .5, 1.0, 2.0, 3.0, 7.0][p - 1]
    same = lambda x, y: float(np.array_equal(x, y))
    user = {'constant': lambda x, y: v, 'min': lambda x, y: v * np.minimum(x, y).sum(), 'delta': lambda x, y: v * same(x, y),
            'user-gram': lambda x, y: v + np.dot(x[:2], y[:2]) ** 2, 'one-plus-distance': lambda x, y: 1 + v * np.sum((x - y) ** 2),
            'minus-delta': lambda x, y: 1.0 if same(x, y) else -max(v, .6), 'minus-linear': lambda x, y: -np.dot(x, y),
            'far': lambda x, y: 1.0 if same(x, y) else 1.0 + v}
    if kind in user:
        return Given(user[kind]) if p % 2 else kmb.KernelFromCallable(user[kind], name='wrapped')
    from kernelmethods import numeric_kernels as nk
    return {'linear': lambda: nk.LinearKernel(), 'poly': lambda: nk.PolyKernel(degree=p, gamma=v, b=[0.0, 1.0, 2.5][p % 3]),
            'gaussian': lambda: nk.GaussianKernel(sigma=v), 'laplacian': lambda: nk.LaplacianKernel(gamma=v), 'chi2': lambda: nk.Chi2Kernel(gamma=v)}[kind]()


def j_kpsd(g):
    r = Run(kernel_of(g['c']['kind'], g['c']['p']).is_psd)
    if r.exc is not None or bool(r.val) != g['e']['psd']:
        return 'is_psd() of kernel %s (%s): %r, expected %s' % (g['c']['kind'], g['c']['p'], r, g['e']['psd'])


def c11(ctx):
    small_and_random(ctx, 'normalize', ctx.pick(400, 6000), hi=ctx.pick('2', '3'))
    small_and_random(ctx, 'normalize2', ctx.pick(400, 6000), hi=ctx.pick('2', '3'))
    large_normalize(ctx, ctx.pick(150, 3000))


def c12(ctx):
    small_and_random(ctx, 'center', ctx.pick(400, 6000), hi=ctx.pick('1', '2'))
    small_and_random(ctx, 'norm', ctx.pick(200, 3000), hi='1')
    for op in ('frob', 'align', 'alignc'):
        small_and_random(ctx, op, ctx.pick(400, 5000), hi=ctx.pick('1', '2'))
    large_center(ctx, ctx.pick(150, 3000))

    def bad(x):
        v = {'list': [[1.0, 0.0], [0.0, 1.0]], 'none': None, 'str': 'a', 'int': 3, 'tuple': ((1.0,),)}[x]
        r = Run(ops.center_km, v)
        if not r.raised(ValueError):
            return 'center_km of a %s: %r' % (x, r)
    replay(ctx, 'center-non-array', ['list', 'none', 'str', 'int', 'tuple'], bad)


def c13(ctx):
    small_and_random(ctx, 'psd', ctx.pick(500, 8000), hi=ctx.pick('2', '3'))
    large_psd(ctx, ctx.pick(400, 6000))
    replay(ctx, 'kernel-functions', enumerate_cases(ctx, 'MatrixCases', {'Ops': '{"kpsd"}'}, label='kernel-functions') * ctx.pick(2, 20), j_kpsd, parallel=True)
