"""C17: kernel buckets, against Bucket.tla."""
import copy

import numpy as np

from kernelmethods import numeric_kernels as nk
from kernelmethods.base import BaseKernelFunction, KernelMatrix, KernelSet
from kernelmethods.config import KernelMethodsException, KernelMethodsWarning
from kernelmethods.sampling import KernelBucket, make_kernel_bucket

from . import kernels, tlc
from .cases import Run, near, replay

KW = ['poly_degree_values', 'rbf_sigma_values', 'laplace_gamma_values', 'sigmoid_gamma_values', 'sigmoid_offset_values']


class Custom(BaseKernelFunction):
    """User-defined kernel function: q * <x, y> + 1."""

    def __init__(self, q=1, skip_input_checks=False):
        super().__init__(name='custom')
        if isinstance(q, BaseException):
            raise q
        self.q = q

    def __call__(self, x, y):
        return self.q * float(np.dot(np.asarray(x, dtype=float), np.asarray(y, dtype=float))) + 1.0

    def __str__(self):
        return 'custom(q={})'.format(self.q)


BADS = {'gaussian': ['abc', None, object(), 'x'], 'hadamard': [0, 0.0, 'x', np.float64(0)],
        'custom': [ValueError('no'), RuntimeError('no'), KeyError('no'), ArithmeticError('no'), KernelMethodsException('no')]}
CLS = {'poly': nk.PolyKernel, 'gaussian': nk.GaussianKernel, 'hadamard': nk.HadamardKernel, 'chi2': nk.Chi2Kernel, 'custom': Custom}


def val(v):
    return 2.0 ** int(v[2:]) if v.startswith('2^') else float(v) if '.' in v else int(v)


def real(vs, k, how):
    """Values of a model list, as an iterable of some kind."""
    if vs == ['none']:
        return None
    if vs == ['string']:
        return '123'
    out = [BADS[k][how % len(BADS[k])] if v == 'bad' else val(v) for v in vs[1:]]
    if 'bad' in vs or not out:
        return (list, tuple)[how % 2](out)
    return [list, tuple, np.array, lambda o: np.array(o, dtype=float)][how % 4](out)


PROBES = [(np.array([.3, .1, .2]), np.array([.25, .15, .2])), (np.array([1., 2., 0.]), np.array([.5, 1.5, .7])),
          (np.array([.01, 0., .02]), np.array([.03, .01, 0.])), (np.array([2., 1., 3.]), np.array([2., 4., 9.])),
          (np.array([.3, .4, .5]), np.array([.6, .1, .1]))]


X = np.array([[1., 1.2, .2], [.3, 1.5, .4], [1.1, .4, 1.]])


def ref(m, x, y):
    k, v = m['k'], m['v']
    if k == 'custom':
        return val(v) * float(np.dot(x, y)) + 1
    return kernels.reference({'name': k, 'params': {m['param']: val(v)} if m['param'] else {}}, x, y)


def same_members(b, want, norm, on, full_from=0):
    """Is the bucket what the model says?"""
    if not isinstance(b, KernelBucket):
        return 'not a KernelBucket: %r' % b
    ms = list(b)
    if len(ms) != len(want) or b.size != len(want):
        return '%d kernels instead of %d' % (len(ms), len(want))
    if (b.num_samples is None) == on:
        return 'num_samples of the bucket: %r' % b.num_samples
    for i, (km, m) in enumerate(zip(ms, want)):
        if not isinstance(km, KernelMatrix):
            return 'member %d is no KernelMatrix' % i
        for x, y in PROBES:
            if not near(km.kernel(x, y), ref(m, x, y), 1e-9, 1e-300):
                return 'member %d is not the %s kernel with %s=%s: %s' % (i, m['k'], m['param'], m['v'], km.kernel)
        if m['param'] and getattr(km.kernel, m['param'], val(m['v'])) != val(m['v']):
            return 'member %d has %s=%r instead of %s' % (i, m['param'], getattr(km.kernel, m['param']), m['v'])
        if not on and km.num_samples is not None:
            return 'member %d is attached already' % i
        if not on and i >= full_from:            # does it normalize?
            km = copy.deepcopy(km)
            km.attach_to(X)
        if on or i >= full_from:
            K = np.array([[ref(m, x, y) for y in X] for x in X])
            d = np.diag(K)
            if norm and (d <= 1e-6).any():
                continue
            r = Run(lambda: km.full)
            if r.exc is not None or km.num_samples != 3 or not near(r.val, K / np.sqrt(np.outer(d, d)) if norm else K, 1e-8, 1e-12):
                return 'member %d (%s %s=%s), attached (normalized=%s): %r instead of %r' % (i, m['k'], m['param'], m['v'], norm, r, K.tolist())


def strategy(s, case):
    return {'lower': s, 'upper': s.upper(), 'mixed': ''.join(ch.upper() if i % 2 == 0 else ch for i, ch in enumerate(s))}[case]


def j_hist(c):
    b = None
    for p, (h, how) in enumerate(zip(c['hist'], c['how'])):
        o = h['op']
        if o['n'] == 'new':
            kw = {k: real(vs, ['poly', 'gaussian', 'laplacian', 'sigmoid', 'sigmoid'][i], how) for i, (k, vs) in enumerate(zip(KW, o['cfg']))}
            r = Run(lambda: KernelBucket(normalize_kernels=o['norm'], skip_input_checks=o['skip'], **kw) if how % 2 or o['skip'] or not o['norm']
                    else KernelBucket(**kw))
            if r.exc is None:
                b = r.val
        elif o['n'] == 'make':
            kw = {} if o['norm'] and not o['skip'] and how % 2 else {'normalize_kernels': o['norm'], 'skip_input_checks': o['skip']}
            r = Run(make_kernel_bucket, strategy(o['strategy'], o['case']), **kw)
            if r.exc is None:
                b = r.val
        elif o['n'] == 'again':
            r = Run(make_kernel_bucket, b, normalize_kernels=o['norm'])
            if r.exc is None and r.val is not b:
                return 'make_kernel_bucket(bucket) returned another object'
        elif o['n'] == 'add':
            r = Run(b.add_parametrized_kernels, CLS[o['k']], o['param'], real(o['vs'], o['k'], how))
        elif o['n'] == 'addwrong':
            r = Run(b.add_parametrized_kernels, [nk.LinearKernel(), dict, 'linear', None, len, KernelMatrix][how % 6], 'gamma', [1, 2])
        elif o['n'] == 'attach':
            r = Run(b.attach_to, X)
        if h['out'] != 'ok':
            cls = {'ValueError': ValueError, 'KernelMethodsException': KernelMethodsException}[h['out']]
            if not r.raised(cls):
                return 'call %d (%s): %r instead of %s' % (p, o['n'], r, h['out'])
            if b is None:
                return None
        elif r.exc is not None:
            return 'call %d (%s): unexpected %r' % (p, o['n'], r)
        w = sum(1 for x in r.warnings if issubclass(x, KernelMethodsWarning))
        if o['n'] in ('new', 'add', 'make') and (w > 0) != (h['warn'] > 0):
            return 'call %d (%s): %d values skipped, %d warnings' % (p, o['n'], h['warn'], w)
        if p == len(c['hist']) - 1 or how % 3 == 0:
            bad = same_members(b, h['ms'], h['norm'], h['on'])
            if bad:
                return 'after call %d (%s): %s' % (p, o['n'], bad)


def j_sibling(c):
    """Buckets requested in the same way are independent: what happens to one of them does not show in the others."""
    kw = {'normalize_kernels': c['norm'], 'skip_input_checks': c['skip']}
    if c['strategy']:
        make = lambda s: make_kernel_bucket(strategy(c['strategy'], s), **kw)
    else:
        make = lambda s: KernelBucket(poly_degree_values=(2, 3), rbf_sigma_values=(1,), laplace_gamma_values=None,
                                      sigmoid_gamma_values=None, sigmoid_offset_values=None, **kw)
    a, b = make('lower'), make(c['case'])
    if a is b or any(x is y for x in a for y in b) or any(x.kernel is y.kernel for x in a for y in b):
        return 'two buckets share members'
    n = len(list(b))
    texts = [str(k.kernel) for k in b]
    for act in c['acts']:
        if act == 'append':
            a.append(KernelMatrix(nk.PolyKernel(degree=4)))
        elif act == 'add':
            a.add_parametrized_kernels(nk.GaussianKernel, 'sigma', [3, 5])
        elif act == 'attr':
            a.set_attr('p', 'x')
        elif act == 'pop':
            a.extend(make('upper'))
    if 'attach' in c['acts']:
        a.attach_to(X)
    for name, q in (('another', b), ('a later', make(c['case']))):
        if len(list(q)) != n or q.size != n or [str(k.kernel) for k in q] != texts:
            return '%s bucket now has members %s' % (name, [str(k.kernel) for k in q])
        if q.num_samples is not None or any(k.num_samples is not None for k in q):
            return '%s bucket is attached to a sample it was not attached to' % name
        if any(v is not None for v in q.get_attr('p', None)):
            return '%s bucket has attributes set on this one' % name


def j_default(c):
    """Constructor defaults are the exhaustive grid; sets and buckets pass through unchanged."""
    ks = KernelSet([KernelMatrix(nk.LinearKernel()), KernelMatrix(nk.PolyKernel())])
    ms = list(ks)
    r = Run(make_kernel_bucket, ks)
    if r.exc is not None or r.val is not ks or len(list(ks)) != 2 or any(a is not b for a, b in zip(ks, ms)):
        return 'make_kernel_bucket(KernelSet): %r' % r
    for b in (KernelBucket(), make_kernel_bucket()):
        bad = same_members(b, c['ms'], True, False)
        if bad:
            return 'default bucket: ' + bad
    a, b = KernelBucket(), KernelBucket()
    if any(x is y for x in a for y in b):
        return 'two buckets share members'


def c17(ctx):
    r = tlc.run('Bucket', {'MaxAdds': '2'})
    ctx.model('Bucket', r)
    r = tlc.run('Bucket', {'MaxAdds': ctx.pick('2', '2'), 'Emitting': 'TRUE'}, workers=1)
    ctx.model('Bucket/generate', r)
    hs = sorted(r.tagged('GEN'), key=str)
    ctx.rng.shuffle(hs)
    short = [h for h in hs if len(h) <= 2]
    long = [h for h in hs if len(h) > 2][:ctx.pick(2500, 10 ** 6)]
    cs = [{'hist': h, 'how': [ctx.rng.randrange(12) for _ in h]} for h in short + long]
    replay(ctx, 'histories', cs, j_hist, parallel=True)
    ex = next(h for h in hs if len(h) == 1 and h[0]['op']['n'] == 'make' and h[0]['op']['strategy'] == 'exhaustive')
    replay(ctx, 'defaults', [{'ms': ex[0]['ms']}], j_default)
    acts = [['append'], ['add'], ['attach'], ['attr'], ['pop'], ['append', 'attach'], ['add', 'attr', 'attach'], ['pop', 'add']]
    replay(ctx, 'siblings', [{'strategy': s, 'norm': n, 'skip': k, 'case': ctx.rng.choice(['lower', 'upper', 'mixed']), 'acts': a}
                             for s in ('exhaustive', 'light', 'linear_only', '') for n in (True, False) for k in (False, True) for a in acts],
           j_sibling, parallel=True)
