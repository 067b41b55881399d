"""C24: nothing the caller holds is ever modified, against Memory.tla (generates) and MemoryTrace.tla (validates)."""
import hashlib
import warnings

import numpy as np
from scipy.sparse import issparse
from sklearn.base import clone

from kernelmethods import base as kb
from kernelmethods import operations as ops
from kernelmethods import ranking, sampling
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.numeric_kernels import GaussianKernel, PolyKernel
from kernelmethods.utils import min_max_scale

from . import kernels, tlc
from .km_checks import c24_km

# the order of Memory!GivenAll
GIVEN = ['vec', 'vec', 'cvec', 'cvec', 'samp', 'samp', 'lab', 'rlab', 'wts', 'wts', 'swts', 'plist', 'plist', 'idx', 'idx',
         'mat', 'mat', 'dvec', 'dvec', 'kml', 'vals', 'km', 'km', 'km', 'set', 'set', 'pre', 'con', 'comp', 'est', 'rest', 'est', 'rest',
         'mat', 'mat', 'dvec', 'out']
DATA = {'vec', 'cvec', 'samp', 'lab', 'rlab', 'wts', 'swts', 'plist', 'idx', 'mat', 'dvec', 'kml', 'vals', 'out'}
FORMS = ['plain', 'fortran', 'strided', 'column', 'row', 'int', 'f32', 'list', 'tuple', 'protected', 'wide', 'object', 'subclass']
KF = [{'name': 'gaussian', 'params': {'sigma': 1.3}}, {'name': 'poly', 'params': {'degree': 2}}, {'name': 'linear'},
      {'name': 'laplacian'}, {'name': 'hadamard', 'params': {'alpha': 1}}, {'name': 'chi2', 'params': {'gamma': .2}}, {'name': 'mixed'},
      {'name': 'sigmoid', 'params': {'gamma': .01}}]


class Sub(np.ndarray):
    """A subclass of ndarray, as users get from other libraries."""


def digest(x, seen=()):
    if issparse(x):
        return ('sparse', x.shape, x.format, hashlib.md5(x.toarray().tobytes()).hexdigest())
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('objects', x.shape, tuple(digest(v) for v in x.ravel()))
        own = (x.shape, x.strides, str(x.dtype), x.flags.writeable, hashlib.md5(np.ascontiguousarray(x).tobytes()).hexdigest())
        b = x.base                                       # the memory behind a view is the caller's as well
        if isinstance(b, np.ndarray) and b.size < 4000:
            own += (b.shape, hashlib.md5(np.ascontiguousarray(b).tobytes()).hexdigest())
        return own
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(digest(v) for v in x)
    if isinstance(x, dict):
        return tuple((repr(k), digest(v)) for k, v in x.items())
    if isinstance(x, (int, float, str, bool, complex, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ('object', id(x))


def show(a, form, is_vec=False, mat=False):
    a = np.asarray(a)
    if a.dtype.kind not in 'fiu' and form in ('int', 'f32', 'object'):
        form = 'plain'
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'strided':
        big = np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype) if a.dtype.kind != 'U' else np.zeros((2 * a.shape[0],) + a.shape[1:], dtype=a.dtype)
        big[::2] = a
        return big[::2]
    if form == 'wide':
        big = np.empty(a.shape[:-1] + (a.shape[-1] + 3,), dtype=a.dtype)
        big[...] = a.ravel()[0]
        big[..., 1:-2] = a
        return big[..., 1:-2]
    if form == 'column' and is_vec:
        return a.reshape(-1, 1).copy()
    if form == 'row' and is_vec:
        return a.reshape(1, -1).copy()
    if form == 'int' and not mat:
        return np.rint(np.asarray(a, dtype=float) * 2).astype(np.int64)
    if form == 'f32':
        return a.astype(np.float32)
    if form == 'list':
        return a.tolist()
    if form == 'tuple':
        return tuple(tuple(r) if isinstance(r, list) else r for r in a.tolist())
    if form == 'protected':
        a = a.copy()
        a.flags.writeable = False
        return a
    if form == 'object' and is_vec:
        return a.astype(object)
    if form == 'subclass':
        return a.copy().view(Sub)
    return a.copy()


class World:
    def __init__(self, scn):
        rs = np.random.RandomState(scn['seed'])
        f = scn['forms']
        n, d = scn['n'], 3
        kf = [KF[i] for i in scn['kf']]
        pos = any(k['name'] in ('chi2', 'hadamard') for k in kf) or scn['pos']
        mk = (lambda *s: rs.rand(*s) + .05) if pos else (lambda *s: rs.randn(*s) + .1)
        F = lambda a, t, v=False, m=False: show(a, f[t], v, m)
        X, Y = mk(n, d), mk(n, d)
        y = (np.arange(n) % 2)
        sym = lambda A: A @ A.T + np.eye(len(A))
        words = np.array(['red', 'blue', 'b', ''])
        self.kf, self.n = kf, n
        self.km = [kb.KernelMatrix(kernels.build(kf[0]), normalized=False, name='one'),
                   kb.KernelMatrix(kernels.build(kf[1]), normalized=scn['norm'], name='two'),
                   kb.KernelMatrix(kernels.build(kf[2]), normalized=False, name='three')]
        Xa = X.copy()
        self.hidden = Xa                                  # a sample only the library objects refer to
        for k in self.km[:2]:
            k.attach_to(Xa)
        members = [kb.KernelMatrix(kernels.build(k), normalized=scn['norm']) for k in kf[:2]]
        for k in members:
            k.attach_to(Xa)
        held = [members[0].full, members[1].full if scn['held'] else self.km[0].full,
                self.km[0].diagonal, self.km[1].normed_km if scn['held'] else self.km[1].full]
        aset = kb.KernelSet(members, name='s')
        fresh = [kb.KernelMatrix(kernels.build(kf[i]), name='f%d' % i) for i in (0, 1)]
        bucket = sampling.KernelBucket(poly_degree_values=(2,), rbf_sigma_values=(1.0,), laplace_gamma_values=None,
                                       sigmoid_gamma_values=None, sigmoid_offset_values=None)
        if scn['prefit']:
            bucket.attach_to(Xa)
        w = rs.rand(len(aset)) + .1
        comp = [kb.SumKernel, kb.ProductKernel, kb.AverageKernel][scn['comp']](aset)
        if scn['prefit']:
            comp.fit()
        est, rest = KernelMachine(k_func=kernels.build(kf[1])), KernelMachineRegressor(k_func=kernels.build(kf[1]))
        oest, orest = OptimalKernelSVC(k_bucket='light', method='align/corr'), OptimalKernelSVR(k_bucket='light', method='align/corr')
        if scn['prefit']:
            est.fit(X.copy(), y.copy())
            rest.fit(X.copy(), y * 1.5)
        self.objs = [F(mk(d), 'vec', True), F(mk(d), 'vec', True), F(words[rs.randint(4, size=4)], 'cvec', True),
                     F(words[rs.randint(4, size=4)], 'cvec', True), F(X, 'samp'), F(Y, 'samp'), F(y, 'lab'), F(rs.randn(n), 'lab'),
                     F(w, 'wts'), F(rs.rand(len(bucket)) + .1, 'wts'), F(rs.rand(n) + .1, 'swts'), F(np.array([1.0, 2.0, 3.0]), 'plist'),
                     F(np.array([2, 3]), 'plist'), F(np.array([1, 0]), 'idx'), F(np.array([1]), 'idx'), F(sym(rs.randn(n, n)), 'mat', m=True),
                     F(sym(rs.randn(n, 2)), 'mat', m=True), F(rs.rand(n) + .5, 'dvec'), F(rs.rand(n) + .5, 'dvec'), fresh,
                     scn['vals'] and ['p', 'q'] or [[1, 2], {'a': [3]}],
                     *self.km, aset, bucket, kb.KernelMatrixPrecomputed(sym(rs.randn(n, n))), kb.ConstantKernelMatrix(n, 2.5), comp,
                     est, rest, oest, orest, *held]
        self.types = list(GIVEN)
        assert len(self.objs) == len(GIVEN)
        self.first, self.count = [], []
        self.ids = [{} for _ in self.objs]
        self.after()

    def after(self):
        out = []
        while len(self.ids) < len(self.objs):
            self.ids.append({})
        for t, o, ids in zip(self.types, self.objs, self.ids):
            if t not in DATA:
                out.append(0)
                continue
            d = digest(o)
            out.append(ids.setdefault(d, len(ids)))
        return out

    # ------------------------------------------------------------------------------- operations
    def call(self, op, a, var):
        km = lambda i=0: kernels.build(self.kf[(var + i) % len(self.kf)])
        if op.startswith('k_') and op != 'k_psd':
            name = op[2:]
            if name == 'match':
                return MatchCountKernel(return_perc=bool(var % 2))(*a)
            spec = {'name': 'sqdist' if name == 'callable' else name}
            if name == 'hadamard':
                spec['params'] = {'alpha': 1 + var % 3}
            return kernels.build(spec)(*a)
        if op == 'k_psd':
            return km().is_psd
        if op in ('new', 'newnormed'):
            return kb.KernelMatrix(km(), normalized=op == 'newnormed')
        ix = [lambda: a[1], lambda: slice(None), lambda: 0, lambda: slice(0, 2)]
        return {
            'attach': lambda k, s: k.attach_to(s, name_one='mine') if var % 4 == 0 else k.attach_to(s),
            'attach2': lambda k, s, t: k.attach_to(s, sample_two=t),
            'full': lambda k: k.full, 'normed': lambda k: k.normed_km, 'sparse': lambda k: k.full_sparse, 'diagonal': lambda k: k.diagonal,
            'centered': lambda k: k.centered, 'frob': lambda k: k.frob_norm, 'normalize': lambda k: k.normalize(), 'center': lambda k: k.center(),
            'all': lambda k: k[:, :], 'rows': lambda k, i: k[i, ix[var % 4]()], 'cell': lambda k: k[0, 1],
            'arith': lambda k, m: [k + m, k * m, k - m][var % 3],
            'kattr': lambda k, v: k.set_attr('x', v), 'text': lambda k: (str(k), repr(k), len(k), k.attributes()),
            'normalize_km': ops.normalize_km, 'normalize2': ops.normalize_km_2sample, 'center_km': ops.center_km,
            'frobenius_product': ops.frobenius_product, 'frobenius_norm': ops.frobenius_norm,
            'alignment': lambda m, p: ops.alignment_centered(m, p, centered_already=bool(var % 2), value_if_zero_division=0.0),
            'similarity': ops.eval_similarity, 'psd': ops.is_positive_semidefinite, 'correlation': sampling.correlation_km,
            'ideal': sampling.ideal_kernel, 'scale': min_max_scale,
            'pre': kb.KernelMatrixPrecomputed, 'pfull': lambda p: p.full, 'pdiag': lambda p: p.diag,
            'prows': lambda p, i: p[i] if var % 2 else p[i, ix[var % 4]()],
            'const': lambda: kb.ConstantKernelMatrix(self.n, 1.5), 'cfull': lambda p: p.full, 'cdiag': lambda p: p.diag,
            'crows': lambda p, i: p[i, ix[var % 4]()],
            'mkset': lambda q: kb.KernelSet(q), 'append': lambda s, k: s.append(k), 'appendmat': lambda s, m: s.append(m),
            'setattach': lambda s, x: s.attach_to(x), 'take': lambda s, i: s.take(i), 'funcs': lambda s, i: s.get_kernel_funcs(i),
            'extend': lambda s, t: s.extend(t) if s is not t else None,
            'setattr': lambda s, v: s.set_attr('x', v), 'getattr': lambda s: s.get_attr('x', 'none'),
            'sum': kb.SumKernel, 'product': kb.ProductKernel, 'average': kb.AverageKernel,
            'waverage': lambda s, w: kb.WeightedAverageKernel(s, w), 'fit': lambda c: c.fit(),
            'fitw': lambda c, w: c.fit(kernel_weights=w), 'composite': lambda c: c.composite_KM, 'compfull': lambda c: c.full,
            'lincomb': ops.linear_combination, 'lincombn': lambda s, w: ops.linear_combination(s, w, norm_weights=True),
            'bucket': lambda p, q: sampling.KernelBucket(poly_degree_values=q, rbf_sigma_values=p, laplace_gamma_values=p, sigmoid_gamma_values=None,
                                                         sigmoid_offset_values=None),
            'light': lambda: sampling.make_kernel_bucket('light' if var % 2 else 'linear_only'),
            'addparam': lambda s, p: s.add_parametrized_kernels([GaussianKernel, PolyKernel][var % 2], ['sigma', 'degree'][var % 2], p),
            'rankalign': lambda s, y: ranking.rank_kernels(s, y, method='align/corr'),
            'rankcv': self.rankcv, 'find': lambda s, x, y: ranking.find_optimal_kernel(s, x, y, method='align/corr'),
            'pairwise': lambda s: sampling.pairwise_similarity(s), 'pairwisealign': lambda s: sampling.pairwise_similarity(s, metric='align'),
            'machine': lambda: KernelMachine(k_func=km()), 'regressor': lambda: KernelMachineRegressor(k_func=km()),
            'optsvc': lambda s: OptimalKernelSVC(k_bucket=s, method='align/corr'), 'optsvr': lambda s: OptimalKernelSVR(k_bucket=s, method='align/corr'),
            'efit': lambda e, x, y: e.fit(x, y), 'efitw': lambda e, x, y, w: e.fit(x, y, sample_weight=w),
            'rfit': lambda e, x, y: e.fit(x, y), 'rfitw': lambda e, x, y, w: e.fit(x, y, sample_weight=w),
            'predict': lambda e, x: e.predict(x), 'rpredict': lambda e, x: e.predict(x),
            'params': lambda e: (e.get_params(), e.set_params(**e.get_params(deep=False)), repr(e)), 'eclone': clone, 'rclone': clone,
        }[op](*a)

    def rankcv(self, s, y):
        # (libsvm needs very long on kernels that are not normalized)
        t = sampling.KernelBucket(poly_degree_values=(2,), rbf_sigma_values=None, laplace_gamma_values=None, sigmoid_gamma_values=None,
                                  sigmoid_offset_values=None)
        t.attach_to(self.hidden)
        return ranking.rank_kernels(t, y, method='cv_risk', num_folds=2)

    def run(self, prog):
        events = []
        for e in prog:
            args = [self.objs[h - 1] for h in e['args']]
            res = e['res']
            val = None
            if any(self.types[h - 1] == 'void' for h in e['args']):
                out = 'skipped'
            else:
                with warnings.catch_warnings(), np.errstate(all='ignore'):
                    warnings.simplefilter('ignore')
                    try:
                        val, out = self.call(e['op'], args, e.get('var', 0)), 'ok'
                    except Exception as x:      # noqa: refusals are the business of other properties
                        out = type(x).__name__
                        if 'read-only' in str(x) or 'assignment destination' in str(x):
                            out = 'write-refused'
            if res != 'none':
                if out != 'ok':
                    res = 'void'
                self.types.append(res)
                self.objs.append(val)
            events.append({'op': e['op'], 'args': e['args'], 'out': out, 'res': res, 'after': self.after()})
        return {'given': GIVEN, 'events': events}


def _scenario(rng):
    form = rng.choice(FORMS)
    mixed = rng.random() < .5
    types = ('vec', 'cvec', 'samp', 'lab', 'wts', 'swts', 'plist', 'idx', 'mat', 'dvec')
    usual = ['plain', 'fortran', 'strided', 'protected', 'wide', 'subclass']
    f = {t: (rng.choice(FORMS) if mixed else form) for t in types}
    if f['samp'] not in usual and rng.random() < .7:      # most operations take samples as arrays only
        f['samp'] = rng.choice(usual)
    if f['mat'] not in usual and rng.random() < .7:
        f['mat'] = rng.choice(usual)
    return {'seed': rng.randrange(10 ** 6), 'forms': f, 'n': rng.choice([4, 6, 6, 9]), 'kf': rng.sample(range(len(KF)), 3),
            'pos': rng.random() < .3, 'norm': rng.random() < .5, 'held': rng.random() < .6, 'prefit': rng.random() < .6,
            'comp': rng.randrange(3), 'vals': rng.random() < .5}


def _one(item):
    scn, prog = item
    return World(scn).run(prog)


def check_batch(ctx, label, items):
    import multiprocessing
    import os
    with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
        traces = pool.map(_one, items, chunksize=max(1, len(items) // 200))
    r, fails = tlc.validate('MemoryTrace', traces, events=lambda t: len(t['events']))
    ctx.model('MemoryTrace/' + label, r)
    ctx.validated += len(traces)
    done = ctx.notes.setdefault('calls_that_succeeded', {})
    for t in traces:
        for e in t['events']:
            if e['out'] == 'ok':
                done[e['op']] = done.get(e['op'], 0) + 1
    ctx.sample({'label': label, 'program': items[0][1], 'scenario': items[0][0]})
    for f in fails[:5]:
        if 'trace-shape' in f['clauses']:
            raise tlc.MachineryError('malformed trace: %r' % f)
        scn, prog = items[f['trace'] - 1]
        e = traces[f['trace'] - 1]['events'][f['event'] - 1]
        what = [traces_type(traces[f['trace'] - 1], h) + ' #%d' % h for h in f['changed']]
        ctx.violation('%s: %s (call %d of the history, %s) changed %s' % (label, e['op'], f['event'], e['out'], what or 'protected data'),
                      {'scenario': scn, 'program': prog, 'event': e, 'clauses': f['clauses']})


def traces_type(t, h):
    types = list(t['given']) + [e['res'] for e in t['events'] if e['res'] != 'none']
    return types[h - 1] if h <= len(types) else '?'


def c24(ctx):
    rng = ctx.rng
    ctx.model('Memory', tlc.run('Memory', {'MaxCalls': '2'}))
    vary = lambda prog: [dict(e, var=rng.randrange(12)) for e in prog]

    # every operation on every combination of the given objects, in several worlds
    r = tlc.run('Memory', {'MaxCalls': '1'}, cfg='MemoryGen.cfg')
    ctx.model('Memory/one-call', r)
    one = sorted((p for p in r.tagged('GEN') if len(p) == 1), key=repr)
    check_batch(ctx, 'one-call', [(_scenario(rng), vary(p)) for p in one for _ in range(ctx.pick(12, 120))])

    # histories
    progs = tlc.simulate(ctx, 'Memory', {'MaxCalls': '14'}, 'MemoryGen.cfg', ctx.pick(700, 9000), 28)
    check_batch(ctx, 'histories', [(_scenario(rng), vary(p)) for p in progs])
    # the same on the operations that hand out and combine matrices (where aliasing is most likely)
    core = '{"full", "normed", "centered", "diagonal", "all", "rows", "attach", "attach2", "setattach", "sum", "product", "average", ' \
           '"waverage", "fit", "fitw", "composite", "compfull", "lincomb", "normalize_km", "center_km", "pairwise", "rankalign", "pre", ' \
           '"pfull", "pdiag", "cfull", "cdiag", "normalize2", "scale", "appendmat", "alignment"}'
    progs = tlc.simulate(ctx, 'Memory', {'MaxCalls': '14', 'Names': core}, 'MemoryGen.cfg', ctx.pick(500, 6000), 28)
    check_batch(ctx, 'matrices', [(_scenario(rng), vary(p)) for p in progs])
    if ctx.thorough:
        r = tlc.run('Memory', {'MaxCalls': '2'}, cfg='MemoryGen.cfg')
        ctx.model('Memory/two-calls', r)
        two = sorted((p for p in r.tagged('GEN') if len(p) == 2), key=repr)
        ctx.notes['two_call_histories'] = len(two)
        if len(two) > 60000:
            two = rng.sample(two, 60000)
        check_batch(ctx, 'two-calls', [(_scenario(rng), vary(p)) for p in two])
    c24_km(ctx)
