"""C20-C22: the estimators, against Estimators.tla (histories; predictions are symbolic terms evaluated with scikit-learn)."""
import copy
import json
import pickle
import warnings

import numpy as np
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.exceptions import NotFittedError
from sklearn.svm import SVC, SVR
from sklearn.utils import check_array

from kernelmethods import base as kmb
from kernelmethods.algorithms import KernelMachine, KernelMachineRegressor, OptimalKernelSVC, OptimalKernelSVR
from kernelmethods.sampling import KernelBucket

from . import kernels, tlc
from .cases import Run, near, replay
from .ranking import align0, cv_scores

CLASSES = {'KernelMachine': KernelMachine, 'KernelMachineRegressor': KernelMachineRegressor,
           'OptimalKernelSVC': OptimalKernelSVC, 'OptimalKernelSVR': OptimalKernelSVR}
PARAMS = {'KernelMachine': ('k_func', 'learner_id', 'normalized'), 'KernelMachineRegressor': ('k_func', 'learner_id', 'normalized'),
          'OptimalKernelSVC': ('k_bucket', 'method', 'C', 'shrinking', 'tol'),
          'OptimalKernelSVR': ('k_bucket', 'method', 'C', 'epsilon', 'shrinking', 'tol')}
MAKING = ('clone', 'copy', 'share')
REG = ('KernelMachineRegressor', 'OptimalKernelSVR')
KF = [{'name': 'linear'}, {'name': 'gaussian', 'params': {'sigma': .7}}, {'name': 'gaussian', 'params': {'sigma': 3.}},
      {'name': 'poly', 'params': {'degree': 2}}, {'name': 'poly', 'params': {'degree': 3, 'gamma': .5, 'b': .5}},
      {'name': 'laplacian', 'params': {'gamma': .4}}, {'name': 'mixed', 'params': {'w': .7}}, {'name': 'hadamard', 'params': {'alpha': 1}},
      {'name': 'gaussian', 'params': {'sigma': 1., 'skip_input_checks': True}}]


# ------------------------------------------------------------------------------------------------ worlds
def data(scn):
    """Training sets, weights and test sets of a scenario."""
    rs = np.random.RandomState(scn['seed'])
    reg = scn['cls'] in REG
    tr, wt = {}, {}
    for d in (1, 2):
        n = scn['n'][d - 1]
        X = rs.randn(n, scn['d']) * scn['scale'] + .1
        if scn['form'] == 'int':
            X = np.rint(X * 2)
            X[:, 0] += (X[:, 0] == 0)                         # no zero vector
        f = X @ rs.randn(scn['d'])
        f = f / (np.std(f) + 1e-9) + .3 * rs.randn(n)
        if reg:
            y = f if scn['labels'] != 'int' else np.rint(3 * f).astype(int)
        else:
            k = scn['classes']
            c = np.digitize(f, np.quantile(f, np.arange(1, k) / k))
            c[:2 * k] = np.arange(2 * k) % k
            if k == 2 and d == 2:
                c = 1 - c
            words, q = ['no', 'maybe', 'certainly'], 0
            if d == 2 and scn.get('relabel'):                 # other labels, as many as before
                words, q = ['bad', 'neutral', 'good'], 3
            y = {'int': lambda: c + q, 'pm': lambda: 2 * c - 1, 'str': lambda: np.array(words)[c],
                 'float': lambda: c * 2.0 + q, 'neg': lambda: -3 * c - 1, 'bool': lambda: c > 0, 'i8': lambda: (c + q).astype(np.int8)}[scn['labels']]()
        tr[d] = (X, y)
        wt[d] = rs.uniform(.1, 5, n) * (rs.rand(n) > .1) + .01
    ts = {}
    for t in (1, 2, 3):
        kind = scn['tests'][t - 1]
        m = {'one': 1, 'few': 4, 'n1': scn['n'][0], 'n2': scn['n'][1], 'X1': 0, 'X2': 0, 'near1': 0, 'near2': 0, 'dup': 5, 'many': 60 + 2 * int(rs.choice([3, 20, 45, 100])),
             'manydup': 90}[kind]
        T = rs.randn(max(m, 1), scn['d']) * scn['scale'] + .1
        if kind in ('X1', 'X2'):
            T = np.array(tr[int(kind[1])][0])[::-1].copy()
        if kind in ('near1', 'near2'):                        # close to the training points, in their order
            T = np.array(tr[int(kind[-1])][0]) + rs.choice([1e-9, 1e-3, .04])
        if kind == 'dup':
            T[1:] = T[0]
        if kind == 'manydup':
            T[::3] = T[1]
        if scn['form'] == 'int':
            T[:, 0] += (np.rint(T[:, 0]) == 0)
        ts[t] = T
    return tr, wt, ts


def shown(A, form):
    """The same numbers as the user may hold them."""
    if form == 'list':
        return np.asarray(A).tolist()
    if form == 'f':
        return np.asfortranarray(A)
    if form == 'f32':
        return np.asarray(A, dtype=np.float32)
    if form == 'int':
        return np.asarray(np.rint(A), dtype=np.int64)
    if form == 'strided':
        b = np.zeros((2 * len(A), 2 * A.shape[1]))
        b[::2, ::2] = A
        return b[::2, ::2]
    return np.array(A)


def plain(A, form):
    """What scikit-learn makes of it (also its layout in memory: rounding errors depend on it)."""
    return check_array(shown(A, form))


def bucket(v):
    """A fresh bucket of the described kernels."""
    b = KernelBucket(normalize_kernels=v['normed'], poly_degree_values=v['deg'], rbf_sigma_values=v['sig'], laplace_gamma_values=v['lap'],
                     sigmoid_gamma_values=None, sigmoid_offset_values=None)
    for s in v.get('extra', ()):
        b.append(kmb.KernelMatrix(kernels.build(s), normalized=v['normed']))
    return b


LIGHT = {'normed': True}


def value(name, v, scn=None):
    """Constructor argument of a value description."""
    if name == 'k_func':
        return kernels.build(v)
    if name == 'k_bucket' and isinstance(v, dict):
        return bucket(v)
    return v


class World:
    def __init__(self, scn):
        self.scn = scn
        self.tr, self.wt, self.ts = data(scn)
        # one object per value: the user's own
        self.own = {n: [value(n, v) for v in vs] for n, vs in scn['vals'].items()}
        self.fixed = {n: value(n, v) for n, v in scn.get('fixed', {}).items()}
        self.cache, self.state = {}, {'e': False}
        rs = np.random.RandomState(scn['seed'] + 1)
        self.pre = {}
        for n, vs in scn['vals'].items():
            for i, v in enumerate(vs):
                if n == 'k_bucket' and isinstance(v, dict) and v.get('attached'):
                    U = rs.randn(scn['n'][0], scn['d'])
                    self.own[n][i].attach_to(U)
                    self.pre[i] = U
        self.marks = {i: self.mark(b) for i, b in enumerate(self.own.get('k_bucket', [])) if isinstance(b, KernelBucket)}

    def mark(self, b):
        return [id(k) for k in b], [str(k.kernel) for k in b], [k.num_samples for k in b], b.num_samples

    def bucket_touched(self):
        for i, m in self.marks.items():
            b = self.own['k_bucket'][i]
            now = self.mark(b)
            if now != m:
                return "the user's bucket was modified: %r, before %r" % (now[1:], m[1:])
            if i in self.pre and self.scn['how'][0] % 3 == 0:
                U, v = self.pre[i], self.scn['vals']['k_bucket'][i]
                for k, f in zip(b, bucket(v)):
                    f.attach_to(U)
                    if not near(k.full, f.full):
                        return "a member of the user's bucket is attached to another sample"

    def par(self, p):
        d = {n: self.own[n][i - 1] for n, i in p.items()}
        d.update(self.fixed)
        return d

    def desc(self, p):
        d = {n: self.scn['vals'][n][i - 1] for n, i in p.items()}
        d.update(self.scn.get('fixed', {}))
        return d

    # ---- value of a prediction term
    def gram(self, spec, normed, X, Y=None):
        k = kmb.KernelMatrix(kernels.build(spec), normalized=normed)
        k.attach_to(X, sample_two=Y) if Y is not None else k.attach_to(X)
        F = np.array(k.full, dtype=float)
        Z = X if Y is None else Y
        # sanity: what a fresh KernelMatrix gives is the kernel of the points
        i, j = len(X) - 1, len(Z) // 2
        w = kernels.reference(spec, X[i], Z[j])
        if normed:
            w /= np.sqrt(kernels.reference(spec, X[i], X[i]) * kernels.reference(spec, Z[j], Z[j]))
        if not near(F[i, j], w, 1e-7, 1e-9):
            raise Wrong('kernel matrix of %r is wrong' % spec)
        return F

    def term(self, t):
        key = json.dumps(t, sort_keys=True)
        if key not in self.cache:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                self.cache[key] = self.evaluate(t)
        return self.cache[key]

    def trained(self, f):
        key = json.dumps(f, sort_keys=True)
        if key not in self.cache:
            X, y = self.tr[f['d']]
            self.cache[key] = self.fitted(f['par'], plain(X, self.scn['form']), y, self.wt[f['d']] if f['w'] else None)
        return self.cache[key]

    def fitted(self, par, X, y, weight=None):
        """What a fresh estimator learns from X (as scikit-learn shows it to the code), y."""
        if self.scn['cls'] in REG:
            y = np.asarray(y, dtype=float)
        p = self.desc(par)
        if self.scn['cls'].startswith('Kernel'):
            spec, normed = p['k_func'], p.get('normalized', False)
            model = (SVR if self.scn['cls'] in REG else SVC)(kernel='precomputed', C=10)
        else:
            spec, normed = self.choose(p, X, y)
            kw = {n: p[n] for n in ('C', 'shrinking', 'tol', 'epsilon') if n in p}
            model = (SVR if self.scn['cls'] in REG else SVC)(kernel='precomputed', **kw)
        if spec is not None:
            model.fit(self.gram(spec, normed, X), y, sample_weight=weight)
        return spec, normed, X, model

    def predicted(self, fitted, T):
        spec, normed, X, model = fitted
        if spec is None:
            return None
        return np.concatenate([model.predict(self.gram(spec, normed, T[i:i + 1], X)) for i in range(len(T))])

    def choose(self, p, X, y):
        v = p['k_bucket']
        specs, normed = bucket_specs(v), (True if isinstance(v, str) else v['normed'])
        if len(specs) == 1:
            return specs[0], normed
        full = [self.gram(s, normed, X) for s in specs]
        if p['method'].lower() == 'cv_risk':
            sc = cv_scores(full, y, 'SVR' if self.scn['cls'] in REG else 'SVC', 3)
            sc = np.array(sc)
            if np.isnan(sc).any():
                return None, normed
        else:
            sc = np.array([align0(K, np.outer(y, y)) for K in full])
        best = int(np.argmax(sc))
        for k, s in enumerate(sc):
            if k != best and abs(s - sc[best]) < 1e-8 and specs[k] != specs[best] and (p['method'] != 'cv_risk' or s != sc[best]):
                return None, normed                      # within rounding: either may be chosen
        return specs[best], normed

    def evaluate(self, t):
        """Row by row."""
        return self.predicted(self.trained(t['f']), plain(self.ts[t['t']], self.scn['form']))


class Wrong(Exception):
    pass


def bucket_specs(v):
    if v == 'linear_only':
        return [{'name': 'linear'}]
    if isinstance(v, str):
        raise KeyError(v)
    return [{'name': 'linear'}] + [{'name': 'poly', 'params': {'degree': x}} for x in v['deg'] or ()] + \
        [{'name': 'gaussian', 'params': {'sigma': x}} for x in v['sig'] or ()] + \
        [{'name': 'laplacian', 'params': {'gamma': x}} for x in v['lap'] or ()] + list(v.get('extra', ()))


def same_value(a, b):
    """Equal parameter values; objects by what they are."""
    if a is b:
        return True
    if isinstance(a, kmb.BaseKernelFunction) or isinstance(b, kmb.BaseKernelFunction):
        return type(a) is type(b) and str(a) == str(b)
    if isinstance(a, KernelBucket) or isinstance(b, KernelBucket):
        return isinstance(a, KernelBucket) and isinstance(b, KernelBucket) and [str(k.kernel) for k in a] == [str(k.kernel) for k in b]
    return type(a) is type(b) and a == b


def params_wrong(w, e, par, exact, what):
    cls = w.scn['cls']
    for deep in (True, False):
        r = Run(e.get_params, deep=deep)
        if r.exc is not None:
            return '%s: get_params: %r' % (what, r)
        if set(r.val) != set(PARAMS[cls]):
            return '%s: get_params reports %r, not %r' % (what, sorted(r.val), sorted(PARAMS[cls]))
        want = w.par(par)
        for n in PARAMS[cls]:
            if n in want and not (r.val[n] is want[n] if exact and isinstance(want[n], (kmb.BaseKernelFunction, KernelBucket)) else same_value(r.val[n], want[n])):
                return '%s: get_params reports %s=%r instead of %r' % (what, n, r.val[n], want[n])


def run_scenario(scn):
    try:
        return _run(scn)
    except Wrong as e:
        return str(e)


def _run(scn):
    w = World(scn)
    cls, form = CLASSES[scn['cls']], scn['form']
    slot, exact = {}, {}
    check = scn['prop']
    for p, e in enumerate(scn['hist']):
        o, how = e['op'], scn['how'][p]
        if o == 'new':
            kw = w.par(e['par'])
            slot['e'], exact['e'] = cls(**kw), True
            continue
        s = slot[e['s']]
        what = 'call %d (%s)' % (p, o)
        if o == 'fit':
            X, y = w.tr[e['d']]
            y_ = y.tolist() if form == 'list' and how % 2 and y.dtype != np.int8 else y.copy()
            a = {'sample_weight': (w.wt[e['d']] if how % 2 else w.wt[e['d']].tolist())} if e['w'] else {}
            r = Run(s.fit, shown(X, form), y_, **a)
            if r.exc is not None:
                return '%s: unexpected %r' % (what, r)
            if r.val is not s:
                return '%s did not return the estimator' % what
            w.state[e['s']] = True
            if is_classifier(s) and check != 'C22' and \
                    np.asarray(getattr(s, 'classes_', [])).tolist() != np.unique(y_).tolist():
                return '%s: classes_ is %r for the labels %r' % (what, getattr(s, 'classes_', None), np.unique(y_).tolist())
        elif o == 'predict':
            r = Run(s.predict, shown(w.ts[e['t']], form))
            if e['out'] != 'ok':
                if not r.raised(NotFittedError):
                    return '%s before fit: %r' % (what, r)
            elif r.exc is not None:
                return '%s: unexpected %r' % (what, r)
            else:
                want = w.term(e['term'])
                y = w.tr[e['term']['f']['d']][1]
                got = r.val
                if np.shape(got) != (len(w.ts[e['t']]),):
                    return '%s: shape %r for %d rows' % (what, np.shape(got), len(w.ts[e['t']]))
                if check != 'C22':
                    if scn['cls'] in REG:
                        if want is not None and not near(got, want, 1e-6, 1e-7 * (1 + np.abs(want).max())):
                            return '%s: %r, expected %r' % (what, got.tolist(), want.tolist())
                    else:
                        lab = y.dtype if not (form == 'list' and y.dtype == np.int8) else np.asarray(y.tolist()).dtype
                        if np.asarray(got).dtype.kind != lab.kind:
                            return '%s: labels of type %s instead of %s' % (what, np.asarray(got).dtype, lab)
                        if not set(np.asarray(got).tolist()) <= set(y.tolist()):
                            return '%s: %r are no training labels' % (what, got)
                        if want is not None and np.asarray(got).tolist() != np.asarray(want, dtype=lab).tolist():
                            return '%s: %r, expected %r' % (what, got.tolist(), want.tolist())
        elif o == 'set':
            r = Run(s.set_params, **{n: w.own[n][i - 1] for n, i in e['ch'].items()})
            if r.exc is not None or r.val is not s:
                return '%s: set_params returned %r' % (what, r)
            for n in e['ch']:
                pass
        elif o == 'clone':
            r = Run(clone, s)
            if r.exc is not None or type(r.val) is not cls or r.val is s:
                return '%s: %r' % (what, r)
            slot[e['r']], exact[e['r']] = r.val, False
            w.state[e['r']] = False
        elif o == 'copy':
            r = Run(copy.deepcopy if e['how'] == 'deepcopy' else (lambda x: pickle.loads(pickle.dumps(x))), s)
            if r.exc is not None or type(r.val) is not cls or r.val is s:
                return '%s: %r' % (what, r)
            slot[e['r']], exact[e['r']] = r.val, False
        elif o == 'tool':
            from . import tooling
            bad = tooling.use(w, s, e, how)
            if bad:
                return '%s %s: %s' % (what, e['kind'], bad)
        elif o in ('badfit', 'badpredict', 'latefit'):
            from . import rejects
            bad = rejects.use(w, s, e, how)
            if bad:
                return '%s %s: %s' % (what, e['kind'], bad)
        elif o == 'share':
            slot[e['r']], exact[e['r']] = cls(**s.get_params()), True
        if check in ('C22', 'C27', 'C28', 'C29') or (check == 'C21' and how % 4 == 0):
            bad = params_wrong(w, s, e['par'], False, what)
            if bad is None and o in MAKING:
                bad = params_wrong(w, slot[e['r']], e['par'], False, what + ', the new one')
            if bad:
                return bad
            for q in slot.values():
                if is_classifier(q) != (scn['cls'] not in REG) or is_regressor(q) != (scn['cls'] in REG):
                    return '%s: not recognized by scikit-learn as what it is' % what
        if check == 'C21':
            bad = w.bucket_touched()
            if bad:
                return '%s: %s' % (what, bad)
    if check in ('C22', 'C27', 'C28', 'C29'):                               # the others were not affected
        last = {}
        for e in scn['hist']:
            last[e.get('r') if e['op'] in MAKING else e['s']] = e['par']
        for k, q in slot.items():
            bad = params_wrong(w, q, last[k], False, 'in the end, ' + k)
            if bad:
                return bad


# ------------------------------------------------------------------------------------------------ generating
def histories(ctx, names, level, limit, walks, keep, weighted=True, tests=3, depth=9, copies=False, tools=(), bad=((), (), ())):
    con = {**{k: '{%s}' % ', '.join('"%s"' % t for t in v) for k, v in zip(('BadFits', 'LateFits', 'BadTests'), bad)},
           'Tools': '{%s}' % ', '.join('"%s"' % t for t in tools), 'Copies': 'TRUE' if copies else 'FALSE',
           'Names': '{%s}' % ', '.join('"%s"' % n for n in names), 'Weighted': '{0, 1}' if weighted else '{0}',
           'Tests': '{%s}' % ', '.join(str(i + 1) for i in range(tests))}
    r = tlc.run('Estimators', dict(con, MaxLevel=str(level)), cfg='EstimatorsGen.cfg', workers=1)
    ctx.model('Estimators/generate %s' % ','.join(names), r)
    hs = sorted((h for h in r.tagged('GEN') if keep(h)), key=str)
    total = len(hs)
    if total > limit:
        hs = ctx.rng.sample(hs, limit)
    ctx.notes.setdefault('model_transitions_replayed', []).append('%d of %d' % (len(hs), total))
    for seed in range(1):
        ws = tlc.simulate(ctx, 'Estimators', dict(con, MaxLevel='100'), 'EstimatorsGen.cfg', walks, depth)
        hs += ws
    return hs


def base_scenario(ctx, prop, cls, hist, vals, fixed=None, labels=None, classes=None):
    rng = ctx.rng
    n = rng.choice([(12, 15), (14, 14), (15, 10), (9, 18)])
    if prop == 'C20' and rng.random() < .02:
        n = rng.choice([(70, 40), (45, 66)])
    return {'prop': prop, 'cls': cls, 'hist': hist, 'seed': rng.randrange(10 ** 6), 'n': n, 'd': rng.choice([1, 2, 3, 5]), 'scale': rng.choice([1., 1., .5, 2.]),
            'form': rng.choice(['c', 'c', 'list', 'f', 'f32', 'int', 'strided']),
            'labels': labels or rng.choice(['int', 'int', 'pm', 'str', 'float', 'neg', 'bool', 'i8']), 'classes': classes or rng.choice([2, 2, 3]),
            'tests': rng.choices(['one', 'few', 'n1', 'n2', 'X1', 'X2', 'dup', 'near1', 'near2'] * 3 + ['many', 'manydup'], k=3), 'vals': vals, 'fixed': fixed or {},
            'relabel': rng.random() < .5, 'how': [rng.randrange(12) for _ in hist]}


def tidy(s):
    if s['classes'] == 3 and s['labels'] == 'bool':
        s['labels'] = 'str'
    return s


def c20(ctx):
    ctx.model('Estimators', tlc.run('Estimators'))
    hs = histories(ctx, ['k_func', 'normalized'], ctx.pick(5, 6), ctx.pick(900, 8000), ctx.pick(500, 5000), lambda h: h[-1]['op'] == 'predict')
    scns = []
    for h in hs:
        for cls in ('KernelMachine', 'KernelMachineRegressor'):
            kf = ctx.rng.sample(KF, 2)
            nz = ctx.rng.choice([[True, False], [False, True]])
            fixed = {}
            if ctx.rng.random() < .3:
                fixed = {'learner_id': ctx.rng.choice(['SVC', 'svm', 'SVM']) if cls == 'KernelMachine' else ctx.rng.choice(['SVR', 'svr'])}
            s = tidy(base_scenario(ctx, 'C20', cls, h, {'k_func': kf, 'normalized': nz}, fixed))
            if s['form'] in ('f32', 'int') and KF[-1] in kf:  # skip_input_checks: float64 data only
                s['form'] = 'c'
            scns.append(s)
    replay(ctx, 'histories', scns, run_scenario, parallel=True)
    replay(ctx, 'defaults', [{'cls': c, 'seed': ctx.rng.randrange(10 ** 6)} for c in ('KernelMachine', 'KernelMachineRegressor') for _ in range(ctx.pick(10, 60))], j_default)


def j_default(c):
    """Constructor defaults: Gaussian kernel (sigma 2), no normalization."""
    rs = np.random.RandomState(c['seed'])
    X, T = rs.randn(14, 3), rs.randn(5, 3)
    y = X[:, 0] + .2 * rs.randn(14)
    if c['cls'] == 'KernelMachine':
        y = (y > np.median(y)).astype(int)
    e = CLASSES[c['cls']]()
    if not Run(e.predict, T).raised(NotFittedError):
        return 'predict before fit does not raise NotFittedError'
    e.fit(X, y)
    g = {'name': 'gaussian', 'params': {'sigma': 2.0}}

    def K(A, B):
        k = kmb.KernelMatrix(kernels.build(g), normalized=False)
        k.attach_to(A, sample_two=B) if B is not None else k.attach_to(A)
        return np.array(k.full)
    m = (SVC if c['cls'] == 'KernelMachine' else SVR)(kernel='precomputed', C=10).fit(K(X, None), y)
    if not near(e.predict(T), m.predict(K(T, X)), 1e-7, 1e-9):
        return '%s() differs from an SVM on the Gaussian kernel' % c['cls']


BUCKETS = [{'normed': True, 'deg': [2], 'sig': None, 'lap': None}, {'normed': False, 'deg': None, 'sig': [.5, 3.], 'lap': None},
           {'normed': True, 'deg': [2, 3], 'sig': [1.], 'lap': [.3]}, {'normed': False, 'deg': None, 'sig': None, 'lap': [1.]}, 'linear_only',
           {'normed': True, 'deg': None, 'sig': [1.], 'lap': [.2], 'attached': True}, {'normed': False, 'deg': [2], 'sig': [2.], 'lap': None, 'attached': True},
           {'normed': True, 'deg': None, 'sig': [.3], 'lap': None, 'extra': [{'name': 'mixed', 'params': {'w': .5}}]},
           {'normed': False, 'deg': None, 'sig': [1.], 'lap': None, 'extra': [{'name': 'gaussian', 'params': {'sigma': 1.}}, {'name': 'mixed'}]}]


def c21(ctx):
    ctx.model('Estimators', tlc.run('Estimators'))
    hs = histories(ctx, ['k_bucket', 'C'], ctx.pick(5, 6), ctx.pick(500, 5000), ctx.pick(200, 2500), lambda h: h[-1]['op'] == 'predict')
    scns, rng = [], ctx.rng
    for i, h in enumerate(hs):
        for cls in ('OptimalKernelSVC', 'OptimalKernelSVR'):
            bs = copy.deepcopy(rng.sample(BUCKETS, 2))
            fixed = {'method': 'align/corr'}
            if rng.random() < .08:                            # (expensive)
                fixed['method'] = 'cv_risk'
                for b in bs:
                    if isinstance(b, dict):
                        b['extra'], b['normed'] = [], True
                        b['deg'] = (b['deg'] or [])[:1] or None
            if rng.random() < .5:
                fixed['shrinking'] = rng.choice([True, False])
            if rng.random() < .5:
                fixed['tol'] = rng.choice([1e-3, 1e-5, 1e-2])
            if cls == 'OptimalKernelSVR' and rng.random() < .7:
                fixed['epsilon'] = rng.choice([.01, .1, .5])
            lab = None
            if cls == 'OptimalKernelSVC':
                lab = rng.choice(['int', 'pm', 'float', 'neg', 'i8']) if fixed['method'] != 'cv_risk' else rng.choice(['int', 'pm', 'float', 'str'])
            s = base_scenario(ctx, 'C21', cls, h, {'k_bucket': bs, 'C': rng.choice([[1.0, 100.0], [.1, 10.0], [5.0, .5]])}, fixed, lab)
            if any(isinstance(b, dict) and b.get('attached') for b in bs):
                s['n'] = (14, 14)                             # a bucket keeps its number of samples
            if cls == 'OptimalKernelSVR':
                s['labels'] = rng.choice(['float', 'int'])
            scns.append(tidy(s))
    replay(ctx, 'histories', scns, run_scenario, parallel=True)
    bad = [None, 5, 'all', '', [1, 2], 3.5, 'Exhaustiv', {'a': 1}, 'kernel']
    replay(ctx, 'invalid-buckets', [{'cls': c, 'i': i, 'm': m} for c in ('OptimalKernelSVC', 'OptimalKernelSVR') for i in range(len(bad) + 2)
                                    for m in ('cv_risk', 'align/corr')], lambda c: j_badbucket(c, bad))
    replay(ctx, 'strategies', [{'cls': c, 's': s, 'seed': ctx.rng.randrange(10 ** 6)} for c in ('OptimalKernelSVC', 'OptimalKernelSVR')
                               for s in ('light', 'Light', 'linear_only', 'LINEAR_ONLY', 'exhaustive') for _ in range(ctx.pick(2, 12))], j_strategy, parallel=True)


def j_badbucket(c, bad):
    rs = np.random.RandomState(3)
    X, y = rs.randn(12, 2), np.arange(12) % 2
    b = bad[c['i']] if c['i'] < len(bad) else [kmb.KernelMatrix(kernels.build({'name': 'linear'})), kernels.build({'name': 'linear'})][c['i'] - len(bad)]
    r = Run(lambda: CLASSES[c['cls']](k_bucket=b, method=c['m']).fit(X, y))
    if not r.raised(ValueError):
        return '%s(k_bucket=%r).fit: %r instead of ValueError' % (c['cls'], b, r)


STRAT = {'linear_only': [], 'light': [('poly', 'degree', (2, 3)), ('gaussian', 'sigma', (.125, .5, 2)), ('laplacian', 'gamma', (.125, .5, 2)),
                                      ('sigmoid', 'gamma', (.125, .5, 2, 8, 32)), ('sigmoid', 'offset', (1.,))],
         'exhaustive': [('poly', 'degree', (2, 3, 4)), ('gaussian', 'sigma', tuple(2. ** e for e in range(-5, 6, 2))),
                        ('laplacian', 'gamma', tuple(2. ** e for e in range(-5, 7, 2))), ('sigmoid', 'gamma', tuple(2. ** e for e in range(-5, 7, 2))),
                        ('sigmoid', 'offset', (-2., 1., 2.))]}


def j_strategy(c):
    """Buckets named by strategy, with the alignment of every candidate."""
    rs = np.random.RandomState(c['seed'])
    X, T = np.abs(rs.randn(13, 2)) + .3, np.abs(rs.randn(4, 2)) + .3
    y = X[:, 0] - X[:, 1] + .2 * rs.randn(13)
    reg = c['cls'] in REG
    if not reg:
        y = (y > np.median(y)).astype(int) * 2 - 1
    specs = [{'name': 'linear'}] + [{'name': k, 'params': {p: v}} for k, p, vs in STRAT[c['s'].lower()] for v in vs]
    full = []
    for s in specs:
        K = np.array([[kernels.reference(s, a, b) for b in X] for a in X])
        d = np.diag(K)
        with np.errstate(all='ignore'):
            full.append(K / np.sqrt(np.outer(d, d)) if (d > 1e-8).all() else None)
    sc = [-2 if K is None else align0(K, np.outer(y, y)) for K in full]
    if any(K is None for K in full):
        return None
    best = int(np.argmax(sc))
    if sum(1 for k, s in enumerate(sc) if abs(s - sc[best]) < 1e-7 and specs[k] != specs[best]):
        return None
    e = CLASSES[c['cls']](k_bucket=c['s'], method='align/corr')
    r = Run(lambda: e.fit(X, y).predict(T))
    if r.exc is not None:
        return '%s(k_bucket=%r): %r' % (c['cls'], c['s'], r)

    def K(A, B):
        k = kmb.KernelMatrix(kernels.build(specs[best]), normalized=True)
        k.attach_to(A, sample_two=B) if B is not None else k.attach_to(A)
        return np.array(k.full)
    m = (SVR if reg else SVC)(kernel='precomputed', C=1.0).fit(K(X, None), y)
    if not near(r.val, m.predict(K(T, X)), 1e-6, 1e-6):
        return '%s(k_bucket=%r): %r, expected %r with %r' % (c['cls'], c['s'], r, m.predict(K(T, X)).tolist(), specs[best])


def c22(ctx):
    ctx.model('Estimators', tlc.run('Estimators'))
    scns, rng = [], ctx.rng
    for cls in sorted(CLASSES):
        names = list(PARAMS[cls])
        pairs = [names] if len(names) == 3 else [['k_bucket', 'C', 'tol'], ['method', 'shrinking', names[-3]], ['k_bucket', 'method', 'tol']]
        for nm in pairs:
            nm = sorted(set(nm))
            hs = histories(ctx, nm, ctx.pick(3, 4), ctx.pick(130 if len(pairs) > 1 else 350, 2500), ctx.pick(40, 600),
                           lambda h: True, weighted=False, tests=1, depth=10)
            for h in hs:
                vals = {'k_func': rng.sample(KF, 2), 'normalized': rng.choice([[True, False], [False, True]]),
                        'learner_id': rng.choice([['SVC', 'svm'], ['SVM', 'SVC']]) if cls == 'KernelMachine' else ['SVR', 'svr'],
                        'k_bucket': rng.sample([b for b in BUCKETS if b == 'linear_only' or not b.get('attached')], 2), 'method': ['align/corr', 'ALIGN/CORR'],
                        'C': rng.choice([[1.0, 7.5], [1, 2.5], [3, 2], [2.5, 1]]), 'shrinking': rng.choice([[True, False], [False, True]]),
                        'tol': rng.choice([[1e-3, 1e-4], [1, .01]]), 'epsilon': rng.choice([[.1, .25], [0, .3], [1, .5]])}
                fixed = {} if cls.startswith('Kernel') else {'method': 'align/corr', 'k_bucket': 'linear_only'}
                s = base_scenario(ctx, 'C22', cls, h, {n: vals[n] for n in nm}, {n: v for n, v in fixed.items() if n not in nm},
                                  rng.choice(['int', 'pm', 'float']))
                scns.append(tidy(s))
    replay(ctx, 'histories', scns, run_scenario, parallel=True)
    replay(ctx, 'defaults', [{'cls': c} for c in sorted(CLASSES)], j_params_default)
    replay(ctx, 'independence', [{'cls': c, 'seed': ctx.rng.randrange(10 ** 6)} for c in sorted(CLASSES) for _ in range(ctx.pick(15, 200))], j_independent, parallel=True)


DEFAULTS = {'learner_id': {'KernelMachine': 'SVC', 'KernelMachineRegressor': 'SVR'}, 'normalized': False, 'k_bucket': 'exhaustive', 'method': 'cv_risk',
            'C': 1.0, 'shrinking': True, 'tol': 1e-3, 'epsilon': .1}


def j_params_default(c):
    e = CLASSES[c['cls']]()
    p = e.get_params()
    if set(p) != set(PARAMS[c['cls']]):
        return 'get_params reports %r' % sorted(p)
    for n in p:
        if n == 'k_func':
            if str(p[n]) != str(kernels.build({'name': 'gaussian', 'params': {'sigma': 2.0}})):
                return 'default k_func is %s' % p[n]
        elif p[n] != (DEFAULTS[n] if not isinstance(DEFAULTS[n], dict) else DEFAULTS[n][c['cls']]):
            return 'default %s is %r' % (n, p[n])
    q = clone(e).get_params()
    if set(q) != set(p) or not all(same_value(p[n], q[n]) for n in p):
        return 'clone of a default estimator has parameters %r' % q


def j_independent(c):
    """A clone and its original go their own ways, also through the objects they hold."""
    rs = np.random.RandomState(c['seed'])
    reg = c['cls'] in REG
    X, T = rs.randn(12, 2), rs.randn(5, 2)
    y = X[:, 0] + .3 * rs.randn(12)
    if not reg:
        y = (y > np.median(y)).astype(int)
    if c['cls'].startswith('Kernel'):
        e = CLASSES[c['cls']](k_func=kernels.build(KF[c['seed'] % len(KF)]), normalized=bool(rs.randint(2)))
    else:
        e = CLASSES[c['cls']](k_bucket=bucket(BUCKETS[c['seed'] % 4]), method='align/corr')
    e.fit(X, y)
    want = np.array(e.predict(T))
    before = e.get_params()
    text = {n: str(v) for n, v in before.items()}
    f = clone(e)
    if not Run(f.predict, T).raised(NotFittedError):
        return 'a clone of a fitted estimator is fitted'
    if f.get_params().keys() != before.keys() or any(str(f.get_params()[n]) != text[n] for n in text):
        return 'the clone has other parameters'
    held = f.get_params()
    if 'k_func' in held:
        k = held['k_func']
        for a in ('sigma', 'degree', 'gamma', 'alpha'):
            if hasattr(k, a):
                setattr(k, a, getattr(k, a) * 2)
        if hasattr(k, 'params') and 'w' in k.params:
            k.params['w'] = 99
        f.set_params(normalized=not held['normalized'])
    else:
        held['k_bucket'].append(kmb.KernelMatrix(kernels.build({'name': 'laplacian', 'params': {'gamma': 9.}})))
        held['k_bucket'].attach_to(rs.randn(7, 2))
        f.set_params(C=77.0, tol=.5)
    X2 = rs.randn(9, 2)
    y2 = rs.randn(9) if reg else np.array([0, 1] * 4 + [0])
    Run(f.fit, X2, y2)
    now = e.get_params()
    if any(now[n] is not before[n] or str(now[n]) != text[n] for n in text):
        return 'changing a clone changed the parameters of the original: %r' % now
    if not near(e.predict(T), want, 1e-9, 1e-12):
        return 'changing a clone changed the predictions of the original'
