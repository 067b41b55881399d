"""Driver and recorder for one KernelMatrix: runs a program of public calls on the real class and
records what the caller can see, in the vocabulary of KernelMatrix.tla / KMTrace.tla."""
import warnings

import collections
import numpy as np
from scipy.sparse import issparse

from kernelmethods.base import KernelMatrix
from kernelmethods.config import KMAccessError, KMNormError, KernelMethodsWarning

from . import kernels

NONE = 99999
VIEWS = ('raw', 'upper', 'normed', 'centered', 'frob')


# --------------------------------------------------------------------------- samples
def make_sample(spec):
    """Deterministic sample from a spec: n, d, seed, kind, dtype, layout."""
    rng = np.random.RandomState(spec['seed'] % (2 ** 31))
    n, d, kind = spec['n'], spec['d'], spec.get('kind', 'normal')
    if kind == 'normal':
        a = rng.randn(n, d)
    elif kind == 'uniform':
        a = rng.rand(n, d)
    elif kind == 'ints':
        a = rng.randint(-9, 10, size=(n, d)).astype(float)
    elif kind == 'counts':
        a = rng.randint(0, 5, size=(n, d)).astype(float)
    elif kind == 'sparse':
        a = rng.rand(n, d) * (rng.rand(n, d) < 0.4)
    elif kind == 'big':
        a = rng.randn(n, d) * 1e4
    elif kind == 'tiny':
        a = rng.randn(n, d) * 1e-2
    elif kind == 'zerorow':
        a = rng.randn(n, d)
        a[rng.randint(n)] = 0.0
    elif kind == 'spike':                        # two far points, opposite, anywhere or late
        a = rng.randn(n, d)
        last = rng.permutation(n) if rng.rand() < .4 else np.arange(n)[::-1]
        for i, v in zip(last[:2], (50.0, -50.0)):
            a[i, 0] = v
    elif kind == 'dups':
        a = rng.randn(n, d)
        for i in range(1, n):
            if rng.rand() < 0.4:
                a[i] = a[rng.randint(i)]
    elif kind == 'cat':
        words = np.array(['a', 'ab', 'abc', '', 'A', 'b', 'red', 'Red', 'blue '])
        a = words[rng.randint(len(words), size=(n, d))]
    else:
        raise KeyError(kind)
    if kind != 'cat':
        dt = spec.get('dtype', 'float64')
        if dt.startswith('uint'):
            a = np.round(np.abs(a) * (1 if kind in ('ints', 'counts') else 9))
        elif dt.startswith('int'):
            a = np.round(a * (1 if kind in ('ints', 'counts') else 9))
        elif dt == 'bool':
            a = a > np.median(a)
        a = a.astype(dt)
    lay = spec.get('layout', 'C')
    if lay == 'F':
        a = np.asfortranarray(a)
    elif lay == 'strided':
        b = np.zeros((2 * n, 3 * d), dtype=a.dtype)
        b[::2, ::3] = a
        a = b[::2, ::3]
    elif lay == 'reversed':
        a = a[::-1].copy()[::-1]
    elif lay == 'readonly':
        a.setflags(write=False)
    return a


# --------------------------------------------------------------------------- references
def raw_matrix(fn, X, Y):
    """Kernel values by direct calls, first argument from X."""
    out = np.empty((len(X), len(Y)))
    for i in range(len(X)):
        for j in range(len(Y)):
            if X is Y and j < i:
                out[i, j] = out[j, i]
            else:
                out[i, j] = fn(np.array(X[i]), np.array(Y[j]))
    return out


def references(raw, dx, dy, two):
    """All whole-matrix views of a raw matrix, from their definitions."""
    with np.errstate(all='ignore'):
        normed = raw / np.sqrt(dx)[:, None] / np.sqrt(dy)[None, :]
        ref = {'raw': raw, 'upper': np.triu(raw), 'normed': normed,
               'frob': float(np.sqrt(np.sum(raw.astype(float) ** 2)))}
        if not two:
            ref['centered'] = (raw - raw.mean(axis=0)[None, :] - raw.mean(axis=1)[:, None] + raw.mean())
    return ref


def close(a, b, rtol=1e-7, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    fin = b[np.isfinite(b)]
    s = (np.max(np.abs(fin)) if fin.size else 0.0) if scale is None else scale
    return bool(np.allclose(a, b, rtol=rtol, atol=1e-9 * s + 1e-300, equal_nan=True))


class Ids:
    """Interns float values: values within rounding error of each other share an id."""

    def __init__(self, arrays):
        v = np.concatenate([np.asarray(a, dtype=float).ravel() for a in arrays] or [np.zeros(0)])
        v = np.unique(v[np.isfinite(v)])
        groups, last = [], None
        for x in v:
            if last is None or abs(x - last) > self.tol(x):
                groups.append([x, x])
            else:
                groups[-1][1] = x
            last = x
        self.lo = np.array([g[0] for g in groups])
        self.hi = np.array([g[1] for g in groups])

    @staticmethod
    def tol(x):
        return 1e-9 * abs(x) + 1e-13

    def one(self, x):
        x = float(x)
        if np.isnan(x):
            return -2
        if np.isinf(x):
            return -3 if x > 0 else -4
        k = int(np.searchsorted(self.lo, x, side='right')) - 1
        best = -1
        for c in (k, k + 1):
            if 0 <= c < len(self.lo) and self.lo[c] - self.tol(x) <= x <= self.hi[c] + self.tol(x):
                best = c
                break
        return best

    def mat(self, a):
        return [[self.one(x) for x in r] for r in np.asarray(a, dtype=float)]


# --------------------------------------------------------------------------- index objects
def index_object(d):
    k, v = d['k'], d.get('v')
    if k == 'int':
        return {'np': np.int64}.get(d.get('as'), int)(v)
    if k == 'slice':
        return slice(*[None if d[x] == NONE else d[x] for x in 'abc'])
    if k == 'list':
        a = d.get('as', 'list')
        if a == 'tuple':
            return tuple(v)
        if a == 'array':
            return np.array(v, dtype=int)
        if a == 'array32':
            return np.array(v, dtype=np.int32)
        if a == 'set':
            return set(v)
        if a == 'range':
            step = v[1] - v[0] if len(v) > 1 else 1
            return range(v[0], v[-1] + (1 if step > 0 else -1), step) if v else range(0)
        if a == 'uint8':
            return np.array(v, dtype=np.uint8)
        if a == 'uint64':
            return np.array(v, dtype=np.uint64)
        if a == 'npints':
            return [np.int16(x) for x in v]
        if a == 'frozenset':
            return frozenset(v)
        if a == 'deque':
            return collections.deque(v)
        if a == 'gen':
            return (x for x in list(v))
        if a == 'iter':
            return dict.fromkeys(v).keys()
        return list(v)
    return BAD_PER_DIM[k]


BAD_PER_DIM = {
    'float': 1.0, 'float0': 0.0, 'npfloat': np.float64(0), 'nan': float('nan'), 'true': True, 'false': False,
    'npbool': np.bool_(True), 'none': None, 'str': 'a', 'strdigit': '0', 'ellipsis': Ellipsis,
    'list-float': [0.0], 'list-mixed': [0, 0.5], 'list-str': ['0'], 'list-none': [None], 'list-bool': [True],
    'nested': [[0]], 'farray': np.array([0.0]),
    'barray': np.array([True]), 'mask': np.array([True, False, True]), 'list-npbool': [np.True_, np.False_], 'list-mixbool': [0, True],
    'oarray': np.array([0, None], dtype=object), 'complex': 1j, 'obj': object()}
BAD_WHOLE = {
    'str2': 'ab', 'str1': 'a', 'none': None, 'float': 1.5, 'one': (0,), 'three': (0, 0, 0), 'empty': (),
    'list3': [0, 0, 0], 'slice': slice(None), 'true': True, 'array3': np.array([0, 0, 0]), 'ellipsis': Ellipsis,
    'four': (0, 0, 0, 0), 'emptylist': []}


def describe(d):
    """What the specification sees of an index descriptor."""
    return {x: d[x] for x in ('k', 'v', 'a', 'b', 'c') if x in d}


# --------------------------------------------------------------------------- recorder
def outcome(exc):
    if exc is None:
        return 'ok'
    for cls in (KMAccessError, KMNormError):
        if isinstance(exc, cls):
            return cls.__name__
    return type(exc).__name__


def fmt_of(v):
    if issparse(v):
        return 'sparse'
    if type(v) is np.ndarray:
        return 'dense'
    if np.isscalar(v) or isinstance(v, np.generic):
        return 'scalar'
    return type(v).__name__


ATTR = {'@0': 0, '@F': False, '@N': None, '@e': '', '@[]': [], '@1': 1.5, '@t': ('a', 1), '@d': {'k': [1]}}


def attr_value(tok):
    return ATTR.get(tok, tok)


def attr_token(v):
    v = str(v) if isinstance(v, str) else v          # (numpy strings)
    for k, x in ATTR.items():
        if type(x) is type(v) and x == v:
            return k
    return str(v) if isinstance(v, str) else '?'


def joined(samples, how):
    """The samples as row slices of one array (as from a split of one dataset), apart or overlapping."""
    if len({(a.shape[1], a.dtype.str) for a in samples.values()}) > 1:
        return samples
    Z = np.concatenate(list(samples.values()))
    out, start = {}, 0
    for k, a in samples.items():
        if how == 'overlap':
            start = max(0, start - (len(a) + 1) // 2)
        start = min(start, len(Z) - len(a))
        out[k] = Z[start:start + len(a)]
        start += len(a)
    return out


class Recorder:
    """Runs one scenario {kernel, keep, samples, ops[, probe, name]} and returns a trace."""

    def __init__(self, scn):
        self.scn = scn
        self.samples = {k: make_sample(s) for k, s in scn['samples'].items()}
        if scn.get('joined'):
            self.samples = joined(self.samples, scn['joined'])
        self.before = {k: v.copy() for k, v in self.samples.items()}
        self.inner = kernels.build(scn['kernel'])
        self.probe = scn.get('probe', True)
        fn = kernels.build(scn['kernel'])
        # ---- which attachments occur
        keys = []
        for op in scn['ops']:
            if op['op'] == 'attach1':
                keys.append((op['s'], None))
            elif op['op'] == 'attach2':
                keys.append((op['s'], op['t']))
        keys = list(dict.fromkeys(keys))
        self.refs, self.raw, self.nonfinite, zero = {}, {}, [], {}
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            diag = {s: np.array([float(fn(np.array(r), np.array(r))) for r in a])
                    for s, a in self.before.items()}
            for s, d in diag.items():
                zero[s] = bool(np.any(np.abs(d) <= 1e-8))
            for s, t in keys:
                X, Y = self.before[s], self.before[t if t else s]
                m = raw_matrix(fn, X, X if t is None else Y)
                key = s if t is None else s + '|' + t
                self.raw[key] = m
                self.refs[key] = references(m, diag[s], diag[t if t else s], t is not None)
                for v in ('raw', 'normed'):
                    if not np.isfinite(self.refs[key][v]).all():
                        self.nonfinite.append([v, key])
        self.ids = Ids(self.raw.values())
        self.zero = zero
        # ---- rows, for the identification of kernel calls
        # (with one array as both samples the calls cannot be told apart)
        self.rows, self.unique = {}, all(s != t for s, t in keys)
        for s, a in self.before.items():
            for i, r in enumerate(a):
                k = kernels.row_key(r)
                if k in self.rows or any(x != x for x in k):
                    self.unique = False
                self.rows[k] = (s, i)
        self.one = self.two = None

    # a call of the kernel function, as a cell of the current attachment
    def classify(self, x, y):
        a, b = self.rows.get(kernels.row_key(x)), self.rows.get(kernels.row_key(y))
        if a is None or b is None:
            return ('?', 0, 0)
        if self.two is None:
            if a[0] == self.one == b[0]:
                return ('c', min(a[1], b[1]), max(a[1], b[1]))
            return ('?', 0, 0)
        if (a[0], b[0]) == (self.one, self.two):
            return ('c', a[1], b[1])
        if (a[0], b[0]) == (self.two, self.one):
            return ('c', b[1], a[1])
        if a == b and a[0] == self.one:
            return ('x', a[1], a[1])
        if a == b and a[0] == self.two:
            return ('y', a[1], a[1])
        return ('?', 0, 0)

    def run(self):
        scn = self.scn
        evlog = bool(self.probe and self.unique)
        if self.probe:
            kf = kernels.Probe(self.inner)
            if self.unique:
                kf.classify = self.classify
        else:
            kf = self.inner
        kmat = KernelMatrix(kf, normalized=scn['keep'], name=scn.get('name', 'KM'))
        held, events = [], []
        for op in scn['ops']:
            ev = {'op': op['op']}
            if self.probe:
                kf.calls = []
            exc = val = None
            with warnings.catch_warnings(record=True) as caught, np.errstate(all='ignore'):
                warnings.simplefilter('always')
                try:
                    val = self.call(kmat, kf, op, ev)
                except Exception as e:                       # noqa: whatever the code raises
                    exc = e
            ev['out'] = outcome(exc)
            ev['warned'] = any(issubclass(w.category, KernelMethodsWarning) for w in caught)
            ev['evlog'] = evlog
            ev['ev'] = [list(c) for c in kf.calls] if evlog else []
            ev['mutated'] = not all(_same(self.samples[k], self.before[k]) for k in self.samples)
            ev['stale'] = not all(_same(a, b) for a, b in held)
            if exc is None:
                self.observe(op, val, ev, held)
            events.append(ev)
        return {'keep': scn['keep'],
                'samples': {k: {'n': len(a), 'zero': self.zero[k]} for k, a in self.before.items()},
                'raw': {k: self.ids.mat(m) for k, m in self.raw.items()},
                'nonfinite': self.nonfinite,
                'events': events}

    def overwrite(self, name):
        """The caller reuses the array attached before for the next sample: same object, new contents."""
        old = self.one
        if old is None or old == name:
            return
        buf, new = self.samples[old], self.before[name]
        if buf.shape == new.shape and buf.dtype == new.dtype and buf.flags.writeable:
            buf[...] = new
            self.samples[name], self.samples[old] = buf, self.before[old].copy()

    @staticmethod
    def cube(X):
        Y = np.hstack([X, X])
        return np.array([Y, Y])

    def names(self, op):
        """Names given to the attached samples: each its own, one for all, or none (the defaults)."""
        how = self.scn.get('naming', 'own')
        if how == 'none':
            return {}
        return {k: op[f] if how == 'own' else 'X' for k, f in (('name_one', 's'), ('name_two', 't')) if f in op}

    def call(self, km, kf, op, ev):
        o = op['op']
        if o in ('attach1', 'attach2') and op.get('inplace'):
            self.overwrite(op['s'])
        if o == 'attach1':
            ev['s'] = op['s']
            self.one, self.two = op['s'], None
            return km.attach_to(self.samples[op['s']], **self.names(op))
        if o == 'attach2':
            ev['s'], ev['t'] = op['s'], op['t']
            self.one, self.two = op['s'], op['t']
            return km.attach_to(self.samples[op['s']], sample_two=self.samples[op['t']], **self.names(op))
        if o == 'attachbad':
            X = self.samples[sorted(self.samples)[0]]
            how = op.get('how', 'cols')
            if how == '1d':
                return km.attach_to(X[0])
            if how == '3d':
                return km.attach_to(self.cube(X))
            if how == '0d':
                return km.attach_to(np.array(1.0))
            if how == 'two1d':
                return km.attach_to(X, sample_two=X[0])
            if how == 'two3d':
                return km.attach_to(X, sample_two=self.cube(X))
            return km.attach_to(X, sample_two=np.hstack([X, X[:, :1]]))
        if o == 'get':
            ev['ix'], ev['iy'] = describe(op['ix']), describe(op['iy'])
            return km[index_object(op['ix']), index_object(op['iy'])]
        if o == 'getlin':
            ev['p'] = op['p']
            return km[np.int64(op['p']) if op.get('as') == 'np' else op['p']]
        if o == 'getbad':
            return km[BAD_WHOLE[op['how']]]
        if o == 'full':
            return km.full
        if o == 'sparse':
            return km.full_sparse
        if o == 'normalize':
            return km.normalize()
        if o == 'normed':
            return km.normed_km
        if o == 'center':
            return km.center()
        if o == 'centered':
            return km.centered
        if o == 'frob':
            return km.frob_norm
        if o == 'diag':
            return km.diagonal()
        if o == 'setattr':
            ev['n'], ev['v'] = op['n'], op['v']
            return km.set_attr(attr_value(op['n']), attr_value(op['v']))
        if o == 'getattr':
            ev['n'], ev['dflt'] = op['n'], op['dflt']
            return km.get_attr(attr_value(op['n']), attr_value(op['dflt']))
        if o == 'attrs':
            return dict(km.attributes())
        if o == 'sizes':
            if self.one is None:
                return (None, km.num_samples, None, None)
            return (km.shape, km.num_samples, km.size, len(km))
        if o == 'arm':
            if not (self.probe and self.unique):     # calls can not be told apart: nothing is armed
                ev['cell'] = ['none', 0, 0]
                return None
            ev['cell'] = list(op['cell'])
            kf.armed = (tuple(op['cell']), kernels.FAULTS[op.get('exc', 0) % len(kernels.FAULTS)])
            return None
        raise KeyError(o)

    def observe(self, op, val, ev, held):
        o = op['op']
        if o in ('get', 'getlin', 'diag'):
            ev['fmt'] = fmt_of(val)
            a = np.asarray(val.toarray() if issparse(val) else val)
            want = 1 if o == 'diag' else 2
            if a.ndim != want or a.dtype.kind not in 'fiub':
                ev['m'] = []
            else:
                ev['m'] = self.ids.mat(a[None, :] if o == 'diag' else a)
            held.append((val, np.array(a, copy=True)))
        elif o in ('full', 'sparse', 'normed', 'centered', 'frob'):
            ev['fmt'] = fmt_of(val)
            a = np.asarray(val.toarray() if issparse(val) else val, dtype=float)
            ev['views'] = []
            for key, ref in self.refs.items():
                scale = None
                if key in self.raw and np.isfinite(self.raw[key]).all() and self.raw[key].size:
                    scale = float(np.max(np.abs(self.raw[key])))
                for v, r in ref.items():
                    if close(a, r, scale=scale if v == 'centered' else None):
                        ev['views'].append([v, key])
            if not np.isscalar(val):
                held.append((val, a.copy()))
        elif o == 'getattr':
            ev['val'] = attr_token(val)
        elif o == 'attrs':
            ev['all'] = sorted([attr_token(k), attr_token(v)] for k, v in val.items())
        elif o == 'sizes':
            shape, num, size, ln = val
            ev['shape'] = [int(x) for x in shape] if shape is not None else []
            ev['num'] = [] if num is None else [int(x) for x in np.ravel(num)]
            ev['size'] = int(size) if size is not None else 0
            ev['len'] = int(ln) if ln is not None else 0


def _same(a, b):
    a = a.toarray() if issparse(a) else np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in 'fc' and b.dtype.kind in 'fc':
        return bool(np.array_equal(a, b, equal_nan=True))
    return bool(np.array_equal(a, b))
