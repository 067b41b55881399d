"""Kernel functions used by the scenarios, and reference formulas written from their documentation.

Nothing here looks at how kernelmethods computes anything: build() makes the real objects,
reference() the documented value.
"""
import math

import numpy as np

from kernelmethods import base as kmbase
from kernelmethods import numeric_kernels as nk
from kernelmethods.categorical import MatchCountKernel


def _lin(x, y):
    return math.fsum(a * b for a, b in zip(x, y))


def reference(spec, x, y):
    """The documented value of kernel spec on two vectors, in plain Python floats."""
    name, p = spec['name'], spec.get('params', {})
    if name == 'matchcount':
        c = sum(1 for a, b in zip(x, y) if str(a) == str(b))
        return c / len(x) if p.get('return_perc', True) else c
    x = [float(v) for v in x]
    y = [float(v) for v in y]
    if name == 'linear':
        return _lin(x, y)
    if name == 'poly':
        return (p.get('b', 1.0) + p.get('gamma', 1.0) * _lin(x, y)) ** p.get('degree', 3)
    if name == 'gaussian':
        s = p.get('sigma', 2.0)
        return math.exp(-math.fsum((a - b) ** 2 for a, b in zip(x, y)) / (2.0 * s ** 2))
    if name == 'laplacian':
        return math.exp(-p.get('gamma', 1.0) * math.fsum(abs(a - b) for a, b in zip(x, y)))
    if name == 'chi2':
        return math.exp(-p.get('gamma', 1.0) * math.fsum((a - b) ** 2 / (a + b) for a, b in zip(x, y) if a + b > 0))
    if name == 'sigmoid':
        return math.tanh(p.get('offset', 1.0) + p.get('gamma', 1.0) * _lin(x, y))
    if name == 'hadamard':
        al = p.get('alpha', 3)
        t = [(abs(a) ** al, abs(b) ** al) for a, b in zip(x, y)]
        return math.fsum(u * v / (2 * (u + v)) for u, v in t if u + v > 0)
    if name == 'sqdist':          # user-defined callable
        return 1.0 + math.fsum((a - b) ** 2 for a, b in zip(x, y))
    if name == 'mixed':
        return 3.0 + p.get('w', 0.5) * _lin(x, y)
    if name == 'nanlin':          # user-defined: not a number for some pairs
        v = _lin(x, y)
        t = p.get('thr', 0.0)
        return p['bad'] if v > t else v
    if name == 'nanlow':
        v = _lin(x, y)
        return p['bad'] if v < -p.get('thr', 1000.0) else v
    raise KeyError(name)


def _sqdist(x, y):
    x = np.asarray(x, dtype=float)
    y = np.asarray(y, dtype=float)
    return 1.0 + float(np.sum((x - y) ** 2))


def _mixed(x, y, w=0.5):
    return 3.0 + w * float(np.dot(np.asarray(x, dtype=float), np.asarray(y, dtype=float)))


def _nanlin(x, y, thr=0.0, bad=float('nan')):
    v = _lin([float(a) for a in x], [float(a) for a in y])
    return bad if v > thr else v


def _nanlow(x, y, thr=1000.0, bad=float('nan')):
    v = _lin([float(a) for a in x], [float(a) for a in y])
    return bad if v < -thr else v


CLASSES = {'linear': 'LinearKernel', 'poly': 'PolyKernel', 'gaussian': 'GaussianKernel',
           'laplacian': 'LaplacianKernel', 'chi2': 'Chi2Kernel', 'sigmoid': 'SigmoidKernel',
           'hadamard': 'HadamardKernel'}
CALLABLES = {'sqdist': _sqdist, 'mixed': _mixed, 'nanlin': _nanlin, 'nanlow': _nanlow}


def build(spec):
    """The real kernel function object for a spec."""
    p = dict(spec.get('params', {}))
    if spec['name'] == 'matchcount':
        return MatchCountKernel(**p)
    if spec['name'] in CALLABLES:
        return kmbase.KernelFromCallable(CALLABLES[spec['name']], **p)
    return getattr(nk, CLASSES[spec['name']])(**p)


class ProbeFault(Exception):
    pass


FAULTS = [ProbeFault, ValueError, ArithmeticError, TypeError, RuntimeError, LookupError,
          FloatingPointError, ZeroDivisionError, np.linalg.LinAlgError, AttributeError, OverflowError]


class Probe(kmbase.BaseKernelFunction):
    """User-defined kernel function that records the rows it is called with, and can be made to fail."""

    def __init__(self, inner, rows=None):
        super().__init__(name='probe')
        self.inner = inner
        self.rows = rows            # tuple(row) -> (sample, index)
        self.calls = []
        self.armed = None           # (predicate on the classified cell, exception class)
        self.classify = None
        self.struck = 0

    def __call__(self, x, y):
        cell = self.classify(x, y) if self.classify is not None else None
        if self.armed is not None and cell == self.armed[0]:
            exc = self.armed[1]
            self.armed = None
            self.struck += 1
            raise exc('injected failure')
        v = self.inner(x, y)
        self.calls.append(cell)
        return v

    def __str__(self):
        return 'probe({})'.format(self.inner)


def row_key(v):
    return tuple(np.asarray(v).ravel().tolist())
