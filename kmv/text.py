"""C26: text forms, against TextForms.tla (generates histories) and TextTrace.tla (validates the texts seen)."""
import functools
import re

import numpy as np

from kernelmethods import base as kb
from kernelmethods import numeric_kernels as nk
from kernelmethods.categorical import MatchCountKernel

from . import tlc
from .cases import Run, replay

SHAPES = {'A': (7, 3), 'B': (5, 3), 'C': (4, 3)}
NAMES = {'k1': 'matrixOne', 'k2': 'matrixTwo', 'k3': 'matrixTri', 's': 'setEss', 'u': 'setYou', 'comp': 'compoundXyz',
         'A': 'alphaSample', 'B': 'betaSample', 'C': 'gammSample', 'pre': 'givenMatrix', 'con': 'constMatrix'}


class UserKernel(kb.BaseKernelFunction):
    """A kernel function of the user's, with a text of its own."""

    def __init__(self, theta):
        super().__init__(name='userkern')
        self.theta = theta

    def __call__(self, x, y):
        return self.theta + float(np.dot(x, y))

    def __str__(self):
        return 'userkern[theta:%s]' % self.theta


def _weighed(x, y, w=1.0, shift=0.0, mode='plain'):
    return shift + w * float(np.dot(x, y))


class _Called:
    def __call__(self, x, y, w=1.0):
        return w * float(np.dot(x, y))


def number(rng):
    return rng.choice([rng.randint(11, 97) + rng.choice([.25, .375, .0625]), rng.randint(31, 97), rng.randint(1, 99) * 1e-3, 2.0 ** -rng.randint(5, 12),
                       rng.randint(101, 999) * 1e5, rng.randint(11, 97) / 7.0])


def kernel_spec(rng, kind=None):
    """(kind, parameters); the parameters of numeric kernels are positive numbers."""
    kind = kind or rng.choice(['linear', 'poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard', 'match', 'callable', 'named', 'partialless',
                               'called', 'user', 'subclass'])
    v = lambda: number(rng)
    p = {'poly': lambda: {'degree': rng.randint(2, 29), 'gamma': v(), 'b': v()}, 'gaussian': lambda: {'sigma': v()}, 'laplacian': lambda: {'gamma': v()},
         'chi2': lambda: {'gamma': v()}, 'sigmoid': lambda: {'gamma': v(), 'offset': v()}, 'hadamard': lambda: {'alpha': v()},
         'callable': lambda: {'w': v(), 'shift': -v()}, 'named': lambda: {'w': v(), 'mode': 'special'}, 'called': lambda: {'w': v()},
         'user': lambda: {'theta': v()}, 'subclass': lambda: {'sigma': v()}}.get(kind, dict)()
    if kind in ('poly', 'sigmoid', 'callable', 'gaussian', 'laplacian', 'chi2', 'hadamard') and rng.random() < .3:
        p.pop(rng.choice(sorted(p)))                       # left at its default
    if kind in ('poly', 'gaussian', 'laplacian', 'chi2', 'sigmoid', 'hadamard', 'linear') and rng.random() < .2:
        p['skip_input_checks'] = True
    return {'kind': kind, 'params': p}


class MyGaussian(nk.GaussianKernel):
    """A user's subclass that keeps the text of its parent."""


DEFAULTS = {'poly': {'degree': 3, 'gamma': 1.0, 'b': 1.0}, 'gaussian': {'sigma': 2.0}, 'laplacian': {'gamma': 1.0}, 'chi2': {'gamma': 1.0},
            'sigmoid': {'gamma': 1.0, 'offset': 1.0}, 'hadamard': {'alpha': 3}}


def build(spec):
    k, p = spec['kind'], dict(spec['params'])
    cls = {'linear': nk.LinearKernel, 'poly': nk.PolyKernel, 'gaussian': nk.GaussianKernel, 'laplacian': nk.LaplacianKernel, 'chi2': nk.Chi2Kernel,
           'sigmoid': nk.SigmoidKernel, 'hadamard': nk.HadamardKernel, 'user': UserKernel, 'subclass': MyGaussian, 'match': MatchCountKernel}
    if k in cls:
        return cls[k](**p)
    if k == 'named':
        return kb.KernelFromCallable(_weighed, name='myveryown', **p)
    if k == 'called':
        return kb.KernelFromCallable(lambda x, y, w=1.0: w * float(np.dot(x, y)), **p)
    return kb.KernelFromCallable(_weighed, **p)


NUM = re.compile(r'(?<![\w.])[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?')


@functools.lru_cache(64)
def numbers(text):
    return [float(x) for x in NUM.findall(text)]


def mentions(text, v):
    if isinstance(v, str):
        return v in text
    nums = numbers(text)
    return any(x == float(v) or abs(x - float(v)) <= 1e-12 * abs(float(v)) for x in nums)


class World:
    def __init__(self, scn):
        self.scn = scn
        self.fn = {k: build(s) for k, s in scn['fns'].items()}
        rs = np.random.RandomState(scn['seed'])
        self.data = {a: rs.rand(*s) + .1 for a, s in SHAPES.items()}
        self.name = dict({k: 'matrixNo%03dx' % i for i, k in enumerate(self.fn)}, **NAMES)
        self.km = {k: kb.KernelMatrix(self.fn[k], normalized=scn['normed'][k], name=self.name[k]) for k in self.fn}
        self.sets, self.comp = {}, None
        A = rs.randn(5, 5)
        self.pre = kb.KernelMatrixPrecomputed(A + A.T, name=NAMES['pre'])
        self.con = kb.ConstantKernelMatrix(6, 41.5, name=NAMES['con'])
        if scn['fresh']:
            self.pre, self.name['pre'] = kb.KernelMatrixPrecomputed(A + A.T), None
            self.con, self.name['con'] = kb.ConstantKernelMatrix(6, 41.5), None

    def do(self, e):
        op = e['op']
        if op == 'attach':
            self.km[e['k']].attach_to(self.data[e['a']], name_one=self.name[e['a']])
        elif op == 'attach2':
            self.km[e['k']].attach_to(self.data[e['a']], name_one=self.name[e['a']], sample_two=self.data[e['b']], name_two=self.name[e['b']])
        elif op == 'use':
            k = self.km[e['k']]
            r = Run(lambda: {'full': lambda: k.full, 'elem': lambda: k[0, 0], 'attr': lambda: k.set_attr('tag', 'x'), 'centered': lambda: k.centered}[e['how']]())
        elif op == 'refuse':
            # (whether it is refused, and how, is the business of other properties)
            k, X = self.km[e['k']], self.data['A'] + 1
            r = Run(lambda: {'columns': lambda: k.attach_to(X, name_one='refusedOne', sample_two=X[:, 1:], name_two='refusedTwo'),
                             'vector': lambda: k.attach_to(X[0], name_one='refusedOne'), 'cube': lambda: k.attach_to(np.array([X, X]), name_one='refusedOne'),
                             'index': lambda: k[len(X) + 100, 'a']}[e['how']]())
            if r.exc is None:
                raise RuntimeError('not refused')
        elif op == 'refuseset':
            S = self.sets[e['s']]
            r = Run(lambda: {'attach': lambda: S.attach_to(np.ones((29, 3)), name='refusedOne'), 'append': lambda: S.append(np.ones((2, 3))),
                             'index': lambda: S[len(S) + 7], 'extend': lambda: S.extend([1])}[e['how']]())
            if r.exc is None:
                raise RuntimeError('not refused')
        elif op == 'make':
            self.sets[e['s']] = kb.KernelSet([self.km[k] for k in e['q']] or None, name=self.name[e['s']])
        elif op == 'setattach':
            self.sets[e['s']].attach_to(self.data[e['a']], name=self.name[e['a']])
        elif op == 'take':
            self.sets[e['t']] = self.sets[e['s']].take([i - 1 for i in e['q']], name=self.name[e['t']])
        elif op == 'compose':
            S = self.sets[e['s']]
            cls = {'sum': kb.SumKernel, 'product': kb.ProductKernel, 'average': kb.AverageKernel, 'weighted': kb.WeightedAverageKernel}[e['how']]
            a = (S, np.linspace(.1, 1, len(S))) if e['how'] == 'weighted' else (S,)
            self.comp = cls(*a, name=self.name['comp'])
        elif op == 'fit':
            Run(self.comp.fit)

    def facts(self, text):
        has = []
        for k, f in self.fn.items():
            spec = self.scn['fns'][k]
            p = dict(DEFAULTS.get(spec['kind'], {}), **{x: y for x, y in spec['params'].items() if x != 'skip_input_checks'})
            has += ['fn:' + k] * (str(f.name) in text) + ['par:' + k] * all(mentions(text, v) for v in p.values())
            has += ['normed:' + k] * (str(self.scn['normed'][k]).lower() in text.lower())
        has += ['name:' + x for x in [*self.fn, 's', 'u', 'comp', 'pre', 'con'] if self.name[x] is None or self.name[x] in text]
        for a, s in SHAPES.items():
            named, shaped = self.name[a] in text, re.search(r'%d\D{1,4}%d' % s, text) is not None
            has += ['at:' + a] * (named if a in self.stale else (named and shaped))
        return has

    def look(self, kind, x, o, on=()):
        forms, agree = [], True
        for f in (str, repr, format, lambda o: f'{o}', lambda o: '{}'.format(o), lambda o: '%s' % (o,), lambda o: '%r' % (o,), lambda o: f'{o!r}'):
            r = Run(f, o)
            if r.exc is not None or type(r.val) is not str:
                agree = False
            forms.append(r.val if r.exc is None else '')
        agree = agree and len(set(forms)) == 1
        self.stale = set(SHAPES) - set(on)
        return {'k': kind, 'x': x, 'agree': bool(agree), 'has': self.facts(forms[0] or ''), 'text': forms[0]}

    def observe(self, on, members):
        obs = [self.look('fn', k, f) for k, f in self.fn.items()]
        obs += [self.look('km', k, m, on[k]) for k, m in self.km.items()]
        obs += [self.look('set', x, S, [a for k in members[x] for a in on[k]]) for x, S in self.sets.items()]
        if self.comp is not None:
            obs.append(self.look('comp', 'comp', self.comp, SHAPES))
        return obs + [self.look('pre', 'pre', self.pre), self.look('con', 'con', self.con)]

    def run(self, prog):
        # what is attached is followed here only to know which sample names would be stale
        on, members, events, ended = {k: () for k in self.km}, {}, [], False
        events.append(dict({'op': 'start'}, obs=self.observe(on, members)))
        for e in prog:
            if Run(self.do, e).exc is not None:               # refused operations are the business of other properties
                ended = True
                break
            if e['op'] == 'attach':
                on[e['k']] = (e['a'],)
            elif e['op'] == 'attach2':
                on[e['k']] = (e['a'], e['b'])
            elif e['op'] == 'make':
                members[e['s']] = e['q']
            elif e['op'] == 'take':
                members[e['t']] = [members[e['s']][i - 1] for i in e['q']]
            elif e['op'] == 'setattach':
                for k in members[e['s']]:
                    on[k] = (e['a'],)
            events.append(dict(e, obs=self.observe(on, members)))
        return {'events': events, 'ended': ended, 'kms': list(self.fn)}


def scenario(rng):
    fns = {k: kernel_spec(rng) for k in ('k1', 'k2', 'k3')}
    return {'fns': fns, 'seed': rng.randrange(10 ** 6), 'normed': {k: rng.random() < .5 for k in fns}, 'fresh': rng.random() < .2}


def large(rng):
    """A set of many members, and what may be done with it."""
    n = rng.choice([8, 13, 26, 51, 60, 101, 130])
    kms = ['k%d' % i for i in range(1, n + 1)]
    fns = {k: kernel_spec(rng) for k in kms}
    q = rng.sample(kms, n)
    prog = [{'op': 'make', 's': 's', 'q': q}]
    if rng.random() < .7:
        prog.append({'op': 'setattach', 's': 's', 'a': rng.choice('ABC')})
        if rng.random() < .7:
            prog.append({'op': 'compose', 's': 's', 'how': rng.choice(['sum', 'product', 'average', 'weighted'])})
    if rng.random() < .5:
        prog.append({'op': 'take', 's': 's', 't': 'u', 'q': rng.choice([[2, 1], [3, 1]])})
    return {'fns': fns, 'seed': rng.randrange(10 ** 6), 'normed': {k: rng.random() < .5 for k in kms}, 'fresh': False}, prog


def check_batch(ctx, label, items):
    traces = []
    for scn, prog in items:
        traces.append(World(scn).run(prog))
    ctx.notes['cut_short_' + label] = sum(t['ended'] for t in traces)
    r, fails = tlc.validate('TextTrace', traces)
    ctx.model('TextTrace/' + label, r)
    ctx.validated += len(traces)
    ctx.sample({'label': label, 'program': items[0][1], 'texts': [o['text'] for o in traces[0]['events'][-1]['obs']]})
    for f in fails[:3]:
        t = traces[f['trace'] - 1]['events'][f['event'] - 1]
        txt = {o['x'] + '/' + o['k']: o['text'] for o in t['obs']}
        w = f['what'][0]
        ctx.violation('%s: text of %s %s after %s: %s: %r' % (label, w['k'], w['x'], {x: y for x, y in t.items() if x != 'obs'}, w['bad'],
                                                              txt.get(w['x'] + '/' + w['k'])),
                      {'scenario': items[f['trace'] - 1][0], 'program': items[f['trace'] - 1][1], 'what': f['what']})


def c26(ctx):
    rng = ctx.rng
    ctx.model('TextForms', tlc.run('TextForms'))
    r = tlc.run('TextForms', {'MaxLevel': ctx.pick('4', '5')}, cfg='TextFormsGen.cfg')
    ctx.model('TextForms/short', r)
    short = sorted(r.tagged('GEN'), key=repr)
    ctx.notes['short_histories'] = len(short)
    n = ctx.pick(1500, 30000)
    if len(short) > n:
        short = rng.sample(short, n)
    check_batch(ctx, 'short', [(scenario(rng), p) for p in short])
    progs = tlc.simulate(ctx, 'TextForms', {'MaxLevel': '16'}, 'TextFormsGen.cfg', ctx.pick(300, 4000), 15)
    check_batch(ctx, 'long', [(scenario(rng), p) for p in progs])
    check_batch(ctx, 'large-sets', [large(rng) for _ in range(ctx.pick(14, 120))])
