"""C14, C15: KernelSet, against KernelSets.tla (KSModel explores and generates, KSTrace validates)."""
import copy

import numpy as np

from kernelmethods.base import KernelMatrix, KernelMatrixPrecomputed, KernelSet

from . import kernels, tlc
from .cases import Run
from .km import attr_token, attr_value, close

SETS = ('s', 't', 'u')
KM_SPECS = [
    ('u1', {'name': 'linear'}, None, False), ('u2', {'name': 'gaussian', 'params': {'sigma': 1.5}}, None, True),
    ('a', {'name': 'poly', 'params': {'degree': 2}}, 'A', False), ('b', {'name': 'laplacian'}, 'B', False),
    ('a2', {'name': 'sqdist'}, 'A2', True), ('ab', {'name': 'linear'}, 'A|B', False), ('p3', None, 3, False),
    ('p2', None, 2, False), ('u3', {'name': 'mixed', 'params': {'w': 2.0}}, None, False)]


def enc(num):
    if num is None:
        return 0
    if isinstance(num, tuple):
        return 1000 * num[0] + num[1] if len(num) == 2 else -1
    return int(num)


def make(rs, n, kind):
    """n rows, no zero vector."""
    if kind == 'cat':
        return np.array(['a', 'b', 'abc', 'red'])[rs.randint(4, size=(n, 7))]
    X = rs.randn(n, 3)
    if kind == 'int':
        X = rs.randint(-9, 10, size=(n, 3))
        X[:, 0] += (X[:, 0] == 0)
    return X.astype({'normal': 'f8', 'f4': 'f4', 'int': 'i8', 'f': 'f8'}[kind], order='F' if kind == 'f' else 'C')


class World:
    """Real objects, and the program of calls made on them."""

    def __init__(self, scn):
        self.rows = scn['rows']
        rs = np.random.RandomState(scn['seed'])
        self.samples = {k: make(rs, n, scn.get('data', 'normal')) for k, n in sorted(self.rows.items())}
        self.km, self.fn, self.normed = {}, {}, {}
        self.init = {}
        for m in scn['kms']:
            _, spec, on, normed = next(x for x in KM_SPECS if x[0] == m)
            if spec is not None and scn.get('data') == 'cat':
                spec = {'name': 'matchcount', 'params': {'return_perc': len(m) % 2 == 0}}
            attr = scn.get('attr', {}).get(m, [])
            if spec is None:
                X = rs.randn(on, on)
                self.km[m] = KernelMatrixPrecomputed(X @ X.T)
                self.init[m] = {'pre': True, 'num': on, 'on': '', 'attr': []}
                continue
            k = KernelMatrix(kernels.build(spec), normalized=normed, name=m)
            if on and '|' in on:
                x, y = on.split('|')
                k.attach_to(self.samples[x], sample_two=self.samples[y])
                num = 1000 * self.rows[x] + self.rows[y]
            elif on:
                k.attach_to(self.samples[on])
                num = self.rows[on]
            else:
                num = 0
            for n, v in attr:
                k.set_attr(attr_value(n), attr_value(v))
            self.km[m], self.fn[m], self.normed[m] = k, kernels.build(spec), normed
            self.init[m] = {'pre': False, 'num': num, 'on': on or '', 'attr': attr}
        self.holds = {m: i['on'] for m, i in self.init.items() if i['on'] and '|' not in i['on']}
        for m, i in self.init.items():
            if '|' in i['on']:
                self.holds[m], self.holds[m + '|'] = i['on'].split('|')
        self.sets, self.names, self.noise = {}, {id(v): k for k, v in self.km.items()}, scn['seed']
        # raw references of the full matrix on each single sample
        self.refs = {}
        for m, fn in self.fn.items():
            for s, X in self.samples.items():
                K = np.array([[float(fn(x, y)) for y in X] for x in X])
                if self.normed[m]:
                    K = K / np.sqrt(np.outer(np.diag(K), np.diag(K)))
                self.refs[m, s] = K

    def name(self, obj):
        return self.names.get(id(obj), '?')

    def project(self):
        kms = {}
        for m, k in self.km.items():
            a = [] if self.init[m]['pre'] else sorted([attr_token(x), attr_token(y)]
                                                           for x, y in dict(k.attributes()).items())
            kms[m] = {'num': enc(k.num_samples), 'attr': a}
        sets = {}
        for s, S in self.sets.items():
            it = [self.name(x) for x in S]
            if [self.name(S[i]) for i in range(len(it))] != it or S.size != len(S):
                it = ['?'] + it
            sets[s] = {'ms': it, 'n': len(S), 'num': enc(S.num_samples)}
        return {'km': kms, 'set': sets}

    def buffer(self, e):
        """The sample to attach; sometimes in the array object that held another sample before."""
        on = e['on']
        if e['op'] == 'attachkm':
            ms = [e['m']]
        else:
            S = self.sets[e['s']]
            ms = [self.name(x) for x in S]
            if enc(S.num_samples) not in (0, self.rows[on]):
                return self.samples[on]                          # will be refused
        last = {self.holds.get(m) for m in ms} - {None, on}
        if e.get('var', 0) % 3 == 0 and last:
            last = sorted(last)[0]
            # nothing else may look at the array that is overwritten
            if self.samples[last].shape == self.samples[on].shape and \
                    all(m in ms for m, h in self.holds.items() if h in (last, on)):
                keep, buf = self.samples[last].copy(), self.samples[last]
                buf[...] = self.samples[on]
                self.samples[on], self.samples[last] = buf, keep
        for m in ms:
            self.holds[m] = on
            self.holds.pop(m + '|', None)
        return self.samples[on]

    def call(self, e):
        o = e['op']
        S = self.sets.get(e.get('s'))
        v = e.get('var', 0)
        if o == 'newset':
            ms = [self.km[m] for m in e['ms']]
            kw = {'num_samples': e['num']} if e['num'] else {}
            if not ms and v % 2:
                new = KernelSet(**kw)
            elif len(ms) == 1 and v % 2:
                new = KernelSet(ms[0], **kw)
            elif v % 3 == 0:
                new = KernelSet(km_list=iter(ms), name='x', **kw)
            else:
                new = KernelSet((tuple if v % 3 == 1 else list)(ms), **kw)
            self.sets[e['s']] = new
        elif o == 'append':
            S.append(self.km[e['m']])
        elif o == 'extend':
            S.extend(self.sets[e['t']])
        elif o == 'extendbad':
            S.extend([[x for x in self.km.values()][:1], None, self.km[sorted(self.km)[0]], 'abc'][v % 4])
        elif o == 'take':
            ix = list(e['ix'])
            if len(ix) == 1 and v % 3 == 0:
                ix = ix[0]
            elif v % 3 == 1:
                ix = np.array(ix, dtype=int)
            elif v % 3 == 2:
                ix = tuple(ix)
            new = S.take(ix, name='taken')
            if not isinstance(new, KernelSet):
                return ['?']
            self.sets[e['u']] = new
        elif o == 'index':
            return [self.name(S[np.int64(e['i']) if v % 2 else e['i']])]
        elif o == 'funcs':
            fs = S.get_kernel_funcs(list(e['ix']))
            if not isinstance(fs, tuple):
                return ['?']
            by = {id(k.kernel): m for m, k in self.km.items() if hasattr(k, 'kernel')}
            return [by.get(id(f), '?') for f in fs]
        elif o == 'attach':
            X = self.buffer(e)
            kw = {'attr_name': attr_value(e['n']), 'attr_value': attr_value(e['v'])} if e['n'] else {}
            S.attach_to(X, name=e['on'], **kw)
        elif o == 'attachkm':
            self.km[e['m']].attach_to(self.buffer(e))
        elif o == 'setattr':
            vs = [attr_value(x) for x in e['vs']]
            if e['form'] == 'scalar':
                vs = vs[0]
            else:
                vs = (list, tuple, np.array if all(isinstance(x, str) for x in vs) else list)[v % 3](vs)
            S.set_attr(attr_value(e['n']), vs)
        elif o == 'kmattr':
            self.km[e['m']].set_attr(attr_value(e['n']), attr_value(e['v']))
        elif o == 'getattr':
            r = S.get_attr(attr_value(e['n']), attr_value(e['d']))
            return [attr_token(x) for x in r] if isinstance(r, list) else ['?']
        elif o == 'value':
            f = self.km[e['m']].full
            return [s for s in self.samples if close(f, self.refs[e['m'], s], 1e-6)]
        else:
            raise KeyError(o)
        return []


def record(scn):
    w = World(scn)
    events = []
    for e in scn['ops']:
        r = Run(w.call, e)
        ev = {k: v for k, v in e.items() if k != 'var'}
        ev['out'] = r.out
        ev['classes'] = [c.__name__ for c in type(r.exc).__mro__] if r.exc is not None else []
        ev['res'] = r.val if r.exc is None else []
        p = Run(w.project)
        ev['post'] = p.val if p.exc is None else {'km': {m: {'num': -9, 'attr': []} for m in w.km}, 'set': {}}
        events.append(ev)
    return {'rows': w.rows, 'km': w.init, 'sets': list(SETS), 'events': events}


# ------------------------------------------------------------------ a Python mirror of Specified/Do, for walks only
class Mirror:
    """Abstract state, only used to choose calls whose meaning is specified (KSTrace verifies that)."""

    def __init__(self, rows, init):
        self.rows = rows
        self.km = {m: dict(v) for m, v in init.items()}
        self.set = {}

    def add(self, S, q):
        S = {'ms': list(S['ms']), 'num': S['num'], 'fixed': S['fixed']}
        for m in q:
            if not S['fixed']:
                S['num'], S['fixed'] = self.km[m]['num'], True
            if S['num'] != self.km[m]['num']:
                return None
            S['ms'].append(m)
        return S

    def pre(self, s):
        return any(self.km[m]['pre'] for m in self.set[s]['ms'])

    def specified(self, e):
        o, s = e['op'], e.get('s')
        if s is not None and o != 'newset' and s not in self.set:
            return False
        if o == 'extend':
            if e['t'] not in self.set or e['t'] == s:
                return False
            a, b = self.set[s], self.set[e['t']]
            if any(self.km[m]['num'] != a['num'] for m in a['ms']):
                return False
            return (a['fixed'] or b['num'] == 0) and (b['fixed'] or a['num'] == 0)
        if o in ('funcs', 'getattr'):
            return not self.pre(s)
        if o == 'attach':
            return not self.pre(s) or self.set[s]['num'] not in (0, self.rows[e['on']])
        if o == 'setattr':
            return not self.pre(s) and bool(self.set[s]['ms'])
        if o in ('attachkm', 'kmattr'):
            return not self.km[e['m']]['pre']
        if o == 'value':
            return not self.km[e['m']]['pre'] and 0 < self.km[e['m']]['num'] < 1000
        return True

    def do(self, e):
        o, s = e['op'], e.get('s')
        if o == 'newset':
            S = self.add({'ms': [], 'num': e['num'], 'fixed': bool(e['num'])}, e['ms'])
            if S:
                self.set[s] = S
        elif o == 'append':
            self.set[s] = self.add(self.set[s], [e['m']]) or self.set[s]
        elif o == 'extend':
            if self.set[s]['num'] == self.set[e['t']]['num']:
                self.set[s] = self.add(self.set[s], self.set[e['t']]['ms']) or self.set[s]
        elif o == 'take':
            ms = self.set[s]['ms']
            if all(0 <= i < len(ms) for i in e['ix']):
                S = self.add({'ms': [], 'num': 0, 'fixed': False}, [ms[i] for i in e['ix']])
                if S:
                    self.set[e['u']] = S
        elif o == 'attach':
            S = self.set[s]
            if S['num'] in (0, self.rows[e['on']]):
                S['num'], S['fixed'] = self.rows[e['on']], True
                for m in S['ms']:
                    self.km[m]['num'] = S['num']
        elif o == 'attachkm':
            self.km[e['m']]['num'] = self.rows[e['on']]


def walk(ctx, i, length, focus):
    rng = ctx.rng
    rows = rng.choice([{'A': 3, 'A2': 3, 'B': 2}, {'A': 3, 'A2': 3, 'B': 2}, {'A': 5, 'A2': 5, 'B': 4}, {'A': 1, 'A2': 1, 'B': 2}])
    if rows['A'] != 3:
        pool = ['u1', 'u2', 'a', 'b', 'a2', 'ab', 'u3']
    else:
        pool = [x[0] for x in KM_SPECS]
    kms = rng.sample(pool, rng.choice([3, 4, 5, 6]))
    scn = {'rows': rows, 'seed': ctx.seed * 1000 + i, 'kms': kms, 'data': rng.choice(['normal', 'normal', 'f4', 'int', 'f', 'cat']),
           'attr': {m: [['p', 'x']] for m in kms if rng.random() < .3}}
    w = World(scn)
    mir = Mirror(rows, w.init)
    big = kms * 2
    ops = []
    weights = {'newset': 2, 'append': 5, 'extend': 3, 'extendbad': .5, 'take': 3, 'index': 2, 'funcs': .7, 'attach': 2,
               'attachkm': 1, 'setattr': 1.5, 'kmattr': .7, 'getattr': 1, 'value': 1.5}
    if focus == 'attr':
        weights.update(attach=5, setattr=5, getattr=3, kmattr=2, value=4, take=1.5)
    names = list(weights)
    tries = 0
    while len(ops) < length and tries < 40 * length:
        tries += 1
        o = 'newset' if not mir.set else rng.choices(names, [weights[x] for x in names])[0]
        live = sorted(mir.set) or ['s']
        s = rng.choice(live)
        n = len(mir.set[s]['ms']) if s in mir.set else 0
        e = {'op': o, 'var': rng.randrange(12)}
        if o == 'newset':
            same = rng.random()
            e['s'] = rng.choice(SETS)
            e['num'] = 0 if rng.random() < .75 else rng.choice([rows['A'], rows['B']])
            cand = big
            if same < .75:                       # mostly compatible members
                k = rng.choice(kms)
                cand = [m for m in big if mir.km[m]['num'] == mir.km[k]['num']]
                if e['num'] and rng.random() < .7:
                    e['num'] = mir.km[k]['num'] if mir.km[k]['num'] < 1000 else 0
            e['ms'] = rng.sample(cand, rng.randint(0, min(len(cand), 5)))
        elif o == 'append':
            e['s'] = s
            good = [m for m in kms if mir.km[m]['num'] == mir.set[s]['num']]
            e['m'] = rng.choice(good if good and rng.random() < .6 else kms)
        elif o == 'extend':
            e['s'], e['t'] = s, rng.choice(live)
        elif o == 'extendbad':
            e['s'] = s
        elif o in ('take', 'funcs'):
            e['s'] = s
            if o == 'take':
                e['u'] = rng.choice(SETS)
            bad = rng.random() < .2
            e['ix'] = [rng.randrange(max(n, 1)) if not bad else rng.choice([-1, -2, 0, n - 1, n, n + 1])
                       for _ in range(rng.randint(0 if o == 'take' else 1, 4))]
        elif o == 'index':
            e['s'], e['i'] = s, rng.choice([-2, -1, 0, 0, 1, 2, n - 1, n, n + 1])
        elif o == 'attach':
            e['s'], e['on'] = s, rng.choice(sorted(rows))
            e['n'], e['v'] = rng.choice(['', '', 'p', 'q', '@e', '@0']), rng.choice(['w', 'x', '@0', '@F', '@N', '@e', '@[]'])
        elif o == 'attachkm':
            e['m'], e['on'] = rng.choice(kms), rng.choice(sorted(rows))
        elif o == 'setattr':
            e['s'], e['n'], e['form'] = s, rng.choice(['p', 'q', '@e']), rng.choice(['scalar', 'list', 'list'])
            k = 1 if e['form'] == 'scalar' else rng.choice([n, n, n, 1, n + 1, max(1, n - 1)])
            e['vs'] = [rng.choice(['@e', 'x', 'y', 'zz', '%d' % j, '@0', '@N', '@F']) for j in range(k)]
            if not e['vs']:
                continue
        elif o == 'kmattr':
            e['m'], e['n'], e['v'] = rng.choice(kms), rng.choice(['p', 'q', '@e', '@0']), rng.choice(['x', 'y', 'z', '@0', '@N'])
        elif o == 'getattr':
            e['s'], e['n'], e['d'] = s, rng.choice(['p', 'q', 'r', '@e', '@0']), rng.choice(['none', '@e', '@N'])
        elif o == 'value':
            e['m'] = rng.choice(kms)
        if mir.specified(e):
            mir.do(e)
            ops.append(e)
    scn['ops'] = ops
    return scn


OPS14 = ('newset', 'append', 'extend', 'extendbad', 'take', 'index', 'funcs')
OPS15 = ('attach', 'setattr', 'getattr', 'kmattr', 'attachkm', 'value')


def belongs(prop, op, clause):
    if prop == 'C14' and op == 'attach':       # attaching changes no members, and num_samples only when it succeeds
        return 'sets' in clause or 'set-size' in clause
    return op in (OPS14 if prop == 'C14' else OPS15)


def judge(ctx, prop, scns, label):
    traces = [record(s) for s in scns]
    r, fails = tlc.validate('KSTrace', traces, workers=6)
    ctx.model('KSTrace/' + label, r)
    ctx.validated += len(traces)
    ctx.notes['events_' + label] = sum(len(t['events']) for t in traces)
    ctx.sample({'label': label, 'ops': scns[0]['ops'][:8]})
    done = set()
    for f in sorted(fails, key=lambda f: (f['trace'], f['event'])):
        t = f['trace'] - 1
        if t in done:
            continue
        done.add(t)                           # later events start from another state
        if 'machinery-unspecified-call' in f['clauses']:
            raise tlc.MachineryError('unspecified call generated: %r' % scns[t]['ops'][f['event'] - 1])
        op = scns[t]['ops'][f['event'] - 1]
        if belongs(prop, op['op'], f['clauses']) and len(ctx.violations) < 5:
            ctx.violation('%s: %s violated at call %d (%s)' % (label, ', '.join(f['clauses']), f['event'], op['op']),
                          {'module': 'KSTrace', 'clauses': f['clauses'], 'scenario': scns[t], 'event': f['event'],
                           'observed': traces[t]['events'][f['event'] - 1]})


def generated(ctx, kms, level, attrs, keep, limit):
    r = tlc.run('KSModel', {'KMs': '{%s}' % ', '.join('"%s"' % k for k in kms), 'MaxLevel': level,
                            'WithAttrs': 'TRUE' if attrs else 'FALSE'}, cfg='KSGen.cfg', workers=1)
    ctx.model('KSModel/generate', r)
    hs = [h for h in r.tagged('GEN') if keep(h[-1])]
    hs.sort(key=str)
    total = len(hs)
    if total > limit:
        hs = [hs[i] for i in sorted(ctx.rng.sample(range(total), limit))]
    ctx.notes['model_transitions_replayed'] = ctx.notes.get('model_transitions_replayed', []) + ['%d of %d' % (len(hs), total)]
    scns = []
    for i, h in enumerate(hs):
        ops = [dict(e, var=ctx.rng.randrange(12)) for e in copy.deepcopy(h)]
        scn = {'rows': {'A': 3, 'A2': 3, 'B': 2}, 'seed': ctx.seed * 7 + i, 'kms': list(kms), 'ops': ops,
               'attr': {m: [['p', 'x']] for m in kms if m in ('a', 'u2')}}
        if attrs:                              # what do the members hold in the end?
            mir = Mirror(scn['rows'], World(scn).init)
            for e in ops:
                mir.do(e)
            ops += [e for e in ({'op': 'value', 'm': m} for m in kms) if mir.specified(e)]
        scns.append(scn)
    return scns


def explore(ctx, **kw):
    r = tlc.run('KSModel', kw, workers=6)
    ctx.model('KSModel', r)


def c14(ctx):
    explore(ctx, KMs='{"u1", "a", "b"}', WithAttrs='FALSE', MaxLevel=ctx.pick('5', '100'))
    for kms in (('u1', 'a', 'b'), ('a', 'p3', 'ab')):
        scns = generated(ctx, kms, ctx.pick('3', '4'), False, lambda e: e['op'] in OPS14 + ('attach',), ctx.pick(1200, 12000))
        judge(ctx, 'C14', scns, 'model-histories(%s)' % ','.join(kms))
    judge(ctx, 'C14', [walk(ctx, i, 14, 'set') for i in range(ctx.pick(700, 8000))], 'walks')


def c15(ctx):
    explore(ctx, KMs='{"u1", "a"}', WithAttrs='TRUE', MaxLevel=ctx.pick('6', '100'))
    for kms in (('u1', 'a', 'b'), ('u2', 'a', 'p3')):
        scns = generated(ctx, kms, ctx.pick('3', '4'), True, lambda e: e['op'] in OPS15, ctx.pick(1200, 12000))
        judge(ctx, 'C15', scns, 'model-histories(%s)' % ','.join(kms))
    judge(ctx, 'C15', [walk(ctx, i, 18, 'attr') for i in range(ctx.pick(700, 8000))], 'walks')
