"""Scenarios for KernelMatrix: behaviours generated by TLC from KMCache.tla / KMIndex.tla, and random walks."""
import copy

from . import tlc

NONE = 99999
ALL = {'k': 'slice', 'a': NONE, 'b': NONE, 'c': NONE}

# kernel, kind of data, dtype, number of columns; 'norm': cosine normalization is defined and finite
CONFIGS = [
    ({'name': 'mixed'}, 'normal', 'float64', 4, False),
    ({'name': 'sqdist'}, 'normal', 'float64', 3, True),
    ({'name': 'linear'}, 'normal', 'float64', 3, True),
    ({'name': 'gaussian'}, 'normal', 'float64', 2, True),
    ({'name': 'poly', 'params': {'degree': 2}}, 'normal', 'float64', 3, True),
    ({'name': 'laplacian', 'params': {'gamma': 0.5}}, 'uniform', 'float64', 3, True),
    ({'name': 'chi2'}, 'uniform', 'float64', 3, True),
    ({'name': 'hadamard'}, 'normal', 'float64', 3, True),
    ({'name': 'sigmoid', 'params': {'gamma': 0.3}}, 'normal', 'float64', 3, True),
    ({'name': 'linear'}, 'ints', 'int64', 4, True),
    ({'name': 'linear'}, 'counts', 'uint8', 6, True),
    ({'name': 'linear'}, 'normal', 'float32', 3, True),
    ({'name': 'linear'}, 'normal', 'int8', 6, True),
    ({'name': 'poly', 'params': {'degree': 3, 'gamma': 0.5, 'b': 0.0}}, 'ints', 'int32', 4, True),
    ({'name': 'gaussian', 'params': {'sigma': 5.0}}, 'ints', 'int16', 4, True),
    ({'name': 'chi2', 'params': {'gamma': 0.2}}, 'counts', 'int64', 6, True),
    ({'name': 'matchcount', 'params': {'return_perc': False}}, 'cat', 'U', 12, True),
    ({'name': 'matchcount', 'params': {'return_perc': True}}, 'cat', 'U', 15, True),
    ({'name': 'linear'}, 'big', 'float64', 2, True),
    ({'name': 'linear', 'params': {'skip_input_checks': True}}, 'normal', 'float64', 3, True),
    ({'name': 'laplacian'}, 'uniform', 'float16', 8, True),
    ({'name': 'linear'}, 'normal', 'float64', 1, True),
    ({'name': 'gaussian'}, 'normal', 'float64', 40, True),
    ({'name': 'mixed', 'params': {'w': -0.25}}, 'normal', 'bool', 12, True),
    ({'name': 'linear'}, 'dups', 'float64', 3, True),
    ({'name': 'gaussian'}, 'dups', 'float64', 2, True),
]
NAMINGS = ['own', 'own', 'same', 'none']
LAYOUTS = ['C', 'C', 'F', 'strided', 'reversed', 'readonly']


def data(cfg, sizes, seed, layout='C'):
    kernel, kind, dtype, d, _ = cfg
    return {k: {'n': n, 'd': d, 'seed': seed * 131 + 7 * i + 1, 'kind': kind, 'dtype': dtype, 'layout': layout}
            for i, (k, n) in enumerate(sorted(sizes.items()))}


CACHE_SIZES = {'A': 2, 'B': 1, 'C': 2}


def cache_histories(ctx, keep, attach, faults, attrs=False, maxhist=99):
    """All transitions of the cache model, each with a shortest history leading to it."""
    r = tlc.run('KMCache', {'Keep': 'TRUE' if keep else 'FALSE', 'MaxAttach': str(attach), 'Generate': 'TRUE',
                            'WithFaults': 'TRUE' if faults else 'FALSE', 'WithAttrs': 'TRUE' if attrs else 'FALSE',
                            'MaxHist': str(maxhist)},
                cfg='KMCacheGen.cfg', workers=1)
    ctx.model('KMCache(keep=%s,attach=%d,faults=%s,attrs=%s)' % (keep, attach, faults, attrs), r)
    return r.tagged('GEN')


def explore_cache(ctx, **kw):
    """Exhaustive check of the cache model against the abstract specification, no generation."""
    c = {'Keep': 'TRUE', 'MaxAttach': '2', 'WithFaults': 'TRUE', 'WithAttrs': 'TRUE'}
    c.update(kw)
    ctx.model('KMCache%s' % sorted(c.items()), tlc.run('KMCache', c, workers=8))


WHOLE = ['full', 'sparse', 'normed', 'centered', 'frob', 'diag']


def probe_all(rng, short=False):
    """Reads everything there is to read, in random order: the abstract state shows in the answers."""
    tail = [{'op': o} for o in WHOLE] + [{'op': 'get', 'ix': ALL, 'iy': ALL}, {'op': 'sizes'}, {'op': 'attrs'},
                                         {'op': 'get', 'ix': {'k': 'int', 'v': 0}, 'iy': {'k': 'list', 'v': [0]}}]
    rng.shuffle(tail)
    if short:
        tail = tail[:4]
    return tail


def from_history(ctx, hist, keep, idx, cfg=None, suffix=True, configs=None):
    rng = ctx.rng
    pool = configs or CONFIGS
    cfg = cfg or pool[idx % len(pool)]
    ops = []
    for e in hist:
        e = copy.deepcopy(e)
        if e['op'] == 'arm':
            e['exc'] = rng.randrange(20)
        elif e['op'] == 'attachbad':
            e['how'] = rng.choice(['cols', '1d', '3d', '0d', 'two1d', 'two3d'])
        elif e['op'] == 'get':
            for x in ('ix', 'iy'):
                if e[x]['k'] == 'int' and rng.random() < .3:
                    e[x]['as'] = 'np'
        ops.append(e)
    if suffix:
        ops += probe_all(rng)
    return {'kernel': cfg[0], 'keep': keep, 'samples': data(cfg, CACHE_SIZES, ctx.seed + idx, rng.choice(LAYOUTS)),
            'ops': ops, 'probe': idx % 5 != 4 or any(o['op'] == 'arm' for o in ops), 'naming': rng.choice(NAMINGS)}


# --------------------------------------------------------------------------- random walks
def container(rng, v):
    """What the indices v are given in."""
    kinds = ['list', 'tuple', 'array', 'array32', 'set', 'iter', 'npints', 'frozenset', 'deque', 'gen']
    if not v:
        return rng.choice(['list', 'tuple', 'set', 'range', 'gen'])
    if min(v) >= 0:
        kinds += ['uint8', 'uint64'] if max(v) < 256 else ['uint64']
    steps = {b - a for a, b in zip(v, v[1:])} or {1}
    if len(steps) == 1 and steps != {0}:
        kinds += ['range'] * 6
    return rng.choice(kinds)


def rand_index(rng, n, bad=0.0):
    if rng.random() < bad:
        c = rng.randrange(4)
        if c == 0:
            return {'k': 'int', 'v': rng.choice([-1, -n, n, n + 1, n + 100, -1000])}
        if c == 1:
            v = rng.choice([[], [0, n], [-1], [0, -1], list(range(n)) + [n], list(range(n // 2, n + 3)),
                            list(range(n, -2, -1)), list(range(0, n + 2, 2)), [n - 1, n]])
            return {'k': 'list', 'v': v, 'as': container(rng, v)}
        if c == 2:
            return rng.choice([{'k': 'slice', 'a': n, 'b': n + 5, 'c': NONE}, {'k': 'slice', 'a': 0, 'b': 0, 'c': NONE},
                               {'k': 'slice', 'a': n, 'b': NONE, 'c': 2}])
        return {'k': rng.choice(['float', 'true', 'none', 'str', 'npfloat', 'list-float', 'list-bool', 'list-str',
                                 'list-none', 'farray', 'nan', 'strdigit', 'barray', 'mask', 'npbool', 'list-npbool', 'list-mixbool'])}
    c = rng.random()
    if c < .35:
        d = {'k': 'int', 'v': rng.randrange(n)}
        if rng.random() < .3:
            d['as'] = 'np'
        return d
    if c < .65:
        d = {'k': 'slice', 'a': rng.choice([NONE, rng.randrange(-n, n)]), 'b': rng.choice([NONE, rng.randrange(-n, n + 3)]),
             'c': rng.choice([NONE, 1, 1, 2, 3, -1, -2])}
        return d
    if c < .72:
        return dict(ALL)
    k = rng.randrange(1, min(n, 8) + 2)
    v = [rng.randrange(n) for _ in range(k)]
    a = container(rng, v)
    if rng.random() < .1:
        v, a = list(range(n)), rng.choice(['range', 'list'])
        if a == 'list':
            rng.shuffle(v)
    return {'k': 'list', 'v': v, 'as': a}


def walk(ctx, idx, length, sizes=None, keep=None, bad=.05, faults=0.0, two=.4, reattach=.05, attrs=.1, cfg=None,
         lin=.08, badattach=.02, first=None, inplace=.25, same_object=0, together=None):
    rng = ctx.rng
    cfg = cfg or rng.choice(CONFIGS)
    if sizes is None:
        pool = [1, 2, 3, 4, 5, 7, 9, 12]
        sizes = {'A': rng.choice(pool[1:]), 'B': rng.choice(pool), 'C': rng.choice(pool)}
    keep = rng.random() < .5 if keep is None else keep
    names = sorted(sizes)
    att, ops = None, []
    together = together or (rng.choice(['parts', 'parts', 'overlap']) if rng.random() < .12 else None)
    inplace = 0 if together else inplace

    def attach():
        same = {'inplace': True} if rng.random() < inplace else {}
        if rng.random() < two and len(names) > 1:
            a, b = rng.sample(names, 2)
            if rng.random() < same_object:      # one array given as both samples
                b = a
            return dict({'op': 'attach2', 's': a, 't': b}, **same), (a, b)
        a = rng.choice(names)
        return dict({'op': 'attach1', 's': a}, **same), (a, None)

    if attrs and rng.random() < .2:
        ops.append({'op': 'sizes'})
        ops.append({'op': 'setattr', 'n': 'pre', 'v': 'x'})
        ops.append({'op': 'attrs'})
    op, att = (first, (first['s'], first.get('t'))) if first else attach()
    ops.append(op)
    used = 0
    for _ in range(length):
        n = sizes[att[0]]
        m = sizes[att[1] or att[0]]
        c = rng.random()
        if c < reattach:
            op, att = attach()
            used = 0
            ops.append(op)
        elif c < reattach + badattach:
            ops.append({'op': 'attachbad', 'how': rng.choice(['cols', '1d', '3d', '0d', 'two1d', 'two3d'])})
        elif c < reattach + badattach + attrs:
            k = rng.choice(['a', 'b', 'weight', '@0', '@t', '@e'])
            ops.append(rng.choice([{'op': 'setattr', 'n': k, 'v': rng.choice(['1', '2', 'z', '@0', '@F', '@N', '@e', '@[]', '@1'])},
                                   {'op': 'getattr', 'n': k, 'dflt': rng.choice(['nil', 'other', '@N', '@0'])}, {'op': 'attrs'}]))
        elif faults and rng.random() < faults:
            kinds = ['c'] * 4 + (['x', 'y'] if att[1] else [])
            kd = rng.choice(kinds)
            i, j = rng.randrange(n), rng.randrange(m)
            if kd == 'x':
                j = i
            elif kd == 'y':
                i = j
            elif att[1] is None:
                i, j = min(i, j), max(i, j)
            ops.append({'op': 'arm', 'cell': [kd, i, j], 'exc': rng.randrange(20)})
        elif rng.random() < .06:
            ops.append({'op': 'sizes'})
        elif rng.random() < lin:
            ops.append({'op': 'getlin', 'p': rng.choice([rng.randrange(n * m)] * 9 + [n * m, -1]),
                        'as': rng.choice(['py', 'np'])})
        elif rng.random() < bad * .6:
            ops.append({'op': 'getbad', 'how': rng.choice(['str2', 'str1', 'none', 'float', 'one', 'three', 'empty',
                                                           'list3', 'slice', 'true', 'array3', 'ellipsis', 'four'])})
        elif rng.random() < .5:
            b = bad if rng.random() < .5 else 0
            ops.append({'op': 'get', 'ix': rand_index(rng, n, b), 'iy': rand_index(rng, m, b)})
        else:
            ops.append({'op': rng.choice(['full', 'sparse', 'normalize', 'normed', 'center', 'centered', 'frob', 'diag'])})
        used += 1
    ops += probe_all(rng, short=rng.random() < .5)
    return {'kernel': cfg[0], 'keep': keep, 'samples': data(cfg, sizes, ctx.seed * 1009 + idx, rng.choice(LAYOUTS)), 'joined': together,
            'ops': ops, 'probe': bool(faults) or rng.random() < .75, 'naming': rng.choice(NAMINGS)}


def huge(ctx, idx, two):
    """More than 10000 pairs: everything is computed, then single entries and all views are read again."""
    rng = ctx.rng
    cfg = rng.choice([c for c in CONFIGS if c[4] and c[3] < 10])
    sizes = {'A': rng.choice([105, 128]), 'B': rng.choice([101, 130]), 'C': 3} if two else {'A': rng.choice([145, 160]), 'B': 3, 'C': 3}
    att = {'op': 'attach2', 's': 'A', 't': 'B'} if two else {'op': 'attach1', 's': 'A'}
    n, m = sizes['A'], sizes['B'] if two else sizes['A']
    get = lambda: {'op': 'get', 'ix': rand_index(rng, n), 'iy': {'k': 'int', 'v': rng.randrange(m)}}
    ops = [att] + [get() for _ in range(rng.randrange(3))]
    ops += [rng.choice([{'op': 'full'}, {'op': 'get', 'ix': ALL, 'iy': ALL}, {'op': 'normed'}])]
    ops += [get() for _ in range(5)]
    ops += [{'op': 'get', 'ix': {'k': 'int', 'v': i}, 'iy': {'k': 'int', 'v': j}} for i, j in ((0, 0), (0, 1), (n - 1, m - 1))]
    if rng.random() < .3:
        ops += [{'op': 'attach1', 's': 'C'}, {'op': 'full'}, dict(att)]
    ops += probe_all(rng)
    return {'kernel': cfg[0], 'keep': rng.random() < .5, 'samples': data(cfg, sizes, ctx.seed * 1009 + idx, rng.choice(LAYOUTS)), 'ops': ops, 'probe': rng.random() < .8}
