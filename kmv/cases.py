"""Cases computed by a TLA+ module (small: enumerated by TLC; larger: chosen here, expected outcome by TLC),
replayed on the real code."""
import json
import os
import shutil
import tempfile
import warnings

import numpy as np

from . import tlc


def enumerate_cases(ctx, module, constants=None, label=None, cfg=None):
    c = {'Source': '"enum"'}
    c.update(constants or {})
    r = tlc.run(module, c, cfg=cfg)
    ctx.model('%s/%s' % (module, label or 'enum'), r)
    g = r.tagged('GEN')
    if len(g) != r.distinct:
        raise tlc.MachineryError('%s: %d cases printed, %d states' % (module, len(g), r.distinct))
    g.sort(key=lambda x: json.dumps(x, sort_keys=True))     # TLC's order depends on its workers
    return g


def evaluate_cases(ctx, module, cases, constants=None, label='file'):
    """The expected outcome of the given cases, computed by TLC from the specification."""
    if not cases:
        return []
    tmp = tempfile.mkdtemp(prefix='kmv-case-')
    try:
        path = os.path.join(tmp, 'cases.ndjson')
        with open(path, 'w') as f:
            for i, c in enumerate(cases):
                f.write(json.dumps(dict(c, id=i)) + '\n')
        con = {'Source': '"file"', 'Ops': '{}'}
        con.update(constants or {})
        r = tlc.run(module, con, env={'KM_TRACES': path})
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.model('%s/%s' % (module, label), r)
    g = r.tagged('GEN')
    if len(g) != len(cases):
        raise tlc.MachineryError('%s: %d of %d cases evaluated' % (module, len(g), len(cases)))
    g.sort(key=lambda x: x['c']['id'])
    return g


class Run:
    """Result of one call of the code under test."""

    def __init__(self, fn, *a, **k):
        self.exc = self.val = None
        with warnings.catch_warnings(record=True) as w, np.errstate(all='ignore'):
            warnings.simplefilter('always')
            try:
                self.val = fn(*a, **k)
            except Exception as e:           # noqa: whatever the code raises is an observation
                self.exc = e
        self.warnings = [x.category for x in w]

    @property
    def out(self):
        return 'ok' if self.exc is None else type(self.exc).__name__

    def raised(self, *classes):
        return self.exc is not None and isinstance(self.exc, classes)

    def __repr__(self):
        return ('%s: %s' % (type(self.exc).__name__, str(self.exc)[:120])) if self.exc is not None else repr(self.val)[:300]


def _judged(judge, c):
    try:
        return judge(c)
    except Exception as e:
        import traceback
        if '/kernelmethods/' not in traceback.format_exc().replace(tlc.ROOT, ''):
            raise
        return 'unexpected %s: %s' % (type(e).__name__, e)


_work = None


def _chunk(idx):
    return [(i, _judged(_work[0], _work[1][i])) for i in idx]


def replay(ctx, label, cases, judge, limit=3, parallel=False):
    """judge(case) -> None or (message, detail); counts the cases and reports the first few violations."""
    global _work
    if parallel and len(cases) > 8:
        import multiprocessing
        _work = (judge, cases)
        step = max(1, min(20, len(cases) // 32))
        with multiprocessing.get_context('fork').Pool(min(8, os.cpu_count() or 1)) as pool:
            res = dict(x for ch in pool.imap_unordered(_chunk, [range(i, min(i + step, len(cases))) for i in range(0, len(cases), step)])
                       for x in ch)
        _work = None
    else:
        res = None
    bad = 0
    for i, c in enumerate(cases):
        r = res[i] if res is not None else _judged(judge, c)
        ctx.validated += 1
        if r is not None:
            bad += 1
            if bad <= limit:
                ctx.violation('%s: %s' % (label, r if isinstance(r, str) else r[0]),
                              {'case': c, 'detail': None if isinstance(r, str) else r[1]})
    ctx.notes['cases_' + label] = len(cases)
    if cases:
        ctx.sample({'label': label, 'case': cases[len(cases) // 2]})
    return bad


def near(a, b, rtol=1e-9, atol=0.0):
    """Equal up to rounding; NaN equals NaN."""
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return False
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
