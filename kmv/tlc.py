"""Running TLC on the modules of /verif/spec: exploration, generation, trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar'


class MachineryError(Exception):
    """Something is wrong with the verification machinery (not with the code under test)."""


class TLCResult:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated, self.distinct = (
            (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0))
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = 'No error has been found' in out
        m = re.search(r'(?:Invariant|Action property|Temporal properties|Property) ?(\S*) ?(?:is|were) violated', out)
        self.violated = m.group(1) if m else None

    def tagged(self, tag):
        """JSON payloads printed by the specification with PrintT(tag \\o ToJson(..))"""
        res, pre = [], '"@%s ' % tag
        for line in self.out.splitlines():
            if line.startswith(pre):
                res.append(json.loads(json.loads(line)[len(tag) + 2:]))
        return res


def java_opts():
    return ['-XX:+UseParallelGC', '-Xmx6g', '-Xss16m']


def _classpath():
    return JAR + ':' + os.path.join(os.path.dirname(JAR), 'CommunityModules-deps.jar')


def run(module, constants=None, cfg=None, cfg_text=None, env=None, workers=4, extra=(), timeout=800,
        expect_ok=True):
    """Runs TLC on spec/<module>.tla in a scratch directory; returns TLCResult."""
    tmp = tempfile.mkdtemp(prefix='kmv-tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                os.symlink(os.path.join(SPEC, f), os.path.join(tmp, f))
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, cfg or module + '.cfg')).read()
        for k, v in (constants or {}).items():
            cfg_text, n = re.subn(r'(?m)^(\s*%s\s*=\s*).*$' % re.escape(k),
                                  lambda m: m.group(1) + v, cfg_text)
            if n != 1:
                raise MachineryError('constant %s not found once in cfg of %s' % (k, module))
        open(os.path.join(tmp, 'run.cfg'), 'w').write(cfg_text)
        cmd = ['java'] + java_opts() + ['-Djava.io.tmpdir=' + tmp, '-cp', _classpath(), 'tlc2.TLC', '-workers', str(workers),
                                        '-metadir', os.path.join(tmp, 'meta'), '-noGenerateSpecTE',
                                        '-config', 'run.cfg'] + list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode('utf-8', 'replace')
        r = TLCResult(out, p.returncode)
        if expect_ok and not r.ok:
            raise MachineryError('TLC failed on %s:\n%s' % (module, '\n'.join(l for l in out.splitlines() if not l.startswith('"@'))[-3000:]))
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def validate(module, traces, workers=4, timeout=800, events=lambda t: len(t['events'])):
    """Trace validation: writes traces as ndjson, runs the trace specification, checks that the verdict is total.

    Returns (TLCResult, list of failures)."""
    if not traces:
        return None, []
    tmp = tempfile.mkdtemp(prefix='kmv-tr-')
    try:
        path = os.path.join(tmp, 'traces.ndjson')
        with open(path, 'w') as f:
            for t in traces:
                f.write(json.dumps(t) + '\n')
        r = run(module, env={'KM_TRACES': path}, workers=workers, timeout=timeout)
        want = sum(1 + events(t) for t in traces)
        if r.distinct != want:
            raise MachineryError('%s: %d states, expected %d: some trace was not consumed\n%s'
                                 % (module, r.distinct, want, r.out[-3000:]))
        return r, r.tagged('FAIL')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def simulate(ctx, module, constants, cfg, num, depth):
    """Random behaviours of a generating specification (tag GEN), the longest prefix of each."""
    r = run(module, constants, cfg=cfg, workers=1, expect_ok=False,
            extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(ctx.seed)])
    if 'Error:' in r.out:
        raise MachineryError('simulation of %s failed:\n%s' % (module, r.out[-2000:]))
    best = {}
    for g in r.tagged('GEN'):                    # (also the successors that the simulation did not follow)
        best.setdefault(len(g), []).append(g)
    best = [g for n in sorted(best, reverse=True) for g in ctx.rng.sample(best[n], len(best[n]))][:num]
    ctx.models.append({'model': module + '/simulate', 'behaviours': len(best), 'depth': depth})
    return best
