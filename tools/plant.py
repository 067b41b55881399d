"""Plants bugs: reads a Python file defining BUGS = [dict(id, property, file, edits=[(old,new)..], demo, needs, breaks)],
confirms each in a scratch copy (the stable tests pass, demo fails with it and passes without) and keeps it in seeded/."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
ORIG = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).decode().split()[0]


def sh(cmd, cwd, **k):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tests_pass(copy):
    r = sh('PYTHONPATH=%s:/opt/vp/plugins VP_SEED=1 PYTHONHASHSEED=0 HYPOTHESIS_STORAGE_DIRECTORY=/tmp/pl-hyp-%s '
           '/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --hypothesis-seed=1 --timeout=300 -rA 2>&1 | tail -100'
           % (copy, os.path.basename(copy)), copy)
    out = r.stdout.decode()
    passed = len(re.findall(r'(?m)^PASSED', out))
    m = re.search(r'(\d+) failed', out)
    return (passed >= 60 and not m), out[-2500:]


def main(path, only):
    for b in runpy.run_path(path)['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(ROOT, 'seeded', b['id'])
        copy = '/tmp/plant-%d' % os.getpid()
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree('/repo', copy, symlinks=True)
        try:
            edits = b['edits']
            for e in edits:
                f, old, new = e if len(e) == 3 else (b['file'],) + tuple(e)
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit('%s: text occurs %d times:\n%s' % (b['id'], s.count(old), old))
                open(p, 'w').write(s.replace(old, new))
            diff = sh('git diff', copy).stdout.decode()
            os.makedirs(d, exist_ok=True)
            demo = ('#!/bin/bash\n# exit 0: behaves as it should\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
            open(os.path.join(d, 'demo.sh'), 'w').write(demo)
            open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            good = sh('bash %s/demo.sh' % d, '/repo', timeout=300)
            bad = sh('bash %s/demo.sh' % d, copy, timeout=300)
            ok, out = tests_pass(copy)
            st = 'OK' if good.returncode == 0 and bad.returncode != 0 and ok else 'REJECTED'
            print('%-28s %-4s %s demo(good)=%d demo(bad)=%d tests=%s' % (b['id'], b['property'], st, good.returncode, bad.returncode, ok), flush=True)
            if st != 'OK':
                if good.returncode:
                    print(good.stdout.decode()[-1500:])
                if not ok:
                    print('\n'.join(l for l in out.splitlines() if 'FAILED' in l or 'Error' in l)[-1500:])
                shutil.rmtree(d)
        finally:
            shutil.rmtree(copy, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
