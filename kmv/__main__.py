"""python -m kmv <property>: runs the check of one property. Exit 0: held; 1: VIOLATION; 3: machinery error."""
import os
import sys
import traceback

os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')


def main(argv):
    from . import core, registry
    prop = argv[0]
    ctx = core.Ctx(prop)
    try:
        registry.check(prop)(ctx)
    except Exception:
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        frames = [l for l in tb.splitlines() if l.strip().startswith('File ')]
        if any('/kernelmethods/' in l.replace(core.ROOT, '') for l in frames):
            ctx.violation('unexpected exception from the code under test: ' + tb.strip().splitlines()[-1],
                          {'traceback': tb.splitlines()[-30:]})
        if not ctx.violations:
            return 3
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
