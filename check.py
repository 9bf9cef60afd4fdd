#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]

Decides one property on /repo's working tree.  Exit 0: it held on everything
explored; exit 1 with VIOLATION lines: it is broken; 2: machinery failure.
"""
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                'harness'))
import checks
import core


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        # Nothing is kept between runs: only check that the toolchain works.
        c = core.Ctx('setup', 'quick', 1)
        try:
            c.java()
            c.build()
        finally:
            c.close()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier')+1]
    c = core.Ctx(pid, tier, int(os.environ.get('VERIF_SEED', '1')))
    try:
        c.build()
        getattr(checks, pid)(c)
        return c.finish()
    except core.Machinery as e:
        core.log('[%s] MACHINERY: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            core.log('kept', c.scratch)
        else:
            c.close()


if __name__ == '__main__':
    sys.exit(main())
