#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decide one property from /repo's current sources.
exit 0 held, 1 VIOLATION, 2 no answer (the sources could not be analysed)"""
import os, sys, time, importlib, traceback, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)
import prog
from common import Ctx


def main():
    # a run may start from the committed files alone
    subprocess.run(['bash', os.path.join(HERE, 'setup.sh')], check=True, stdout=subprocess.DEVNULL)
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    ctx = Ctx(pid, tier)
    broken = None
    try:
        importlib.import_module(pid.lower()).check(ctx)
    except prog.Broken as e:
        broken = 'analysis not possible: %s' % e
    except Exception:
        broken = traceback.format_exc()
    sys.exit(ctx.finish(time.time() - t0, broken))


if __name__ == '__main__':
    main()
