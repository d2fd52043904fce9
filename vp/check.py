"""python3 -m vp.check PID [quick|thorough]"""
import sys, os, resource
from . import core
from .core import CheckError
from .report import Ctx

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(100000)
    from . import checks
    f, functions, bounds, assumptions = checks.CHECKS[pid]
    ctx = Ctx(pid, tier, functions, bounds, assumptions)
    S = checks.Steps(ctx)
    try:
        f(ctx, S)
        S.done()
    except Exception as e:
        if not isinstance(e, CheckError):
            import traceback
            traceback.print_exc()
        if not ctx.viol:
            print('UNDECIDED %s: %s' % (pid, e))
            ctx.note('undecided: %s' % e)
            ctx.finish()
            return 2
    return ctx.finish()

if __name__ == '__main__':
    sys.exit(main())
