import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf.ctx import Ctx  # noqa
from vf.tlc import MachineryError  # noqa


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = importlib.import_module('props.' + pid)
    ctx = Ctx(pid, tier, seed)
    try:
        prop.run(ctx)
        rc = ctx.finish('model_checking')
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    finally:
        if not os.environ.get('VF_KEEP'):
            ctx.cleanup()
    if rc == 0:
        print('OK property=%s states=%d transitions=%d traces=%d steps=%d' % (
            pid, ctx.cov['states'], ctx.cov['transitions'], ctx.cov['traces_validated_against_impl'],
            ctx.cov['trace_steps']))
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
