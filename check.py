#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]: decides one property against /repo's working tree."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
import vf


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vf.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        try:
            mod.run(ctx)
        except Exception:
            # the real code may have failed in every case, so that nothing is left to validate
            if not ctx.violations:
                raise
            traceback.print_exc()
        return ctx.finish(getattr(mod, 'LEVEL', 'model_checking'))
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: the check itself failed' % prop)
        return 2
    finally:
        ctx.close()


sys.exit(main())
