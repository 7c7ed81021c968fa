"""check.py <property> [quick|thorough]: decides one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) > 2:
    os.environ['VERIF_TIER'] = sys.argv[2]
import core


def main():
    prop = sys.argv[1]
    try:
        mod = importlib.import_module(prop.lower())
        core.import_repo(jit=getattr(mod, 'JIT', True))
        rep = core.Report(prop, mod.LEVEL, mod.RULE)
        rep.assumptions = list(getattr(mod, 'ASSUMPTIONS', []))
        mod.run(rep)
        return rep.finish()
    except core.MachineryError as e:
        print(f'{prop}: machinery error: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
