'''python harness/run.py <ID> [tier]'''
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'checks'))

from core import Check, MachineryError  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    check = Check(pid, tier, seed)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(check)
        rc = check.finish()
    except MachineryError as e:
        print('MACHINERY ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        import shutil
        shutil.rmtree(check.work, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
