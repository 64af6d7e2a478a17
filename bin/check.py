#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]: decide one property."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'harness'))
import fw  # noqa: E402
from registry import CHECKS  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER',
                                                                'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    module, fun = CHECKS[prop]
    chk = fw.Check(prop, tier, seed)
    try:
        getattr(importlib.import_module(module), fun)(chk)
        code = chk.finish()
    except fw.Machinery as err:
        print('MACHINERY ERROR: {:}'.format(err.args[0]))
        code = 3
    except Exception:
        traceback.print_exc()
        code = 4
    finally:
        chk.clean()
    print('{:s} {:s}: exit {:d}, {:d} states, {:d} traces, {:.1f} s'.format(
        prop, tier, code, chk.states, chk.traces,
        __import__('time').time() - chk.start))
    sys.stdout.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
