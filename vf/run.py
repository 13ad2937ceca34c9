"""python3 -m vf.run <property> [quick|thorough]"""
import importlib
import os
import sys
import traceback


def load(pid):
    return importlib.import_module('vf.checks.' + pid.lower()).CHECK


def main():
    from .runner import Run
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VF_SCALE', '1'))
    try:
        rc = Run(load(pid), tier, seed, scale).go()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
