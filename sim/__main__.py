import os
import sys

if __name__ == '__main__':
    want = {'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
            'PYTHONHASHSEED': os.environ.get('PYTHONHASHSEED') or '0',
            'PYTHONDONTWRITEBYTECODE': '1'}
    if any(os.environ.get(k) != v for k, v in want.items()):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, '-m', 'sim'] + sys.argv[1:])
    from sim.runner import main
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
