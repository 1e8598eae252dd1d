"""One rank of a pool: runs the cases dropped in its directory.

The ranks never talk to each other here (only the code under test communicates), so that a rank that
is left behind shows as such: each polls for its case and writes its own result.
"""
import importlib
import os
import pickle
import sys
import time
import traceback


def main():
    base = sys.argv[1]
    from .worker import add_hypothesis
    add_hypothesis()
    from mpi4py import MPI
    rank = MPI.COMM_WORLD.Get_rank()
    from . import core, mpi
    run = os.path.join(base, 'run')
    os.chdir(run)
    open(os.path.join(base, 'up-%d' % rank), 'w').close()
    k = 0
    parent = os.getppid()
    while True:
        path = os.path.join(base, 'case-%d' % k)
        nap = 0.0005
        while not os.path.exists(path):
            if os.path.exists(os.path.join(base, 'quit')) or os.getppid() != parent:
                return
            time.sleep(nap)
            nap = min(nap * 1.5, 0.02)
        with open(path, 'rb') as f:
            case = pickle.load(f)
        try:
            call = mpi.execute
            if 'call' in case:
                mod, name = case['call'].split(':')
                call = getattr(importlib.import_module(mod), name)
            out = call(case)
        except BaseException as exc:
            out = {'error': '%s: %s' % (type(exc).__name__, str(exc)[:300]), 'code': core.touches_repo(exc),
                   'trace': traceback.format_exc()[-1500:], 'divides': 'shape[i] >= size' in traceback.format_exc()}
        res = os.path.join(base, 'out-%d-%d' % (k, rank))
        with open(res + '.tmp', 'wb') as f:
            pickle.dump(out, f, protocol=4)
        os.replace(res + '.tmp', res)
        k += 1


if __name__ == '__main__':
    main()
