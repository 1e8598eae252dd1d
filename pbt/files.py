"""Reading the HDF5 files a run leaves behind, and restarting from them."""
import os

import numpy as np

from . import anysim as A, channel as H
from .core import Violation
from .harness import local

PRIMARY = {'NS': 'U', 'NS2D': 'U', 'VV': 'curl', 'MHD': 'UB', 'Bq2D': 'Ur', 'KMM': 'U', 'KMMRK3': 'U', 'KMMr': 'U', 'KMM_RB': 'U',
           'KMMRK3_RB': 'U', 'Coupled': 'UP', 'CoupledRK3': 'UP'}
TWO = ('KMM', 'KMMr', 'KMM_RB', 'Coupled')     # solvers that need the previous step as well


def clean():
    for f in os.listdir('.'):
        if f.endswith('.h5') or f == 'killspectraldns':
            os.unlink(f)


def tree(path):
    """{dataset path: array}, {attribute: value}"""
    import h5py
    out = {}
    with h5py.File(path, 'r') as f:
        def visit(name, node):
            if isinstance(node, h5py.Dataset):
                out[name] = node[...]
        f.visititems(visit)
        return out, {k: v for k, v in f.attrs.items()}


def verify(path, want, t, tstep):
    data, attrs = tree(path)
    have = {k: v for k, v in data.items() if '/mesh/' not in k}
    if set(have) != set(want):
        raise Violation('the checkpoint holds %s, expected %s' % (sorted(have), sorted(want)))
    for k, v in want.items():
        if have[k].shape != v.shape or not np.array_equal(have[k], v):
            raise Violation('the checkpoint\'s %s is not the solution of step %d (off by %.3g)' % (
                k, tstep, np.abs(have[k] - v).max() if have[k].shape == v.shape else np.inf))
    if int(attrs.get('tstep', -1)) != tstep or abs(float(attrs.get('t', -1)) - t) > 1e-14 * max(1, abs(t)):
        raise Violation('the checkpoint says step %s, time %s; it was written at step %d, time %r' % (
            attrs.get('tstep'), attrs.get('t'), tstep, t))


def restart(sim, path):
    """Load a checkpoint the way demo/MKM.py does."""
    data, attrs = tree(path)
    name, d = PRIMARY[sim.name], '%dD' % len(sim.params.N)
    c, s = sim.context, sim.solver
    cur = data['/'.join((name, d, '0'))]

    def put(dst, src):
        dst[:] = local(sim, src, dst)
    if not A.is_channel(sim.name):
        put(getattr(c, A.PRIMARY[sim.name][0]), cur)
        return
    def curl():
        if sim.name == 'KMMr':
            c.g[:] = 1j * c.K[0] * c.U_hat[1] - 1j * c.K[1] * c.U_hat[0]
        elif sim.name not in H.COUPLED:
            c.g[:] = 1j * c.K[1] * c.U_hat[2] - 1j * c.K[2] * c.U_hat[1]
    u = c.UP_hat if sim.name in H.COUPLED else c.U_hat
    if sim.name in TWO:
        put(u, data['/'.join((name, d, '1'))])
        curl()
        (c.UP_hat0 if sim.name in H.COUPLED else c.U_hat0)[:] = u
        c.H_hat1[:] = s.get_convection(**c)
        if c.get('mask') is not None:
            c.H_hat1.mask_nyquist(c.mask)
    put(u, cur)
    curl()
    if sim.name in H.COUPLED and sim.name in TWO:
        c.UP_hat0[:] = u
    elif sim.name in TWO:
        c.U_hat0[:] = u
    if 'phi/%s/0' % d in data:
        put(c.phi_hat, data['phi/%s/0' % d])
        if sim.name in TWO:
            c.phi_hat0[:] = c.phi_hat
            put(c.phi_hat1, data['phi/%s/1' % d])
