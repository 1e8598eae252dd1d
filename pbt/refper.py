"""An independent pseudo-spectral reference for the periodic solvers.

Plain numpy, written from the equations.  Spectral arrays hold the Fourier
coefficients of real fields, real-to-complex along the last axis, normalised so
that f(x) = sum_k f_k exp(i k.x).
"""
import numpy as np

from .harness import rng


def axes(n):
    return tuple(range(-n, 0))


def fwd(f, d):
    """Coefficients of a real field (leading axes are components)."""
    n = int(np.prod(f.shape[-d:]))
    return np.fft.rfftn(f, axes=axes(d)) / n


def bwd(fh, N):
    n = int(np.prod(N))
    return np.fft.irfftn(fh, s=tuple(N), axes=axes(len(N))) * n


def index(N):
    """Integer wavenumbers, one broadcastable array per axis."""
    d = len(N)
    out = []
    for i, n in enumerate(N):
        k = np.arange(n // 2 + 1) if i == d - 1 else np.rint(np.fft.fftfreq(n, 1.0 / n))
        out.append(k.astype(float).reshape([-1 if j == i else 1 for j in range(d)]))
    return out


def waves(N, L):
    return [k * (2 * np.pi / l) for k, l in zip(index(N), L)]


def half_shape(N):
    return tuple(N[:-1]) + (N[-1] // 2 + 1,)


def full(ks, N):
    return [np.broadcast_to(k, half_shape(N)) for k in ks]


def nyquist(N):
    """True where a mode sits at an (even-N) Nyquist wavenumber."""
    m = np.zeros(half_shape(N), dtype=bool)
    for k, n in zip(index(N), N):
        if n % 2 == 0:
            m |= np.broadcast_to(np.abs(k) == n // 2, m.shape)
    return m


def within(N, kmax):
    """True where |k_i| <= kmax_i on every axis."""
    m = np.ones(half_shape(N), dtype=bool)
    for k, c in zip(index(N), kmax):
        m &= np.broadcast_to(np.abs(k) <= c, m.shape)
    return m


def kept(N):
    """The modes the 2/3-rule retains."""
    return within(N, [n // 3 - 1 for n in N])


def pad(fh, N, M):
    """Zero-pad coefficients (without Nyquist content) from an N grid to an M grid."""
    lead = fh.shape[:-len(N)]
    out = np.zeros(lead + half_shape(M), dtype=complex)
    src, dst = [], []
    d = len(N)
    for i, (n, m) in enumerate(zip(N, M)):
        if i == d - 1:
            h = (n - 1) // 2 + 1
            src.append(np.arange(h))
            dst.append(np.arange(h))
        else:
            h = (n - 1) // 2
            k = np.concatenate([np.arange(h + 1), np.arange(-h, 0)])
            src.append(k % n)
            dst.append(k % m)
    lead_ix = [np.arange(s) for s in lead]
    out[np.ix_(*lead_ix, *dst)] = fh[np.ix_(*lead_ix, *src)]
    return out


def cut(fh, M, N):
    """Truncate coefficients from an M grid to the non-Nyquist modes of an N grid."""
    lead = fh.shape[:-len(N)]
    out = np.zeros(lead + half_shape(N), dtype=complex)
    src, dst = [], []
    d = len(N)
    for i, (n, m) in enumerate(zip(N, M)):
        if i == d - 1:
            h = (n - 1) // 2 + 1
            src.append(np.arange(h))
            dst.append(np.arange(h))
        else:
            h = (n - 1) // 2
            k = np.concatenate([np.arange(h + 1), np.arange(-h, 0)])
            src.append(k % m)
            dst.append(k % n)
    lead_ix = [np.arange(s) for s in lead]
    out[np.ix_(*lead_ix, *dst)] = fh[np.ix_(*lead_ix, *src)]
    return out


class Grid:
    """The products of one dealiasing rule on one mesh."""

    def __init__(self, N, L, dealias):
        self.N, self.L, self.dealias = [int(n) for n in N], [float(x) for x in L], dealias
        self.d = len(N)
        self.K = waves(self.N, self.L)
        self.Kf = np.array(full(self.K, self.N))
        self.K2 = (self.Kf ** 2).sum(0)
        self.nyq = nyquist(self.N)
        self.keep = kept(self.N)
        if dealias == '3/2-rule':
            self.M = [int(np.floor(1.5 * n)) for n in self.N]
        elif dealias == 'exact':
            self.M = [2 * n + 2 for n in self.N]
        else:
            self.M = self.N
        # where a product of two fields is comparable with this reference
        if dealias == '2/3-rule':
            self.valid = self.keep
        else:
            self.valid = ~self.nyq

    def phys(self, fh):
        fh = np.where(self.nyq, 0, fh)
        if self.dealias == '2/3-rule':
            fh = np.where(self.keep, fh, 0)
        if self.M != self.N:
            fh = pad(fh, self.N, self.M)
        return bwd(fh, self.M)

    def spec(self, f):
        fh = fwd(f, self.d)
        if self.M != self.N:
            return cut(fh, self.M, self.N)
        return np.where(self.nyq, 0, fh)

    def grad(self, fh):
        """i k_j f_k, j first."""
        return 1j * self.Kf.reshape((self.d,) + (1,) * (fh.ndim - self.d) + self.Kf.shape[1:]) * fh

    def div(self, fh):
        return 1j * (self.Kf * fh).sum(0)

    def curl(self, uh):
        K = self.Kf
        if self.d == 2:
            return 1j * (K[0] * uh[1] - K[1] * uh[0])
        return 1j * np.array([K[1] * uh[2] - K[2] * uh[1], K[2] * uh[0] - K[0] * uh[2],
                              K[0] * uh[1] - K[1] * uh[0]])

    def project(self, uh):
        k2 = np.where(self.K2 == 0, 1, self.K2)
        return uh - self.Kf * ((self.Kf * uh).sum(0) / k2)

    def biot_savart(self, wh):
        """The mean-free solenoidal velocity whose curl is w."""
        k2 = np.where(self.K2 == 0, 1, self.K2)
        return self.curl(wh) / k2

    def pressure(self, Fh):
        """p with laplace(p) = div(F)."""
        k2 = np.where(self.K2 == 0, 1, self.K2)
        p = -self.div(Fh) / k2
        p[(0,) * self.d] = 0
        return p

    # ---------------------------------------------------------- nonlinear terms
    def convection(self, uh, form):
        """The coefficients of -(u.grad)u, in one of its forms (up to a gradient for Vortex)."""
        u = self.phys(uh)
        if form == 'Standard':
            return -self.spec(self._standard(u, uh))
        if form == 'Divergence':
            return -self._divergence(u)
        if form in ('Skewed', 'Skew'):
            return -0.5 * (self.spec(self._standard(u, uh)) + self._divergence(u))
        w = self.phys(self.curl(uh))
        if self.d == 2:
            return self.spec(np.array([u[1] * w, -u[0] * w]))
        return self.spec(np.cross(u, w, axis=0))

    def _standard(self, u, uh):
        out = np.zeros_like(u)
        for j in range(self.d):
            out += u[j] * self.phys(1j * self.Kf[j] * uh)
        return out

    def _divergence(self, u):
        out = 0
        for j in range(self.d):
            out = out + 1j * self.Kf[j] * self.spec(u[j] * u)
        return out


def ns_rhs(g, uh, nu, form, source=None):
    r = g.project(g.convection(uh, form)) - nu * g.K2 * uh
    return r if source is None else r + source


def vv_rhs(g, wh, nu, source=None):
    u = g.phys(g.biot_savart(wh))
    w = g.phys(wh)
    r = g.curl(g.spec(np.cross(u, w, axis=0))) - nu * g.K2 * wh
    return r if source is None else r + source


def mhd_rhs(g, ubh, nu, eta):
    u, b = g.phys(ubh[:3]), g.phys(ubh[3:])
    F = np.zeros_like(ubh[:3])
    G = np.zeros_like(ubh[:3])
    for j in range(3):
        F = F + 1j * g.Kf[j] * g.spec(b[j] * b - u[j] * u)
        G = G + 1j * g.Kf[j] * g.spec(b[j] * u - u[j] * b)
    return np.concatenate([g.project(F) - nu * g.K2 * ubh[:3], G - eta * g.K2 * ubh[3:]])


def bq_rhs(g, qh, nu, Ri, Pr):
    """2D Boussinesq, vertical axis y: u_t = ... - Ri rho e_y, rho_t = -div(u rho) + nu/Pr lap rho."""
    uh, rh = qh[:2], qh[2]
    F = g.convection(uh, 'Vortex')
    F[1] -= Ri * rh
    u, r = g.phys(uh), g.phys(rh)
    return np.concatenate([g.project(F) - nu * g.K2 * uh,
                           (-g.div(g.spec(u * r)) - nu / Pr * g.K2 * rh)[None]])


# ---------------------------------------------------------------- initial fields
def field(N, L, spec, ncomp, solenoidal=True):
    """Coefficients described by a case: {'seed', 'kmax', 'slope', 'amp', 'mean', 'modes'}."""
    d = len(N)
    g = Grid(N, L, 'None')
    lim = [(n - 1) // 2 for n in N]
    fh = np.zeros((ncomp,) + half_shape(N), dtype=complex)
    if spec.get('amp'):
        r = rng(spec['seed'])
        kmax = spec.get('kmax') or max(lim)
        noise = fwd(r.standard_normal((ncomp,) + tuple(N)), d)
        noise = np.where(within(N, [min(kmax, m) for m in lim]), noise, 0)
        kk = sum(np.broadcast_to(k, half_shape(N)) ** 2 for k in index(N))
        noise = noise * (1.0 + kk) ** (-0.5 * spec.get('slope', 1))
        noise[(slice(None),) + (0,) * d] = 0
        if 'flat' in spec:              # uniform along one axis; all, only that or only the other components of velocity
            a = spec['flat'] % d
            noise = np.where(index(N)[a] == 0, noise, 0)
            for c in range(d):
                if spec['keep'] == 1 and c != a or spec['keep'] == 2 and c == a:
                    noise[c] = 0
            if ncomp > d and spec['keep'] == 2:
                noise[d:] = 0
        s = np.sqrt((bwd(noise, N) ** 2).sum(0).mean())
        if s > 0:
            fh += noise * (spec['amp'] / s)
    X = np.meshgrid(*[2 * np.pi * np.arange(n) / n for n in N], indexing='ij')
    for m in spec.get('modes') or []:
        k = [((int(ki) + lm) % (2 * lm + 1)) - lm if lm else 0 for ki, lm in zip(m['k'], lim)]
        ph = sum(ki * x for ki, x in zip(k, X))
        c = m['c'] % ncomp
        fh[c] += fwd(m['a'] * np.cos(ph + m['p']), d)
    if solenoidal:
        fh[:d] = g.project(fh[:d])
    for c, mval in enumerate(spec.get('mean') or []):
        if c < ncomp:
            fh[(c,) + (0,) * d] = mval
    return np.where(g.nyq, 0, fh)


def energy(g, fh):
    """The domain mean of |f|^2/2, from the coefficients (Parseval)."""
    return 0.5 * inner(fh, fh)


def inner(ah, bh):
    """The domain mean of a.b for real fields given by their half spectra."""
    n = ah.shape[-1]
    return float(np.real(np.sum(weights_like(ah) * ah * np.conj(bh))))


def weights_like(ah, even=True):
    w = np.full(ah.shape[-1], 2.0)
    w[0] = 1.0
    return w      # modes at Nyquist carry no energy in these tests
