"""A dense reference for the channel solvers, written from the discrete equations.

The wall-normal direction is axis 0.  A field is an array of Chebyshev
coefficients times Fourier coefficients (real-to-complex along the last axis);
inner products are sums over the quadrature points, Galerkin spaces are given
by their Chebyshev coefficients, and every linear system is solved densely.
"""
import numpy as np
from numpy.polynomial import chebyshev as C

from . import refper as R
from .harness import rng


def points(n, quad):
    j = np.arange(n)
    if quad == 'GC':
        return np.cos((2 * j + 1) * np.pi / (2 * n)), np.full(n, np.pi / n)
    w = np.full(n, np.pi / (n - 1))
    w[0] = w[-1] = np.pi / (2 * (n - 1))
    return np.cos(j * np.pi / (n - 1)), w


def dirichlet(n):
    m = np.zeros((n, n - 2))
    for k in range(n - 2):
        m[k, k], m[k + 2, k] = 1, -1
    return m


def biharmonic(n):
    m = np.zeros((n, n - 4))
    for k in range(n - 4):
        m[k, k] = 1
        m[k + 2, k] = -2.0 * (k + 2) / (k + 3)
        m[k + 4, k] = (k + 1.0) / (k + 3)
    return m


def derivative(n):
    d = np.zeros((n, n))
    for k in range(n):
        e = np.zeros(n)
        e[k] = 1
        c = C.chebder(e)
        d[:len(c), k] = c
    return d


class Space:
    """One wall-normal Galerkin space: columns are Chebyshev coefficients."""

    def __init__(self, basis, n):
        self.b = basis
        self.n = n
        self.pinv = np.linalg.pinv(basis)

    def coef(self, c):
        """Galerkin coefficients of Chebyshev coefficients in the space."""
        return np.tensordot(self.pinv, c, 1)

    def cheb(self, a):
        return np.tensordot(self.b, a, 1)


class Chan:
    def __init__(self, N, L, quad='GC', dealias='None', mask=True):
        self.N, self.L, self.quad, self.dealias = [int(n) for n in N], [float(x) for x in L], quad, dealias
        n = self.N[0]
        self.n = n
        self.x, self.w = points(n, quad)
        self.V = C.chebvander(self.x, n - 1)
        self.D = derivative(n)
        self.SD, self.SB, self.CT = Space(dirichlet(n), n), Space(biharmonic(n), n), Space(np.eye(n), n)
        self.N2 = self.N[1:]
        ky, kz = R.waves(self.N2, self.L[1:])
        full = R.half_shape(self.N2)
        self.ky, self.kz = np.broadcast_to(ky, full), np.broadcast_to(kz, full)
        self.K2 = self.ky ** 2 + self.kz ** 2
        self.nyq = R.nyquist(self.N2)
        self.mask = mask
        fac = 1.5 if dealias == '3/2-rule' else 1
        self.M = [int(np.floor(fac * m)) for m in self.N]
        self.xp, self.wp = points(self.M[0], quad)
        self.Vp = C.chebvander(self.xp, n - 1)

    # ------------------------------------------------------------ transforms
    def phys(self, c):
        """Physical values at the mesh points (exact: state without Nyquist modes)."""
        v = np.tensordot(self.V, c, (1, -3))
        v = np.moveaxis(v, 0, -3)
        return R.bwd(v, self.N2)

    def cut(self, c, space):
        """What the dealiased transform keeps of coefficients in the space."""
        if self.dealias != '2/3-rule':
            return c
        a = space.coef(c)
        a[2 * self.n // 3:] = 0
        a = a * R.kept(self.N2)
        return space.cheb(a)

    def nonlin(self, c, space):
        """Values on the (dealiased) mesh of one component."""
        c = self.cut(c, space)
        v = np.tensordot(self.Vp, c, 1)
        if self.dealias == '3/2-rule':
            v = R.pad(v, self.N2, self.M[1:])
        return R.bwd(v, self.M[1:])

    def weights_project(self, vals, space):
        """Chebyshev coefficients of the weighted projection of dealiased-mesh values."""
        f = R.fwd(vals, 2)
        if self.dealias == '3/2-rule':
            f = R.cut(f, self.M[1:], self.N2)
        P = (self.Vp @ space.b)
        rhs = np.tensordot(P.T * self.wp, f, 1)
        G = self.ip(space.b, space.b)
        a = np.linalg.solve(G, rhs.reshape(G.shape[0], -1)).reshape(rhs.shape)
        return space.cheb(a)

    def dx(self, c):
        return np.tensordot(self.D, c, 1)

    def ip(self, test, trial):
        """(test_k, sum_j trial_j) with the quadrature of the unpadded mesh; trial = Chebyshev coefficient columns."""
        return ((self.V @ test).T * self.w) @ (self.V @ trial)

    # ------------------------------------------------------------ convection
    def vorticity(self, u):
        return np.array([1j * self.ky * u[2] - 1j * self.kz * u[1],
                         1j * self.kz * u[0] - self.dx(u[2]),
                         self.dx(u[1]) - 1j * self.ky * u[0]])

    def convection(self, u, form):
        """H in the Dirichlet space, so that du/dt = H - grad p + nu lap u."""
        sp = [self.SB, self.SD, self.SD]
        U = [self.nonlin(u[i], sp[i]) for i in range(3)]
        if form == 'Vortex':
            w = self.vorticity(u)
            # each part of the vorticity lives in the space it is formed in
            W = [self.nonlin(w[0], self.SD),
                 self.nonlin(1j * self.kz * u[0], self.SB) - self.nonlin(self.dx(u[2]), self.CT),
                 self.nonlin(self.dx(u[1]), self.CT) - self.nonlin(1j * self.ky * u[0], self.SB)]
            prod = [U[1] * W[2] - U[2] * W[1], U[2] * W[0] - U[0] * W[2], U[0] * W[1] - U[1] * W[0]]
            H = np.array([self.weights_project(p, self.SD) for p in prod])
        else:
            H = 0
            if form in ('Standard', 'Skew'):
                out = []
                for i in range(3):
                    dxs = self.SD if i == 0 else self.CT
                    p = U[0] * self.nonlin(self.dx(u[i]), dxs)
                    p = p + U[1] * self.nonlin(1j * self.ky * u[i], sp[i])
                    p = p + U[2] * self.nonlin(1j * self.kz * u[i], sp[i])
                    out.append(self.weights_project(p, self.SD))
                H = H - np.array(out)
            if form in ('Divergence', 'Skew'):
                out = []
                for i in range(3):
                    h = self.proj(self.dx(self.weights_project(U[0] * U[i], self.SD)), self.SD)
                    h = h + 1j * self.ky * self.weights_project(U[1] * U[i], self.SD)
                    h = h + 1j * self.kz * self.weights_project(U[2] * U[i], self.SD)
                    out.append(h)
                H = H - np.array(out)
            if form == 'Skew':
                H = 0.5 * H
        if self.mask:
            H = np.where(self.nyq, 0, H)
        return H

    def proj(self, c, space):
        G = self.ip(space.b, space.b)
        r = np.tensordot(self.ip(space.b, np.eye(self.n)), c, 1)
        return space.cheb(np.linalg.solve(G, r.reshape(G.shape[0], -1)).reshape((G.shape[0],) + c.shape[1:]))

    # ------------------------------------------------------------ linear part
    def batched(self, mats, k2, rhs):
        """Solve sum_i f_i(k2) mats_i a = rhs for every wavenumber."""
        A = sum(np.multiply.outer(f, m) for f, m in zip(k2, mats))
        b = np.moveaxis(rhs, 0, -1)[..., None]
        return np.moveaxis(np.linalg.solve(A, b)[..., 0], -1, 0)

    def advance(self, u, H, nu, dt, force, buoyancy=None):
        """One Crank-Nicolson step of size dt with explicit terms H (already combined in time).

        force: Chebyshev coefficients (n, 3) of a mean body force; buoyancy: temperature driving axis 0.
        """
        K2, D2 = self.K2, self.D @ self.D
        SB, SD = self.SB, self.SD
        B, A, S = self.ip(SB.b, SB.b), self.ip(SB.b, D2 @ SB.b), self.ip(SB.b, D2 @ D2 @ SB.b)
        one = np.ones_like(K2)
        a = SB.coef(u[0])
        lap = np.tensordot(A, a, 1) - K2 * np.tensordot(B, a, 1)
        bil = np.tensordot(S, a, 1) - 2 * K2 * np.tensordot(A, a, 1) + K2 ** 2 * np.tensordot(B, a, 1)
        T, TD = self.ip(SB.b, np.eye(self.n)), self.ip(SB.b, self.D)
        hv = -K2 * np.tensordot(T, H[0], 1) - 1j * self.ky * np.tensordot(TD, H[1], 1) - 1j * self.kz * np.tensordot(TD, H[2], 1)
        if buoyancy is not None:
            hv = hv - K2 * np.tensordot(T, buoyancy, 1)
        rhs = lap + 0.5 * nu * dt * bil + dt * hv
        anew = self.batched([A, B, S], [one * (1 + nu * dt * K2), -(K2 + 0.5 * nu * dt * K2 ** 2), -0.5 * nu * dt * one], rhs)
        un = SB.cheb(anew)
        # wall-normal vorticity
        Bd, Ad = self.ip(SD.b, SD.b), self.ip(SD.b, D2 @ SD.b)
        g = 1j * self.ky * u[2] - 1j * self.kz * u[1]
        ga = SD.coef(g)
        Td = self.ip(SD.b, np.eye(self.n))
        hg = np.tensordot(Td, 1j * self.ky * H[2] - 1j * self.kz * H[1], 1)
        Bg, Ag = np.tensordot(Bd, ga, 1), np.tensordot(Ad, ga, 1)
        rhs = Bg + 0.5 * nu * dt * (Ag - K2 * Bg) + dt * hg
        gn = SD.cheb(self.batched([Bd, Ad], [1 + 0.5 * nu * dt * K2, -0.5 * nu * dt * one], rhs))
        # continuity
        f = -self.dx(un)
        k2 = np.where(K2 == 0, 1, K2)
        vn = -1j * (self.ky * f - self.kz * gn) / k2
        wn = -1j * (self.kz * f + self.ky * gn) / k2
        new = np.array([un, vn, wn])
        # the mean
        for i in (1, 2):
            m = SD.coef(u[i])[:, 0, 0]
            r = Bd @ m + 0.5 * nu * dt * (Ad @ m) + dt * (Td @ (H[i][:, 0, 0] + force[:, i]))
            new[i][:, 0, 0] = SD.cheb(np.linalg.solve(Bd - 0.5 * nu * dt * Ad, r))
        new[0][:, 0, 0] = 0
        return new

    RK_A = (8.0 / 15, 5.0 / 12, 3.0 / 4)
    RK_B = (0.0, -17.0 / 60, -5.0 / 12)

    def cnab(self, u, Hold, nu, dt, force, form):
        """One CN/AB2 step. Returns the new state and the convection at the old one."""
        H = self.convection(u, form)
        return self.advance(u, 1.5 * H - 0.5 * Hold, nu, dt, force), H

    def rk3(self, u, nu, dt, force, form):
        Hold = None
        for a, b in zip(self.RK_A, self.RK_B):
            H = self.convection(u, form)
            c = a + b
            E = (a * H + (b * Hold if Hold is not None else 0)) / c
            u = self.advance(u, E, nu, c * dt, force)
            Hold = H
        return u

    # ----------------------------------------------------------- temperature
    # phi = (1 - x)/2 + something in the Dirichlet space (wall values 1 at x=-1 and 0 at x=1)
    def wallpart(self):
        c = np.zeros((self.n,) + R.half_shape(self.N2), dtype=complex)
        c[0, 0, 0], c[1, 0, 0] = 0.5, -0.5
        return c

    def nonlin_phi(self, c):
        w = self.wallpart()
        return self.nonlin(c - w, self.SD) + np.moveaxis(np.broadcast_to(0.5 * (1 - self.xp), self.M[1:] + [self.M[0]]), -1, 0)

    def temp_div(self, u, phi):
        """(test, div(u phi)) in the Dirichlet space, fluxes projected."""
        sp = [self.SB, self.SD, self.SD]
        U = [self.nonlin(u[i], sp[i]) for i in range(3)]
        P = self.nonlin_phi(phi)
        T, TD = self.ip(self.SD.b, np.eye(self.n)), self.ip(self.SD.b, self.D)
        out = np.tensordot(TD, self.weights_project(P * U[0], self.SB), 1)
        out = out + np.tensordot(T, 1j * self.ky * self.weights_project(P * U[1], self.SD), 1)
        return self.hush(out + np.tensordot(T, 1j * self.kz * self.weights_project(P * U[2], self.SD), 1))

    def temp_std(self, u, phi):
        """(test, u.grad(phi)) in the Dirichlet space."""
        sp = [self.SB, self.SD, self.SD]
        U = [self.nonlin(u[i], sp[i]) for i in range(3)]
        h = phi - self.wallpart()
        p = U[0] * self.nonlin(self.dx(phi), self.CT)
        p = p + U[1] * self.nonlin(1j * self.ky * h, self.SD) + U[2] * self.nonlin(1j * self.kz * h, self.SD)
        T = self.ip(self.SD.b, np.eye(self.n))
        return self.hush(np.tensordot(T, self.weights_project(p, self.SD), 1))

    def hush(self, a):
        return np.where(self.nyq, 0, a) if self.mask else a

    def advance_phi(self, phi, N, kappa, dt):
        """Crank-Nicolson diffusion with the explicit (test, convection) N."""
        D2, w = self.D @ self.D, self.wallpart()
        B, A = self.ip(self.SD.b, self.SD.b), self.ip(self.SD.b, D2 @ self.SD.b)
        a = self.SD.coef(phi - w)
        Ba, Aa = np.tensordot(B, a, 1), np.tensordot(A, a, 1)
        rhs = Ba + 0.5 * kappa * dt * (Aa - self.K2 * Ba) - dt * N
        one = np.ones_like(self.K2)
        return w + self.SD.cheb(self.batched([B, A], [1 + 0.5 * kappa * dt * self.K2, -0.5 * kappa * dt * one], rhs))

    def rb_cnab(self, u, Hold, phi, phiold, nu, kappa, dt, force, form):
        """The velocity at the start of the step carries the extrapolated temperature."""
        H = self.convection(u, form)
        pa = 1.5 * phi - 0.5 * phiold
        new = self.advance(u, 1.5 * H - 0.5 * Hold, nu, dt, force, buoyancy=pa)
        return new, H, self.advance_phi(phi, self.temp_div(u, pa), kappa, dt)

    def rb_rk3(self, u, phi, nu, kappa, dt, force, form):
        Hold = Nold = None
        for a, b in zip(self.RK_A, self.RK_B):
            H, N = self.convection(u, form), self.temp_std(u, phi)
            c = a + b
            E = (a * H + (b * Hold if Hold is not None else 0)) / c
            EN = (a * N + (b * Nold if Nold is not None else 0)) / c
            un = self.advance(u, E, nu, c * dt, force, buoyancy=phi)
            phi = self.advance_phi(phi, EN, kappa, c * dt)
            u, Hold, Nold = un, H, N
        return u, phi

    def temperature(self, spec):
        """A random temperature with the wall values."""
        a = self.random_spectrum(spec, self.n - 2, 5)
        c = self.SD.cheb(a)
        m = max(np.abs(self.phys(c)).max(), 1e-12)
        return self.wallpart() + c * (spec['amp'] / m)

    # --------------------------------------------------------------- queries
    def div(self, u):
        return self.dx(u[0]) + 1j * self.ky * u[1] + 1j * self.kz * u[2]

    def wall(self, u):
        s = (-1.0) ** np.arange(self.n)
        return np.array([u.sum(-3), np.tensordot(s, u, (0, -3))])

    def integral(self, c):
        """Integral over the channel of a field's (0,0) mode."""
        k = np.arange(self.n)
        w = np.where(k % 2 == 0, 2.0 / (1.0 - np.where(k % 2 == 0, k, 0) ** 2.0), 0.0)
        return float((w @ c[:, 0, 0].real) * self.L[1] * self.L[2])

    # ---------------------------------------------------------------- states
    def random_spectrum(self, spec, dof, which):
        g = rng(spec['seed'] * 7 + which)
        n1, n2 = self.N2
        r = g.standard_normal((dof, n1, n2))
        f = R.fwd(r, 2)
        iy, iz = R.index(self.N2)
        kk = np.maximum(np.abs(iy), np.abs(iz)) + 0 * f[0].real
        f = f * (kk <= spec['kmax'])
        f = np.where(self.nyq, 0, f)
        f = f * np.exp(-spec['decay'] * np.arange(dof))[:, None, None]
        if spec.get('modes'):
            f[spec['modes']:] = 0
        return f

    def state(self, spec):
        """A solenoidal, no-slip velocity."""
        n = self.n
        a = self.random_spectrum(spec, n - 4, 0)
        b = self.random_spectrum(spec, n - 2, 1)
        a[:, 0, 0] = 0
        b[:, 0, 0] = 0
        without = spec.get('without') or ()
        if 'u' in without:              # no wall-normal velocity
            a[:] = 0
        if 'g' in without:              # no wall-normal vorticity
            b[:] = 0
        for name, k in (('ky', self.ky), ('kz', self.kz)):
            if name in without:         # uniform in this direction
                a, b = np.where(k == 0, a, 0), np.where(k == 0, b, 0)
        u, g = self.SB.cheb(a), self.SD.cheb(b)
        f = -self.dx(u)
        k2 = np.where(self.K2 == 0, 1, self.K2)
        U = np.array([u, -1j * (self.ky * f - self.kz * g) / k2, -1j * (self.kz * f + self.ky * g) / k2])
        m = max(np.abs(self.phys(U)).max(), 1e-12)
        U *= spec['amp'] / m
        gm = rng(spec['seed'] * 7 + 3)
        for i in (1, 2):
            p = gm.standard_normal(n - 2) * np.exp(-spec['decay'] * np.arange(n - 2))
            if spec.get('modes'):
                p[spec['modes']:] = 0
            U[i][:, 0, 0] = 0 if ('mv', 'mw')[i - 1] in without else self.SD.cheb(p) * spec['mean']
        return U


def permute(vals, order):
    """Move a (3, x, y, z) field of the wall-first channel to a solver whose axes are `order`."""
    return np.transpose(vals[list(order)], (0,) + tuple(1 + o for o in order))
