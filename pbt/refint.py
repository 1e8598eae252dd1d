"""The published time-stepping schemes, on any right-hand side."""
from fractions import Fraction as Fr

import numpy as np

# Bogacki & Shampine (1996), "An efficient Runge-Kutta (4,5) pair"
BS5_A = [[],
         [Fr(1, 6)],
         [Fr(2, 27), Fr(4, 27)],
         [Fr(183, 1372), Fr(-162, 343), Fr(1053, 1372)],
         [Fr(68, 297), Fr(-4, 11), Fr(42, 143), Fr(1960, 3861)],
         [Fr(597, 22528), Fr(81, 352), Fr(63099, 585728), Fr(58653, 366080), Fr(4617, 20480)],
         [Fr(174197, 959244), Fr(-30942, 79937), Fr(8152137, 19744439), Fr(666106, 1039181), Fr(-29421, 29068),
          Fr(482048, 414219)],
         [Fr(587, 8064), Fr(0), Fr(4440339, 15491840), Fr(24353, 124800), Fr(387, 44800), Fr(2152, 5985),
          Fr(7267, 94080)]]
BS5_B = BS5_A[7] + [Fr(0)]
BS5_BHAT = [Fr(2479, 34992), Fr(0), Fr(123, 416), Fr(612941, 3411720), Fr(43, 1440), Fr(2272, 6561),
            Fr(79937, 1113912), Fr(3293, 556956)]
RK4_A = [[], [Fr(1, 2)], [Fr(0), Fr(1, 2)], [Fr(0), Fr(0), Fr(1)]]
RK4_B = [Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)]


def _trees(n):
    """Rooted trees with n vertices, as sorted tuples of subtrees."""
    if n == 1:
        return [()]
    out = set()

    def split(left, cap, acc):
        if left == 0:
            out.add(tuple(sorted(acc)))
            return
        for k in range(min(left, cap), 0, -1):
            for t in _trees(k):
                split(left - k, k, acc + [t])
    split(n - 1, n - 1, [])
    return sorted(out)


def order_of(A, b, upto=6):
    """The order of a Runge-Kutta method, exactly, from the rooted-tree conditions."""
    s = len(b)

    def size(t):
        return 1 + sum(size(x) for x in t)

    def gamma(t):
        g = size(t)
        for x in t:
            g *= gamma(x)
        return g

    def weights(t):
        out = []
        for i in range(s):
            p = Fr(1)
            for x in t:
                w = weights(x)
                p *= sum((A[i][j] * w[j] for j in range(len(A[i]))), Fr(0))
            out.append(p)
        return out
    for n in range(1, upto + 1):
        for t in _trees(n):
            if sum(b[i] * w for i, w in enumerate(weights(t))) != Fr(1, gamma(t)):
                return n - 1
    return upto


def rk(A, b, f, u, dt, k0=None):
    """One explicit Runge-Kutta step. Returns (new, stages)."""
    k = []
    for i, row in enumerate(A):
        if i == 0 and k0 is not None:
            k.append(k0)
            continue
        y = u.copy()
        for j, a in enumerate(row):
            if a:
                y = y + dt * float(a) * k[j]
        k.append(f(y))
    new = u.copy()
    for i, c in enumerate(b):
        if c:
            new = new + dt * float(c) * k[i]
    return new, k


def euler(f, u, dt):
    return u + dt * f(u)


def rk4(f, u, dt):
    return rk(RK4_A, RK4_B, f, u, dt)[0]


def bs5(f, u, dt):
    return rk(BS5_A, BS5_B, f, u, dt)[0]


def run(name, f, u, dts):
    """All states of a run with the given step sizes."""
    out = [u.copy()]
    last = None
    for dt in dts:
        u = out[-1]
        if name == 'AB2':
            k = f(u)
            new = u + dt * k if last is None else u + dt * (1.5 * k - 0.5 * last)
            last = k
        elif name == 'ForwardEuler':
            new = euler(f, u, dt)
        elif name == 'RK4':
            new = rk4(f, u, dt)
        else:
            new = bs5(f, u, dt)
        out.append(new)
    return out


class Controller:
    """The step-size rule: safety 0.8, growth at most 2 (1 after a rejection), shrink at least 0.01."""

    def __init__(self, f, tol, shape):
        self.f, self.tol, self.n = f, tol, float(np.prod(shape))

    def norm(self, err, u, new):
        sc = self.tol + np.maximum(np.abs(u), np.abs(new)) * self.tol
        r = np.abs(err / sc) ** 2
        return float(np.sqrt(r.reshape(r.shape[0], -1).sum(1) / self.n).max())

    def attempt(self, u, dt, k0=None):
        new, k = rk(BS5_A, BS5_B, self.f, u, dt, k0)
        err = 0
        for i in range(8):
            d = float(BS5_B[i] - BS5_BHAT[i])
            err = err + dt * d * k[i]
        return new, self.norm(err, u, new), k

    @staticmethod
    def factor(est, rejected):
        top = 1.0 if rejected else 2.0
        if est == 0:
            return top
        return min(top, max(0.01, 0.8 * est ** -0.2))
