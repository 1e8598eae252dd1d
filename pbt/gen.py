"""Hypothesis generators shared by the checks. Every case is JSON."""
from hypothesis import strategies as st

PI = 3.141592653589793
SHARD = [0, 1]          # this process's shard of the campaign, and the number of shards


def share(options):
    """The options this shard draws from: together the shards cover all of them evenly, whatever the draws."""
    options = list(options)
    i, n = SHARD
    if n >= len(options):
        return [options[i % len(options)]]
    return options[i::n]


def rnd(lo, hi, nd=6):
    """Floats with few digits: they shrink and print well."""
    k = 10 ** nd
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def logu(lo, hi):
    """Log-uniform, three significant digits."""
    import math
    return st.floats(math.log(lo), math.log(hi), allow_nan=False).map(lambda x: float('%.3g' % math.exp(x)))


def meshes(d, pool=(4, 6, 8, 10, 12, 16), pow2=False):
    if pow2:
        pool = [n for n in pool if n & (n - 1) == 0]
    pool = [n + 1 for n in pool] + list(pool)
    small = st.lists(st.sampled_from(list(pool)), min_size=d, max_size=d)
    if pow2 or len(pool) < 2:
        return small
    big = [18, 20, 24, 30, 32, 34, 36, 40, 48, 64] if d == 2 else [18, 20, 24, 30, 32, 34, 36]

    def long(t):
        n, k, axis, m = t
        return n if k < 11 else n[:axis] + [m] + n[axis + 1:]
    return st.tuples(small, st.integers(0, 11), st.integers(0, d - 1), st.sampled_from(big)).map(long)


def lengths(d, lo=0.5, hi=12.0):
    return st.one_of(st.just([2 * PI] * d),
                     st.lists(rnd(lo, hi, 3), min_size=d, max_size=d))


def modes(d, ncomp, kmax=5, maxn=4):
    m = st.fixed_dictionaries({'k': st.lists(st.integers(-kmax, kmax), min_size=d, max_size=d),
                               'c': st.integers(0, ncomp - 1), 'a': rnd(-2, 2, 3), 'p': rnd(0, 6.3, 3)})
    return st.lists(m, min_size=1, max_size=maxn)


def fields(d, ncomp, amp=(0.1, 3.0), mean=True):
    seed = st.integers(0, 2 ** 31 - 1)
    mn = st.one_of(st.just([0.0] * ncomp), st.lists(rnd(-1.5, 1.5, 3), min_size=ncomp, max_size=ncomp)) \
        if mean else st.just([0.0] * ncomp)
    return st.one_of(
        st.fixed_dictionaries({'modes': modes(d, ncomp), 'mean': mn}),
        st.fixed_dictionaries({'seed': seed, 'amp': rnd(amp[0], amp[1], 3), 'kmax': st.integers(1, 8),
                               'slope': st.integers(0, 4), 'mean': mn}),
        st.fixed_dictionaries({'seed': seed, 'amp': rnd(amp[0], amp[1], 3), 'kmax': st.integers(0, 0),
                               'slope': st.integers(0, 3), 'mean': mn, 'modes': modes(d, ncomp)}),
        st.fixed_dictionaries({'seed': seed, 'amp': rnd(amp[0], amp[1], 3), 'kmax': st.integers(1, 8),
                               'slope': st.integers(0, 2), 'mean': mn, 'flat': st.integers(0, d - 1), 'keep': st.integers(0, 2)}))

DEALIAS = ['2/3-rule', '3/2-rule', 'None']


def no_tiny(case):
    """The 2/3-rule of the transform library does nothing on 4 points (4//3 - 1 = 0): use 6."""
    if case.get('dealias') == '2/3-rule':
        case = dict(case, N=[6 if n < 6 else n for n in case['N']])
    return case


def warm():
    """Seed of another state the solver is stepped from beforehand (0: none): what it leaves behind must not matter."""
    return st.one_of(st.just(0), st.integers(1, 10 ** 6))
