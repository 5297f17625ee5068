"""Workload generators shared by the checks."""
import numpy as np


def signal(rng, kind=None, n=None, dyadic=True):
    """A hostile 1-D signal; dyadic values make every sum, difference and comparison exact."""
    kind = kind or rng.choice(['walk', 'noise', 'steps', 'sine', 'spikes', 'grow', 'decay', 'few', 'ramp', 'offset'])
    if n is None:
        n = int(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 12, 17, 33, 64, 150, 400]))
    t = np.arange(n)
    if kind == 'walk':
        x = np.cumsum(rng.randint(-3, 4, n)) / 4.
    elif kind == 'noise':
        x = rng.randn(n)
    elif kind == 'steps':
        x = np.repeat(rng.randint(-3, 4, n), rng.randint(1, 4, n))[:n] / 2.
    elif kind == 'sine':
        x = np.sin(t * rng.uniform(0.1, 2.5) + rng.uniform(0, 6)) + 0.3 * np.sin(t * rng.uniform(1, 3))
    elif kind == 'spikes':
        x = np.zeros(n)
        k = rng.randint(0, n, max(1, n // 5))
        x[k] = rng.randint(-5, 6, k.size)
    elif kind == 'grow':
        x = (-1.0) ** t * (1 + t)
    elif kind == 'decay':
        x = (-1.0) ** t * (n - t)
    elif kind == 'few':
        x = rng.choice([-1., 0., 1.], n)
    elif kind == 'ramp':
        x = t * rng.choice([-0.25, 0.25, 0.5]) + rng.randint(-1, 2, n)
    else:
        x = rng.randn(n) + rng.choice([-100., 5., 1000.])
    x = np.asarray(x, dtype=float)
    if dyadic:
        x = np.round(x * 64) / 64.
    return x


def turning(rng, n=None, ties=True):
    """A strictly alternating sequence of (dyadic) turning points."""
    if n is None:
        n = int(rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 40, 41, 120, 121]))
    m = 6 if ties else 4000
    x = [int(rng.randint(-m, m + 1))]
    d = rng.choice([-1, 1])
    mode = rng.choice(['iid', 'walk', 'grow', 'decay', 'nest'])
    for i in range(1, n):
        if mode == 'iid':
            lo, hi = (x[-1] + 1, x[-1] + 2 * m) if d > 0 else (x[-1] - 2 * m, x[-1] - 1)
            c = int(np.clip(rng.randint(-m, m + 1), lo, hi))
        elif mode == 'walk':
            c = x[-1] + d * int(rng.randint(1, m + 1))
        elif mode == 'grow':
            c = x[-1] + d * int(i + rng.randint(1, 3))
        elif mode == 'decay':
            c = x[-1] + d * int(n - i + rng.randint(1, 3))
        else:
            c = x[-1] + d * int(1 + min(i, n - i) + rng.randint(0, 3))
        x.append(c)
        d = -d
    return np.asarray(x, dtype=float) / 8.


def variants(rng, x):
    """Other representations of the same 1-D data: list, strided view, reversed view, integer (when integral)."""
    x = np.asarray(x)
    k = rng.randint(5)
    if k == 0:
        return x.tolist()
    if k == 1:
        y = np.empty(2 * x.size, dtype=x.dtype)
        y[:] = -77
        y[::2] = x
        return y[::2]
    if k == 2:
        return x[::-1].copy()[::-1]
    if k == 3 and np.all(x == np.round(x)):
        return x.astype(int)
    return x.copy()
