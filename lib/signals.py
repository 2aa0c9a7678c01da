"""Integer test signals with plateaus, ties, touches, nested cycles and sea-like motion."""
import numpy as np


def short(rng, count, lo=1, hi=30):
    for _ in range(count):
        n = int(rng.randint(lo, hi))
        a = int(rng.choice([1, 2, 3, 10]))
        yield rng.randint(-a, a + 1, size=n)


def wide(rng, count):
    """tiny ripples on a signal with huge steps (still exact integers for TLC)"""
    for _ in range(count):
        n = int(rng.randint(4, 25))
        x = rng.randint(-3, 4, size=n)
        k = rng.randint(1, 4)
        x[rng.choice(n, k)] += rng.choice([-1, 1], size=k) * (1 << int(rng.choice([24, 27, 28])))
        yield x


def long(rng, count, sizes=(50, 100, 257, 400)):
    for k in range(count):
        n = int(rng.choice(sizes))
        kind = k % 6
        t = np.arange(n)
        if kind == 0:
            x = np.cumsum(rng.randint(-1, 2, size=n))
        elif kind == 1:
            x = np.round(200 * np.sin(t * rng.uniform(0.02, 1.2)) + 50 * rng.randn(n)).astype(int)
        elif kind == 2:
            x = np.repeat(rng.randint(-2, 3, size=n // 5 + 1), 5)[:n]
        elif kind == 3:
            x = rng.randint(-1000, 1000, size=n)
        elif kind == 4:   # nested / growing / decaying swings
            amp = np.abs(np.round(60 * np.sin(t * 0.13)) + rng.randint(0, 6, size=n)) + 1
            x = (amp * np.where(t % 2 == 0, 1, -1)).astype(int)
        else:
            x = np.cumsum(np.where(t % 2 == 0, 1, -1) * rng.randint(0, 12, size=n))
        yield x.astype(int)


def mixed(rng, nshort, nlong, **kw):
    if kw.pop('huge', False):
        for x in wide(rng, max(5, nshort // 10)):
            yield x
    for x in short(rng, nshort):
        yield x
    for x in long(rng, nlong, **kw):
        yield x


def forms(x, scale, rng, column=True):
    """The same signal presented in one random memory layout / type."""
    f = x * scale
    c = rng.randint(0, 5)
    if c == 1:
        b = np.zeros(2 * len(f))
        b[::2] = f
        return 'strided', b[::2]
    if c == 2 and column:
        return 'column', f.reshape(-1, 1)
    if c == 3 and scale == 1.0:
        return 'int', x.astype(int)
    if c == 4 and np.abs(x).max(initial=0) < 2**24:
        return 'float32', f.astype(np.float32)
    return 'float', f


def alternating(rng, n, a):
    """A sequence of strict turning points with many ties between extremes."""
    lo = rng.randint(-a, 1, size=n)
    hi = rng.randint(1, a + 1, size=n)
    up = rng.randint(2)
    return np.where(np.arange(n) % 2 == up, hi, lo)


def walk_alternating(rng, n, a):
    step = rng.randint(1, a + 1, size=n) * np.where(np.arange(n) % 2 == rng.randint(2), 1, -1)
    return np.cumsum(step)
